T = "mt_metadata/timeseries/"
PROPS = [
dict(id="C10", title="Surveys, stations, runs and channels form a consistent tree",
 statement="Through any history of adding (objects, dictionaries or component names), removing, merging, sorting, declaring names in run_list or channels_recorded (as list, tuple, array or text), and changing other attributes, the surveys, stations, runs and channels of an experiment are exactly those of nested mappings keyed by id, adding an id that exists merges it, and no channel or run moves to another parent. Names, indices, counts, run_list and the channels_recorded lists are derived from what is there, a channel has the type of its component (or of the type given), and every has/get/index answers accordingly, with None for what is missing. Objects of a wrong kind are refused without effect and renamed items are found under their new name once the keys are updated.",
 over=["histories"], quantifier="every history of edits to an experiment tree, at every level, with any mix of existing and new names",
 why="tests add or remove one item on a fresh object; lost runs, resurrected or misplaced channels need two or more runs and a sequence of edits",
 files=[T+"experiment.py", T+"survey.py", T+"station.py", T+"run.py"],
 mechanism=[("Experiment.add_survey/remove_survey/merge/sort", T+"experiment.py"), ("Survey.add_station/remove_station/merge", T+"survey.py"), ("Station.add_run/remove_run/merge, validate_runs_and_channels_recorded", T+"station.py"), ("Run.add_channel/remove_channel/merge/update, validate_channels_recorded", T+"run.py")],
 state=[("runs, run_list, channels_recorded", "the runs of a station and the summaries derived from them", T+"station.py"), ("channels, channels_recorded_*", "the channels of a run and the lists derived from them", T+"run.py")],
 technique="model-based property testing: generated edit histories against nested ordered mappings",
 note="Exploration by seeded random histories of up to 9 operations on trees of up to 2 surveys, 3 stations, 3 runs and 10 components; order of channels inside a run is compared only after sorting; edits that bypass the methods (shortening lists) are outside."),
dict(id="C11", title="Time periods and bounding boxes cover the children",
 statement="The time period of a run, station or survey is the smallest that covers its own and those of the channels, runs or stations added or merged into it; unknown (default) times take no part, it never shrinks, with update off nothing changes until it is asked for, and surveys keep whole dates. A survey's corners are the extreme latitudes and longitudes of the stations it holds at that moment. Sorting runs by time orders them by start, either way, and loses none; writing experiment XML first updates all levels.",
 over=["inputs", "histories"], quantifier="every set of child periods and positions, known or not, in every order of adding and removing",
 why="tests use one or two children with fixed times; wrong extremes appear for unknown times, southern or western positions, or particular orders",
 files=[T+"run.py", T+"station.py", T+"survey.py", T+"experiment.py"],
 mechanism=[("Run.update_time_period", T+"run.py"), ("Station.update_time_period, sort_runs_by_time", T+"station.py"), ("Survey.update_time_period, update_bounding_box, survey_extent", T+"survey.py"), ("Experiment.to_xml", T+"experiment.py")],
 technique="property-based testing: generated children against a min/max reference model",
 note="Exploration by seeded random generation; times on 1980-01-01 (the default) are left out."),
dict(id="C12", title="A whole experiment survives dictionary, JSON and XML",
 statement="An experiment with any surveys, stations, runs, channels, filters of all five kinds and attributes at all levels, written as dictionary, JSON text or file, XML element, text or file, with or without optional attributes, reads back with the same tree, the same attributes, the same filters including their arrays, and every channel in its own run with its applied filters in order (in XML a channel at latitude, longitude and elevation zero is given the place of its station). Writing as dictionary or JSON does not change the experiment.",
 over=["inputs"], quantifier="every experiment tree with any attributes and filters, every format, required on or off",
 why="tests round trip a few stored experiments; lost filters, zero values, comments or channels that move between runs depend on which attributes are set at which level",
 files=[T+"experiment.py", "mt_metadata/base/metadata.py", "mt_metadata/base/helpers.py"],
 mechanism=[("Experiment.to_dict/from_dict/to_json/from_json/to_xml/from_xml", T+"experiment.py"), ("Survey.validate_filters", T+"survey.py"), ("element_to_dict", "mt_metadata/base/helpers.py")],
 technique="property-based testing: generated experiments, round trip through every format",
 note="Exploration by seeded random generation; phases of response tables are within +-pi (larger ones are taken as degrees); positions of channels are not compared after XML, which fills unknown ones from the station."),
]
