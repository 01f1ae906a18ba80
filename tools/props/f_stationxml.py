S = "mt_metadata/timeseries/stationxml/"
PROPS = [
dict(id="C16", title="An experiment survives StationXML",
 statement="An experiment of electric and magnetic channels written as StationXML (in memory or as a file, which is valid StationXML) and read back has the same surveys, stations (ids in upper case), runs in order (added in any) and channels; survey descriptions, people, comments, DOIs and network code; station location, declination, orientation, software, comments and name; run data logger, people, comments, times and sample rate; and per channel of each run times, sample rate, azimuth, tilt, units, place, comments, dipole length and electrodes or sensor of any type, applied filters and complex response. In the inventory runs that follow each other with the same sensor, place, orientation, rate and filters share one epoch, which spans and names them, others get their own; restricted status follows the licence. A second trip changes nothing.",
 over=["inputs"], quantifier="every experiment of surveys, stations, runs and channels with any mixture of equal and different metadata between runs",
 why="tests translate a few fixed files and compare a handful of attributes; metadata of one run leaking into another or text with commas and colons needs generated experiments compared in full",
 files=[S+"xml_inventory_mt_experiment.py", S+"xml_network_mt_survey.py", S+"xml_station_mt_station.py", S+"xml_channel_mt_channel.py", S+"xml_equipment_mt_run.py", S+"utils.py"],
 mechanism=[("XMLInventoryMTExperiment.mt_to_xml, xml_to_mt, add_run, compare_xml_channel", S+"xml_inventory_mt_experiment.py"), ("XMLNetworkMTSurvey", S+"xml_network_mt_survey.py"), ("XMLStationMTStation", S+"xml_station_mt_station.py"), ("XMLChannelMTChannel", S+"xml_channel_mt_channel.py"), ("XMLEquipmentMTRun", S+"xml_equipment_mt_run.py"), ("read_xml_comment, make_mt_comments", S+"utils.py")],
 technique="property-based testing: round trips of generated experiments through StationXML, with schema validation and a reference grouping of epochs",
 note="Exploration by seeded random generation, up to 2 surveys, 3 stations, 3 runs of 5 channels. Run comments are without colons (the comment syntax is lossy by design and pinned by tests), channel times are those of their run, places differ by at least 0.01 degrees or not at all."),
dict(id="C17", title="FDSN channel codes say what the channel is",
 statement="The three letters of a channel code are a band whose range holds the sample rate (A if none), the SEED letter of the measurement in any case, or of a part of its name that only it has (Y if unknown) and an orientation: N, 1, 2, E for azimuths folded to 0-15, 15-45, 45-75, 75-90 degrees from north whatever the whole or half turns, Z or 3 for vertical ones, or N, E, Z for x, y, z. Reading a code gives the range that holds the rate, the measurement (tide as magnetic), angle and variance that hold the azimuth, and for electric and magnetic ones the component; texts that are not three characters, or with unknown measurement or orientation, raise ValueError. The location code is the field's letter and the last digit of the channel number.",
 over=["inputs"], quantifier="every sample rate, measurement, azimuth and text",
 why="tests look at a few rates and azimuths; band edges, negative angles and turns are where the codes go wrong",
 files=[S+"fdsn_tools.py"],
 mechanism=[("get_period_code", S+"fdsn_tools.py"), ("get_measurement_code", S+"fdsn_tools.py"), ("get_orientation_code", S+"fdsn_tools.py"), ("make_channel_code, read_channel_code, create_mt_component", S+"fdsn_tools.py")],
 technique="property-based testing: generated codes against tables of the SEED manual, and round trips",
 note="Exploration by seeded random generation; azimuths within 1e-6 degrees of an edge are left out."),
]
