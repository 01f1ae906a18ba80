T = "mt_metadata/transfer_functions/"
F = "mt_metadata/features/"
FC = "mt_metadata/processing/fourier_coefficients/"
BOUND = "Exploration by seeded random generation"
PROPS = [
dict(id="C28", title="J-files give the transfer function and the place written in them",
 statement="A J-file of BIRRP read as JFile or TF gives, for every period that is in any component, the impedance, tipper (when there is one) and errors written for it, in any notation of numbers, with or without apparent resistivities in between; a component or period that is left out, or masked (-999, not a number), is zero. Station, place (latitude, longitude, elevation, azimuth, when given), title, processing parameters, data blocks (file, numbers of points) and rotation angles are those of the header, and are in the station, survey and run metadata of the TF. Files with another suffix, and files that are not there, are refused.",
 over=["inputs"], quantifier="every set of components, periods, missing values and header of a J-file",
 why="tests read two fixed files; places, missing or masked values and components with other periods need files of an independent writer",
 files=[T+"io/jfiles/jfile.py", T+"io/jfiles/metadata/header.py", T+"core.py"],
 mechanism=[("JFile.read, _validate_j_file", T+"io/jfiles/jfile.py"), ("Header.read_header, read_metadata", T+"io/jfiles/metadata/header.py"), ("TF.from_jfile", T+"core.py")],
 technique="property-based testing: files of an independent writer against the values written",
 note=BOUND+", up to 6 periods and 3 blocks. The order of periods is not part of it (they are sorted as text)."),
dict(id="C35", title="Fourier coefficient containers keep their channels, levels and spans",
 statement="Through any history of declaring, adding, removing and setting channels of a decimation level of Fourier coefficients, and levels of the coefficients of a station, each holds exactly what is there, once each; one that is there is updated by one of the same component or number; each is found by its component or number, is said to be there exactly when it is, the lists of estimated channels and levels follow, and the time period covers all that was added. Joining two gives the channels of both.",
 over=["inputs", "histories"], quantifier="every history of up to six operations on channels and levels",
 why="tests add one or two items; doubles, updates and spans without a start or end show up in histories against a model",
 files=[FC+"fc.py", FC+"decimation.py", FC+"fc_channel.py", "mt_metadata/base/helpers.py"],
 mechanism=[("FC.add_decimation_level, remove_decimation_level, get_decimation_level, update_time_period", FC+"fc.py"), ("Decimation.add_channel, remove_channel, get_channel, update_time_period, __add__", FC+"decimation.py")],
 technique="property-based testing: model-based histories against a reference model of channels and levels",
 note=BOUND+", histories of up to 8 operations."),
dict(id="C37", title="Coherence features are the coherence of the series",
 statement="The coherence of two series is |<X Y*>|^2 / (<|X|^2> <|Y|^2>) over the segments of the window (detrended and tapered), at the harmonics of the window, whatever the window, its arguments and its overlap, given at once or set later; every feature has a window of its own and the series stay as they were. Coherence by windows has one row for each main window that fits, in order, the coherence of that part of the series with the inner window (its own, or a fraction of the main one with half overlap), gaps count as zero, and computed in parallel it is the same. The coherence of Fourier coefficients is zero where a channel has no power, within 0 and 1, one for multiples of each other. A channel whose station takes no part (or is not known) is taken from the local station, remote channels (r...) from the remote one; others keep their station.",
 over=["inputs"], quantifier="every pair of series, window, overlap and set of stations",
 why="tests check one window on noise for shape and range; windows with arguments, inner windows, gaps and channels without power need generation against a formula",
 files=[F+"coherence.py", F+"striding_window_coherence.py", F+"fc_coherence.py"],
 mechanism=[("Coherence.compute, validate_station_ids", F+"coherence.py"), ("StridingWindowCoherence.compute, set_subwindow_from_window", F+"striding_window_coherence.py"), ("FCCoherence.compute", F+"fc_coherence.py")],
 technique="property-based testing: generated series and windows against the formula computed independently",
 note=BOUND+", series of up to some hundred samples, up to 6 harmonics compared outside of rounding."),
dict(id="C27", title="EMTF XML files keep the metadata",
 statement="What an EMTF XML file says of the site, its location, quality notes and warnings, runs with instrument, magnetometers, dipoles and electrodes, processing with the remote site and its runs, provenance, copyright, attachments and site layout is in the EMTFXML read from it, and, whether elements are left out or empty, in the file written from that one (creation time and application are those of the new file); a file written without field notes has all else and the object keeps them. A TF read from the file has them in its survey, station, run and channel metadata, also after it is written and read again: names, place, times, people, citation, processing, remote references, rating, loggers, sensors, dipole lengths, electrodes, positions (of electrodes that are not both at the origin) and azimuths of channels of the site layout in each run; what is told of the remote site and of the instrument, dipoles and magnetometers of its runs is listed in the processing parameters of the TF read from the file. Texts have no semicolon; comments and errors of runs are claimed for EMTFXML only, remote references of the tag when there are runs. No comment of a station keeps a TF from EMTF XML: those that name an attribute are there and in the file, the others are comments of the site.",
 over=["inputs"], quantifier="every set of metadata in an EMTF XML file",
 why="tests read a few fixed files; runs without some channels, several magnetometers, remote sites and missing elements in all combinations need files of an independent writer",
 files=[T+"io/emtfxml/emtfxml.py", T+"io/emtfxml/metadata/site.py", T+"io/emtfxml/metadata/run.py", T+"io/emtfxml/metadata/dipole.py", T+"io/emtfxml/metadata/electrode.py", T+"io/emtfxml/metadata/site_layout.py", T+"io/emtfxml/metadata/processing_info.py", T+"io/emtfxml/metadata/helpers.py"],
 mechanism=[("EMTFXML.read, write, station_metadata, survey_metadata", T+"io/emtfxml/emtfxml.py"), ("Run.read_dict, to_xml", T+"io/emtfxml/metadata/run.py"), ("SiteLayout.read_dict, to_xml", T+"io/emtfxml/metadata/site_layout.py"), ("to_xml", T+"io/emtfxml/metadata/helpers.py")],
 technique="property-based testing: files of an independent writer against the values written, round trip",
 note=BOUND+", up to 3 runs, one remote run. Organizations named Org are a known finding."),
dict(id="C29", title="AVG files give the transfer function and the header written in them",
 statement="An AVG file of MTEdit read as ZongeMTAvg or TF gives, for every component and frequency in it, the impedance of apparent resistivity and phase (mrad), the tipper of magnitude and phase, and their errors, in the orientation of z (up or down) of the header; what is missing is zero. Station, place, data type, version, processing parameters, start time, instrument, and number, sensor, dipole length and azimuth of the horizontal channels are those of the header, those of a component rather than of all. A file written again holds the same to the digits written; one written from a transfer function reads back with station, place and dipole length. Files that are not there and other directions of z are refused.",
 over=["inputs"], quantifier="every set of components, frequencies and header of an AVG file",
 why="tests read three fixed files; components in any order, missing frequencies, both directions of z and headers per component need files of an independent writer",
 files=[T+"io/zonge/zonge.py", T+"io/zonge/metadata/header.py", T+"core.py"],
 mechanism=[("ZongeMTAvg.read, write, _fill_z, _fill_t", T+"io/zonge/zonge.py"), ("Header.read_header, write_header", T+"io/zonge/metadata/header.py"), ("TF.from_avg, to_avg", T+"core.py")],
 technique="property-based testing: files of an independent writer against the values written, round trip",
 note=BOUND+", up to 6 frequencies. Errors are not part of what is written; azimuths of the vertical channel are not claimed."),
dict(id="C38", title="What is said about the attributes of a class is what is declared",
 statement="The attributes listed for any metadata class, with classes within classes, optional ones, enumerations and lists, are exactly those declared that are not deprecated, with their description, units, choices, limits, examples, default and whether they are required, and all of them are in its dictionary; a class that is given a new field has that too, its base has not. What is stored on disk never shows in another class: after a class, or one within it, changes, or a stored file is damaged, or nothing can be stored, the attributes are those of the class as it is. The summary of a class, and of the standards of a module, also as a table or a file, has one entry for each field.",
 over=["inputs", "histories"], quantifier="every class up to two levels of classes within classes, and every change of it",
 why="tests look at the classes that exist, without the store on disk; made-up classes and changes between two uses of the store cannot be settled by them",
 files=["mt_metadata/base/pydantic_helpers.py", "mt_metadata/base/metadata.py", "mt_metadata/utils/summarize.py"],
 mechanism=[("_model_fingerprint, _load_fields_from_disk", "mt_metadata/base/pydantic_helpers.py"), ("MetadataBase.get_attribute_list, get_all_fields, attribute_information, add_new_field", "mt_metadata/base/metadata.py"), ("summarize_standards, extract_metadata_fields_from_pydantic", "mt_metadata/utils/summarize.py")],
 technique="property-based testing: generated classes and changes of them against their declarations",
 note=BOUND+", classes of up to 4 fields and 2 levels."),
dict(id="C39", title="MT XML files of single levels are collected into an experiment",
 statement="A folder, with any folders in it, of MT XML files of the survey, the filters, stations, runs (station.run.xml) and channels (station.run.type.component.xml) gives an experiment with exactly its stations, or those asked for by name or in a list in that order; in each its runs, in order of id, with exactly their channels (hx, hy, hz, ex, ey); every level has the attributes of its file, a channel without a place that of its station, and times and corners of the survey cover all. Filters are found by name with their parameters; the first filter of an electric channel named dipole becomes electric_dipole_<length> with the length as gain. The file of one channel and that of the filters give that channel with its response. Kinds of files are told apart by their names; no folder, and stations given as another type, are refused.",
 over=["inputs"], quantifier="every tree of stations, runs, channels and filters, in any arrangement of folders",
 why="no test collects files into an experiment; ids that are part of others, folders within folders and missing files need generated trees",
 files=["mt_metadata/timeseries/tools/from_many_mt_files.py"],
 mechanism=[("MT2StationXML.make_experiment, get_mt_channel, sort_by_station", "mt_metadata/timeseries/tools/from_many_mt_files.py")],
 technique="property-based testing: generated trees of files against the objects they were made of",
 note=BOUND+", up to 3 stations of 3 runs."),
dict(id="C40", title="StationXML of others is read without losing channels or responses",
 statement="From an inventory (in memory or a StationXML file) of any networks, stations and channels, also several elements of one code, with epochs of any times and rates, with or without sensors, run ids, and responses whose stages may have no name or that of another filter: every epoch of every electric and magnetic channel is in a run of its station with that sample rate, times, orientation and place, in the runs named for it if there are any; its filters are one for each stage, in order, each with the response of its stage. A run has each component once and one rate, nothing else is added, and the times of station and survey cover all. Comments, operators with their contacts, sites and sensors are those of the inventory; equipment that is no run adds none. Written as StationXML again it gives the same runs, channels, comments and responses.",
 over=["inputs"], quantifier="every inventory of electric and magnetic channels with any epochs and stages",
 why="tests read a few files of known makers; epochs of several rates, stages that share names and stations in parts were lost without an error",
 files=["mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py", "mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py"],
 mechanism=[("XMLInventoryMTExperiment.xml_to_mt, _add_new_run, _add_run_id", "mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py"), ("XMLChannelMTChannel.xml_to_mt, _get_filter_name, _xml_response_to_mt", "mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py")],
 technique="property-based testing: generated inventories made with obspy against their epochs and stages",
 note=BOUND+", up to 2 networks, 2 stations and 3 components with a few epochs."),
dict(id="C41", title="Survey, station and run given to a transfer function are what it holds",
 statement="Through any history of giving a TF a survey, a station or a run, as an object or a dictionary (with or without its class), the one given last is the one it holds, with its attributes, runs and channels; the survey and runs held before stay, a station replaces the one before, what stands for nothing (id 0) goes when there is something. Other types are refused with TypeError and change nothing. Station, survey, place and id given as attributes, at once or one by one, are those of the metadata. A TF is written to the file asked for, by path, by name with or without extension in a folder, or by the name of the station in the folder of what was read, and nowhere else; formats that are not known are refused with TFError.",
 over=["inputs", "histories"], quantifier="every history of metadata given to a TF, every way to name a file",
 why="tests set single attributes; the order in which levels are given and the form of each decide what is kept, and setting a run failed always",
 files=[T+"core.py"],
 mechanism=[("TF.survey_metadata, station_metadata, run_metadata setters", T+"core.py"), ("TF._validate_survey_metadata, _validate_station_metadata, _validate_run_metadata", T+"core.py"), ("TF.write, read", T+"core.py")],
 technique="model-based property testing: histories of metadata given, against a model of what is held",
 note=BOUND+", up to 4 steps; what a survey adds to stations already held is compared by ids only."),
dict(id="C42", title="Conversion from format to format keeps the transfer function",
 statement="A transfer function written and read through any chain of EDI, EMTF XML, Z (zmm, zrr, zss) and AVG files, or taken from an EDI or EMTFXML object made of it, has the impedance, tipper, periods, station and place it had at the start, to the digits of the formats passed, and only those quantities it had; errors as long as no format was passed that has none (Z files hold them as covariances), covariances through XML and Z files, elevation and survey through EDI and XML, declination through all but AVG. The type of a file is found by its extension in any case, or is given. Channels are along x and y, elements are not zero.",
 over=["inputs", "histories"], quantifier="every transfer function and every chain of formats",
 why="tests read one file into one format; what one reader leaves out, another writer needs, and some pairs of formats failed always",
 files=[T+"core.py", T+"io/edi/edi.py", T+"io/emtfxml/emtfxml.py", T+"io/zfiles/zmm.py", T+"io/zonge/zonge.py"],
 mechanism=[("TF.to_edi, from_edi, to_emtfxml, from_emtfxml, to_zmm, from_zmm, to_avg, from_avg", T+"core.py")],
 technique="property-based testing: chains of conversions, metamorphic (the same transfer function at the end)",
 note=BOUND+", up to 4 periods and 4 steps. Stations of lower case letters and digits (AVG files lower them, XML has no others)."),
dict(id="C43", title="INFO of EDI files of other programs becomes metadata",
 statement="The INFO section of an EDI file gives the attributes its items stand for. Of programs that write KEY=VALUE (Metronix, Quantec, EMTF): in any order, case and spacing, operator, instrument, sensors, dipole lengths, resistances, azimuth, software, person and id of the processing, sign convention, runs, remotes, site, survey, project and year; parameters of the processing are listed, lines that are not known are kept in the comments. Of Phoenix, in one or two columns: survey, company, job, hardware, versions, serial numbers, station, start and end, sensors, resistances and voltages without units. Of EMpower, by section and channel under any name of the channel: length, AC, DC, resistances, sensors, what is said of electric channels, instrument, site, operator, declination, remote site; numbers lose their units, texts keep their words. Nothing that is not told changes.",
 over=["inputs"], quantifier="every choice, order and layout of the known items with any values",
 why="tests read one file of each program; values of another length, texts that hold the letters of units and other orders and columns are not in them",
 files=[T+"io/edi/metadata/information.py", T+"io/edi/edi.py"],
 mechanism=[("Information.read_info, _parse_standard_info, _parse_phoenix_info, _parse_empower_info", T+"io/edi/metadata/information.py"), ("EDI.station_metadata, survey_metadata, _get_electric_metadata, _get_magnetic_metadata", T+"io/edi/edi.py")],
 technique="property-based testing: generated INFO sections against a table of what each item stands for",
 note=BOUND+", up to 12 items; sensors of the remote reference and what is said of magnetic channels are known findings."),
dict(id="C44", title="A container given all its items at once holds them",
 statement="An experiment given its surveys, a survey its stations, a station its runs, a run its channels, Fourier coefficients their levels, a level its channels, a processing its decimations, and aurora stations their remotes and runs, all at once, as objects or dictionaries (flat, nested, under the name of the class, read from JSON), mixed, in a list or, for those with names, a tuple or a mapping, through an assignment, the constructor, by name of the attribute or from a dictionary, holds each of them once, in order, of the same class, with all attributes and, of objects, their items, found by name. Names of the runs of a station, the channels of a run, and channels and levels of Fourier coefficients may be given as text, a list, a tuple or an array, with blanks around them. Remotes are marked as such. The list given is not kept. What is no container, or has one item that is none of these, is refused with TypeError or ValueError, and the items held before stay as they were.",
 over=["inputs"], quantifier="every list of items in any form, and everything that is no such list",
 why="each container has its own validator with branches for each form; tests give one or two of them",
 files=["mt_metadata/timeseries/experiment.py", "mt_metadata/timeseries/survey.py", "mt_metadata/timeseries/station.py", "mt_metadata/timeseries/run.py", "mt_metadata/processing/fourier_coefficients/fc.py", "mt_metadata/processing/fourier_coefficients/decimation.py", "mt_metadata/processing/aurora/stations.py", "mt_metadata/processing/aurora/station.py", "mt_metadata/processing/aurora/processing.py"],
 mechanism=[("Experiment.validate_surveys", "mt_metadata/timeseries/experiment.py"), ("Survey.validate_stations", "mt_metadata/timeseries/survey.py"), ("Station.validate_runs", "mt_metadata/timeseries/station.py"), ("Run.validate_channels, _get_correct_channel_type", "mt_metadata/timeseries/run.py"), ("FC.validate_levels", "mt_metadata/processing/fourier_coefficients/fc.py"), ("Stations.validate_remote", "mt_metadata/processing/aurora/stations.py"), ("Processing.validate_decimations", "mt_metadata/processing/aurora/processing.py")],
 technique="property-based testing: generated items in generated forms against the objects given",
 note=BOUND+", up to 3 items with 2 items each."),
dict(id="C45", title="What is printed of an object is what it holds",
 statement="Printing a transfer function, or the EDI, EMTF XML, Z or J-file object made of it or read, says its station, survey, place, whether it has impedance and tipper (True only where there is one), the number of periods and the least and greatest period and frequency; an experiment prints its surveys, filters, stations, runs with their channels and times, in order. Any metadata object, also one with nothing in it, can be printed, its repr is its JSON, and printing changes nothing. Empty file objects, experiments, responses and lists can be printed too.",
 over=["inputs"], quantifier="every transfer function, file object, experiment and metadata object, full or empty",
 why="tests print a few filled objects; objects without periods, tipper or frequencies failed only when printed",
 files=[T+"core.py", T+"io/edi/edi.py", T+"io/emtfxml/emtfxml.py", T+"io/zfiles/zmm.py", T+"io/jfiles/jfile.py", "mt_metadata/timeseries/experiment.py", "mt_metadata/base/metadata.py", "mt_metadata/common/band.py"],
 mechanism=[("TF.__str__, __repr__", T+"core.py"), ("EDI.__str__", T+"io/edi/edi.py"), ("EMTFXML.__str__", T+"io/emtfxml/emtfxml.py"), ("JFile.__str__, station_metadata", T+"io/jfiles/jfile.py"), ("Experiment.__str__", "mt_metadata/timeseries/experiment.py"), ("MetadataBase.__str__, __repr__", "mt_metadata/base/metadata.py")],
 technique="property-based testing: what is printed, parsed, against the object",
 note=BOUND+". Bands have least not above greatest frequency, decimation factors are not zero; sections of EDI files are written when printed, which sets what is written."),
dict(id="C46", title="Head and measurements of EDI files become metadata",
 statement="The items of the head of an EDI file, in any order, case, spacing, quotes and kind of line ends, known names of latitude, longitude and elevation, degrees as decimals or with minutes, are the station, place, survey, people, programs, times, declination and units of the file and of its station and survey; a place the head has not is that of the reference. Measurements, with attributes in any order, on several lines, with blanks, several words or without values, give each channel its place, depth, azimuth (of the electrodes, or as given without them), tilt, length, id and number; a second channel of a name is the remote one; the data section knows the ids. Dictionaries of the measurements do not change them. Written by the library it reads the same; channels of a transfer function written to EDI keep these too.",
 over=["inputs"], quantifier="every choice, order and layout of items of the head and measurements",
 why="tests read the files of a few programs; items with blanks, without values or ids, and channels off the axes or below the ground are not in them",
 files=[T+"io/edi/edi.py", T+"io/edi/metadata/header.py", T+"io/edi/metadata/define_measurement.py", T+"io/edi/metadata/data_section.py", T+"io/edi/metadata/emeasurement.py", T+"io/edi/metadata/hmeasurement.py", T+"io/tools.py"],
 mechanism=[("Header.get_header_list, read_header, write_header", T+"io/edi/metadata/header.py"), ("DefineMeasurement.read_measurement, write_measurement, from_metadata", T+"io/edi/metadata/define_measurement.py"), ("DataSection.read_data, match_channels", T+"io/edi/metadata/data_section.py"), ("_validate_str_with_equals", T+"io/tools.py"), ("EDI.station_metadata, survey_metadata, _get_electric_metadata, _get_magnetic_metadata", T+"io/edi/edi.py"), ("MetadataBase.to_dict", "mt_metadata/base/metadata.py")],
 technique="property-based testing: files of an independent writer against the values written, round trip",
 note=BOUND+", up to 7 channels. Values have no = and brackets; remote channels of a run are known by name only (tests fix that)."),
]
