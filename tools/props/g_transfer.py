T = "mt_metadata/transfer_functions/"
E = T + "io/edi/"
BOUND = "Exploration by seeded random generation"
PROPS = [
dict(id="C19", title="A transfer function gives back what was put into it",
 statement="Through any history of setting the impedance, tipper, whole transfer function, their errors and model errors, inverse signal power and residual covariance of a TF, as array, list, tuple or labelled array with channels in any order, under any channel nomenclature: each reads back, labelled with period, output and input channels, as last set, nothing else changes, what is all zero is absent (None, has_... false), and frequency is 1/period. Once both covariances are there, errors are sqrt(|residual covariance| |inverse signal power|) of output and input. Setting None changes nothing, zeros take a quantity away. The station given as one of time series has the same attributes and runs. Wrong shapes, types or channels are refused and change nothing. New periods of the same number keep the data; another number is refused. Copies are equal and independent; differing data or metadata make unequal, other types too.",
 over=["inputs", "histories"], quantifier="every history of setting quantities of a transfer function of any number of periods",
 why="tests set one quantity of a fixed TF; quantities share arrays, so interference, channel order and the order of setting need generated histories against a model",
 files=[T+"core.py"],
 mechanism=[("TF setters and getters, _set_data_array, _validate_input_ndarray, _validate_input_dataarray", T+"core.py"), ("TF._compute_error_from_covariance, _has_tf", T+"core.py"), ("TF.period, frequency, __eq__, copy", T+"core.py")],
 technique="property-based testing: model-based histories against a reference model of the arrays",
 note=BOUND+", up to 5 periods and 7 operations."),
dict(id="C20", title="Merging transfer functions keeps every period of every part",
 statement="Merging a TF with others (one or a list, as TFs or dictionaries with bounds), in place or not, gives exactly the periods of all parts within their bounds (inclusive), in increasing order, each with transfer function, errors, model errors, inverse signal power and residual covariance of its part, and the metadata of the first. The parts stay as they were, in their order (the first one too unless in place). Other types, and dictionaries without the keys tf, period_min and period_max, are refused and change nothing.",
 over=["inputs"], quantifier="every set of transfer functions of neighbouring period ranges, each in any order of periods, with any bounds",
 why="tests merge two fixed files; bounds on a period, one-period parts, parts in descending order and more than two parts need generation",
 files=[T+"core.py"],
 mechanism=[("TF.merge", T+"core.py")],
 technique="property-based testing: merges of generated transfer functions against a reference union",
 note=BOUND+", 2 to 4 parts of up to 4 periods whose ranges do not overlap (overlapping ranges are refused by xarray)."),
dict(id="C22", title="EDI files keep the transfer function",
 statement="An EDI object or TF written as an EDI file, with either longitude keyword and either form of latitude and longitude, reads back (EDI, TF.read, from_edi) with the same station, location, frequencies (from high to low), impedance, tipper, errors and rotation angles to the seven digits written, for any number of frequencies from one in either order, with impedance, tipper or both; missing values read as zero; what is absent stays absent; writing again changes nothing. Files of other writers, in any common layout (values per line, empty value, case of keywords, line ends, blocks left out, decimal or d:m:s places), read with the values written in them. Files of apparent resistivity and phase read as sqrt(5 f rho) exp(i phase) (yx phases given in the first quadrant turned by 180 degrees) with errors from the phase errors.",
 over=["inputs"], quantifier="every transfer function, location and layout of the file",
 why="tests read a few files and compare a few values; one frequency, ascending order, missing parts and other layouts need generated files",
 files=[E+"edi.py", E+"metadata/header.py", E+"metadata/define_measurement.py", T+"core.py"],
 mechanism=[("EDI.write, _write_data_block", E+"edi.py"), ("EDI._read_mt, _assert_descending_frequency", E+"edi.py"), ("Header.read_header, write_header", E+"metadata/header.py"), ("TF.to_edi, from_edi", T+"core.py")],
 technique="property-based testing: round trips through files, and files of an independent writer in generated layouts",
 note=BOUND+", up to 14 frequencies. Values from 1e-9 to 1e5."),
dict(id="C23", title="Transfer functions from EDI spectra are the remote reference estimates",
 statement="From an EDI spectra file of 4 to 7 channels (with or without vertical channel, with or without remote reference), with frequencies in any order, the impedance, tipper and their errors, the inverse signal power and residual covariance at each frequency (from high to low) are those of the least squares estimate with the remote (or local) magnetic channels as reference, computed from the coefficients that the cross powers came from: Z = <E R*><H R*>^-1, the residual covariance the power of E - ZH over the averaging time, the inverse signal power <R H*>^-1 <R R*> <H R*>^-1, errors the root of the product of their diagonals. A TF read from the file has the same (covariances when there is a vertical channel).",
 over=["inputs"], quantifier="every set of channels, coefficients, frequencies and layout",
 why="tests compare fixed files of 5 and 7 channels with stored numbers; the other channel sets were wrong unnoticed",
 files=[E+"edi.py", T+"io/tools.py"],
 mechanism=[("EDI._read_spectra", E+"edi.py"), ("index_locator, _validate_str_with_equals", T+"io/tools.py"), ("DataSection.read_data", E+"metadata/data_section.py"), ("TF.from_edi", T+"core.py")],
 technique="property-based testing: spectra files computed from generated Fourier coefficients against an independent estimate from the coefficients",
 note=BOUND+", up to 5 frequencies, 12 to 40 coefficients each, tolerance 1e-4 of the largest element (1e-3 for errors)."),
dict(id="C24", title="EDI files keep the metadata of a transfer function",
 statement="A TF written as an EDI file and read back, and written and read once more, has the same: survey id, project, country and summary; station id, latitude, longitude, elevation, declination with its model, reference frame, start and end, geographic name, author and submitter; processing author, software, sign convention, remote references, runs processed and processing parameters (with a value, that may hold an equal sign, or without); and for every channel its number, azimuth and electrodes or location (to the centimetre), for electric channels the dipole length, contact resistance and comments, for magnetic ones the sensor id. This holds in either form of latitude and longitude and with either longitude keyword, for texts of words that do not hold quotes, brackets, angle brackets or an equal sign.",
 over=["inputs"], quantifier="every set of metadata values and channels",
 why="tests compare the metadata of a few files; what is written in one place and looked for in another shows up only when each entry is set to a value of its own and followed through the file",
 files=[E+"edi.py", E+"metadata/header.py", E+"metadata/information.py", E+"metadata/define_measurement.py", E+"metadata/emeasurement.py", E+"metadata/hmeasurement.py", T+"core.py"],
 mechanism=[("EDI.station_metadata, survey_metadata (getter and setter)", E+"edi.py"), ("EDI.ex_metadata, hx_metadata, _get_electric_metadata, _get_magnetic_metadata", E+"edi.py"), ("Information.read_info, write_info, get_phx_list", E+"metadata/information.py"), ("DefineMeasurement.read_measurement, write_measurement, from_metadata", E+"metadata/define_measurement.py"), ("TF.to_edi, from_edi", T+"core.py")],
 technique="property-based testing: round trips of generated metadata through files, twice",
 note=BOUND+", up to 5 channels and 3 processing parameters; ids without the names of processing programs (mtft, emtf, mtedit)."),
dict(id="C25", title="EMTF z-files keep the transfer function and are rotated to geographic axes",
 statement="A TF with inverse signal power and residual covariance, with impedance, tipper or both, whose channels are along north and east (or have no azimuths), written as a zmm, zrr or zss file reads back with the same station, place (to three decimals), processing type, periods (to five decimals of the exponent), and, to the digits written, impedance, tipper, their errors, inverse signal power and residual covariance; writing what was read again gives the same. A z-file of channels at any azimuths that are not parallel, in any order of periods, reads as the transfer function along north and east, its covariances rotated with it and its errors the root of the product of their diagonals, as declination is used or not, or as measured when rotate_to_measurement_coordinates is False, and impedance, tipper and their errors calculated from it along any azimuth are those of fields along that azimuth; with the periods, decimation, station, place and declination of its header; and a TF read from it and written again keeps all of it.",
 over=["inputs"], quantifier="every transfer function, azimuths of channels, and layout of the header",
 why="tests read two files with orthogonal axes; errors and covariances after rotation, axes that are not orthogonal and files with only impedance or tipper need generation",
 files=[T+"io/zfiles/zmm.py", T+"core.py"],
 mechanism=[("ZMM.read, write, _rotate_to_axes, _calculate_impedance, _calculate_tipper", T+"io/zfiles/zmm.py"), ("TF.to_zmm, from_zmm", T+"core.py")],
 technique="property-based testing: round trips through files, and files of an independent writer against transfer functions rotated by the test",
 note=BOUND+", up to 6 periods."),
dict(id="C26", title="EMTF XML files keep the transfer function",
 statement="A TF written as EMTF XML reads back with the same station, survey, place, periods in the same order, impedance, tipper, their errors, inverse signal power and residual covariance (of impedance and of tipper), for one or more periods, with impedance, tipper or both, with covariances, errors only or neither; what is absent stays absent (or zero); the file states the tags, data types, statistical estimates and period range that are in it; and so do files written from what was read, as TF or as EMTFXML. EMTF XML files of other writers, with elements that are missing or empty, any case of channel names, matrices in any order of elements, derived quantities, comments and entities, read with the values written in them (elements of matrices that are not written are zero).",
 over=["inputs"], quantifier="every transfer function and layout of the file",
 why="tests read four files; one period, tipper only, empty and missing elements failed unnoticed",
 files=[T+"io/emtfxml/emtfxml.py", T+"io/emtfxml/metadata/data.py", T+"io/emtfxml/metadata/helpers.py", T+"core.py"],
 mechanism=[("EMTFXML.read, write, _get_statistical_estimates, _update_site_layout", T+"io/emtfxml/emtfxml.py"), ("TransferFunction.read_data, to_xml", T+"io/emtfxml/metadata/data.py"), ("_remove_empty_elements, _write_single", T+"io/emtfxml/metadata/helpers.py"), ("TF.to_emtfxml, from_emtfxml", T+"core.py")],
 technique="property-based testing: round trips through files, and files of an independent writer in generated layouts",
 note=BOUND+", up to 6 periods; ids of letters and digits (the format allows no others). Sums of the covariances of E and Hz are not in the format."),
]
