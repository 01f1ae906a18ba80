T = "mt_metadata/timeseries/filters/"
CH = "mt_metadata/timeseries/channel.py"
PROPS = [
dict(id="C13", title="A filter's complex response is the one its parameters define",
 statement="At every frequency, of either sign for poles and zeros, a pole-zero filter responds with gain times normalization factor times prod(s-z)/prod(s-p) at s = 2 pi i f, a coefficient with its gain, a time delay with exp(-2 pi i f delay), a response table with the gain times its own rows and linear interpolation of amplitude and phase between them in any row order (phases in degrees or milliradians are recognised when they exceed what radians can be), and a FIR filter with the transform of its unfolded taps at the input rate scaled to the gain at the gain frequency. Zeros and poles given as arrays, lists or text mean the same. The pass band consists of two of the frequencies asked for, spans all of them for a flat filter, and the normalization frequency is its mean, median, least or greatest.",
 over=["inputs"], quantifier="every parameter set and every set of frequencies, including negative and repeated roots, unsorted tables, even and plain taps",
 why="tests evaluate a few fixed filters at a few frequencies, often only the shape of the result; factors of 2 pi, signs, scaling and ordering errors need independent formulas on varied parameters",
 files=[T+"pole_zero_filter.py", T+"coefficient_filter.py", T+"time_delay_filter.py", T+"fir_filter.py", T+"frequency_response_table_filter.py", T+"filter_base.py", "mt_metadata/base/helpers.py"],
 mechanism=[("complex_response of each filter", T+"pole_zero_filter.py"), ("FIRFilter.symmetry_corrected_coefficients, coefficient_gain", T+"fir_filter.py"), ("FrequencyResponseTableFilter.validate_phases, complex_response", T+"frequency_response_table_filter.py"), ("FilterBase.pass_band", T+"filter_base.py"), ("object_to_array", "mt_metadata/base/helpers.py")],
 technique="property-based testing: generated filters against closed formulas",
 note="Exploration by seeded random generation, up to 6 roots, taps or rows; FIR symmetry ODD is a listed finding."),
dict(id="C14", title="The response of a channel is the product of its filters",
 statement="The complex response of a channel response is the product of those of its filters, with delays and decimating filters only when asked for, or exactly of the list given, independent of order and repeatable, with greatest modulus one when normalised, and one without filters. Filters whose units do not follow on each other are refused and leave the list as it was; input and output units, names, delay filters, total delay, total gain (product of gains), sensitivity (modulus of the full product at the normalization frequency), pass band (common part) and normalization frequency (given, else its geometric mean) derive from the list. A channel's response takes its filters in order, in any case of their names, from a dictionary or a survey, however it was given them, and leaves out those missing there.",
 over=["inputs"], quantifier="every list of filters of all kinds, every set of frequencies and every combination of options",
 why="tests check one list of filters with default options; a filter left out or counted twice shows only in particular mixtures of kinds and options",
 files=[T+"channel_response.py", CH],
 mechanism=[("ChannelResponse.complex_response, get_list_of_filters_to_remove", T+"channel_response.py"), ("_check_consistency_of_units", T+"channel_response.py"), ("compute_instrument_sensitivity, compute_total_gain", T+"channel_response.py"), ("ChannelBase.channel_response", CH)],
 technique="property-based testing: generated filter lists against a product of closed formulas",
 note="Exploration by seeded random lists of up to 5 filters; the sensitivity is compared to seven digits."),
dict(id="C15", title="Filters survive as StationXML response stages",
 statement="A filter written as an obspy response stage, and through valid StationXML, reads back as a filter of the same kind with the same name, units, comments, parameters, stage number and complex response (a pole-zero filter without poles and zeros may read as the equivalent coefficient). The stages of a whole channel keep order, numbering, units and response, with the total gain as sensitivity, and an independent evaluation (evalresp) of them has the same shape. Stages of others in Hertz or radians per second get the response StationXML defines; a coefficient stage is a delay only with gain one, factor one, and a delay left uncorrected.",
 over=["inputs"], quantifier="every filter of each kind and chain of filters, with every unit and gain",
 why="tests read fixed StationXML examples; fields swapped or lost on writing, or an invalid file, need generated stages compared after a full round trip",
 files=[T+"obspy_stages.py", T+"filter_base.py", T+"pole_zero_filter.py", T+"coefficient_filter.py", T+"fir_filter.py", T+"time_delay_filter.py", T+"frequency_response_table_filter.py", T+"channel_response.py"],
 mechanism=[("to_obspy of each filter", T+"pole_zero_filter.py"), ("FilterBase.from_obspy_stage", T+"filter_base.py"), ("create_filter_from_stage", T+"obspy_stages.py"), ("ChannelResponse.to_obspy", T+"channel_response.py")],
 technique="property-based testing: round trips through obspy and StationXML text, and differential testing against evalresp",
 note="Exploration by seeded random generation; time delays with gain one (the stage format cannot tell others from coefficients), FIR gain frequency zero."),
dict(id="C18", title="The list of applied filters is ordered, without duplicates, in every format",
 statement="Through any history of adding by name or as object, removing (with or without renumbering), looking up, assigning a list of objects, dictionaries or JSON text, copying and reading dictionaries, the applied filters of a channel are those of a reference list: names in lower case with '/' as ' per ', a name that is there already is not added again, order by stage (stable, none first), a stage not given is the next number, and flags and comments stay with their filter. A filter that is missing gives None, unusable names or objects are refused without effect. The older keys filter.* and filtered.*, in every form (lists, tuples, arrays, text), give the same list, together with the present one in order, and lists of different length raise an error.",
 over=["inputs", "histories"], quantifier="every history of edits of the filter list and every spelling of the older formats",
 why="tests add one or two filters in stage order; misplaced flags or lost filters need mixed case names, several formats or a sequence of edits",
 files=[CH, "mt_metadata/timeseries/filtered.py"],
 mechanism=[("ChannelBase.add_filter, remove_filter, get_filter, _sort_filters", CH), ("ChannelBase.from_dict, _validate_filtered_applied, _validate_filtered_name", CH), ("parse_filters_string, validate_filters", CH), ("AppliedFilter.validate_name", "mt_metadata/timeseries/filtered.py")],
 state=[("filters", "list of AppliedFilter objects of a channel", CH)],
 technique="model-based property testing: generated edit histories against an ordered reference list",
 note="Exploration by seeded random histories of up to 9 operations."),
]
