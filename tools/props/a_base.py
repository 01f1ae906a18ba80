B = "mt_metadata/base/metadata.py"
PROPS = [
dict(id="C01", title="Metadata objects survive dictionary, JSON and pandas Series forms",
 statement="Every metadata object rebuilt from its own dictionary (flat or nested), its JSON text, a JSON file given as path or text, or its pandas Series has every attribute that had been set equal to the original. The forms agree with each other: each attribute appears under its dotted name with the attribute's value, required-only and skip-none forms are subsets, and the JSON text is valid JSON. Producing a form never changes the object. What is no such form (a missing file, text that is no JSON, other types) is refused and changes nothing.",
 over=["inputs"], quantifier="every metadata class of the package with public fields, any subset of its attributes set to any valid values (text with arbitrary characters, numbers, times, lists, arrays, complex numbers, nested objects), each serialised form and flag",
 why="the tests round-trip one example dictionary for a few classes, with ordinary values; the guarantee ranges over every class, attribute and value",
 files=[B, "mt_metadata/base/helpers.py", "mt_metadata/common/", "mt_metadata/timeseries/", "mt_metadata/transfer_functions/"],
 mechanism=[("MetadataBase.to_dict / from_dict / to_json / from_json / to_series / from_series", B), ("flatten_dict, structure_dict, NumpyEncoder, recursive split", "mt_metadata/base/helpers.py")],
 technique="property-based testing: generated objects of every metadata class, round-trip and form-agreement oracle",
 note="Exploration by seeded random generation (Hypothesis) over all public metadata classes; assumes the value generators cover the value space of each field type."),
dict(id="C02", title="Metadata objects survive their XML form",
 statement="Every common, time series and transfer function metadata object rebuilt from its own XML, given as an element or parsed from the XML text, has every attribute that had been set equal to the original. Each attribute that is set is found in the XML below the element path of its dotted name with its value as text, and text with markup characters survives. Writing XML never changes the object.",
 over=["inputs"], quantifier="every common, time series and transfer function metadata class, any subset of attributes set to any valid values an XML document can carry",
 why="the tests compare the XML of a handful of fixed objects; lists, units, special characters, empty elements and class-specific readers are unexercised",
 files=[B, "mt_metadata/base/helpers.py", "mt_metadata/timeseries/", "mt_metadata/transfer_functions/tf/"],
 mechanism=[("MetadataBase.to_xml / from_xml", B), ("dict_to_xml, element_to_dict, element_to_string", "mt_metadata/base/helpers.py")],
 technique="property-based testing: generated objects, XML round-trip and structure oracle",
 note="Exploration by seeded random generation over all common/timeseries/tf classes; EMTFXML classes have their own format and are covered by C26 and C27."),
dict(id="C03", title="Equality, copy and update of metadata objects",
 statement="A metadata object equals another of its class, its copy, and its own dictionary, JSON, series and XML exactly when every attribute is the same, in both directions, and never equals None. A copy is equal to and independent of the original, and loading any form makes an object equal to it. update() takes over every attribute that is set in the other object, keeps the rest, leaves the other object unchanged, and with match names refuses, changing nothing, exactly when a named attribute differs.",
 over=["inputs", "histories"], quantifier="every metadata class, any pair of objects that agree or differ in any one attribute, any set of attributes to update, any mutation of a copy",
 why="tests compare a few fixed objects; a comparison that ignores one attribute, or a copy that shares one nested object, is only seen by varying every attribute of every class",
 files=[B, "mt_metadata/timeseries/", "mt_metadata/transfer_functions/"],
 mechanism=[("MetadataBase.__eq__, copy, update, load", B)],
 technique="property-based testing: generated object pairs, metamorphic oracle (one attribute changed, copy mutated)",
 note="Exploration by seeded random generation; the 'different' attribute is drawn from all attributes of all classes; text comparisons follow the stored value."),
dict(id="C04", title="Validated assignment and dotted attribute access",
 statement="Setting an attribute to a valid value, by dotted name, by chained attributes or in the constructor, is accepted, reads back the same through every access path, and changes no other attribute; numbers given as text, int, float or numpy scalars are stored as the same number. A value outside the attribute's type or vocabulary is refused with an error and leaves the object unchanged, and unknown parents raise AttributeError. The attribute list names every attribute once, sorted, each readable, with attribute information available.",
 over=["inputs"], quantifier="every metadata class, every attribute at any nesting depth, any valid or invalid value",
 why="tests assign a few good and bad values to some attributes; validators differ per class and attribute and each may accept, drop or mangle particular values",
 files=[B, "mt_metadata/base/helpers.py", "mt_metadata/common/", "mt_metadata/timeseries/"],
 mechanism=[("MetadataBase.update_attribute / get_attr_from_name / __setattr__ / get_attribute_list / attribute_information", B), ("recursive_split_setattr, recursive_split_getattr", "mt_metadata/base/helpers.py")],
 technique="property-based testing: generated (class, attribute, value) triples against set/get and frame oracles",
 note="Exploration by seeded random generation over all attributes of all public classes; invalid values are those of a wrong type or outside an enumeration."),
]
