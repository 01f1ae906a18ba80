B = "mt_metadata/common/"
PROPS = [
dict(id="C05", title="Controlled vocabularies and small descriptive objects accept and keep",
 statement="An attribute with a controlled vocabulary accepts every word of it (in any letter case where the vocabulary ignores case) and stores that word, and refuses any other word without changing the object; the same holds for licences (any SPDX identifier or Creative Commons name, with any separators), geomagnetic models, DOIs (bare, doi: or doi.org address, stored as the address), ratings 0 to 5, e-mail and web addresses, and station names (letters, digits, underscores). A comment is its time, author and value: its text 'time | author | value' reads back, and it equals its text, its dictionary, and another comment exactly when all three agree. Lists of names, organisations, addresses and grants may be given as list or comma separated text.",
 over=["inputs"], quantifier="every attribute with a vocabulary of every metadata class, every word in any spelling and any other word; any licence, DOI, comment, rating or name",
 why="tests try a few words per vocabulary; normalisation, refusal and re-acceptance of stored values need every word, field and spelling",
 files=[B+"enumerations.py", B+"copyright.py", B+"comment.py", B+"rating.py", B+"funding_source.py", B+"person.py", "mt_metadata/utils/validators.py"],
 mechanism=[("StrEnumerationBase, LicenseEnum, GeomagneticModelEnum", B+"enumerations.py"), ("Comment.set_variables, as_string, __eq__", B+"comment.py"), ("validate_doi, validate_station_name, validate_name", "mt_metadata/utils/validators.py")],
 technique="property-based testing: generated words and spellings against vocabulary, round-trip and refusal oracles",
 note="Exploration by seeded random generation; the vocabularies of the standard are pinned in the check, the SPDX list is read from the package data."),
dict(id="C06", title="Unit text names the unit it says in every notation",
 statement="A unit given by its name in any letter case, or by its exact symbol, with any SI prefix, is that unit, and a compound joined by '/', 'per' or blanks (brackets and extra blanks ignored) is the compound of its parts in order; the resulting name and symbol name the same unit when read again. Channels, filters and estimates store the name of the unit they are given and their unit object is that unit. Text that names no unit is 'unknown', and is refused, changing nothing, where unknown units are not allowed.",
 over=["inputs"], quantifier="every SI unit and prefix in every spelling, every compound of up to four units with any separators, and any other text",
 why="tests look up a few dozen of the 400 units and some compounds; prefixes that differ only in case (m/M, p/P) and separator handling need the whole product",
 files=[B+"units.py", "mt_metadata/timeseries/channel.py", "mt_metadata/timeseries/filters/filter_base.py"],
 mechanism=[("UNITS_DF, get_unit_object, parse_unit_string, Unit.combine", B+"units.py")],
 technique="property-based testing: generated unit text against an independent SI table and a fixpoint oracle",
 note="Exploration by seeded random generation over an independent table of SI prefixes and units; the ambiguous symbol C (celsius/coulomb) is left out."),
dict(id="C08", title="Positions: decimal degrees and DD:MM:SS text denote the same place",
 statement="The DD:MM:SS text of any position is normalised (minutes and seconds below 60), keeps the sign also between -1 and 0 degrees, and reads back to within 0.0001 seconds; DD:MM:SS text denotes sign * (degrees + minutes/60 + seconds/3600). A latitude is accepted exactly within +-90 and a longitude exactly within +-180, as number or text, and kept as given; anything else, and text that is neither, is refused and changes nothing. A datum given as EPSG number or name is stored as its name and unknown datums are refused.",
 over=["inputs"], quantifier="every position, every DD:MM:SS text, every location class",
 why="tests convert a handful of positions; sign, roll-over and range errors sit at boundaries such as -0:30, 59.99995 seconds or exactly 90 degrees",
 files=["mt_metadata/utils/location_helpers.py", B+"location.py"],
 mechanism=[("convert_position_float2str, convert_position_str2float, validate_position", "mt_metadata/utils/location_helpers.py"), ("BasicLocation.validate_datum", B+"location.py")],
 technique="property-based testing: generated positions and text against exact rational arithmetic",
 note="Exploration by seeded random generation with boundary-biased positions; the oracle is exact rational arithmetic."),
dict(id="C09", title="Lists of stations, runs, channels and filters act as ordered mappings",
 statement="Through any history of append, assignment, remove, pop, extend, update, sort, slice, rename, copy and clear, the container of stations, runs, channels or filters holds exactly what an ordered mapping keyed by the items' names holds, and every item is reached by name, by position and by slices of either. Looking up or removing something that is not there raises KeyError and arguments of a wrong kind TypeError, changing nothing. Two containers are equal exactly when they hold equal items under the same names in the same order, and a copy is independent.",
 over=["histories"], quantifier="every history of container operations over items with ids, components or neither, any keys and positions",
 why="tests call each operation once on a two-item container; a wrong item removed or a stale key shows only in longer histories",
 files=[B+"list_dict.py"], mechanism=[("ListDict", B+"list_dict.py")],
 state=[("_home", "ordered mapping of key to item", B+"list_dict.py")],
 technique="model-based property testing: generated operation histories against an ordered-mapping model",
 note="Exploration by seeded random histories of up to 14 operations; negative positions are outside the property."),
]
