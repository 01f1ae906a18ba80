T = "mt_metadata/common/mttime.py"
PROPS = [
dict(id="C07", title="Time objects denote the instant they were given",
 statement="A time built from any representation of an instant (ISO or plain text with or without UTC offset, datetime, pandas or numpy time, epoch seconds or nanoseconds, another time) is that instant in UTC to the nanosecond, prints as text that reads back equal, and times order, sort, add and subtract (seconds as numbers of any kind, or time differences) exactly like the instants. Setting a component changes that component only, epoch seconds read back and assign the instant, impossible values are refused without effect, null values give the default time, dates out of range become the nearest representable time, and text that is not a time raises ValueError. GPS times are shifted by exactly the leap seconds in effect on that date, and date-only objects print and compare as dates.",
 over=["inputs"], quantifier="every instant the time type can hold, every representation, every pair of times and every offset; all leap second boundaries",
 why="the tests use a few dozen fixed stamps; order, offsets, rounding, component setters and leap second boundaries need values across the whole range",
 files=[T], mechanism=[("parse, calculate_leap_seconds, get_now_utc, MTime, MDate", T)],
 technique="property-based testing: generated instants and representations against an integer-nanosecond reference model",
 note="Exploration by seeded random generation; the oracle is integer nanoseconds since 1970 and the published leap second table."),
]
