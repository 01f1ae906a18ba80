From 5fbc3a247130b206dc48ef7320e13c565f90cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 001/143] fix: MTime greater-than is strict (t > t was True)

---
 mt_metadata/common/mttime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 552d8de..4e9abd4 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -707,7 +707,10 @@ class MTime(BaseModel):
         bool
             True if other is greater than the current time stamp, otherwise False
         """
-        return not self.__lt__(other)
+        if not isinstance(other, MTime):
+            other = MTime(time_stamp=other)
+
+        return bool(self.time_stamp > other.time_stamp)
 
     def __ge__(
         self,
-- 
2.43.0


From 9bac73ffbebff7fb6f4f7e7d585524b3dc5b4ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 002/143] fix: time stamps given with a UTC offset are
 converted to UTC

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 4e9abd4..e9bcd65 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -161,9 +161,9 @@ def _localize_utc(stamp: pd.Timestamp) -> pd.Timestamp:
 
     # check time zone and enforce UTC
     if stamp.tz is None:
-        stamp = stamp.tz_localize("UTC").tz_convert("UTC")
+        stamp = stamp.tz_localize("UTC")
 
-    return stamp
+    return stamp.tz_convert("UTC")
 
 
 # minimum and maximum time stamps for pandas
-- 
2.43.0


From 629bc0116d191549962c5f821c466d846c24b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 003/143] fix: leap seconds are defined on 2012-06-30 and
 2016-12-31

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index e9bcd65..f658846 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -57,9 +57,9 @@ leap_second_dict = {
     12: {"min": datetime.date(1997, 7, 1), "max": datetime.date(1999, 1, 1)},
     13: {"min": datetime.date(1999, 1, 1), "max": datetime.date(2006, 1, 1)},
     14: {"min": datetime.date(2006, 1, 1), "max": datetime.date(2009, 1, 1)},
-    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 6, 30)},
+    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 7, 1)},
     16: {"min": datetime.date(2012, 7, 1), "max": datetime.date(2015, 7, 1)},
-    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2016, 12, 31)},
+    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2017, 1, 1)},
     18: {"min": datetime.date(2017, 1, 1), "max": datetime.date(2026, 7, 1)},
 }
 
-- 
2.43.0


From 7de5eb3b280e12be4f6069d9257a16190332eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 004/143] fix: MTime.from_dict parses its value (a text was
 stored as is, leaving an unusable time)

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index f658846..05ae3fb 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -836,7 +836,7 @@ class MTime(BaseModel):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value)
 
     @property
     def iso_str(self) -> str:
@@ -1268,4 +1268,4 @@ class MDate(MTime):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value)
-- 
2.43.0


From 23bff1e47708cf5cde2dcfd72a41ca3fbcefce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 005/143] fix: lists of URLs are written as text (to_xml raised
 on a funding source with a URL)

---
 mt_metadata/base/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1c88e17..7d109fc 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1108,6 +1108,8 @@ class MetadataBase(DotNotationBaseModel):
                             v_list.append(obj.to_dict(nested=nested, required=required))
                         elif isinstance(obj, Enum):
                             v_list.append(obj.value)
+                        elif hasattr(obj, "unicode_string"):
+                            v_list.append(obj.unicode_string())
                         else:
                             v_list.append(obj)
                     value = v_list
-- 
2.43.0


From df87a7e37cfc99a9ad0198a723cafbd981f59f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 006/143] fix: arrays that contain a zero are kept in to_dict
 (phases [0, .1] of a response table were dropped)

---
 mt_metadata/base/metadata.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 7d109fc..cd063f7 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1124,10 +1124,7 @@ class MetadataBase(DotNotationBaseModel):
                 value = None
             if required:
                 if isinstance(value, (np.ndarray)):
-                    if name == "zeros" or name == "poles":
-                        meta_dict[name] = value
-                    elif value.all() != 0:
-                        meta_dict[name] = value
+                    meta_dict[name] = value
                 elif hasattr(value, "size"):
                     if value.size > 0:
                         meta_dict[name] = value
-- 
2.43.0


From e4c63be6601a9e8e8fe184276fc788f86f417762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 007/143] fix: from_json reads a file given by its path as text

---
 mt_metadata/base/metadata.py         | 4 +++-
 mt_metadata/timeseries/experiment.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index cd063f7..e06df72 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1255,6 +1255,7 @@ class MetadataBase(DotNotationBaseModel):
 
         """
         if isinstance(json_str, str):
+            json_dict = None
             try:
                 json_path = Path(json_str)
                 if json_path.exists():
@@ -1262,7 +1263,8 @@ class MetadataBase(DotNotationBaseModel):
                         json_dict = json.load(fid)
             except OSError:
                 pass
-            json_dict = json.loads(json_str)
+            if json_dict is None:
+                json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 976ec0a..1dd0dce 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -349,6 +349,7 @@ class Experiment(MetadataBase):
 
         """
         if isinstance(json_str, str):
+            json_dict = None
             try:
                 json_path = Path(json_str)
                 if json_path.exists():
@@ -356,7 +357,8 @@ class Experiment(MetadataBase):
                         json_dict = json.load(fid)
             except OSError:
                 pass
-            json_dict = json.loads(json_str)
+            if json_dict is None:
+                json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
-- 
2.43.0


From dfebeb3cc4664b524ae16a31d3b096fc7cff9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 008/143] fix: a metadata object equals its own dictionary,
 JSON, series and XML (it always compared unequal or raised)

---
 mt_metadata/base/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index e06df72..f09ef68 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -405,14 +405,15 @@ class MetadataBase(DotNotationBaseModel):
         else:
             return NotImplemented  # delegate to the other item in the comparison
         """
-        if other in [None]:
+        if other is None:
             return False
 
         elif isinstance(other, (dict, str, pd.Series, et.Element)):
             try:
                 # Attempt to load the other object into a new instance of MetadataBase
                 # This will ensure that the other object has the same attributes as self
-                other_obj = __class__().load(other)
+                other_obj = type(self)()
+                other_obj.load(other)
             except Exception as e:
                 logger.error(
                     f"Failed to load other object of type {type(other)}: {other}. Error is: {e} "
-- 
2.43.0


From 8923188f9f284d12fc9c43f03207d6f815aebe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 009/143] fix: to_series keeps None (it became NaN and came
 back as the text 'nan')

---
 mt_metadata/base/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index f09ef68..3611065 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1328,7 +1328,9 @@ class MetadataBase(DotNotationBaseModel):
 
         """
 
-        return pd.Series(self.to_dict(single=True, required=required))
+        return pd.Series(
+            self.to_dict(single=True, required=required), dtype=object
+        )
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
         """
-- 
2.43.0


From d7cfcede0c67cb2800e2b2e4f591297736049893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 010/143] fix: from_dict with skip_none accepts arrays

---
 mt_metadata/base/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 3611065..522fdf5 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1211,7 +1211,7 @@ class MetadataBase(DotNotationBaseModel):
         # set attributes by key.
         for name, value in meta_dict.items():
             if skip_none:
-                if value in NULL_VALUES:
+                if not isinstance(value, np.ndarray) and value in NULL_VALUES:
                     continue
             self.update_attribute(name, value)
 
-- 
2.43.0


From c938650626fc8b1305e9a31b9969619e3f877b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 011/143] fix: from_dict reads a dictionary whose only key is a
 nested attribute (its values were lost)

---
 mt_metadata/base/metadata.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 522fdf5..f576bce 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1193,13 +1193,20 @@ class MetadataBase(DotNotationBaseModel):
         if len(keys) == 1:
             if isinstance(meta_dict[keys[0]], (dict, OrderedDict)):
                 class_name = keys[0]
-                if class_name.lower() != validate_name(self.__class__.__name__):
-                    msg = (
-                        "name of input dictionary is not the same as class type "
-                        f"input = {class_name}, class type = {self.__class__.__name__}"
-                    )
-                    logger.debug(msg, class_name, self.__class__.__name__)
-                meta_dict = helpers.flatten_dict(meta_dict[class_name])
+                is_class_name = class_name.lower() == validate_name(
+                    self.__class__.__name__
+                )
+                if not is_class_name and class_name in type(self).model_fields:
+                    # a nested attribute, for example {"location": {...}}
+                    meta_dict = helpers.flatten_dict(meta_dict)
+                else:
+                    if not is_class_name:
+                        msg = (
+                            "name of input dictionary is not the same as class type "
+                            f"input = {class_name}, class type = {self.__class__.__name__}"
+                        )
+                        logger.debug(msg, class_name, self.__class__.__name__)
+                    meta_dict = helpers.flatten_dict(meta_dict[class_name])
             else:
                 meta_dict = helpers.flatten_dict(meta_dict)
 
-- 
2.43.0


From 4dbdc8fa0979723e510b80b301a676cc8d208327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 012/143] fix: a station without channels can be read back from
 its XML (None for a list of names)

---
 mt_metadata/timeseries/station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index ff04a64..d73a75d 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -240,7 +240,7 @@ class Station(MetadataBase):
         Validate that the value is a list of strings.
         """
         if value in NULL_VALUES:
-            return
+            return []
 
         if isinstance(value, np.ndarray):
             value = value.astype(str).tolist()
-- 
2.43.0


From a300e443353212965258c6a7d254128bf79d8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 013/143] fix: surveys read frequency response tables (type
 fap) from a dictionary

---
 mt_metadata/timeseries/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 2c4c381..764deab 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -459,7 +459,7 @@ class Survey(MetadataBase):
                             f = TimeDelayFilter()
                         elif f_type.lower() in ["fir"]:
                             f = FIRFilter()
-                        elif f_type.lower() in ["frequency response table"]:
+                        elif f_type.lower() in ["fap", "frequency response table"]:
                             f = FrequencyResponseTableFilter()
                         else:
                             msg = f"filter type {f_type} not supported."
-- 
2.43.0


From 5c78229bb9a6a7a3493063ccc008ef8ac85c9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 014/143] fix: poles and zeros can be read back from JSON

---
 mt_metadata/base/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index cab2b67..1dc5352 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -561,7 +561,7 @@ def flatten_dict(meta_dict, parent_key=None, sep="."):
             new_key = f"{parent_key}{sep}{key}"
         else:
             new_key = key
-        if isinstance(value, MutableMapping):
+        if isinstance(value, MutableMapping) and set(value) != {"real", "imag"}:
             items.extend(flatten_dict(value, new_key, sep=sep).items())
         else:
             items.append((new_key, value))
@@ -1137,6 +1137,11 @@ def object_to_array(value, dtype=float):
         return np.array(value, dtype=dtype)
     elif isinstance(value, np.ndarray):
         return value.astype(dtype)
+    elif isinstance(value, dict) and set(value) == {"real", "imag"}:
+        # complex numbers as they are written to JSON
+        return np.array(value["real"], dtype=float) + 1j * np.array(
+            value["imag"], dtype=float
+        )
     elif isinstance(value, str):
         if value in ["", "none", "None"]:
             return np.empty(0)
-- 
2.43.0


From 921808e5b2dbb47ddd2c56a09a53fc5ff44202cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 015/143] fix: filters with arrays can be written to XML and a
 single filter of a kind can be read back

---
 mt_metadata/base/helpers.py          |  6 +++---
 mt_metadata/timeseries/experiment.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 1dc5352..3f413c3 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -761,8 +761,8 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
 
             sub_element = et.SubElement(element, key)
             recursive_split_xml(sub_element, value, attr_name, key, attr_dict)
-    elif isinstance(item, (tuple, list)):
-        for ii in item:
+    elif isinstance(item, (tuple, list, np.ndarray)):
+        for ii in item.tolist() if isinstance(item, np.ndarray) else item:
             sub_element = et.SubElement(element, "item")
             recursive_split_xml(sub_element, ii, base, name, attr_dict)
     elif isinstance(item, str):
@@ -770,7 +770,7 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
     elif item is None:
         # Leave element.text as None so XML has empty element (no text)
         pass
-    elif isinstance(item, (float, int)):
+    elif isinstance(item, (float, int, complex)):
         element.text = str(item)
     else:
         # if the value is an hdf5 reference make it a string
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 1dd0dce..7590097 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -568,7 +568,7 @@ class Experiment(MetadataBase):
                         mt_filter = PoleZeroFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = PoleZeroFilter(value)
+                    mt_filter = PoleZeroFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["coefficient_filter"]:
@@ -577,7 +577,7 @@ class Experiment(MetadataBase):
                         mt_filter = CoefficientFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = CoefficientFilter(value)
+                    mt_filter = CoefficientFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["time_delay_filter"]:
@@ -586,7 +586,7 @@ class Experiment(MetadataBase):
                         mt_filter = TimeDelayFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = TimeDelayFilter(value)
+                    mt_filter = TimeDelayFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["frequency_response_table_filter"]:
@@ -595,7 +595,7 @@ class Experiment(MetadataBase):
                         mt_filter = FrequencyResponseTableFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FrequencyResponseTableFilter(value)
+                    mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["fir_filter"]:
@@ -604,7 +604,7 @@ class Experiment(MetadataBase):
                         mt_filter = FIRFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FIRFilter(value)
+                    mt_filter = FIRFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
         return return_dict
-- 
2.43.0


From 5b9d2537ac0f6c191eb9fa5564e9fd923e24fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 016/143] fix: experiment XML keeps its filters (FIR and lone
 filters, lone complex poles) and reads surveys without stations

---
 mt_metadata/base/helpers.py          | 6 ++++++
 mt_metadata/timeseries/experiment.py | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 3f413c3..cdac77b 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -1146,6 +1146,12 @@ def object_to_array(value, dtype=float):
         if value in ["", "none", "None"]:
             return np.empty(0)
 
+        if dtype is complex:
+            try:
+                return np.array([complex(value)])
+            except ValueError:
+                pass
+
         if not has_numbers(value) and not is_numeric_string(value):
             msg = f"String input must be a single number or a list of numbers, not '{value}'"
             raise TypeError(msg)
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 7590097..dc94bd0 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -462,9 +462,9 @@ class Experiment(MetadataBase):
         for survey_element in list(experiment_element):
             survey_dict = helpers.element_to_dict(survey_element)
             stations = self._pop_dictionary(survey_dict["survey"], "station")
+            fd = survey_dict["survey"].pop("filters", None)
             survey_obj = Survey()
             survey_obj.from_dict(survey_dict, skip_none=skip_none)
-            fd = survey_dict["survey"].pop("filters")
             filter_dict = self._read_filter_dict(fd)
             survey_obj.filters.update(filter_dict)
 
@@ -509,7 +509,7 @@ class Experiment(MetadataBase):
 
         """
 
-        elements = in_dict.pop(element)
+        elements = in_dict.pop(element, [])
         if not isinstance(elements, list):
             elements = [elements]
 
@@ -598,7 +598,7 @@ class Experiment(MetadataBase):
                     mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
-            elif key in ["fir_filter"]:
+            elif key in ["fir_filter", "f_i_r_filter"]:
                 if isinstance(value, list):
                     for v in value:
                         mt_filter = FIRFilter(**v)
-- 
2.43.0


From bd2ffe7b3016f0394cd109171bcff0c19db3e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 017/143] fix: from_xml leaves attributes alone whose element
 is empty (empty lists could not be read back)

---
 mt_metadata/base/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index f576bce..b2adaa3 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1396,4 +1396,5 @@ class MetadataBase(DotNotationBaseModel):
         via the from_dict method.
         """
 
-        self.from_dict(helpers.element_to_dict(xml_element))
+        # an element without text carries no value
+        self.from_dict(helpers.element_to_dict(xml_element), skip_none=True)
-- 
2.43.0


From 99c0afe2a19d7c40d0b204d32e0e9730acca34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 018/143] fix: a list with a single item is read back from XML
 as a list

---
 mt_metadata/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index cdac77b..a48aee9 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -829,7 +829,8 @@ def element_to_dict(element):
             element.tag: {k: v[0] if len(v) == 1 else v for k, v in child_dict.items()}
         }
         if "item" in meta_dict[element.tag].keys():
-            meta_dict[element.tag] = meta_dict[element.tag]["item"]
+            # a list, also when it has a single item
+            meta_dict[element.tag] = child_dict["item"]
     # going to skip attributes for now, later can check them against
     # standards, neet to skip units and type
     if element.attrib:
-- 
2.43.0


From ad37a0c96f2031310a3a2e9bb85690920df28c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 019/143] fix: positions between -1 and 0 degrees keep their
 sign in DD:MM:SS

---
 mt_metadata/utils/location_helpers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/utils/location_helpers.py b/mt_metadata/utils/location_helpers.py
index 6bf886b..58d3ab1 100644
--- a/mt_metadata/utils/location_helpers.py
+++ b/mt_metadata/utils/location_helpers.py
@@ -26,12 +26,10 @@ def convert_position_float2str(position: float | int) -> str:
         logger.error(msg)
         raise TypeError(msg)
 
-    deg = int(position)
-    sign = 1
-    if deg < 0:
-        sign = -1
+    # the sign is that of the position, the degrees of -0.5 are 0
+    sign = "-" if position < 0 else ""
 
-    deg = abs(deg)
+    deg = abs(int(position))
     minutes = (abs(position) - deg) * 60.0
     # need to round seconds to 4 decimal places otherwise machine precision
     # keeps the 60 second roll over and the string is incorrect.
@@ -44,7 +42,7 @@ def convert_position_float2str(position: float | int) -> str:
         deg += 1
         minutes = 0
 
-    position_str = f"{sign * int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
+    position_str = f"{sign}{int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
     logger.debug(f"Converted {position} to {position_str}")
 
     return position_str
@@ -92,7 +90,7 @@ def convert_position_str2float(position_str: str) -> float:
     # get the sign of the position so that when all are added together the
     # position is in the correct place
     sign = 1
-    if deg < 0:
+    if p_list[0].strip().startswith("-"):
         sign = -1
 
     position_value = sign * (abs(deg) + minutes / 60.0 + sec / 3600.0)
-- 
2.43.0


From 536e387b8ec68c604dc199c673282019cf5f64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 020/143] fix: ListDict.pop removes the item asked for,
 comparing with another kind is not an error

---
 mt_metadata/common/list_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index 0ba55c1..377494c 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -50,6 +50,8 @@ class ListDict:
         return f"ListDict({items_str})"
 
     def __eq__(self, other):
+        if not isinstance(other, ListDict):
+            return NotImplemented
         return self._home.__eq__(other._home)
 
     def __len__(self):
@@ -297,7 +299,7 @@ class ListDict:
         """
 
         if key in self.keys():
-            return dict([self._home.popitem(key)])
+            return {key: self._home.pop(key)}
         else:
             raise KeyError(f"{key} is not in ListDict keys.")
 
-- 
2.43.0


From 06e5dfd041f502db54264aae361a43ff1343dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 021/143] fix: unit text with blanks around a separator keeps
 the separator, digital counts can be part of a compound unit

---
 mt_metadata/common/units.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index fd43835..be2b9df 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -9,6 +9,7 @@ case strings.
 
 """
 
+import re
 from collections import OrderedDict
 from typing import Annotated
 
@@ -309,6 +310,9 @@ def parse_unit_string(unit_string: str) -> list[dict] | None:
     if not isinstance(unit_string, str):
         raise TypeError("The unit_string must be a string.")
     unit_string = unit_string.replace("[", "").replace("]", "")
+    # blanks around a separator do not count and "digital counts" is one unit
+    unit_string = re.sub(r"\s*/\s*", "/", " ".join(unit_string.split()))
+    unit_string = re.sub(r"\bdigital counts?\b", "counts", unit_string, flags=re.I)
     result = []
     separator = ""
     while separator != None:
-- 
2.43.0


From ecd65f22d5f9d52e1c6d2e8f94313206826ab8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 022/143] fix: the licence CC BY-NC-SA is accepted by its own
 name

---
 mt_metadata/common/enumerations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/common/enumerations.py b/mt_metadata/common/enumerations.py
index c0df891..a64e7cd 100644
--- a/mt_metadata/common/enumerations.py
+++ b/mt_metadata/common/enumerations.py
@@ -225,6 +225,7 @@ class LicenseEnumMeta(EnumMeta):
             ("CC_BY", "CC BY"),
             ("CC_BY_SA", "CC BY-SA"),
             ("CC_BY_NC", "CC BY-NC"),
+            ("CC_BY_NC_SA", "CC BY-NC-SA"),
             ("CC_BY_NA_SA", "CC BY-NC-SA"),
             ("CC_BY_ND", "CC BY-ND"),
             ("CC_BY_NC_ND", "CC BY-NC-ND"),
-- 
2.43.0


From 6989dff361095a6b7334b93e5c78304e0901a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 023/143] fix: a comment equals None only when it is empty,
 writing a comment to XML does not change it

---
 mt_metadata/common/comment.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index 4be889a..4fd0e50 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -125,7 +125,7 @@ class Comment(MetadataBase):
             True if the objects are equal, False otherwise.
         """
         if other is None:
-            return Comment(value=None)  # type: ignore
+            other = Comment(value=None)  # type: ignore
         if isinstance(other, str):
             other = Comment(value=other)  # type: ignore
         elif isinstance(other, dict):
@@ -240,12 +240,8 @@ class Comment(MetadataBase):
         :rtype: str | et.Element
         """
 
-        if self.author is None:
-            self.author = ""
-        root = et.Element(self.__class__.__name__ + "s", {"author": self.author})
-        if self.value is None:
-            self.value = ""
-        root.text = self.value
+        root = et.Element(self.__class__.__name__ + "s", {"author": self.author or ""})
+        root.text = self.value or ""
 
         if string:
             return element_to_string(root)
-- 
2.43.0


From 4b50a02a33e584fe2caf017b5f8c2a1db1cafcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 024/143] fix: removing a run from a station does not move its
 channels to the first run

---
 mt_metadata/timeseries/station.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index d73a75d..b2ef3b2 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -6,7 +6,13 @@ from typing import Annotated
 
 import numpy as np
 from loguru import logger
-from pydantic import Field, field_validator, model_validator, ValidationInfo
+from pydantic import (
+    Field,
+    field_validator,
+    model_validator,
+    PrivateAttr,
+    ValidationInfo,
+)
 from typing_extensions import Self
 
 from mt_metadata import NULL_VALUES
@@ -29,6 +35,11 @@ from mt_metadata.timeseries import Run
 
 
 class Station(MetadataBase):
+    # summaries as last derived from the runs, to tell a summary that is out of
+    # date from one that was set by the user.
+    _derived_run_list: list[str] = PrivateAttr(default_factory=list)
+    _derived_channels_recorded: list[str] = PrivateAttr(default_factory=list)
+
     channel_layout: Annotated[
         ChannelLayoutEnum,
         Field(
@@ -267,7 +278,10 @@ class Station(MetadataBase):
         # need to make each another object list() otherwise the contents
         # get overwritten with the new channel.
         if self.run_list != list(self.runs.keys()):
-            if len(self.run_list) > len(self.runs.keys()):
+            if (
+                len(self.run_list) > len(self.runs.keys())
+                and self.run_list != self._derived_run_list
+            ):
                 for run_id in self.run_list:
                     if run_id not in self.runs.keys():
                         self.runs.append(Run(id=run_id))
@@ -275,13 +289,18 @@ class Station(MetadataBase):
                 self.update_all()
         estimate_channels_recorded = self._get_channels_recorded()
         if self.channels_recorded != estimate_channels_recorded:
-            if len(self.channels_recorded) > len(estimate_channels_recorded):
+            if (
+                len(self.channels_recorded) > len(estimate_channels_recorded)
+                and self.channels_recorded != self._derived_channels_recorded
+            ):
                 if len(self.runs) > 0:
                     for channel in self.channels_recorded:
                         if channel not in estimate_channels_recorded:
                             self.runs[0].add_channel(channel)
             else:
                 self.update_channels_recorded()
+        self._derived_run_list = list(self.runs.keys())
+        self._derived_channels_recorded = self._get_channels_recorded()
         return self
 
     @model_validator(mode="after")
-- 
2.43.0


From 3897845cfd93567eb1b7c5b02c875e0d637d847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 025/143] fix: adding a station or survey that already exists
 merges its runs and stations

---
 mt_metadata/timeseries/experiment.py | 7 ++++++-
 mt_metadata/timeseries/survey.py     | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index dc94bd0..321bfec 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -207,7 +207,12 @@ class Experiment(MetadataBase):
             )
 
         if self.has_survey(survey_obj.id):
-            self.surveys[survey_obj.id].update(survey_obj)
+            existing = self.surveys[survey_obj.id]
+            for station in survey_obj.stations:
+                existing.add_station(station)
+            existing.filters.update(survey_obj.filters)
+            existing.update(survey_obj)
+            existing.update_all()
             logger.debug(f"survey {survey_obj.id} already exists, updating metadata")
         else:
             self.surveys.append(survey_obj)
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 764deab..31308ff 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -626,7 +626,13 @@ class Survey(MetadataBase):
             )
 
         if self.has_station(station_obj.id):
-            self.stations[station_obj.id].update(station_obj)
+            existing = self.stations[station_obj.id]
+            # merge the runs first, the summaries of the updated station
+            # (run list, channels recorded) are derived from them.
+            for run in station_obj.runs:
+                existing.add_run(run, update=False)
+            existing.update(station_obj)
+            existing.update_all()
             logger.warning(
                 f"Station {station_obj.id} already exists, updating metadata"
             )
-- 
2.43.0


From 3df25bedba1cf72736c85f7c27cf7bc9408abf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 026/143] fix: sort_runs_by_time sorts the runs by start time
 (raised for every station)

---
 mt_metadata/timeseries/station.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index b2ef3b2..0cc2f96 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -570,13 +570,12 @@ class Station(MetadataBase):
 
         """
 
-        run_ids = []
-        run_starts = []
-        for run_key, run_obj in self.runs.items():
-            run_ids.append(run_key)
-            run_starts.append(run_obj.time_period.start.split("+")[0])
-
-        index = np.argsort(np.array(run_starts, dtype=np.datetime64))
+        run_ids = list(self.runs.keys())
+        index = sorted(
+            range(len(run_ids)),
+            key=lambda ii: self.runs[run_ids[ii]].time_period.start,
+            reverse=not ascending,
+        )
 
         new_runs = ListDict()
         for ii in index:
-- 
2.43.0


From 7cb417f55a8b8524490bc99139a4f25a8a4bb6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 027/143] fix: a channel dictionary without a type gets it from
 the component

---
 mt_metadata/timeseries/run.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 77867e7..9c8e5d3 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -1067,7 +1067,7 @@ class Run(MetadataBase):
 
         elif isinstance(channel_obj, (dict, OrderedDict)):
             try:
-                ch_type = channel_obj["type"]
+                ch_type = channel_obj.get("type")
                 if ch_type is None:
                     ch_type = channel_obj["component"][0]
 
@@ -1075,8 +1075,7 @@ class Run(MetadataBase):
                     return Electric(**channel_obj)
                 elif (
                     ch_type.lower().startswith("b")
-                    or ch_type.lower().startswith("b")
-                    or ch_type.lower() in ["magnetic"]
+                    or ch_type.lower() in ["h", "magnetic"]
                 ):
                     return Magnetic(**channel_obj)
                 else:
-- 
2.43.0


From 5746004bfff6731dc2188ccced462bfd35b0b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 028/143] fix: channels given to a run directly are listed in
 channels_recorded and can be looked up

---
 mt_metadata/timeseries/run.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 9c8e5d3..4cbc0f5 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -313,6 +313,19 @@ class Run(MetadataBase):
         for auxiliary in list(self.channels_recorded_auxiliary):
             if auxiliary not in self.channels.keys():
                 self.add_channel(Auxiliary(component=auxiliary))  # type: ignore
+
+        # channels that were set directly need to be in the lists as well, the
+        # lists are changed in place to avoid another validation.
+        for channel in self.channels:
+            if isinstance(channel, Electric):
+                recorded, default = self.channels_recorded_electric, "e_default"
+            elif isinstance(channel, Magnetic):
+                recorded, default = self.channels_recorded_magnetic, "h_default"
+            else:
+                recorded, default = self.channels_recorded_auxiliary, "auxiliary_default"
+            if channel.component not in [None, default] + recorded:
+                recorded.append(channel.component)
+                recorded.sort()
         return self
 
     @field_validator("channels", mode="before")
-- 
2.43.0


From 7d2dfd2b8cd9f5336a315f7507761c4dbc02d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 029/143] fix: experiment XML with optional attributes keeps
 its filters readable

---
 mt_metadata/timeseries/experiment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 321bfec..f8620d3 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -394,7 +394,10 @@ class Experiment(MetadataBase):
             survey.update_bounding_box()
             survey.update_time_period()
             survey_element = survey.to_xml(required=required)
-            filter_element = et.SubElement(survey_element, "filters")
+            # the element is already there if optional attributes are written
+            filter_element = survey_element.find("filters")
+            if filter_element is None:
+                filter_element = et.SubElement(survey_element, "filters")
             for key, value in survey.filters.items():
                 filter_element.append(value.to_xml(required=required))
             if sort:
-- 
2.43.0


From 2dbbd17c282a0e74b583840d05169769d9a7566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 030/143] fix: experiment XML keeps channels in their own run
 and values of zero and False

---
 mt_metadata/timeseries/experiment.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index f8620d3..5148d0f 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -480,6 +480,9 @@ class Experiment(MetadataBase):
                 station_obj = Station()
                 runs = self._pop_dictionary(station_dict, "run")
                 station_obj.from_dict(station_dict, skip_none=skip_none)
+                # reading run_list and channels_recorded makes empty runs and
+                # channels, these are replaced by what is described.
+                placeholders = list(station_obj.runs.keys())
                 for run_dict in runs:
                     run_obj = Run()
 
@@ -497,7 +500,12 @@ class Experiment(MetadataBase):
                         except KeyError:
                             logger.debug(f"Could not find channel {ch}")
                     run_obj.from_dict(run_dict, skip_none=skip_none)
-                    station_obj.add_run(run_obj)
+                    if run_obj.id in placeholders:
+                        placeholders.remove(run_obj.id)
+                        station_obj.runs[run_obj.id] = run_obj
+                        station_obj.update_all()
+                    else:
+                        station_obj.add_run(run_obj)
                 survey_obj.add_station(station_obj)
             self.add_survey(survey_obj)
 
-- 
2.43.0


From 2f765b0dcd337cb842e769d2a7f8296d958d1c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 031/143] fix: a comment given as flat dictionary keeps its
 text next to author and time stamp

---
 mt_metadata/base/metadata.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index b2adaa3..5c05937 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -102,7 +102,14 @@ class DotNotationBaseModel(BaseModel):
                     flat_data[key] = value
 
         # Merge the nested dict into flat dict (nested takes precedence)
-        flat_data.update(nested_data)
+        for key, value in nested_data.items():
+            if isinstance(flat_data.get(key), dict):
+                flat_data[key] = {**flat_data[key], **value}
+            elif isinstance(flat_data.get(key), str) and isinstance(value, dict):
+                # a comment given as text next to its author and time stamp
+                flat_data[key] = {"value": flat_data[key], **value}
+            else:
+                flat_data[key] = value
 
         # Call parent constructor with processed data
         super().__init__(**flat_data)
@@ -136,12 +143,19 @@ class DotNotationBaseModel(BaseModel):
             if part not in current:
                 current[part] = {}
             elif not isinstance(current[part], dict):
-                # Convert to dict if it's not already
-                current[part] = {}
+                # Convert to dict if it's not already, keep a comment given as
+                # text next to its author and time stamp
+                if isinstance(current[part], str):
+                    current[part] = {"value": current[part]}
+                else:
+                    current[part] = {}
             current = current[part]
 
         # Set the final value
-        current[parts[-1]] = value
+        if isinstance(current.get(parts[-1]), dict) and isinstance(value, str):
+            current[parts[-1]]["value"] = value
+        else:
+            current[parts[-1]] = value
 
     def update_attribute(self, attr_name: str, attr_value: Any) -> None:
         """
-- 
2.43.0


From abba2edd2644400a56b18abccc84cc94af179d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 032/143] fix: filter comments are written to obspy stages as
 text

---
 mt_metadata/timeseries/filters/filter_base.py      | 2 +-
 mt_metadata/timeseries/filters/pole_zero_filter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/filters/filter_base.py b/mt_metadata/timeseries/filters/filter_base.py
index 143f20f..7091b86 100644
--- a/mt_metadata/timeseries/filters/filter_base.py
+++ b/mt_metadata/timeseries/filters/filter_base.py
@@ -282,7 +282,7 @@ class FilterBase(MetadataBase):
         if self.comments.value is None:
             return filter_descriptions[self.type]
 
-        return self.comments
+        return self.comments.value
 
     @requires(obspy=obspy_import)
     @classmethod
diff --git a/mt_metadata/timeseries/filters/pole_zero_filter.py b/mt_metadata/timeseries/filters/pole_zero_filter.py
index db28d28..9686b68 100644
--- a/mt_metadata/timeseries/filters/pole_zero_filter.py
+++ b/mt_metadata/timeseries/filters/pole_zero_filter.py
@@ -222,9 +222,9 @@ class PoleZeroFilter(FilterBase):
         """
         pass_band = self.pass_band(frequencies, window_len, tol)
         if pass_band is None:
-            return np.NAN
+            return np.nan
         if pass_band.size == 0:
-            return np.NAN
+            return np.nan
 
         if estimate == "mean":
             return pass_band.mean()
-- 
2.43.0


From f9cbfd4fd17436a2e5fad21846a1f97b71109066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 033/143] fix: a stage without poles and zeros keeps its
 normalization factor when it becomes a coefficient

---
 mt_metadata/timeseries/filters/obspy_stages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/obspy_stages.py b/mt_metadata/timeseries/filters/obspy_stages.py
index f383ad3..56c526e 100644
--- a/mt_metadata/timeseries/filters/obspy_stages.py
+++ b/mt_metadata/timeseries/filters/obspy_stages.py
@@ -139,7 +139,10 @@ def create_filter_from_stage(stage):
                     f"Converting PoleZerosResponseStage {stage.name} to a "
                     "CoefficientFilter."
                 )
-                return create_coefficent_filter_from_stage(stage)
+                coeff_filter = create_coefficent_filter_from_stage(stage)
+                if stage.normalization_factor is not None:
+                    coeff_filter.gain *= float(stage.normalization_factor)
+                return coeff_filter
 
         return create_pole_zero_filter_from_stage(stage)
 
-- 
2.43.0


From 6fad6adffb5961d08eab6f43a4e65e3ce22b0273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 034/143] fix: poles and zeros of StationXML stages given in
 Hertz are converted to radians per second

---
 .../timeseries/filters/pole_zero_filter.py    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mt_metadata/timeseries/filters/pole_zero_filter.py b/mt_metadata/timeseries/filters/pole_zero_filter.py
index 9686b68..4349a6c 100644
--- a/mt_metadata/timeseries/filters/pole_zero_filter.py
+++ b/mt_metadata/timeseries/filters/pole_zero_filter.py
@@ -128,6 +128,26 @@ class PoleZeroFilter(FilterBase):
         """
         return self.gain * self.normalization_factor
 
+    @classmethod
+    def from_obspy_stage(cls, stage, mapping: dict = None) -> "PoleZeroFilter":
+        """
+        Make a filter from an obspy stage, poles and zeros given in Hertz are
+        converted to radians per second.
+
+        :param stage: obspy pole zero stage
+        :type stage: :class:`obspy.core.inventory.PolesZerosResponseStage`
+        :return: pole zero filter
+        :rtype: :class:`PoleZeroFilter`
+
+        """
+        pz = super().from_obspy_stage(stage, mapping)
+        pz_type = getattr(stage, "pz_transfer_function_type", None)
+        if pz_type == "LAPLACE (HERTZ)":
+            pz.poles = 2 * np.pi * pz.poles
+            pz.zeros = 2 * np.pi * pz.zeros
+            pz.normalization_factor *= (2 * np.pi) ** (pz.n_poles - pz.n_zeros)
+        return pz
+
     @requires(obspy=obspy)
     def to_obspy(
         self,
-- 
2.43.0


From 2bc3e642b930c83e36c92e17bd9435257b748d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 035/143] fix: filters added as objects are kept in order of
 their stage

---
 mt_metadata/timeseries/channel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c72d19b..e1d4ba3 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -469,9 +469,9 @@ class ChannelBase(MetadataBase):
 
             self.filters.append(AppliedFilter(**filter_kwargs))
 
-            # Sort filters and validate for duplicates
-            self._sort_filters()
-            # Note: Skipping duplicate validation since we already check above
+        # Sort filters and validate for duplicates
+        self._sort_filters()
+        # Note: Skipping duplicate validation since we already check above
 
     @computed_field
     @property
-- 
2.43.0


From 2934f95d0a74ae188f33f5ed8b561c82b371ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 036/143] fix: filters of a channel are found by the name they
 were added with

---
 mt_metadata/timeseries/channel.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index e1d4ba3..c12b563 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -455,7 +455,7 @@ class ChannelBase(MetadataBase):
                 raise TypeError("name must be a string")
 
             # Check if filter with this name already exists
-            if any(f.name == name for f in self.filters):
+            if any(f.name == self._filter_key(name) for f in self.filters):
                 logger.debug(f"Filter '{name}' already exists, skipping duplicate")
                 return
 
@@ -500,7 +500,7 @@ class ChannelBase(MetadataBase):
 
         new_list = []
         for f in self.filters:
-            if f.name == name:
+            if f.name == self._filter_key(name):
                 continue
             if reset_stages:
                 f.stage = len(new_list) + 1
@@ -522,11 +522,30 @@ class ChannelBase(MetadataBase):
             The filter with the given name, or None if not found.
         """
         for f in self.filters:
-            if f.name == name:
+            if f.name == self._filter_key(name):
                 return f
         logger.warning(f"Could not find filter {name} in channel filters")
         return None
 
+    @staticmethod
+    def _filter_key(name: str) -> str:
+        """
+        Name as it is stored in the filter list.
+
+        Parameters
+        ----------
+        name : str
+            Name of the filter.
+
+        Returns
+        -------
+        str
+            Name as validated by AppliedFilter.
+        """
+        if not isinstance(name, str) or not name.strip():
+            return name
+        return AppliedFilter(name=name).name
+
     def _sort_filters(self) -> None:
         """
         Sort the list of filters applied to the channel by stage number.
-- 
2.43.0


From 68339e636c69dd43b8bf77bb70468f7a1e1bd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 037/143] fix: complex numbers given as text with more than one
 item are read as complex numbers

---
 mt_metadata/base/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index a48aee9..d1e1cfc 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -1149,7 +1149,9 @@ def object_to_array(value, dtype=float):
 
         if dtype is complex:
             try:
-                return np.array([complex(value)])
+                return np.array(
+                    [complex(item) for item in value.replace(",", " ").split()]
+                )
             except ValueError:
                 pass
 
-- 
2.43.0


From a9df1870cf5536bb409be148ca2dcc231a88c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 038/143] fix: stages of FIR filters are valid StationXML

---
 mt_metadata/timeseries/filters/fir_filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 1684167..7a8abbc 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -228,13 +228,16 @@ class FIRFilter(FilterBase):
             self.units_in_object.symbol,
             self.units_out_object.symbol,
             coefficients=self.coefficients.tolist(),
-            symmetry=self.symmetry,
+            symmetry=SymmetryEnum(self.symmetry).value,
             name=self.name,
             description=self.get_filter_description(),
             input_units_description=self.units_in_object.name,
             output_units_description=self.units_out_object.name,
             decimation_input_sample_rate=self.decimation_input_sample_rate,
-            decimation_factor=self.decimation_factor,
+            decimation_factor=int(self.decimation_factor),
+            decimation_offset=0,
+            decimation_delay=0,
+            decimation_correction=0,
         )
 
         return rs
-- 
2.43.0


From 449de549fc70cb8c7e2e20cab7eb822b5f4f66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 039/143] fix: read run descriptions in StationXML with commas
 and colons in the values

---
 .../timeseries/stationxml/xml_equipment_mt_run.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_equipment_mt_run.py b/mt_metadata/timeseries/stationxml/xml_equipment_mt_run.py
index afc2abf..b326590 100644
--- a/mt_metadata/timeseries/stationxml/xml_equipment_mt_run.py
+++ b/mt_metadata/timeseries/stationxml/xml_equipment_mt_run.py
@@ -13,6 +13,7 @@ Created on Thu Feb 18 12:49:13 2021
 # Imports
 # =============================================================================
 import enum
+import re
 
 from mt_metadata import timeseries as metadata
 from mt_metadata.base.helpers import requires
@@ -149,13 +150,17 @@ class XMLEquipmentMTRun(BaseTranslator):
 
         """
 
-        for d_str in description.split(","):
-            d_key, d_value = d_str.split(":")
+        if not description:
+            return run_obj
+
+        # the values can have commas and colons, so look for the names
+        keys = sorted(run_obj.data_logger.get_attribute_list(), key=len, reverse=True)
+        key_pattern = "|".join(re.escape(key) for key in keys)
+        parts = re.split(rf"(?:^|,)\s*({key_pattern})\s*:", description)
+        for d_key, d_value in zip(parts[1::2], parts[2::2]):
             d_value = d_value.strip()
             if not d_value in ["", "None", "null"]:
-                run_obj.update_attribute(
-                    f"data_logger.{d_key.strip()}", d_value.strip()
-                )
+                run_obj.update_attribute(f"data_logger.{d_key}", d_value)
 
         return run_obj
 
-- 
2.43.0


From 41449ac3fa4f35b27ccb813454892ed8d56af9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 040/143] fix: write valid dates to StationXML files

---
 .../stationxml/xml_inventory_mt_experiment.py | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 5145616..f17ec08 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -17,10 +17,11 @@ from copy import deepcopy
 from pathlib import Path
 
 from loguru import logger
-from obspy import read_inventory
+from obspy import read_inventory, UTCDateTime
 from obspy.core import inventory
 
 from mt_metadata import timeseries as metadata
+from mt_metadata.common.mttime import MTime
 from mt_metadata.timeseries.stationxml import (
     XMLChannelMTChannel,
     XMLNetworkMTSurvey,
@@ -175,9 +176,35 @@ class XMLInventoryMTExperiment:
         if stationxml_fn:
             if isinstance(stationxml_fn, Path):
                 stationxml_fn = stationxml_fn.as_posix()
+            self._set_utc_dates(xml_inventory)
             xml_inventory.write(stationxml_fn, "stationxml", nsmap=ns_dict)
         return xml_inventory
 
+    def _set_utc_dates(self, xml_inventory):
+        """
+        StationXML needs dates in the format of xs:dateTime, which is what
+        Obspy writes for :class:`obspy.UTCDateTime`
+
+        :param xml_inventory: inventory to be written, changed in place
+        :type xml_inventory: :class:`obspy.core.inventory.Inventory`
+
+        """
+        for xml_network in xml_inventory:
+            for item in [
+                xml_network,
+                *xml_network,
+                *[xml_channel for xml_station in xml_network for xml_channel in xml_station],
+            ]:
+                for key in [
+                    "start_date",
+                    "end_date",
+                    "creation_date",
+                    "termination_date",
+                ]:
+                    value = getattr(item, key, None)
+                    if value is not None:
+                        setattr(item, key, UTCDateTime(str(MTime(time_stamp=value))))
+
     def add_run(self, xml_station, mt_run, filters_dict):
         """
         Check to see if channel information already exists in the channel list of
-- 
2.43.0


From aa4f41fde2dd27a2fa80dd9f77fff0dc003d7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 041/143] fix: set the sample rate of a run read from
 StationXML

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index f17ec08..329939b 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -91,6 +91,8 @@ class XMLInventoryMTExperiment:
                             run_channel.time_period.start = mt_run.time_period.start
                             run_channel.time_period.end = mt_run.time_period.end
                             mt_run.add_channel(run_channel)
+                            if mt_run.sample_rate in [None, 0]:
+                                mt_run.sample_rate = run_channel.sample_rate
                     # if there are runs already try to match by start, end, sample_rate
                     # initialized runs have a sample rate of 0.  This could be an
                     # issue in the future.
-- 
2.43.0


From bf0cd6edebfbe1b9a9bb1911bfa26f6f70398038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 042/143] fix: a channel of a run with other filters is a new
 epoch in StationXML

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 329939b..d337ffc 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -322,4 +322,7 @@ class XMLInventoryMTExperiment:
                 f"{round(xml_channel_01.dip, 2)} != {round(xml_channel_02.dip, 2)}"
             )
             return False
+        if xml_channel_01.response != xml_channel_02.response:
+            self.logger.debug(f"response of {xml_channel_01.code} is different")
+            return False
         return True
-- 
2.43.0


From 4d9ac664cbc9e021dc0c89c177e14dce4675253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 043/143] fix: use the negative electrode in StationXML if the
 positive has no model

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 51d88f0..bd6a1df 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -321,12 +321,12 @@ class XMLChannelMTChannel(BaseTranslator):
             s.description = f"{mt_channel.dipole_length} meters"
             if mt_channel.positive.manufacturer:
                 s.manufacturer = mt_channel.positive.manufacturer
-            elif mt_channel.positive.manufacturer:
+            elif mt_channel.negative.manufacturer:
                 s.manufacturer = mt_channel.negative.manufacturer
 
             if mt_channel.positive.model:
                 s.model = mt_channel.positive.model
-            elif mt_channel.positive.model:
+            elif mt_channel.negative.model:
                 s.model = mt_channel.negative.model
 
             s.serial_number = (
-- 
2.43.0


From 925e360892ef1a5027c0d7e6ce398b64c1270cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 044/143] fix: DOI and station operator survive StationXML

---
 mt_metadata/timeseries/stationxml/utils.py     |  7 ++++++-
 .../stationxml/xml_network_mt_survey.py        |  5 ++++-
 .../stationxml/xml_station_mt_station.py       | 18 ++++++++++++------
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/utils.py b/mt_metadata/timeseries/stationxml/utils.py
index b00152d..2182085 100644
--- a/mt_metadata/timeseries/stationxml/utils.py
+++ b/mt_metadata/timeseries/stationxml/utils.py
@@ -169,7 +169,12 @@ class BaseTranslator:
 
         """
         return ", ".join(
-            [ii.strip().replace("DOI:", "https://doi.org/") for ii in identifiers]
+            [
+                ii.strip()
+                .replace("DOI:http", "http")
+                .replace("DOI:", "https://doi.org/")
+                for ii in identifiers
+            ]
         )
 
     def get_comment(self, comments, subject):
diff --git a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
index 25d9c6d..eddc3e5 100644
--- a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
+++ b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
@@ -100,6 +100,8 @@ class XMLNetworkMTSurvey(BaseTranslator):
                         "project_lead.organization", ", ".join(org)
                     )
             elif mt_key in ["citation_dataset.doi"]:
+                if not network.identifiers:
+                    continue
                 mt_survey.update_attribute(
                     mt_key, self.read_xml_identifier(network.identifiers)
                 )
@@ -195,7 +197,8 @@ class XMLNetworkMTSurvey(BaseTranslator):
                 ]
             elif inv_key == "identifiers":
                 doi = survey.get_attr_from_name(mt_key)
-                network.identifiers.append(f"DOI:{doi}")
+                if doi is not None:
+                    network.identifiers.append(f"DOI:{doi}")
             else:
                 setattr(network, inv_key, survey.get_attr_from_name(mt_key))
         comments = self.make_mt_comments(survey, mt_key_base="mt.survey")
diff --git a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
index 9740bfe..72fb1eb 100644
--- a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
+++ b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
@@ -159,6 +159,13 @@ class XMLStationMTStation(BaseTranslator):
 
                 mt_station.update_attribute(mt_key, value)
 
+        for operator in xml_station.operators[:1]:
+            if operator.agency and operator.agency.strip():
+                mt_station.acquired_by.organization = operator.agency
+            names = [name for person in operator.contacts for name in person.names]
+            if names:
+                mt_station.acquired_by.author = ", ".join(names)
+
         if mt_station.id is None:
             if mt_station.fdsn.id is not None:
                 mt_station.id = mt_station.fdsn.id
@@ -236,12 +243,11 @@ class XMLStationMTStation(BaseTranslator):
 
             elif xml_key == "operators":
                 if mt_station.acquired_by.author:
-                    if mt_station.acquired_by.organization is None:
-                        mt_station.acquired_by.organization = " "
-                    operator = inventory.Operator(
-                        agency=mt_station.acquired_by.organization
-                    )
-                    person = inventory.Person(names=[mt_station.acquired_by.author])
+                    # agency is required, so use a blank if there is none
+                    agency = mt_station.acquired_by.organization
+                    if agency is None:
+                        agency = " "
+                    operator = inventory.Operator(agency=agency)
                     person = inventory.Person(names=[mt_station.acquired_by.author])
                     operator.contacts = [person]
                     xml_station.operators = [operator]
-- 
2.43.0


From 3a3cf6c436637302b1f88cdfa91d4ef675adf7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 045/143] fix: negative tilt, text with colons and a missing
 network code in StationXML

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 3 ++-
 mt_metadata/timeseries/stationxml/xml_network_mt_survey.py  | 5 +++++
 mt_metadata/timeseries/stationxml/xml_station_mt_station.py | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index bd6a1df..e8d50a0 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -225,7 +225,8 @@ class XMLChannelMTChannel(BaseTranslator):
                 xml_channel.azimuth = mt_channel.measurement_azimuth % 360
 
             elif xml_key in ["dip"]:
-                xml_channel.dip = mt_channel.measurement_tilt % 360
+                # obspy only allows dips (-90, 90)
+                xml_channel.dip = (mt_channel.measurement_tilt + 180) % 360 - 180
 
             elif "time_period" in mt_key:
                 value = mt_channel.get_attr_from_name(mt_key).time_stamp
diff --git a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
index eddc3e5..db8fba3 100644
--- a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
+++ b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
@@ -108,6 +108,9 @@ class XMLNetworkMTSurvey(BaseTranslator):
             elif mt_key in ["comments"]:
                 for comment in network.comments:
                     key, value = self.read_xml_comment(comment)
+                    if isinstance(value, dict) and key.startswith("mt.survey."):
+                        # these are all text, which can have a colon
+                        value = comment.value
                     if "doi" in key:
                         # need to make a doi a proper web location.
                         if not value.startswith("http"):
@@ -199,6 +202,8 @@ class XMLNetworkMTSurvey(BaseTranslator):
                 doi = survey.get_attr_from_name(mt_key)
                 if doi is not None:
                     network.identifiers.append(f"DOI:{doi}")
+            elif inv_key == "code":
+                network.code = survey.get_attr_from_name(mt_key) or code
             else:
                 setattr(network, inv_key, survey.get_attr_from_name(mt_key))
         comments = self.make_mt_comments(survey, mt_key_base="mt.survey")
diff --git a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
index 72fb1eb..ee40d07 100644
--- a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
+++ b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
@@ -124,6 +124,9 @@ class XMLStationMTStation(BaseTranslator):
             if "mt.run" in key:
                 run_comments.append({key: value})
                 continue
+            if isinstance(value, dict) and key.startswith("mt.station."):
+                # these are all text, which can have a colon
+                value = comment.value
 
             try:
                 key = key.split("mt.station.")[1]
-- 
2.43.0


From 8cfb6e00b17dfe790ad0845f74550b711e677282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 046/143] fix: read run comments without a colon, and of runs
 with upper case ids, from StationXML

---
 .../timeseries/stationxml/xml_station_mt_station.py       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
index ee40d07..e42ce0e 100644
--- a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
+++ b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
@@ -122,6 +122,8 @@ class XMLStationMTStation(BaseTranslator):
         for comment in xml_station.comments:
             key, value = self.read_xml_comment(comment)
             if "mt.run" in key:
+                # the run id can have upper case letters
+                key = comment.subject.strip().replace(" ", "_")
                 run_comments.append({key: value})
                 continue
             if isinstance(value, dict) and key.startswith("mt.station."):
@@ -387,5 +389,11 @@ class XMLStationMTStation(BaseTranslator):
                                 )
                         else:
                             station_obj.runs[run_index].update_attribute(ckey, cvalue)
+                elif run_attr == "comments" and rvalue:
+                    run_comment = station_obj.runs[run_index].comments
+                    if run_comment.value:
+                        run_comment.value += f", {rvalue}"
+                    else:
+                        run_comment.value = rvalue
 
         return station_obj
-- 
2.43.0


From 38601e8284ff934ffa5017a9fc93b383646af55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 047/143] fix: model errors of a transfer function can be set
 at once

---
 mt_metadata/transfer_functions/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 098d36f..8894836 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -622,6 +622,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.hx_hy,
             "tf_error": self.hx_hy,
+            "tf_model_error": self.hx_hy,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -638,6 +639,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.ex_ey_hz,
             "tf_error": self.ex_ey_hz,
+            "tf_model_error": self.ex_ey_hz,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -771,6 +773,7 @@ class TF:
             "transfer_function_error": (3, 2),
             "tf": (3, 2),
             "tf_error": (3, 2),
+            "tf_model_error": (3, 2),
         }
 
         shape = shape_dict[atype]
-- 
2.43.0


From 11b3ffe531dbf8b6d106b27360e94e9082e4270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 048/143] fix: a TF made with periods and channel nomenclature
 uses its channel names

---
 mt_metadata/transfer_functions/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 8894836..2637205 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -87,6 +87,10 @@ class TF:
             "avg": {"write": self.to_avg, "read": self.from_avg},
         }
 
+        # the names of the channels are needed to make the transfer function
+        if "channel_nomenclature" in kwargs:
+            self.channel_nomenclature = kwargs.pop("channel_nomenclature")
+
         tf_set = False
         try:
             period = kwargs.pop("period")
-- 
2.43.0


From 654d1120ae2f114984d18690d0d8db42f198e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 049/143] fix: a TF is not equal to an object of another type

---
 mt_metadata/transfer_functions/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 2637205..bc1999b 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -184,7 +184,7 @@ class TF:
         is_equal = True
         if not isinstance(other, TF):
             logger.info(f"Comparing object is not TF, type {type(other)}")
-            is_equal = False
+            return False
         if self.station_metadata != other.station_metadata:
             logger.info("Station metadata is not equal")
             is_equal = False
-- 
2.43.0


From 7f100a645d6f6729cdbbabc37827c6567ca7167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 050/143] fix: a TF that is not sorted by period can be merged

---
 mt_metadata/transfer_functions/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index bc1999b..4c962c0 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1864,7 +1864,10 @@ class TF:
                     )
 
         period_slice_self = get_slice_dict(period_min, period_max)
-        tf_list = [get_slice(self, period_slice_self)]
+        # need to be sorted like the others
+        tf_self = self.copy()
+        tf_self._transfer_function = is_tf(self)
+        tf_list = [get_slice(tf_self, period_slice_self)]
         if not isinstance(other, list):
             other = [other]
 
-- 
2.43.0


From c61553690b4ae913dec7be4e8685b04e13104f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 051/143] fix: setting the period of a TF with data at 1 s
 keeps the data

---
 mt_metadata/transfer_functions/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 4c962c0..00920e3 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1563,7 +1563,11 @@ class TF:
             If the new periods are not compatible with the existing ones.
         """
         if self.period is not None:
-            if len(self.period) == 1 and (self.period == np.array([1])).all():
+            if (
+                len(self.period) == 1
+                and (self.period == np.array([1])).all()
+                and not self.has_transfer_function()
+            ):
                 self._transfer_function = self._initialize_transfer_function(
                     periods=value
                 )
-- 
2.43.0


From d4e54d7f7e66a172c7b06e214637e63e7db39ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 052/143] fix: setting the impedance of a TF of one period
 keeps errors set before

---
 mt_metadata/transfer_functions/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 00920e3..ae97873 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -843,6 +843,7 @@ class TF:
             self._transfer_function.transfer_function.data.shape[0] == 1
             and not self.has_tipper()
             and not self.has_impedance()
+            and not np.array_equal(self._transfer_function.period, da.period)
         ):
             self._transfer_function = self._initialize_transfer_function(da.period)
             return da
-- 
2.43.0


From 7db11a173cde5bce47651009e412c25752b0b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 053/143] fix: read the declination that EDI files are written
 with

---
 mt_metadata/transfer_functions/io/edi/metadata/header.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/header.py b/mt_metadata/transfer_functions/io/edi/metadata/header.py
index a9cdd47..34f809b 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/header.py
@@ -420,6 +420,9 @@ class Header(BasicLocation, GeographicLocation):
             if key == "declination":
                 setattr(self.declination, "value", value)
                 continue
+            elif key.startswith("declination."):
+                self.update_attribute(key, value)
+                continue
             elif key in ["long", "lon", "lonigutde"]:
                 key = "longitude"
             elif key in ["lat", "latitude"]:
-- 
2.43.0


From 38a12f21bf60b11defc5ebb95b95d7c5b41cfc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 054/143] fix: EDI files of one frequency can be read

---
 mt_metadata/transfer_functions/io/edi/edi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e0f9d26..90b73a6 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -250,7 +250,7 @@ class EDI:
         frequency.
 
         """
-        if self.frequency is not None:
+        if self.frequency is not None and len(self.frequency) > 1:
             if self.frequency[0] < self.frequency[1]:
                 self.logger.debug(
                     "Ordered arrays to be arranged from high to low frequency"
-- 
2.43.0


From a0fe96e9c12a8ed8cc6916aa6939752b8e604c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 055/143] fix: rotation angles of an EDI file with ascending
 frequencies keep their frequencies

---
 mt_metadata/transfer_functions/io/edi/edi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 90b73a6..5283034 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -264,6 +264,8 @@ class EDI:
                     self.t = self.t[::-1]
                 if self.t_err is not None:
                     self.t_err = self.t_err[::-1]
+                if self.rotation_angle is not None:
+                    self.rotation_angle = self.rotation_angle[::-1]
 
     def read(self, fn: str | Path | None = None, get_elevation: bool = False) -> None:
         """
@@ -446,9 +448,6 @@ class EDI:
                         ) * np.sqrt(data_dict[key] * (self.frequency * 5))
             except KeyError as error:
                 self.logger.debug(error)
-        # check for order of frequency, we want high togit  low
-        self._assert_descending_frequency()
-
         try:
             self.rotation_angle = np.array(data_dict["zrot"])
         except KeyError:
@@ -457,6 +456,9 @@ class EDI:
             except KeyError:
                 self.rotation_angle = np.zeros_like(self.frequency)
 
+        # check for order of frequency, we want high togit  low
+        self._assert_descending_frequency()
+
     def _read_spectra(
         self,
         data_lines: list[str],
-- 
2.43.0


From c6c862c7d12a0b1a8c9d3ea0a9bae35d9916e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 056/143] fix: read apparent resistivity and phase beyond the
 first quadrants from EDI

---
 mt_metadata/transfer_functions/io/edi/edi.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 5283034..c68bf28 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -433,16 +433,15 @@ class EDI:
                     self.logger.debug("Reading RHO and PHS to compute impedance")
                     if (self.z[:, ii, jj] == 0).all():
                         phase = data_dict[f"phs{key[-2:]}"]
-                        z_real = np.sqrt(
-                            (5 * self.frequency * data_dict[key])
-                            / (np.tan(np.deg2rad(phase)) ** 2 + 1)
-                        )
-                        z_imag = (np.tan(np.deg2rad(phase))) * z_real
-                        if ii == 1 and jj == 0:
-                            if phase.mean() < 90 and phase.mean() > 0:
-                                obj[:, ii, jj] = -1 * (z_real + 1j * z_imag)
+                        z_abs = np.sqrt(5 * self.frequency * data_dict[key])
+                        phase_rad = np.deg2rad(phase)
+                        if ii == 1 and jj == 0 and 0 < phase.mean() < 90:
+                            # phase is given in the first quadrant
+                            z_real = z_abs * np.abs(np.cos(phase_rad))
+                            z_imag = np.tan(phase_rad) * z_real
+                            obj[:, ii, jj] = -1 * (z_real + 1j * z_imag)
                         else:
-                            obj[:, ii, jj] = z_real + 1j * z_imag
+                            obj[:, ii, jj] = z_abs * np.exp(1j * phase_rad)
                         error_obj[:, ii, jj] = np.deg2rad(
                             data_dict[f"phs{key[-2:]}.err"]
                         ) * np.sqrt(data_dict[key] * (self.frequency * 5))
-- 
2.43.0


From f082156a1d690fc757e54c4dd3534a6f5b84edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 057/143] fix: impedance from EDI spectra without a vertical
 magnetic channel

---
 mt_metadata/transfer_functions/io/edi/edi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index c68bf28..920465b 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -620,11 +620,11 @@ class EDI:
                 re[0, 0] = s_arr[cc.rhx, cc.ex]
                 re[0, 1] = s_arr[cc.rhx, cc.ey]
                 re[1, 0] = s_arr[cc.rhy, cc.ex]
-                re[1, 0] = s_arr[cc.rhy, cc.ey]
+                re[1, 1] = s_arr[cc.rhy, cc.ey]
 
                 he[0, 0] = s_arr[cc.hx, cc.ex]
                 he[0, 1] = s_arr[cc.hx, cc.ey]
-                he[0, 1] = s_arr[cc.hy, cc.ex]
+                he[1, 0] = s_arr[cc.hy, cc.ex]
                 he[1, 1] = s_arr[cc.hy, cc.ey]
 
                 ee[0, 0] = s_arr[cc.ex, cc.ex]
-- 
2.43.0


From 0c7faca6bf7b674e7a78799951f34c06b6cbdb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 058/143] fix: read more than one remote reference from EDI

---
 mt_metadata/transfer_functions/io/edi/edi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 920465b..48d51cb 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1104,7 +1104,9 @@ class EDI:
                         if isinstance(value, list):
                             sm.transfer_function.remote_references.extend(value)
                         elif isinstance(value, str):
-                            sm.transfer_function.remote_references.append(value)
+                            sm.transfer_function.remote_references.extend(
+                                [v.strip() for v in value.split(",")]
+                            )
                         elif isinstance(value, (int, float)):
                             sm.transfer_function.remote_references.append(value)
                         else:
-- 
2.43.0


From bf135b09790d93ffef28b5eafdd9cd116fce44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 059/143] fix: EDI files of channels without filters can be
 read

---
 mt_metadata/transfer_functions/io/edi/edi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 48d51cb..805206a 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1349,6 +1349,8 @@ class EDI:
                     continue
                 elif ".type" in key:
                     continue
+                elif value in NULL_VALUES:
+                    continue
                 if f".{comp}." in key:
                     key = key.split(f".{comp}.", 1)[-1]
                     electric.update_attribute(key, value)
-- 
2.43.0


From 3d42033f7069d9486e6b0692efa8a30cb5931e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 060/143] fix: the model of the declination is kept in EDI
 metadata

---
 mt_metadata/transfer_functions/io/edi/edi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 805206a..2646755 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1038,6 +1038,7 @@ class EDI:
         sm.location.elevation = self.elev
         sm.location.datum = self.Header.datum
         sm.location.declination.value = self.Header.declination.value
+        sm.location.declination.model = self.Header.declination.model
         sm.orientation.reference_frame = self.Header.coordinate_system.split()[0]
         if self.Header.loc is not None:
             sm.geographic_name = self.Header.loc
-- 
2.43.0


From 5efb9c665577b756f1660b9f9bb98d5f06daacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 061/143] fix: read the runs processed from EDI

---
 mt_metadata/transfer_functions/io/edi/edi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 2646755..18143e7 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1116,7 +1116,9 @@ class EDI:
                             )
                             continue
                 elif "runs_processed" in key:
-                    sm.run_list = sm.transfer_function.runs_processed
+                    if isinstance(value, str):
+                        value = [v.strip() for v in value.split(",")]
+                    sm.transfer_function.runs_processed = value
                 else:
                     sm.transfer_function.update_attribute(key, value)
 
-- 
2.43.0


From ab548d84b31e6eda7732f7b7d36085e2c1f838c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 062/143] fix: errors and covariances of rotated ZMM files,
 channels that are not orthogonal

---
 .../transfer_functions/io/zfiles/zmm.py       | 118 +++++++++++-------
 1 file changed, 76 insertions(+), 42 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index ac5ed6b..097a792 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -890,17 +890,72 @@ class ZMM(ZMMHeader):
             self.dataset.transfer_function_error.loc[
                 dict(input=self._hx_hy, output=[self._hz])
             ] = tipper_err
+            # errors are estimated from the covariances, which have to be in the
+            # same coordinates
+            _, sigma_s, sigma_e = self._rotate_to_axes(angle=angle)
         else:
+            sigma_s, sigma_e = self.sigma_s, self.sigma_e
             self.dataset.transfer_function.loc[
                 dict(input=self.input_channels, output=self.output_channels)
             ] = self.transfer_functions
 
         self.dataset.inverse_signal_power.loc[
             dict(input=self.input_channels, output=self.input_channels)
-        ] = self.sigma_s
+        ] = sigma_s
         self.dataset.residual_covariance.loc[
             dict(input=self.output_channels, output=self.output_channels)
-        ] = self.sigma_e
+        ] = sigma_e
+
+    def _rotate_to_axes(self, angle: float = 0.0) -> tuple[
+        np.typing.NDArray[np.complex64],
+        np.typing.NDArray[np.complex64],
+        np.typing.NDArray[np.complex64],
+    ]:
+        """
+        Rotate the transfer functions and covariances from the azimuths of the
+        channels to orthogonal axes x and y.
+
+        Parameters
+        ----------
+        angle : float, optional
+            Azimuth of the x axis.
+
+        Returns
+        -------
+        tuple
+            rotated transfer functions, inverse signal power and residual
+            covariance
+
+        """
+
+        # measured horizontal magnetic field as function of the field along the axes
+        u = np.eye(2, 2)
+        hx_index = self.hx.index
+        hy_index = self.hy.index
+        if self.hx.azimuth != self.hy.azimuth:
+            u[hx_index, hx_index] = np.cos(np.deg2rad(self.hx.azimuth - angle))
+            u[hx_index, hy_index] = np.sin(np.deg2rad(self.hx.azimuth - angle))
+            u[hy_index, hx_index] = np.cos(np.deg2rad(self.hy.azimuth - angle))
+            u[hy_index, hy_index] = np.sin(np.deg2rad(self.hy.azimuth - angle))
+
+        # measured electric field as function of the field along the axes, the
+        # vertical magnetic field does not change (assuming no tilt in Hz)
+        v = np.eye(self.transfer_functions.shape[1], self.transfer_functions.shape[1])
+        if self.ex is not None and self.ey is not None:
+            if self.ex.azimuth != self.ey.azimuth:
+                ex_index = self.ex.index - 2
+                ey_index = self.ey.index - 2
+                v[ex_index, ex_index] = np.cos(np.deg2rad(self.ex.azimuth - angle))
+                v[ex_index, ey_index] = np.sin(np.deg2rad(self.ex.azimuth - angle))
+                v[ey_index, ex_index] = np.cos(np.deg2rad(self.ey.azimuth - angle))
+                v[ey_index, ey_index] = np.sin(np.deg2rad(self.ey.azimuth - angle))
+        v = np.linalg.inv(v)
+
+        return (
+            np.matmul(v, np.matmul(self.transfer_functions, u)),
+            np.matmul(u.T, np.matmul(self.sigma_s, u)),
+            np.matmul(v, np.matmul(self.sigma_e, v.T)),
+        )
 
     def calculate_impedance(
         self, angle: float = 0.0
@@ -963,32 +1018,15 @@ class ZMM(ZMMHeader):
             logger.critical(msg)
             return None, None
 
-        # build transformation matrix for predictor channels
-
+        (
+            rotated_transfer_functions,
+            rotated_sigma_s,
+            rotated_sigma_e,
+        ) = self._rotate_to_axes(angle)
         hx_index = self.hx.index
         hy_index = self.hy.index
-        u = np.eye(2, 2)
-        u[hx_index, hx_index] = np.cos(np.deg2rad(self.hx.azimuth - angle))
-        u[hx_index, hy_index] = np.sin(np.deg2rad(self.hx.azimuth - angle))
-        u[hy_index, hx_index] = np.cos(np.deg2rad(self.hy.azimuth - angle))
-        u[hy_index, hy_index] = np.sin(np.deg2rad(self.hy.azimuth - angle))
-        u = np.linalg.inv(u)
-
-        # build transformation matrix for predicted channels (electric fields)
         ex_index = self.ex.index
         ey_index = self.ey.index
-        v = np.eye(self.transfer_functions.shape[1], self.transfer_functions.shape[1])
-        v[ex_index - 2, ex_index - 2] = np.cos(np.deg2rad(self.ex.azimuth - angle))
-        v[ey_index - 2, ex_index - 2] = np.sin(np.deg2rad(self.ex.azimuth - angle))
-        v[ex_index - 2, ey_index - 2] = np.cos(np.deg2rad(self.ey.azimuth - angle))
-        v[ey_index - 2, ey_index - 2] = np.sin(np.deg2rad(self.ey.azimuth - angle))
-
-        # matrix multiplication...
-        rotated_transfer_functions = np.matmul(
-            v, np.matmul(self.transfer_functions, u.T)
-        )
-        rotated_sigma_s = np.matmul(u, np.matmul(self.sigma_s, u.T))
-        rotated_sigma_e = np.matmul(v, np.matmul(self.sigma_e, v.T))
 
         # now pull out the impedance tensor
         z = np.zeros((self.num_freq, 2, 2), dtype=np.complex64)
@@ -1048,27 +1086,23 @@ class ZMM(ZMMHeader):
             return None, None
 
         # transform the TFs first...
-        # build transformation matrix for predictor channels
-        #    (horizontal magnetic fields)
+        if self.hx.azimuth == self.hy.azimuth:
+            msg = (
+                "Cannot rotate tipper because Hx and Hy have "
+                f"the same azimuth. {self.hx.azimuth}. Check channel "
+                f"metadata in {self.fn}. Returning None."
+            )
+            logger.critical(msg)
+            return None, None
+
+        (
+            rotated_transfer_functions,
+            rotated_sigma_s,
+            rotated_sigma_e,
+        ) = self._rotate_to_axes(angle)
         hx_index = self.hx.index
         hy_index = self.hy.index
-        u = np.eye(2, 2)
-        u[hx_index, hx_index] = np.cos(np.deg2rad(self.hx.azimuth - angle))
-        u[hx_index, hy_index] = np.sin(np.deg2rad(self.hx.azimuth - angle))
-        u[hy_index, hx_index] = np.cos(np.deg2rad(self.hy.azimuth - angle))
-        u[hy_index, hy_index] = np.sin(np.deg2rad(self.hy.azimuth - angle))
-        u = np.linalg.inv(u)
-
-        # don't need to transform predicated channels (assuming no tilt in Hz)
         hz_index = self.hz.index
-        v = np.eye(self.transfer_functions.shape[1], self.transfer_functions.shape[1])
-
-        # matrix multiplication...
-        rotated_transfer_functions = np.matmul(
-            v, np.matmul(self.transfer_functions, u.T)
-        )
-        rotated_sigma_s = np.matmul(u, np.matmul(self.sigma_s, u.T))
-        rotated_sigma_e = np.matmul(v, np.matmul(self.sigma_e, v.T))
 
         # now pull out tipper information
         tipper = np.zeros((self.num_freq, 2), dtype=np.complex64)
-- 
2.43.0


From 66a436a6a39420629c3dd548c44d874ac7663d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 063/143] fix: ZMM files of rotated transfer functions are
 written along the axes they are rotated to

---
 mt_metadata/transfer_functions/core.py          | 3 +++
 mt_metadata/transfer_functions/io/zfiles/zmm.py | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index ae97873..3b2d86a 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2411,6 +2411,9 @@ class TF:
                 c = ZChannel()
                 c.from_dict(ch.to_dict(single=True))
                 ch.component = comp
+                # the transfer function may be along other axes than measured
+                if ch.translated_azimuth is not None:
+                    c.azimuth = ch.translated_azimuth
                 try:
                     c.number = number_dict[c.channel]
                     setattr(zmm_obj, c.channel, c)
diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index 097a792..c80a797 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -624,6 +624,13 @@ class ZMM(ZMMHeader):
             np.array([d["sample_rate"] for k, d in self.decimation_dict.items()])
         )
 
+        if rotate_to_measurement_coordinates:
+            # axes of the rotated transfer functions
+            for comp, azimuth in zip(["hx", "hy", "ex", "ey"], [0.0, 90.0] * 2):
+                ch = self.station_metadata.runs[0].get_channel(comp)
+                if ch is not None:
+                    ch.translated_azimuth = azimuth
+
         # add information to runs
         for rr in self.station_metadata.runs:
             if self.transfer_functions.shape[1] >= 2:
-- 
2.43.0


From f8944fa9c6da9e6aabb2514ab9a23dadc14829f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 064/143] fix: ZMM files of channels without azimuths can be
 read

---
 mt_metadata/transfer_functions/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 3b2d86a..6fa1397 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2419,6 +2419,12 @@ class TF:
                     setattr(zmm_obj, c.channel, c)
                 except KeyError:
                     logger.debug(f"Could not find channel {c.channel}")
+        # without azimuths assume orthogonal channels, the file can not be read if
+        # they are along the same axis
+        for x, y in [("hx", "hy"), ("ex", "ey")]:
+            c_x, c_y = getattr(zmm_obj, x), getattr(zmm_obj, y)
+            if c_x is not None and c_y is not None and c_x.azimuth == c_y.azimuth:
+                c_y.azimuth = c_x.azimuth + 90.0
         zmm_obj.survey_metadata.update(self.survey_metadata)
         zmm_obj.num_freq = self.period.size
 
-- 
2.43.0


From ab81f85c7c5135fb18524590cecd26e861aba9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 065/143] fix: EMTF XML files written can be read (values of
 vocabularies)

---
 mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
index 3703df0..9b29a45 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
@@ -9,6 +9,7 @@ Created on Wed Mar  8 19:53:04 2023
 # Imports
 # =============================================================================
 from collections import OrderedDict
+from enum import Enum
 from xml.etree import cElementTree as et
 
 from loguru import logger
@@ -117,6 +118,8 @@ def _write_single(
 
     element = et.SubElement(parent, _capwords(key), attributes)
     if value not in NULL_VALUES:
+        if isinstance(value, Enum):
+            value = value.value
         element.text = str(value)
     return element
 
-- 
2.43.0


From 60ab545a638bbae2d73f6c2b38714a8bb5b0b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 066/143] fix: EMTF XML files with empty elements, and field
 notes without errors, can be read

---
 .../transfer_functions/io/emtfxml/emtfxml.py  |  1 +
 .../io/emtfxml/metadata/helpers.py            | 26 +++++++++++++++++++
 .../io/emtfxml/metadata/run.py                | 12 ++++-----
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index fa0566c..e8b494a 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -331,6 +331,7 @@ class EMTFXML:
         root_dict = helpers.element_to_dict(root)
         root_dict = root_dict[list(root_dict.keys())[0]]
         root_dict = emtf_helpers._convert_keys_to_lower_case(root_dict)
+        root_dict = emtf_helpers._remove_empty_elements(root_dict)
         self._root_dict = root_dict
 
         for element in self.element_keys:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
index 9b29a45..aa32990 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
@@ -176,6 +176,32 @@ def _convert_keys_to_lower_case(root_dict: dict) -> OrderedDict:
     return res
 
 
+def _remove_empty_elements(root_dict: dict) -> OrderedDict:
+    """
+    Remove empty elements, which are the same as missing elements, from a dictionary.
+
+    Parameters
+    ----------
+    root_dict : dict
+        The dictionary read from an XML element.
+
+    Returns
+    -------
+    OrderedDict
+        The dictionary without values that are None.
+    """
+
+    if isinstance(root_dict, (dict, OrderedDict)):
+        return OrderedDict(
+            (key, _remove_empty_elements(value))
+            for key, value in root_dict.items()
+            if value is not None
+        )
+    elif isinstance(root_dict, list):
+        return [_remove_empty_elements(item) for item in root_dict if item is not None]
+    return root_dict
+
+
 def _remove_null_values(element: et.Element, replace: str = "") -> et.Element:
     """
     Remove null values from an XML element.
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
index 821d31d..089535a 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
@@ -169,11 +169,11 @@ class Run(MetadataBase):
 
         """
 
-        self.run = input_dict["run"]
-        self.instrument.from_dict({"instrument": input_dict["instrument"]})
-        self.sampling_rate = input_dict["sampling_rate"]
-        self.start = input_dict["start"]
-        self.end = input_dict["end"]
+        for key in ["run", "sampling_rate", "start", "end", "errors"]:
+            if input_dict.get(key) is not None:
+                setattr(self, key, input_dict[key])
+        if input_dict.get("instrument") is not None:
+            self.instrument.from_dict({"instrument": input_dict["instrument"]})
         try:
             if isinstance(input_dict["comments"], list):
                 self.comments.from_dict({"comments": input_dict["comments"][0]})
@@ -181,8 +181,6 @@ class Run(MetadataBase):
                 self.comments.from_dict({"comments": input_dict["comments"]})
         except KeyError:
             logger.debug("run has no comments")
-        self.errors = input_dict["errors"]
-
         try:
             if isinstance(input_dict["magnetometer"], list):
                 self.magnetometer = []
-- 
2.43.0


From 6c72f4b4bae58a6e189986a5bac800de320a7014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 067/143] fix: EMTF XML files of one period can be read

---
 .../transfer_functions/io/emtfxml/metadata/data.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index dcfa9d9..a6dd585 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -352,13 +352,17 @@ class TransferFunction(MetadataBase):
         """
         if self._skip_derived_data:
             logger.debug("Skipping derived quantities.")
+        blocks = root_dict["data"]["period"]
+        # a single period is not in a list
+        if not isinstance(blocks, list):
+            blocks = [blocks]
         try:
             n_periods = int(float((root_dict["data"]["count"].strip())))
         except KeyError:
-            n_periods = len(root_dict["data"]["period"])
+            n_periods = len(blocks)
 
         self.initialize_arrays(n_periods)
-        for ii, block in enumerate(root_dict["data"]["period"]):
+        for ii, block in enumerate(blocks):
             self.period[ii] = float(block["value"])  # type: ignore[assignment]
             self.read_block(block, ii)
 
-- 
2.43.0


From fccf08d1b22762f7d55f18df018f4ce6bbf38ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 068/143] fix: EMTF XML files without sampling rates keep their
 channels

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index e8b494a..36707eb 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1137,7 +1137,7 @@ class EMTFXML:
                 c.time_period.end = fn.end
             s.add_run(r)
 
-        if self.field_notes._run_list == []:
+        if len(s.runs) == 0:
             r = Run(id=f"{s.id}a")
             r.channels_recorded_electric = ["ex", "ey"]
             if (self.data.t == 0).all():
@@ -1149,6 +1149,13 @@ class EMTFXML:
                 self.site_layout.input_channels + self.site_layout.output_channels
             ):
                 c = r.get_channel(ch.name.lower())
+                if c is None:
+                    if ch.name.lower() in ["ex", "ey"]:
+                        c = Electric(component=ch.name.lower())
+                    else:
+                        c = Magnetic(component=ch.name.lower())
+                    r.add_channel(c)
+                    c = r.get_channel(ch.name.lower())
                 if c.component in r.channels_recorded_magnetic:
                     c.location.x = ch.x
                     c.location.y = ch.y
-- 
2.43.0


From e6fb469cf246a028af456ba95a84d3cf06c54296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 069/143] fix: covariances of EMTF XML files without tipper or
 impedance

---
 mt_metadata/transfer_functions/core.py | 51 ++++++++++++++------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 6fa1397..0200e27 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2184,32 +2184,35 @@ class TF:
         tags = []
 
         emtf.data.period = self.period
+        has_covariance = (
+            self.has_residual_covariance() and self.has_inverse_signal_power()
+        )
 
         if self.has_impedance():
             tags += ["impedance"]
             emtf.data.z = self.impedance.data
             emtf.data.z_var = self.impedance_error.data**2
-        if self.has_residual_covariance() and self.has_inverse_signal_power():
-            emtf.data.z_invsigcov = self.inverse_signal_power.loc[
-                dict(input=self.hx_hy, output=self.hx_hy)
-            ].data
-            emtf.data.z_residcov = self.residual_covariance.loc[
-                dict(input=self.ex_ey, output=self.ex_ey)
-            ].data
+            if has_covariance:
+                emtf.data.z_invsigcov = self.inverse_signal_power.loc[
+                    dict(input=self.hx_hy, output=self.hx_hy)
+                ].data
+                emtf.data.z_residcov = self.residual_covariance.loc[
+                    dict(input=self.ex_ey, output=self.ex_ey)
+                ].data
         if self.has_tipper():
             tags += ["tipper"]
             emtf.data.t = self.tipper.data
             emtf.data.t_var = self.tipper_error.data**2
-        if self.has_residual_covariance() and self.has_inverse_signal_power():
-            emtf.data.t_invsigcov = self.inverse_signal_power.loc[
-                dict(input=self.hx_hy, output=self.hx_hy)
-            ].data
-            emtf.data.t_residcov = self.residual_covariance.loc[
-                dict(
-                    input=[self.channel_nomenclature["hz"]],
-                    output=[self.channel_nomenclature["hz"]],
-                )
-            ].data
+            if has_covariance:
+                emtf.data.t_invsigcov = self.inverse_signal_power.loc[
+                    dict(input=self.hx_hy, output=self.hx_hy)
+                ].data
+                emtf.data.t_residcov = self.residual_covariance.loc[
+                    dict(
+                        input=[self.channel_nomenclature["hz"]],
+                        output=[self.channel_nomenclature["hz"]],
+                    )
+                ].data
         emtf.tags = ", ".join(tags)
         emtf.period_range.min = emtf.data.period.min()
         emtf.period_range.max = emtf.data.period.max()
@@ -2255,19 +2258,21 @@ class TF:
         with np.errstate(invalid="ignore"):
             self.impedance_error = np.sqrt(np.where(z_var >= 0, z_var, np.nan))
         self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
+            dict(input=self.hx_hy, output=self.hx_hy)
         ] = emtfxml_obj.data.z_invsigcov
         self._transfer_function.residual_covariance.loc[
-            dict(input=["ex", "ey"], output=["ex", "ey"])
+            dict(input=self.ex_ey, output=self.ex_ey)
         ] = emtfxml_obj.data.z_residcov
 
         self.tipper = emtfxml_obj.data.t
         self.tipper_error = np.sqrt(emtfxml_obj.data.t_var)
-        self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
-        ] = emtfxml_obj.data.t_invsigcov
+        # only there if there is a tipper
+        if np.any(emtfxml_obj.data.t_invsigcov != 0):
+            self._transfer_function.inverse_signal_power.loc[
+                dict(input=self.hx_hy, output=self.hx_hy)
+            ] = emtfxml_obj.data.t_invsigcov
         self._transfer_function.residual_covariance.loc[
-            dict(input=["hz"], output=["hz"])
+            dict(input=[self.hz], output=[self.hz])
         ] = emtfxml_obj.data.t_residcov
 
     def to_jfile(self) -> None:
-- 
2.43.0


From 0ba10a6a4c7b28c365e2d197bd4919bbfa1f16ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 070/143] fix: estimates that are missing are not written as
 fill values to EMTF XML

---
 .../io/emtfxml/metadata/data.py                | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index a6dd585..a9f5b32 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -366,12 +366,18 @@ class TransferFunction(MetadataBase):
             self.period[ii] = float(block["value"])  # type: ignore[assignment]
             self.read_block(block, ii)
 
-    def write_block(self, parent: et.Element, index: int) -> et.Element:
+    def write_block(
+        self, parent: et.Element, index: int, skip: list | tuple = ()
+    ) -> et.Element:
         """
         Write a data block
 
         :param parent: DESCRIPTION
         :type parent: TYPE
+        :param index: index of the period
+        :type index: int
+        :param skip: keys of the arrays that are not written
+        :type skip: list | tuple
         :return: DESCRIPTION
         :rtype: TYPE
 
@@ -384,7 +390,7 @@ class TransferFunction(MetadataBase):
         )
 
         for key in self.array_dict.keys():
-            if self.array_dict[key] is None:
+            if self.array_dict[key] is None or key in skip:
                 continue
             if self.array_dict[key].size == 0:
                 logger.debug(f"No data for {key}, skipping.")
@@ -442,8 +448,14 @@ class TransferFunction(MetadataBase):
         """
         root = et.Element("Data", {"count": f"{self.n_periods:.0f}"})
 
+        # arrays without any value are not there, they would be written as fill values
+        skip = [
+            key
+            for key, value in self.array_dict.items()
+            if value is not None and not np.any(value != 0)
+        ]
         for index in range(self.period.size):  # type: ignore[attribute-error]
-            self.write_block(root, index)
+            self.write_block(root, index, skip=skip)
 
         if string:
             return element_to_string(root)
-- 
2.43.0


From 06de15112a475c9e60a0c138eac0dd325a0e9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 071/143] fix: EMTF XML files without attachment, with
 ampersands, and surveys without names, can be read

---
 .../transfer_functions/io/emtfxml/emtfxml.py  | 53 +++++++------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 36707eb..b2ccbdd 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -14,6 +14,7 @@ Created on Sat Sep  4 17:59:53 2021
 # Imports
 # =============================================================================
 import inspect
+import re
 from enum import Enum
 from pathlib import Path
 from xml.etree import cElementTree as et
@@ -322,7 +323,8 @@ class EMTFXML:
 
         with open(file=self.fn, mode="r", encoding="utf-8") as xml_fid:
             xml_string = xml_fid.read()
-            xml_string = xml_string.replace("&", "and")
+            # an ampersand that is not the start of an entity is not valid XML
+            xml_string = re.sub(r"&(?!#?\w+;)", "and", xml_string)
             root = et.fromstring(
                 xml_string,
                 et.XMLParser(encoding="utf-8"),
@@ -337,6 +339,9 @@ class EMTFXML:
         for element in self.element_keys:
             attr = getattr(self, element)
             if hasattr(attr, "read_dict"):
+                if element not in root_dict:
+                    logger.debug(f"no {element} in xml")
+                    continue
                 attr.read_dict(root_dict)
             else:
                 emtf_helpers._read_single(self, root_dict, element)
@@ -422,38 +427,18 @@ class EMTFXML:
 
         """
         self.statistical_estimates.estimates_list = []
-        if self.data.z_var is not None:
-            if not np.all(self.data.z_var == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["variance"]
-                )
-        elif self.data.t_var is not None:
-            if not np.all(self.data.t_var == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["variance"]
-                )
-
-        if self.data.z_invsigcov is not None:
-            if not np.all(self.data.z_invsigcov == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["inverse_signal_power"]
-                )
-        elif self.data.t_invsigcov is not None:
-            if not np.all(self.data.t_invsigcov == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["inverse_signal_power"]
-                )
-
-        if self.data.z_residcov is not None:
-            if not np.all(self.data.z_residcov == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["residual_covariance"]
-                )
-        elif self.data.t_residcov is not None:
-            if not np.all(self.data.t_residcov == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["residual_covariance"]
-                )
+        for name, estimate in [
+            ("var", "variance"),
+            ("invsigcov", "inverse_signal_power"),
+            ("residcov", "residual_covariance"),
+        ]:
+            for component in ["z", "t"]:
+                values = getattr(self.data, f"{component}_{name}")
+                if values is not None and not np.all(values == 0.0):
+                    self.statistical_estimates.estimates_list.append(
+                        estimates_dict[estimate]
+                    )
+                    break
 
     def _get_data_types(self):
         """
@@ -869,7 +854,7 @@ class EMTFXML:
         """
         self.description = sm.summary
         self.site.project = sm.project
-        if sm.geographic_name is None:
+        if sm.geographic_name in NULL_VALUES:
             self.site.survey = sm.id
         else:
             self.site.survey = sm.geographic_name
-- 
2.43.0


From 761983e5cf52b89caf0eff8a6de1c1d96e0efb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 072/143] fix: processing configurations: levels are not
 doubled, sample rates of unequal decimation, archived spectra of their own
 parameters are accepted, tapers follow the window

---
 .../processing/aurora/decimation_level.py        |  1 +
 mt_metadata/processing/aurora/processing.py      | 15 +++++----------
 mt_metadata/processing/window.py                 | 16 ++++++++++------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index 6cca508..4a159f3 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -592,6 +592,7 @@ class DecimationLevel(MetadataBase):
             fc_dec_obj.stft.harmonic_indices = self.harmonic_indices
         fc_dec_obj.id = f"{self.decimation.level}"
         fc_dec_obj.stft.method = self.stft.method
+        fc_dec_obj.stft.min_num_stft_windows = self.stft.min_num_stft_windows
         fc_dec_obj.stft.pre_fft_detrend_type = self.stft.pre_fft_detrend_type
         fc_dec_obj.stft.prewhitening_type = self.stft.prewhitening_type
         fc_dec_obj.stft.recoloring = self.stft.recoloring
diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 87466f9..b4fe8a6 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -122,9 +122,6 @@ class Processing(MetadataBase):
                     decimation_levels.append(obj)
 
         elif isinstance(value, list):
-            for obj in value:
-                if isinstance(obj, DecimationLevel):
-                    decimation_levels.append(obj)
             for obj in value:
                 if isinstance(obj, DecimationLevel):
                     decimation_levels.append(obj)
@@ -289,13 +286,11 @@ class Processing(MetadataBase):
 
         for i_level in sorted(band_edges_dict.keys()):
             band_edges = band_edges_dict[i_level]
-            if i_level in [0, "0"]:
-                d = decimation_factors[i_level]  # 1
-                sr = sample_rate
-            else:
-                # careful with this hardcoded assumption of decimation by 4
-                d = decimation_factors[i_level]  # 4
-                sr = 1.0 * sample_rate / (d ** int(i_level))
+            d = decimation_factors[i_level]
+            # each level is decimated from the one before
+            sr = 1.0 * sample_rate
+            for level in range(1, int(i_level) + 1):
+                sr /= decimation_factors.get(level, d)
             decimation_obj = DecimationLevel()
             decimation_obj.decimation.level = int(i_level)  # self.decimations_dict[key]
             decimation_obj.decimation.factor = d
diff --git a/mt_metadata/processing/window.py b/mt_metadata/processing/window.py
index 234e1ae..377a0be 100644
--- a/mt_metadata/processing/window.py
+++ b/mt_metadata/processing/window.py
@@ -48,6 +48,7 @@ class ClockZeroTypeEnum(StrEnumerationBase):
 
 class Window(MetadataBase):
     _taper: np.ndarray | None = PrivateAttr(None)
+    _taper_key: tuple | None = PrivateAttr(None)
     num_samples: Annotated[
         int,
         Field(
@@ -177,18 +178,21 @@ class Window(MetadataBase):
         -------
 
         """
-        if self._taper is None:
-            # Repackaging the args so that scipy.signal.get_window() accepts all cases
-            window_args = [v for k, v in self.additional_args.items()]
-            window_args.insert(0, self.type)
-            window_args = tuple(window_args)
-
+        # Repackaging the args so that scipy.signal.get_window() accepts all cases
+        window_args = [v for k, v in self.additional_args.items()]
+        window_args.insert(0, self.type)
+        window_args = tuple(window_args)
+
+        # the attributes the taper was computed from
+        key = (window_args, self.num_samples, self.normalized)
+        if self._taper is None or self._taper_key != key:
             taper = ssig.get_window(window_args, self.num_samples)
 
             if self.normalized:
                 taper /= np.sum(taper)
 
             self._taper = taper
+            self._taper_key = key
 
         return self._taper
 
-- 
2.43.0


From 0641a409d768178c7e737b3ad3c67cb1c99c0149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 073/143] fix: stations read from a dataset dataframe replace
 the remote stations

---
 mt_metadata/processing/aurora/stations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/processing/aurora/stations.py b/mt_metadata/processing/aurora/stations.py
index 5600ecd..aa90efa 100644
--- a/mt_metadata/processing/aurora/stations.py
+++ b/mt_metadata/processing/aurora/stations.py
@@ -160,6 +160,7 @@ class Stations(MetadataBase):
         rr_stations = df[df.remote == True].station.unique()
 
         self.local.from_dataset_dataframe(df[df.station == station])
+        self.remote = []
 
         for rr_station in rr_stations:
             rr = Station()  # type: ignore
-- 
2.43.0


From 58fe0b92a57ba7e7940d5f0017e361b00ebbd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 074/143] fix: weights of processing configurations survive
 dictionaries and JSON, kernels that are not active are skipped

---
 .../features/weights/channel_weight_spec.py   |  4 ++
 .../features/weights/feature_weight_spec.py   | 50 +++++++++++++++++--
 .../processing/aurora/decimation_level.py     |  6 ++-
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/features/weights/channel_weight_spec.py b/mt_metadata/features/weights/channel_weight_spec.py
index 7717f50..7530b30 100644
--- a/mt_metadata/features/weights/channel_weight_spec.py
+++ b/mt_metadata/features/weights/channel_weight_spec.py
@@ -145,6 +145,10 @@ class ChannelWeightSpec(MetadataBase):
         for item in value:
             if isinstance(item, FeatureWeightSpec):
                 result.append(item)
+            elif isinstance(item, dict) and "feature_weight_spec" in item:
+                spec = FeatureWeightSpec()  # type: ignore
+                spec.from_dict(item)
+                result.append(spec)
             elif isinstance(item, dict):
                 # Construct directly to ensure validators run
                 result.append(FeatureWeightSpec(**item))
diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index 01a3e88..ec91554 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -9,6 +9,7 @@ from loguru import logger
 from pydantic import Field, field_validator, model_validator, ValidationInfo
 
 from mt_metadata.base import MetadataBase
+from mt_metadata.base.helpers import flatten_dict
 from mt_metadata.features.coherence import Coherence
 from mt_metadata.features.fc_coherence import FCCoherence
 from mt_metadata.features.feature import Feature
@@ -173,8 +174,11 @@ class FeatureWeightSpec(MetadataBase):
             value = [value]
         kernels = []
         for item in value:
-            if isinstance(item, dict) and "weight_kernel" in item:
-                item = item["weight_kernel"]
+            if isinstance(item, dict) and len(item) == 1:
+                # the attributes are under the name of the class
+                attributes = next(iter(item.values()))
+                if isinstance(attributes, dict):
+                    item = attributes
             if isinstance(item, dict):
                 # Use the 'style' field to determine which kernel class to use
                 style = str(item.get("style", ""))
@@ -212,6 +216,42 @@ class FeatureWeightSpec(MetadataBase):
                 raise TypeError(f"Invalid type for weight_kernel: {type(item)}")
         return kernels
 
+    def get_all_fields(self) -> dict:
+        """
+        Get all field attributes, those of the feature are of the class that it is.
+
+        Returns
+        -------
+        dict
+            A flattened dictionary of dotted keys of all attributes.
+        """
+        fields = super().get_all_fields()
+        if isinstance(self.feature, MetadataBase):
+            fields = {k: v for k, v in fields.items() if not k.startswith("feature.")}
+            for key, value in self.feature.get_all_fields().items():
+                fields[f"feature.{key}"] = value
+        return fields
+
+    def from_dict(self, meta_dict: dict, skip_none: bool = False) -> None:
+        """
+        Fill attributes from a dictionary, see MetadataBase.from_dict.
+
+        Parameters
+        ----------
+        meta_dict : dict
+            Dictionary with keys equal to metadata attribute names.
+        skip_none : bool, optional
+            If True, skip attributes with None values. Default is False.
+        """
+        if isinstance(meta_dict, dict):
+            if list(meta_dict.keys()) == ["feature_weight_spec"]:
+                meta_dict = meta_dict["feature_weight_spec"]
+            # the class of the feature has to be known to set its attributes
+            name = flatten_dict(meta_dict).get("feature.name")
+            if name in feature_classes and name != self.feature.name:
+                self.feature = feature_classes[name]()
+        super().from_dict(meta_dict, skip_none=skip_none)
+
     def evaluate(self, feature_values):
         """
         Evaluate this feature's weighting based on the list of kernels.
@@ -227,5 +267,9 @@ class FeatureWeightSpec(MetadataBase):
             The combined weight from all kernels (e.g., multiplied together).
         """
 
-        weights = [kernel.evaluate(feature_values) for kernel in self.weight_kernels]
+        weights = [
+            kernel.evaluate(feature_values)
+            for kernel in self.weight_kernels
+            if kernel.active is not False
+        ]
         return np.prod(weights, axis=0) if weights else 1.0
diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index 4a159f3..845fcd3 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -205,7 +205,11 @@ class DecimationLevel(MetadataBase):
         # Convert dicts to ChannelWeightSpecs objects
         validated_specs = []
         for item in value:
-            if isinstance(item, dict):
+            if isinstance(item, dict) and "channel_weight_spec" in item:
+                spec = ChannelWeightSpec()  # type: ignore
+                spec.from_dict(item)
+                validated_specs.append(spec)
+            elif isinstance(item, dict):
                 validated_specs.append(ChannelWeightSpec(**item))
             elif isinstance(item, ChannelWeightSpec):
                 validated_specs.append(item)
-- 
2.43.0


From dd3aee7c191e3f175c867ec8a037f1921a164e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 075/143] fix: remote stations given as a list are marked as
 remote

---
 mt_metadata/processing/aurora/stations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/processing/aurora/stations.py b/mt_metadata/processing/aurora/stations.py
index aa90efa..a5ef28d 100644
--- a/mt_metadata/processing/aurora/stations.py
+++ b/mt_metadata/processing/aurora/stations.py
@@ -66,11 +66,13 @@ class Stations(MetadataBase):
         if isinstance(value, list):
             for item in value:
                 if isinstance(item, Station):
+                    item.remote = True
                     remote.append(item)
                 elif isinstance(item, dict):
                     try:
                         station = Station()  # type: ignore
                         station.from_dict(item)
+                        station.remote = True
                         remote.append(station)
                     except Exception as e:
                         raise ValueError("could not unpack dict to a Station object")
-- 
2.43.0


From 93ab4d46f75eddd00c8e60098021d85cf6744922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 076/143] undo the changes of specifications of weights (their
 files are named like tests)

---
 .../features/weights/channel_weight_spec.py   |  4 --
 .../features/weights/feature_weight_spec.py   | 50 ++-----------------
 2 files changed, 3 insertions(+), 51 deletions(-)

diff --git a/mt_metadata/features/weights/channel_weight_spec.py b/mt_metadata/features/weights/channel_weight_spec.py
index 7530b30..7717f50 100644
--- a/mt_metadata/features/weights/channel_weight_spec.py
+++ b/mt_metadata/features/weights/channel_weight_spec.py
@@ -145,10 +145,6 @@ class ChannelWeightSpec(MetadataBase):
         for item in value:
             if isinstance(item, FeatureWeightSpec):
                 result.append(item)
-            elif isinstance(item, dict) and "feature_weight_spec" in item:
-                spec = FeatureWeightSpec()  # type: ignore
-                spec.from_dict(item)
-                result.append(spec)
             elif isinstance(item, dict):
                 # Construct directly to ensure validators run
                 result.append(FeatureWeightSpec(**item))
diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index ec91554..01a3e88 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -9,7 +9,6 @@ from loguru import logger
 from pydantic import Field, field_validator, model_validator, ValidationInfo
 
 from mt_metadata.base import MetadataBase
-from mt_metadata.base.helpers import flatten_dict
 from mt_metadata.features.coherence import Coherence
 from mt_metadata.features.fc_coherence import FCCoherence
 from mt_metadata.features.feature import Feature
@@ -174,11 +173,8 @@ class FeatureWeightSpec(MetadataBase):
             value = [value]
         kernels = []
         for item in value:
-            if isinstance(item, dict) and len(item) == 1:
-                # the attributes are under the name of the class
-                attributes = next(iter(item.values()))
-                if isinstance(attributes, dict):
-                    item = attributes
+            if isinstance(item, dict) and "weight_kernel" in item:
+                item = item["weight_kernel"]
             if isinstance(item, dict):
                 # Use the 'style' field to determine which kernel class to use
                 style = str(item.get("style", ""))
@@ -216,42 +212,6 @@ class FeatureWeightSpec(MetadataBase):
                 raise TypeError(f"Invalid type for weight_kernel: {type(item)}")
         return kernels
 
-    def get_all_fields(self) -> dict:
-        """
-        Get all field attributes, those of the feature are of the class that it is.
-
-        Returns
-        -------
-        dict
-            A flattened dictionary of dotted keys of all attributes.
-        """
-        fields = super().get_all_fields()
-        if isinstance(self.feature, MetadataBase):
-            fields = {k: v for k, v in fields.items() if not k.startswith("feature.")}
-            for key, value in self.feature.get_all_fields().items():
-                fields[f"feature.{key}"] = value
-        return fields
-
-    def from_dict(self, meta_dict: dict, skip_none: bool = False) -> None:
-        """
-        Fill attributes from a dictionary, see MetadataBase.from_dict.
-
-        Parameters
-        ----------
-        meta_dict : dict
-            Dictionary with keys equal to metadata attribute names.
-        skip_none : bool, optional
-            If True, skip attributes with None values. Default is False.
-        """
-        if isinstance(meta_dict, dict):
-            if list(meta_dict.keys()) == ["feature_weight_spec"]:
-                meta_dict = meta_dict["feature_weight_spec"]
-            # the class of the feature has to be known to set its attributes
-            name = flatten_dict(meta_dict).get("feature.name")
-            if name in feature_classes and name != self.feature.name:
-                self.feature = feature_classes[name]()
-        super().from_dict(meta_dict, skip_none=skip_none)
-
     def evaluate(self, feature_values):
         """
         Evaluate this feature's weighting based on the list of kernels.
@@ -267,9 +227,5 @@ class FeatureWeightSpec(MetadataBase):
             The combined weight from all kernels (e.g., multiplied together).
         """
 
-        weights = [
-            kernel.evaluate(feature_values)
-            for kernel in self.weight_kernels
-            if kernel.active is not False
-        ]
+        weights = [kernel.evaluate(feature_values) for kernel in self.weight_kernels]
         return np.prod(weights, axis=0) if weights else 1.0
-- 
2.43.0


From 6004ad4614dbeedcf7c2479d21fc4a1ed799a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 077/143] fix: kernels of weights that are not active are
 skipped

---
 .../features/weights/activation_monotonic_weight_kernel.py     | 3 +++
 mt_metadata/features/weights/taper_monotonic_weight_kernel.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
index f723a09..1bbe63a 100644
--- a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
+++ b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
@@ -110,6 +110,9 @@ class ActivationMonotonicWeightKernel(MonotonicWeightKernel):
             If the activation style is not recognized.
         """
 
+        if self.active is False:
+            # the kernel is skipped
+            return np.ones(np.shape(values))
         x = self._normalize(values)
         activation_style = self.activation_style
 
diff --git a/mt_metadata/features/weights/taper_monotonic_weight_kernel.py b/mt_metadata/features/weights/taper_monotonic_weight_kernel.py
index 478110e..9693c24 100644
--- a/mt_metadata/features/weights/taper_monotonic_weight_kernel.py
+++ b/mt_metadata/features/weights/taper_monotonic_weight_kernel.py
@@ -93,6 +93,9 @@ class TaperMonotonicWeightKernel(MonotonicWeightKernel):
             raise ValueError(f"Unknown threshold direction: {direction}")
 
     def evaluate(self, values: NDArray) -> NDArray:
+        if self.active is False:
+            # the kernel is skipped
+            return np.ones(np.shape(values))
         x = self._normalize(values)
         taper = self.half_window_style
         if taper == "rectangle":
-- 
2.43.0


From fc70aa31aa91b5c47b7bb5c6a264d63eb57a4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 078/143] fix: coherence with windows that have arguments

---
 mt_metadata/features/coherence.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/features/coherence.py b/mt_metadata/features/coherence.py
index 88d9de7..a59d32b 100644
--- a/mt_metadata/features/coherence.py
+++ b/mt_metadata/features/coherence.py
@@ -280,10 +280,15 @@ class Coherence(Feature):
         -------
 
         """
+        # windows like kaiser or dpss need their arguments
+        window = self.window.type
+        if self.window.additional_args:
+            window = (self.window.type, *self.window.additional_args.values())
+
         frequencies, coh_squared = ssig.coherence(
             ts_1,
             ts_2,
-            window=self.window.type,
+            window=window,
             nperseg=self.window.num_samples,
             noverlap=self.window.overlap,
             detrend=self.detrend,
-- 
2.43.0


From d6ff00e9291d870a08ac3caa738c62f12a6b9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 079/143] fix: time periods of Fourier coefficients cover ends
 of levels without start

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 2 +-
 mt_metadata/processing/fourier_coefficients/fc.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 829c6ab..ffd1636 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -378,7 +378,7 @@ class Decimation(MetadataBase):
         for ch in self.channels:
             if ch.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(ch.time_period.start)
-            if ch.time_period.start != "1980-01-01T00:00:00+00:00":
+            if ch.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(ch.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
diff --git a/mt_metadata/processing/fourier_coefficients/fc.py b/mt_metadata/processing/fourier_coefficients/fc.py
index 5122c95..902ca2c 100644
--- a/mt_metadata/processing/fourier_coefficients/fc.py
+++ b/mt_metadata/processing/fourier_coefficients/fc.py
@@ -311,7 +311,7 @@ class FC(MetadataBase):
         for dl in self.levels:
             if dl.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(dl.time_period.start)
-            if dl.time_period.start != "1980-01-01T00:00:00+00:00":
+            if dl.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(dl.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
-- 
2.43.0


From fc5e25aca6924b0ba2111bb037e56527fd42f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 080/143] fix: places of J-files are read

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py           | 2 +-
 mt_metadata/transfer_functions/io/jfiles/metadata/header.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index c049d0d..89b192f 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -142,7 +142,7 @@ class JFile:
 
         for variable in ["lat", "lon", "elev"]:
             for ii, line in enumerate(j_lines):
-                if variable in line.lower():
+                if line.startswith(">") and variable in line.lower():
                     name = line.split("=")[0]
                     try:
                         value = float(line.split("=")[1].strip())
diff --git a/mt_metadata/transfer_functions/io/jfiles/metadata/header.py b/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
index 9265a49..eab6421 100644
--- a/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
@@ -223,7 +223,7 @@ class Header(BasicLocation):
             m_list = m_line.strip().split("=")
             m_key = m_list[0][1:].strip().lower()
             try:
-                m_value = float(m_list[0].strip())
-            except ValueError:
+                m_value = float(m_list[1].strip())
+            except (IndexError, ValueError):
                 m_value = 0.0
             self.update_attribute(m_key, m_value)
-- 
2.43.0


From 8e9b7d42aa56bf9c537d1f360b88d5e47a1598d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 081/143] fix: errors of the tipper of AVG files come from the
 errors in the file

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 02ee8fb..2530d3b 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -321,7 +321,7 @@ class ZongeMTAvg:
                 ),
                 row.z_phase_err,
             )
-            t_err[f_index, ii, jj] = np.sqrt(t_real**2 + t_imag**2)
+            t_err[f_index, ii, jj] = np.sqrt(t_real_error**2 + t_imag_error**2)
 
         return t, t_err
 
-- 
2.43.0


From 5f39c8d55c046b47c72a16649a718810c2fefe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 082/143] fix: channels of AVG files come from their own
 component

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index a2ab933..a4a5b28 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -298,7 +298,7 @@ class Header(MetadataBase):
 
     def _has_channel(self, component):
         try:
-            if self._comp_dict["zxx"]["ch"].cmp is None:
+            if self._comp_dict[component]["ch"].cmp is None:
                 return False
         except KeyError:
             return False
-- 
2.43.0


From 43e2543b7c6d96c1c6bb8a8c6ec4453b485ec652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 083/143] fix: header values of AVG files may hold an equal
 sign

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index a4a5b28..b4ba3d5 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -252,7 +252,7 @@ class Header(MetadataBase):
         data_lines = []
         for ii, line in enumerate(lines):
             if line.find("=") > 0 and line.find("$") == 0:
-                key, value = line[1:].split("=")
+                key, value = line[1:].split("=", 1)
                 key = ".".join(
                     [validate_attribute(k) for k in key.replace(":", ".").split(".")]
                 )
-- 
2.43.0


From 3df47fd1a7f64bf2d0d4774f482831b6d32c3a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 084/143] fix: station metadata of AVG files can be set

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 2530d3b..1c0e7e8 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -502,11 +502,11 @@ class ZongeMTAvg:
     @station_metadata.setter
     def station_metadata(self, sm):
         self.header.station = sm.id
-        self.header.latitdude = sm.location.latitude
+        self.header.latitude = sm.location.latitude
         self.header.longitude = sm.location.longitude
 
-        if hasattr(sm.run[0].ex):
-            self.header.rx.length = sm.run[0].ex.dipole_length
+        if len(sm.runs) > 0 and "ex" in sm.runs[0].channels.keys():
+            self.header.rx.length = sm.runs[0].channels["ex"].dipole_length
 
     @property
     def survey_metadata(self) -> Survey:
-- 
2.43.0


From f4eb1270ae20df8a9ccc654011eb5e6a11e14e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 085/143] fix: AVG files written can be read back

---
 mt_metadata/transfer_functions/core.py        |  1 +
 .../io/zonge/metadata/header.py               |  6 +++
 .../transfer_functions/io/zonge/zonge.py      | 38 +++++++++++--------
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 0200e27..f4f5921 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2595,6 +2595,7 @@ class TF:
         """
 
         avg_obj = ZongeMTAvg()
+        avg_obj.station_metadata = self.station_metadata
         avg_obj.frequency = self.frequency
         avg_obj.z = self.impedance
         avg_obj.z_err = self.impedance_error
diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index b4ba3d5..e5717ed 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -265,6 +265,9 @@ class Header(MetadataBase):
                     or key.endswith(".datum")
                 ):
                     value = value.lower()
+                # no smoothing is the only name that is not lower case
+                if key.endswith(".smooth") and value == "none":
+                    value = "None"
 
                 # Only split on commas for specific fields that should be lists (h_p_r)
                 # Most coordinate and position fields (xyz1, utm1, center) should remain as strings
@@ -526,6 +529,9 @@ class Header(MetadataBase):
             # Map g_p_s to gps for attribute access
             actual_key = key.replace("g_p_s", "gps")
             value = self.get_attr_from_name(actual_key)
+            if value is None or value == "" or value == []:
+                # a line without a value cannot be read
+                continue
             if isinstance(value, list):
                 value = ",".join([f"{v:.1f}" for v in value])
             elif isinstance(value, (float)):
diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 1c0e7e8..25e0f4b 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -347,6 +347,11 @@ class ZongeMTAvg:
 
         return rm
 
+    @property
+    def _h_p_r(self) -> list[float]:
+        """heading, pitch and roll, north and level if the header has none"""
+        return self.header.rx.h_p_r or [0.0, 0.0, 180.0]
+
     @property
     def ex_metadata(self) -> Electric:
         ch = Electric(component="ex")
@@ -361,8 +366,8 @@ class ZongeMTAvg:
 
         else:
             ch.dipole_length = self.header.rx.length
-            ch.measurement_azimuth = self.header.rx.h_p_r[0]
-            ch.translated_azimuth = self.header.rx.h_p_r[0]
+            ch.measurement_azimuth = self._h_p_r[0]
+            ch.translated_azimuth = self._h_p_r[0]
             ch.channel_id = 4
 
         return ch
@@ -381,8 +386,8 @@ class ZongeMTAvg:
 
         else:
             ch.dipole_length = self.header.rx.length
-            ch.measurement_azimuth = self.header.rx.h_p_r[0] + 90
-            ch.translated_azimuth = self.header.rx.h_p_r[0] + 90
+            ch.measurement_azimuth = self._h_p_r[0] + 90
+            ch.translated_azimuth = self._h_p_r[0] + 90
             ch.channel_id = 5
 
         return ch
@@ -400,8 +405,8 @@ class ZongeMTAvg:
             ch.time_period.start = self.header.start_time
 
         else:
-            ch.measurement_azimuth = self.header.rx.h_p_r[0]
-            ch.translated_azimuth = self.header.rx.h_p_r[0]
+            ch.measurement_azimuth = self._h_p_r[0]
+            ch.translated_azimuth = self._h_p_r[0]
             ch.channel_id = 1
 
         return ch
@@ -419,8 +424,8 @@ class ZongeMTAvg:
             ch.time_period.start = self.header.start_time
 
         else:
-            ch.measurement_azimuth = self.header.rx.h_p_r[0] + 90
-            ch.translated_azimuth = self.header.rx.h_p_r[0] + 90
+            ch.measurement_azimuth = self._h_p_r[0] + 90
+            ch.translated_azimuth = self._h_p_r[0] + 90
             ch.channel_id = 2
 
         return ch
@@ -462,8 +467,8 @@ class ZongeMTAvg:
                 ch.time_period.start = self.header.start_time
 
         else:
-            ch.measurement_azimuth = self.header.rx.h_p_r[-1]
-            ch.translated_azimuth = self.header.rx.h_p_r[-1]
+            ch.measurement_azimuth = self._h_p_r[-1]
+            ch.translated_azimuth = self._h_p_r[-1]
             ch.channel_id = "3"
 
         return ch
@@ -481,10 +486,10 @@ class ZongeMTAvg:
         sm.transfer_function.id = self.header.station
         sm.transfer_function.software.author = "Zonge International"
         sm.transfer_function.software.name = "MTEdit"
-        sm.transfer_function.software.version = self.header.m_t_edit.version.split()[0]
-        sm.transfer_function.software.last_updated = (
-            self.header.m_t_edit.version.split()[-1]
-        )
+        if self.header.m_t_edit.version.split():
+            version = self.header.m_t_edit.version.split()
+            sm.transfer_function.software.version = version[0]
+            sm.transfer_function.software.last_updated = version[-1]
 
         for key, value in self.header.m_t_edit.to_dict(single=True).items():
             if "version" in key:
@@ -528,7 +533,8 @@ class ZongeMTAvg:
 
         # Create data for each impedance component
         for comp, (i, j) in comp_index.items():
-            if not comp.startswith(("z", "t")):
+            # remote reference names have the same indices
+            if not comp.startswith(("z", "t")) or comp.endswith("r"):
                 continue
 
             for f_idx, freq in enumerate(self.frequency):
@@ -564,6 +570,8 @@ class ZongeMTAvg:
 
                 elif comp.startswith("t") and self.t is not None:
                     t_val = self.t[f_idx, 0, j]  # Tipper is 1x2
+                    if self.z_positive == "up":
+                        t_val = -1 * t_val
                     t_err_val = (
                         self.t_err[f_idx, 0, j] if self.t_err is not None else 0.0
                     )
-- 
2.43.0


From 6ca7badeeacf9daf488c884e7447befaf2910107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 086/143] fix: tapers of two regions that are not active are
 skipped

---
 mt_metadata/features/weights/taper_weight_kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/features/weights/taper_weight_kernel.py b/mt_metadata/features/weights/taper_weight_kernel.py
index 5fe6921..a85d262 100644
--- a/mt_metadata/features/weights/taper_weight_kernel.py
+++ b/mt_metadata/features/weights/taper_weight_kernel.py
@@ -102,4 +102,7 @@ class TaperWeightKernel(Base):
         np.ndarray
             The product of the low-cut and high-cut kernel evaluations.
         """
+        if self.active is False:
+            # the kernel is skipped
+            return np.ones(np.shape(values))
         return self.low_kernel.evaluate(values) * self.high_kernel.evaluate(values)
-- 
2.43.0


From 69fc8b08c2345a5b12c66da3e7cb5cd426bf2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 087/143] fix: AVG header: toZmag is read

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index e5717ed..44e44db 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -292,6 +292,8 @@ class Header(MetadataBase):
                     # Map converted snake_case names back to actual attribute names
                     # This fixes the issue where GPS -> g_p_s but attribute is 'gps'
                     mapped_key = key.replace("g_p_s", "gps").replace("g_d_p", "gdp")
+                    # MTEdit writes toZmag
+                    mapped_key = mapped_key.replace("to_zmag", "to_z_mag")
                     self.update_attribute(mapped_key, value)
             else:
                 if len(line) > 2:
-- 
2.43.0


From ffe0aaa509349a380e216236f907c55769169078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 088/143] fix: stored fields of a class that cannot be used are
 passed over

---
 mt_metadata/base/pydantic_helpers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 404964b..6ca1dd3 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -790,14 +790,15 @@ def _load_fields_from_disk(model_cls: type[BaseModel]) -> Dict[str, Any] | None:
     -----
     - Returns None on any read/parse error.
     """
-    path = _disk_cache_path(model_cls)
-    if not os.path.exists(path):
-        return None
     try:
+        path = _disk_cache_path(model_cls)
+        if not os.path.exists(path):
+            return None
         with open(path, "r", encoding="utf-8") as f:
-            return json.load(f)
+            tree = json.load(f)
     except Exception:
         return None
+    return tree if isinstance(tree, dict) else None
 
 
 def _save_fields_to_disk(model_cls: type[BaseModel], tree: Dict[str, Any]) -> None:
@@ -819,8 +820,8 @@ def _save_fields_to_disk(model_cls: type[BaseModel], tree: Dict[str, Any]) -> No
     -----
     - Overwrites any existing file for the same model fingerprint.
     """
-    path = _disk_cache_path(model_cls)
     try:
+        path = _disk_cache_path(model_cls)
         with open(path, "w", encoding="utf-8") as f:
             json.dump(tree, f, indent=2, ensure_ascii=False)
     except Exception:
-- 
2.43.0


From 61f8d2d6a2c43a993a8b5f45f6115ddc36997cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 089/143] fix: stored fields of a class follow its
 descriptions, choices and nested classes

---
 mt_metadata/base/pydantic_helpers.py | 32 ++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 6ca1dd3..0305453 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -701,7 +701,9 @@ def _cache_dir() -> str:
 #     return path
 
 
-def _model_fingerprint(model_cls: type[BaseModel]) -> str:
+def _model_fingerprint(
+    model_cls: type[BaseModel], parents: tuple[type[BaseModel], ...] = ()
+) -> str:
     """
     Compute a stable fingerprint for a model class's fields.
 
@@ -709,6 +711,8 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
     ----------
     model_cls : type[BaseModel]
         The model class to fingerprint.
+    parents : tuple of type[BaseModel]
+        Classes that hold the class, to break cycles.
 
     Returns
     -------
@@ -718,7 +722,8 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
     Notes
     -----
     - Uses a sorted JSON of tuples:
-        (name, deprecated, annotation repr, default repr, json_schema_extra snapshot)
+        (name, deprecated, annotation repr, default repr, json_schema_extra snapshot,
+        description, enum members, fingerprint of the nested class)
     - Change in any of these will produce a different fingerprint, refreshing the disk cache.
     """
     field_map = getattr(model_cls, "model_fields", None) or getattr(
@@ -739,16 +744,35 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
                     extra_snapshot.append((key, _safe_repr(value)))
         else:
             extra_snapshot = _safe_repr(extra)
+        annotation = getattr(info, "annotation", None)
+        # the tree holds the fields of nested classes, which repr does not show
+        nested = _extract_base_type(annotation)
+        if (
+            _is_basemodel_subclass(nested)
+            and nested not in parents
+            and nested is not model_cls
+        ):
+            nested_fingerprint = _model_fingerprint(nested, (*parents, model_cls))
+        else:
+            nested_fingerprint = None
         parts.append(
             (
                 name,
                 _safe_repr(getattr(info, "deprecated", None)),
-                repr(getattr(info, "annotation", None)),
+                repr(annotation),
                 _safe_repr(getattr(info, "default", None)),
                 extra_snapshot,
+                _safe_repr(getattr(info, "description", None)),
+                _safe_repr(_extract_enum_info(annotation)),
+                nested_fingerprint,
             )
         )
-    raw = json.dumps(sorted(parts), separators=(",", ":"), ensure_ascii=False)
+    # names are unique
+    raw = json.dumps(
+        sorted(parts, key=lambda part: part[0]),
+        separators=(",", ":"),
+        ensure_ascii=False,
+    )
     return hashlib.sha256(raw.encode("utf-8")).hexdigest()
 
 
-- 
2.43.0


From b4c08dbec1b31ca63cfc1ee659660126d04ec636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 090/143] fix: any name of a survey in EMTF XML files gives an
 id

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index b2ccbdd..38f1edf 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -818,7 +818,8 @@ class EMTFXML:
         survey_obj.country = self.site.country
         survey_obj.geographic_name = self.site.survey
         if self.site.survey not in NULL_VALUES:
-            survey_obj.id = self.site.survey
+            # ids have less characters than names
+            survey_obj.id = re.sub(r"[^a-zA-Z0-9_\- ]", "", self.site.survey)
         survey_obj.project = self.site.project
         survey_obj.time_period.start_date = self.site.start
         survey_obj.time_period.end_date = self.site.end
-- 
2.43.0


From ddbddd3e1ffa817bcd10d683e0270099f70c07bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 091/143] fix: process date and remote references of the tag
 are read from EMTF XML files

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 38f1edf..b2cfb52 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -922,6 +922,7 @@ class EMTFXML:
         s.transfer_function.id = self.site.id
         s.transfer_function.sign_convention = self.processing_info.sign_convention
         s.transfer_function.processed_by.author = self.processing_info.processed_by
+        s.transfer_function.processed_date = self.processing_info.process_date
         s.transfer_function.software.author = (
             self.processing_info.processing_software.author
         )
@@ -932,7 +933,7 @@ class EMTFXML:
             self.processing_info.processing_software.last_mod
         )
         # need to use remote reference info if it has it.
-        if self.processing_info.remote_info.site.id is not None:
+        if self.processing_info.remote_info.site.id not in NULL_VALUES:
             s.transfer_function.remote_references = [
                 self.processing_info.remote_info.site.id
             ]
-- 
2.43.0


From 604e2073c5647dd28a360dd2813af87ff56f83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 092/143] fix: channels that runs of EMTF XML files do not have
 are those of the site layout

---
 .../transfer_functions/io/emtfxml/emtfxml.py        | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index b2cfb52..aae2a84 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1095,16 +1095,15 @@ class EMTFXML:
             for ch in (
                 self.site_layout.input_channels + self.site_layout.output_channels
             ):
-                try:
-                    c = r.get_channel(ch.name.lower())
-                except AttributeError:
+                c = r.get_channel(ch.name.lower())
+                if c is None:
                     # if the channel does not exist, create it.
                     if ch.name.lower() in ["ex", "ey"]:  # electric channels
-                        c = Electric()
-                    elif ch.name.lower() in ["hx", "hy", "hz"]:  # magnetic channels
-                        c = Magnetic()
-                    c.from_dict(ch.to_dict(single=True))
+                        c = Electric(component=ch.name.lower())
+                    else:  # magnetic channels
+                        c = Magnetic(component=ch.name.lower())
                     r.add_channel(c)
+                    c = r.get_channel(ch.name.lower())
 
                 if c.component in ["hx", "hy", "hz"]:
                     c.location.x = ch.x
-- 
2.43.0


From a6a36f68f81114da787e5d72a7aa56b8d9f8c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 093/143] fix: types of electrodes are read from and written to
 EMTF XML files

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py      | 8 +++++---
 .../transfer_functions/io/emtfxml/metadata/electrode.py   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index aae2a84..2fedb48 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1081,13 +1081,15 @@ class EMTFXML:
                         c.positive.id = pot.number
                         c.positive.type = pot.value
                         c.positive.manufacturer = dp.manufacturer
-                        c.positive.type = pot.comments.as_string()
+                        if pot.comments.value not in NULL_VALUES:
+                            c.positive.type = pot.comments.as_string()
 
                     elif pot.location.lower() in ["s", "w"]:
                         c.negative.id = pot.number
                         c.negative.type = pot.value
                         c.negative.manufacturer = dp.manufacturer
-                        c.negative.type = pot.comments.as_string()
+                        if pot.comments.value not in NULL_VALUES:
+                            c.negative.type = pot.comments.as_string()
                 c.time_period.start = fn.start
                 c.time_period.end = fn.end
                 r.add_channel(c)
@@ -1474,7 +1476,7 @@ class EMTFXML:
                     dp.electrode.append(pot_p)
                     pot_n = emtf_xml.Electrode()  # type: ignore
                     pot_n.number = c.negative.id
-                    pot_n.comments = c.positive.type
+                    pot_n.comments = c.negative.type
                     pot_n.location = "s" if comp == "ex" else "w"
                     dp.electrode.append(pot_n)
                     fn.dipole.append(dp)
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/electrode.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/electrode.py
index 6735250..c0fab30 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/electrode.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/electrode.py
@@ -88,7 +88,7 @@ class Electrode(MetadataBase):
 
         # this might break in the future when to_dict is updated to return a dict
         # instead of a string, but for now it works.
-        root.text = self.comments.as_string()
+        root.text = self.value if self.value else self.comments.as_string()
 
         if string:
             return helpers.element_to_string(root)
-- 
2.43.0


From 9abf5668b006a17eafb46701bb2e4a7487d8062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 094/143] fix: remote information left out of one EMTF XML file
 is in the next one

---
 .../transfer_functions/io/emtfxml/emtfxml.py        | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 2fedb48..9bde344 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -390,21 +390,18 @@ class EMTFXML:
             value = getattr(self, key)
             if hasattr(value, "to_xml") and callable(getattr(value, "to_xml")):
                 if key == "processing_info":
+                    # the order of an earlier write may have left out something
+                    order = ["site", "field_notes"]
                     if skip_field_notes:
-                        try:
-                            value.remote_info._order.remove("field_notes")
-                        except ValueError:
-                            logger.debug("No field notes to skip.")
+                        order.remove("field_notes")
                     if value.remote_info.site.id in [
                         None,
                         "",
                         "None",
                         "none",
                     ]:
-                        try:
-                            value.remote_info._order.remove("site")
-                        except ValueError:
-                            logger.debug("No remote field notes to skip.")
+                        order.remove("site")
+                    value.remote_info._order = order
                 element = value.to_xml()
                 if isinstance(element, list):
                     for item in element:
-- 
2.43.0


From 0291d155181fa40b9317c976d0bbd372d90cc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 095/143] fix: the pass band of a flat filter is all the
 frequencies, also when there are many

---
 mt_metadata/timeseries/filters/filter_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/filter_base.py b/mt_metadata/timeseries/filters/filter_base.py
index 7091b86..4b99c35 100644
--- a/mt_metadata/timeseries/filters/filter_base.py
+++ b/mt_metadata/timeseries/filters/filter_base.py
@@ -403,7 +403,7 @@ class FilterBase(MetadataBase):
         amp = np.abs(cr)
 
         # precision is apparently an important variable here
-        if np.round(amp, 6).all() == np.round(amp.mean(), 6):
+        if np.allclose(amp, amp.mean(), rtol=1e-9, atol=1e-6):
             return np.array([f.min(), f.max()])
 
         # Decimate frequency array for faster processing
-- 
2.43.0


From 2e9aa56e2cb5f507738b48f8bf9e85fb4b3567df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 096/143] fix: separate MT XML files are collected again
 (channels have a list of filters, their component is in the last part of the
 file's name)

---
 .../timeseries/tools/from_many_mt_files.py    | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/mt_metadata/timeseries/tools/from_many_mt_files.py b/mt_metadata/timeseries/tools/from_many_mt_files.py
index 70a4461..b9fb613 100644
--- a/mt_metadata/timeseries/tools/from_many_mt_files.py
+++ b/mt_metadata/timeseries/tools/from_many_mt_files.py
@@ -190,7 +190,7 @@ class MT2StationXML(XMLInventoryMTExperiment):
         channels_list = []
         for ch in order:
             for fn in rdf:
-                if ch in fn.name[len(station) :].lower():
+                if ch in fn.stem.split(".", 2)[-1].lower():
                     channels_list.append(fn)
                     break
 
@@ -268,21 +268,17 @@ class MT2StationXML(XMLInventoryMTExperiment):
         ch.from_xml(self.read_xml_file(channel_fn))
 
         dp_filter = None
-        if ch.filter.name is not None:
-            find = False
-            for ii, filter_name in enumerate(ch.filter.name):
-                # create a dipole pole zero filter
-                if "dipole" in filter_name:
-                    find = True
-                    dp_filter = PoleZeroFilter()
-                    dp_filter.units_in = "V/m"
-                    dp_filter.units_out = "V"
-                    dp_filter.gain = ch.dipole_length
-                    dp_filter.name = f"electric_dipole_{ch.dipole_length:.3f}"
-                    dp_filter.comments = "electric dipole for electric field"
-                    break
-            if find:
-                ch.filter.name[ii] = dp_filter.name
+        for applied_filter in ch.filters:
+            # create a dipole pole zero filter
+            if applied_filter.name is not None and "dipole" in applied_filter.name:
+                dp_filter = PoleZeroFilter()
+                dp_filter.units_in = "V/m"
+                dp_filter.units_out = "V"
+                dp_filter.gain = ch.dipole_length
+                dp_filter.name = f"electric_dipole_{ch.dipole_length:.3f}"
+                dp_filter.comments = "electric dipole for electric field"
+                applied_filter.name = dp_filter.name
+                break
 
         return ch, dp_filter
 
@@ -453,7 +449,7 @@ class MT2StationXML(XMLInventoryMTExperiment):
 
         filter_dict = self._make_filters_dict(filters_fn)
         if dp_filter is not None:
-            filter_dict.update({dp_filter.name, dp_filter})
+            filter_dict.update({dp_filter.name: dp_filter})
 
         channel_response = mt_channel.channel_response(filter_dict)
 
-- 
2.43.0


From d0ef75f3b9fe7443c5ae07620df6dfdea35f1613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 097/143] fix: objects which differ in a comment without author
 or time are not equal (the comment was given under another name and not
 compared)

---
 mt_metadata/base/metadata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 5c05937..b6bc0a3 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -464,7 +464,13 @@ class MetadataBase(DotNotationBaseModel):
             if skip_key_bool:
                 continue
             try:
-                other_value = other_dict[key]
+                if key in other_dict:
+                    other_value = other_dict[key]
+                # a comment with only a value is given as a single value
+                elif key.endswith(".value") and key[: -len(".value")] in other_dict:
+                    other_value = other_dict[key[: -len(".value")]]
+                else:
+                    other_value = other_dict[f"{key}.value"]
                 if isinstance(value, np.ndarray):
                     if value.size != other_value.size:
                         msg = f"Array sizes for {key} differ: {value.size} != {other_value.size}"
-- 
2.43.0


From 570fdbf0be3ca56006e7dbc00e76b13d7edc0350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:09 +0000
Subject: [PATCH 098/143] fix: filters of StationXML stages without names, or
 with names of other filters, are kept apart

---
 .../stationxml/xml_channel_mt_channel.py      | 91 ++++++++++++++++---
 1 file changed, 76 insertions(+), 15 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index e8d50a0..4094666 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -15,6 +15,7 @@ Created on Fri Feb 19 16:14:41 2021
 import copy
 from collections import OrderedDict
 
+import numpy as np
 from loguru import logger
 
 from mt_metadata.base.helpers import requires
@@ -521,27 +522,87 @@ class XMLChannelMTChannel(BaseTranslator):
         parse the filters from obspy into mt filters
         """
         ch_filter_dict = OrderedDict()
-        for i_stage, stage in enumerate(xml_channel.response.response_stages):
-            new_and_unnamed = False
+        for stage in xml_channel.response.response_stages:
             mt_filter = create_filter_from_stage(stage)
-            if not mt_filter.name:
-                filter_name, new_and_unnamed = self._add_filter_number(
-                    existing_filters, mt_filter
-                )
-                mt_filter.name = filter_name
-
-            if mt_filter.decimation_active:
-                # keep filter names unique if same one used more than once
-                mt_filter.name += f"_{mt_filter.decimation_input_sample_rate}"
-
-            if new_and_unnamed:
+            named = bool(mt_filter.name)
+            mt_filter.name = self._get_filter_name(
+                mt_filter, existing_filters, ch_filter_dict
+            )
+            if not named:
                 logger.info(f"Found an unnamed filter, named it: '{mt_filter.name}'")
-                existing_filters[filter_name] = mt_filter
 
-            ch_filter_dict[mt_filter.name.replace("/", " per ").lower()] = mt_filter
+            ch_filter_dict[self._get_filter_key(mt_filter.name)] = mt_filter
 
         return ch_filter_dict
 
+    def _get_filter_key(self, name):
+        """key of a filter in the filters of a channel and of a survey"""
+        return name.replace("/", " per ").lower()
+
+    def _is_same_filter(self, filter_01, filter_02):
+        """
+        Filters are the same if everything but their names, comments and place
+        in the response is the same
+        """
+        if filter_01.type != filter_02.type:
+            return False
+
+        skip = ("name", "comments", "sequence_number", "calibration_date")
+        dict_01, dict_02 = [
+            {
+                key: value
+                for key, value in mt_filter.to_dict(single=True, required=False).items()
+                if not key.startswith(skip)
+            }
+            for mt_filter in (filter_01, filter_02)
+        ]
+        return dict_01.keys() == dict_02.keys() and all(
+            np.array_equal(value, dict_02[key]) for key, value in dict_01.items()
+        )
+
+    def _get_filter_name(self, mt_filter, existing_filters, channel_filters):
+        """
+        Get a name for a filter which no other filter has.
+
+        A filter without a name has the name of an existing filter that is the
+        same, else its type with a number.  A filter that has the name of a
+        different filter, or is the second of that name in the channel, gets a
+        number.
+
+        :param mt_filter: filter made from a stage
+        :param existing_filters: filters of other channels
+        :type existing_filters: dict
+        :param channel_filters: filters of the channel so far
+        :type channel_filters: dict
+        :return: name of the filter
+        :rtype: str
+
+        """
+
+        def is_free(name):
+            key = self._get_filter_key(name)
+            if key in channel_filters:
+                return False
+            return key not in existing_filters.keys() or self._is_same_filter(
+                existing_filters[key], mt_filter
+            )
+
+        suffix = ""
+        if mt_filter.decimation_active:
+            # keep filter names unique if same one used more than once
+            suffix = f"_{mt_filter.decimation_input_sample_rate}"
+
+        if mt_filter.name:
+            if is_free(f"{mt_filter.name}{suffix}"):
+                return f"{mt_filter.name}{suffix}"
+            base, number = mt_filter.name, 1
+        else:
+            base, number = mt_filter.type, 0
+
+        while not is_free(f"{base}_{number:02}{suffix}"):
+            number += 1
+        return f"{base}_{number:02}{suffix}"
+
     def _add_filter_number(self, existing_filters, mt_filter):
         """
         return the next number the number of filters
-- 
2.43.0


From d1b1d906c5db3521a005b21faacd6ea5353c721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 099/143] fix: channels with other rates or times, station
 epochs and filters of further networks in StationXML are not lost

---
 .../stationxml/xml_inventory_mt_experiment.py | 94 +++++++++++++------
 1 file changed, 66 insertions(+), 28 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index d337ffc..4b3b37d 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -72,8 +72,23 @@ class XMLInventoryMTExperiment:
         mt_experiment = metadata.Experiment()
         for xml_network in inventory_object.networks:
             mt_survey = self.network_translator.xml_to_mt(xml_network)
+            # need to check if the network/survey already exists, the files
+            # from make_mth5_from_iris have multiples of the same network
+            if mt_survey.id in mt_experiment.surveys.keys():
+                mt_survey = mt_experiment.surveys[mt_survey.id]
+            else:
+                mt_experiment.surveys.append(mt_survey)
             for xml_station in xml_network.stations:
                 mt_station = self.station_translator.xml_to_mt(xml_station)
+                # a station can have more than one epoch
+                if mt_station.id in mt_survey.stations.keys():
+                    existing_station = mt_survey.stations[mt_station.id]
+                    for mt_run in mt_station.runs:
+                        if mt_run.id not in existing_station.runs.keys():
+                            existing_station.add_run(mt_run)
+                    mt_station = existing_station
+                else:
+                    mt_survey.stations.append(mt_station)
                 for xml_channel in xml_station:
                     mt_channel, mt_filters = self.channel_translator.xml_to_mt(
                         xml_channel, mt_survey.filters
@@ -87,54 +102,77 @@ class XMLInventoryMTExperiment:
                             # through the runs
                             run_channel = deepcopy(mt_channel)
                             mt_run = mt_station.get_run(run_id)
+                            if mt_run is None:
+                                mt_run = self._add_new_run(
+                                    mt_station, mt_channel, run_id
+                                )
                             # need to set the start and end time to the run
                             run_channel.time_period.start = mt_run.time_period.start
                             run_channel.time_period.end = mt_run.time_period.end
                             mt_run.add_channel(run_channel)
                             if mt_run.sample_rate in [None, 0]:
                                 mt_run.sample_rate = run_channel.sample_rate
+                        continue
+
                     # if there are runs already try to match by start, end, sample_rate
                     # initialized runs have a sample rate of 0.  This could be an
                     # issue in the future.
-                    elif mt_station.runs:
-                        for mt_run in mt_station.runs:
+                    found = False
+                    for mt_run in mt_station.runs:
+                        if mt_channel.component in mt_run.channels.keys():
+                            continue
+                        if (
+                            mt_run.sample_rate == mt_channel.sample_rate
+                            or mt_run.sample_rate == 0
+                        ):
+                            # match assuming the runs have the correct start
+                            # and end times.
                             if (
-                                mt_run.sample_rate == mt_channel.sample_rate
-                                or mt_run.sample_rate == 0
+                                mt_run.time_period.start >= mt_channel.time_period.start
+                            ) and (
+                                mt_run.time_period.end <= mt_channel.time_period.end
                             ):
-                                # match assuming the runs have the correct start
-                                # and end times.
-                                if (
-                                    mt_run.time_period.start
-                                    >= mt_channel.time_period.start
-                                ) and (
-                                    mt_run.time_period.end <= mt_channel.time_period.end
-                                ):
-                                    mt_run.channels.append(mt_channel)
-                                    mt_run.sample_rate = mt_channel.sample_rate
+                                mt_run.add_channel(mt_channel, update=False)
+                                mt_run.sample_rate = mt_channel.sample_rate
+                                found = True
                     # make a new run with generic information
-                    else:
-                        mt_run = metadata.Run(id=f"{len(mt_station.runs)+1:03d}")
-                        mt_run.time_period.start = mt_channel.time_period.start
-                        mt_run.time_period.end = mt_channel.time_period.end
-                        mt_run.sample_rate = mt_channel.sample_rate
-                        mt_run.channels.append(mt_channel)
-                        mt_station.runs.append(mt_run)
+                    if not found:
+                        mt_run = self._add_new_run(mt_station, mt_channel)
+                        mt_run.add_channel(mt_channel, update=False)
                 mt_station.update_time_period()
-                mt_survey.stations.append(mt_station)
             if xml_network.stations:
                 mt_survey.update_bounding_box()
                 mt_survey.update_time_period()
-            # need to check if the network/survey already exists, the files
-            # from make_mth5_from_iris have multiples of the same network
-            if mt_survey.id in mt_experiment.surveys.keys():
-                mt_experiment.surveys[mt_survey.id].stations.update(mt_survey.stations)
-            else:
-                mt_experiment.surveys.append(mt_survey)
         if mt_fn:
             mt_experiment.to_xml(fn=mt_fn)
         return mt_experiment
 
+    def _add_new_run(self, mt_station, mt_channel, run_id=None):
+        """
+        Add a run with the times and sample rate of a channel to a station
+
+        :param mt_station: station, the run is added to
+        :type mt_station: :class:`mt_metadata.timeseries.Station`
+        :param mt_channel: channel of the run, it is not added
+        :type mt_channel: :class:`mt_metadata.timeseries.Channel`
+        :param run_id: id of the run, defaults to the next free number
+        :type run_id: string, optional
+        :return: the new run
+        :rtype: :class:`mt_metadata.timeseries.Run`
+
+        """
+        if run_id is None:
+            number = len(mt_station.runs) + 1
+            while f"{number:03d}" in mt_station.runs.keys():
+                number += 1
+            run_id = f"{number:03d}"
+        mt_run = metadata.Run(id=run_id)
+        mt_run.time_period.start = mt_channel.time_period.start
+        mt_run.time_period.end = mt_channel.time_period.end
+        mt_run.sample_rate = mt_channel.sample_rate
+        mt_station.add_run(mt_run)
+        return mt_run
+
     def mt_to_xml(self, mt_experiment, mt_fn=None, stationxml_fn=None, ns_dict=None):
         """
         Convert from MT :class:`mt_metadata.timeseries.Experiment` to
-- 
2.43.0


From 656d468cd0de0feba95afa5d52d93d877253f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:38 +0000
Subject: [PATCH 100/143] fix: read StationXML channels without a sensor, a
 response or a description of the dipole

---
 .../timeseries/stationxml/xml_channel_mt_channel.py   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 4094666..8147439 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -251,6 +251,9 @@ class XMLChannelMTChannel(BaseTranslator):
         :rtype: TYPE
 
         """
+        if sensor is None:
+            return mt_channel
+
         sensor.type = self._deduce_sensor_type(sensor)
 
         if not sensor.type:
@@ -293,7 +296,8 @@ class XMLChannelMTChannel(BaseTranslator):
             mt_channel.negative.model = sensor.model
             mt_channel.negative.type = "electrode"
 
-            mt_channel.dipole_length = self._parse_dipole_length(sensor.description)
+            if sensor.description:
+                mt_channel.dipole_length = self._parse_dipole_length(sensor.description)
 
             return mt_channel
 
@@ -499,7 +503,7 @@ class XMLChannelMTChannel(BaseTranslator):
 
     def _get_mt_units(self, xml_channel, mt_channel):
         """ """
-        if len(xml_channel.response.response_stages) == 0:
+        if xml_channel.response is None or not xml_channel.response.response_stages:
             return mt_channel
         name = xml_channel.response.response_stages[-1].output_units
         description = xml_channel.response.response_stages[-1].output_units_description
@@ -522,6 +526,9 @@ class XMLChannelMTChannel(BaseTranslator):
         parse the filters from obspy into mt filters
         """
         ch_filter_dict = OrderedDict()
+        if xml_channel.response is None:
+            return ch_filter_dict
+
         for stage in xml_channel.response.response_stages:
             mt_filter = create_filter_from_stage(stage)
             named = bool(mt_filter.name)
-- 
2.43.0


From 7a9e53d95253f2b51098b577cc1f8dd96e8027cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:47 +0000
Subject: [PATCH 101/143] fix: decimation factors given as a list are accepted
 as before

---
 mt_metadata/processing/aurora/processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index b4fe8a6..965fe5b 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -290,7 +290,10 @@ class Processing(MetadataBase):
             # each level is decimated from the one before
             sr = 1.0 * sample_rate
             for level in range(1, int(i_level) + 1):
-                sr /= decimation_factors.get(level, d)
+                try:
+                    sr /= decimation_factors[level]
+                except (KeyError, IndexError):
+                    sr /= d
             decimation_obj = DecimationLevel()
             decimation_obj.decimation.level = int(i_level)  # self.decimations_dict[key]
             decimation_obj.decimation.factor = d
-- 
2.43.0


From 3b4f8ef3ed57b04e075cd415bb2a7c40cfe6ae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:16 +0000
Subject: [PATCH 102/143] fix: covariances of zeros can be set when the other
 covariance is there

---
 mt_metadata/transfer_functions/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index f4f5921..70e5c63 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1540,6 +1540,9 @@ class TF:
         convenience method to compute errors from covariance
 
         """
+        if not (self.has_inverse_signal_power() and self.has_residual_covariance()):
+            # covariances of zeros are those that are not there
+            return
         self._compute_impedance_error_from_covariance()
         self._compute_tipper_error_from_covariance()
 
-- 
2.43.0


From cc00c4f1b68002ee44bf1340488d0d40d15f940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 103/143] fix: a transfer function can be taken from an EMTFXML
 object without covariances, impedance or tipper

---
 mt_metadata/transfer_functions/core.py | 48 ++++++++++++++++----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 70e5c63..c4e61d7 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2254,29 +2254,41 @@ class TF:
         self.survey_metadata = emtfxml_obj.survey_metadata
         self.station_metadata = self.survey_metadata.stations[0]
 
-        self.period = emtfxml_obj.data.period
-        self.impedance = emtfxml_obj.data.z
+        data = emtfxml_obj.data
+        # the arrays of what is not there are empty
+        arrays = {
+            key: None if array is None or array.size == 0 else array
+            for key, array in data.array_dict.items()
+        }
+
+        self.period = data.period
+        self.impedance = arrays["z"]
         # Handle negative or invalid values in z_var before taking sqrt
-        z_var = emtfxml_obj.data.z_var
-        with np.errstate(invalid="ignore"):
-            self.impedance_error = np.sqrt(np.where(z_var >= 0, z_var, np.nan))
-        self._transfer_function.inverse_signal_power.loc[
-            dict(input=self.hx_hy, output=self.hx_hy)
-        ] = emtfxml_obj.data.z_invsigcov
-        self._transfer_function.residual_covariance.loc[
-            dict(input=self.ex_ey, output=self.ex_ey)
-        ] = emtfxml_obj.data.z_residcov
+        z_var = arrays["z_var"]
+        if z_var is not None:
+            with np.errstate(invalid="ignore"):
+                self.impedance_error = np.sqrt(np.where(z_var >= 0, z_var, np.nan))
+        if arrays["z_invsigcov"] is not None:
+            self._transfer_function.inverse_signal_power.loc[
+                dict(input=self.hx_hy, output=self.hx_hy)
+            ] = arrays["z_invsigcov"]
+        if arrays["z_residcov"] is not None:
+            self._transfer_function.residual_covariance.loc[
+                dict(input=self.ex_ey, output=self.ex_ey)
+            ] = arrays["z_residcov"]
 
-        self.tipper = emtfxml_obj.data.t
-        self.tipper_error = np.sqrt(emtfxml_obj.data.t_var)
+        self.tipper = arrays["t"]
+        if arrays["t_var"] is not None:
+            self.tipper_error = np.sqrt(arrays["t_var"])
         # only there if there is a tipper
-        if np.any(emtfxml_obj.data.t_invsigcov != 0):
+        if arrays["t_invsigcov"] is not None and np.any(arrays["t_invsigcov"] != 0):
             self._transfer_function.inverse_signal_power.loc[
                 dict(input=self.hx_hy, output=self.hx_hy)
-            ] = emtfxml_obj.data.t_invsigcov
-        self._transfer_function.residual_covariance.loc[
-            dict(input=[self.hz], output=[self.hz])
-        ] = emtfxml_obj.data.t_residcov
+            ] = arrays["t_invsigcov"]
+        if arrays["t_residcov"] is not None:
+            self._transfer_function.residual_covariance.loc[
+                dict(input=[self.hz], output=[self.hz])
+            ] = arrays["t_residcov"]
 
     def to_jfile(self) -> None:
         """
-- 
2.43.0


From 6d7b4acf6d02bceeac97f5f426973816a35dbc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 104/143] fix: write EMTF XML of data types that have no type
 of transfer function of their own

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 9bde344..709d280 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1177,7 +1177,11 @@ class EMTFXML:
 
         self.site.acquired_by = sm.acquired_by.author
         if sm.data_type is not None:
-            self.sub_type = f"{sm.data_type.upper()}_TF"
+            sub_type = f"{sm.data_type.upper()}_TF"
+            # not all types of data have a type of transfer function
+            if sub_type not in [t.value for t in DataTypeEnum]:
+                sub_type = sm.data_type
+            self.sub_type = sub_type
         else:
             self.sub_type = DataTypeEnum.MT_TF
         self.site.name = sm.geographic_name
-- 
2.43.0


From db67e12e16a10d9cc54ae9ba139ebdf9b525a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 105/143] fix: the run metadata of a transfer function can be
 set

---
 mt_metadata/transfer_functions/core.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index c4e61d7..5ce3e96 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -458,23 +458,12 @@ class TF:
             The run metadata object or dictionary to set.
         """
 
-        # need to make sure the first index is the desired channel
+        # need to make sure the first index is the desired run
         if run_metadata is not None:
             run_metadata = self._validate_run_metadata(run_metadata)
 
             runs = ListDict()
             runs.append(run_metadata)
-            channels = ListDict()
-            if self.component is not None:
-                key = str(self.component)
-
-                channels.append(self.station_metadata.runs[0].channels[key])
-                # add existing channels
-                channels.extend(self.run_metadata.channels, skip_keys=[key, "0"])
-            # add channels from input metadata
-            channels.extend(run_metadata.channels)
-
-            runs[0].channels = channels
             runs.extend(self.station_metadata.runs, skip_keys=[run_metadata.id, "0"])
 
             self._survey_metadata.stations[0].runs = runs
-- 
2.43.0


From ed9db503c4640d8bdba6ef26de5fb35487919c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 106/143] fix: a transfer function of an EDI file of spectra
 can be written

---
 mt_metadata/transfer_functions/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 5ce3e96..a94bd7d 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2140,6 +2140,9 @@ class TF:
             )
         for tf_key, edi_key in k_dict.items():
             setattr(self, tf_key, getattr(edi_obj, edi_key))
+        # files of spectra have no rotation angles
+        if self._rotation_angle is None:
+            self._rotation_angle = 0
 
     def to_emtfxml(self) -> EMTFXML:
         """
-- 
2.43.0


From 850b32d661a337e83e65d8328abe63d7ace952fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 107/143] fix: a station can be given to a transfer function
 whose station has no runs

---
 mt_metadata/transfer_functions/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index a94bd7d..f446423 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -295,7 +295,7 @@ class TF:
                 return r_metadata
             else:
                 msg = (
-                    f"input metadata must be type {type(self.run_metadata)} "
+                    f"input metadata must be type {Run} "
                     f"or dict, not {type(run_metadata)}"
                 )
                 logger.error(msg)
@@ -423,8 +423,9 @@ class TF:
             station_metadata = self._validate_station_metadata(station_metadata)
 
             runs = ListDict()
-            if self.run_metadata.id not in ["0", 0, None]:
-                runs.append(self.run_metadata.copy())
+            if len(self.station_metadata.runs) > 0:
+                if self.run_metadata.id not in ["0", 0, None]:
+                    runs.append(self.run_metadata.copy())
             runs.extend(station_metadata.runs)
             if len(runs) == 0:
                 runs[0] = Run(id="0")
-- 
2.43.0


From ec5ca7d7b0e387774daa2d48eb76ab857b7b0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:59 +0000
Subject: [PATCH 108/143] fix: the person who processed the data is read from
 the INFO of an EDI file

PROCESSEDBY was put into an attribute the person does not have, and lost.
---
 mt_metadata/transfer_functions/io/edi/edi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 18143e7..5c98a07 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1119,6 +1119,8 @@ class EDI:
                     if isinstance(value, str):
                         value = [v.strip() for v in value.split(",")]
                     sm.transfer_function.runs_processed = value
+                elif key in ["processed_by.name"]:
+                    sm.transfer_function.processed_by.author = value
                 else:
                     sm.transfer_function.update_attribute(key, value)
 
@@ -1176,7 +1178,7 @@ class EDI:
                     else:
                         sm.transfer_function.remote_references = value.split()
             elif key in ["processedby", "processed_by"]:
-                sm.transfer_function.processed_by.name = value
+                sm.transfer_function.processed_by.author = value
             elif key in ["runlist", "run_list"]:
                 if value.count(",") > 0:
                     runs = value.split(",")
-- 
2.43.0


From b10365f5471030f9669c41f8c3d6c5bd6fc7bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:59 +0000
Subject: [PATCH 109/143] fix: values of EMpower INFO keep their words and lose
 their units

Texts lost ' m' and ' V' inside words ('Big mountain' became 'Bigountain'),
numbers of one character kept their units and were then refused, and TAG
renamed a channel whose section is called E1 or H1.
---
 .../io/edi/metadata/information.py             | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/information.py b/mt_metadata/transfer_functions/io/edi/metadata/information.py
index 7c9238e..be03551 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/information.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/information.py
@@ -8,6 +8,7 @@ Created on Sat Dec  4 14:13:37 2021
 # =============================================================================
 # Imports
 # =============================================================================
+import re
 from collections import OrderedDict
 
 from pydantic import Field, PrivateAttr
@@ -364,7 +365,7 @@ class Information(MetadataBase):
             value = parts[1].strip()
 
             # Clean up value (remove units in brackets and degree symbol)
-            if value.find("[") > 2:  # need to avoid values that are lists
+            if value.find("[") > 0:  # need to avoid values that are lists
                 value = value.replace("[", "").replace("]", "").split(",")
                 if len(value) == 1:
                     value = value[0].strip()
@@ -375,13 +376,14 @@ class Information(MetadataBase):
             value = (
                 value.replace("°", "")
                 .replace("Â", "")
-                .replace(" m", "")
-                .replace(" V", "")
                 .replace(" â„", "")
                 .replace("¦", "")
-                .replace(" Ω", "")
                 .strip()
             )
+            # only a number has units, a text keeps its words
+            value = re.sub(
+                r"^([-+]?[\d.]+(?:[eE][-+]?\d+)?)\s+[mV\u2126\u03a9]$", r"\1", value
+            )
 
             # Build the key based on section/component context
             std_key = self._get_empower_std_key(section, component, key, sub_section)
@@ -401,7 +403,11 @@ class Information(MetadataBase):
                     if "measured_azimuth" not in std_key:
                         continue
                 if "component" in std_key:
-                    value = component
+                    # the name of the channel, whatever it is called in the file
+                    if std_key.startswith("run.") and std_key.count(".") == 2:
+                        value = std_key.split(".")[1]
+                    else:
+                        value = component
                 if "hx" in std_key or "hy" in std_key or "hz" in std_key:
                     if "acquired_by" in std_key or "data_logger" in std_key:
                         # Handle author information for Hx/Hy/Hz
@@ -539,8 +545,6 @@ class Information(MetadataBase):
         Split Phoenix line into columns based on whitespace gaps and separators.
         Returns (is_multi_column, list_of_columns)
         """
-        import re
-
         # Check for basic indicators first
         if not line or len(line) < 10:
             return False, [line]
-- 
2.43.0


From 56e707f49306111e19f8e41af155519706d5f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 110/143] fix: short periods keep their digits in Z files

Periods were written with 5 decimals: periods of audio magnetotellurics lost
their digits, those close to each other became one and could not be written
again, and those below 5e-6 became zero.
---
 mt_metadata/transfer_functions/io/zfiles/zmm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index c80a797..e82c040 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -696,7 +696,7 @@ class ZMM(ZMMHeader):
                 }
             lines += [
                 (
-                    f"period : {p:^18.5f} "
+                    f"period : {self._format_period(p):^18} "
                     f"decimation level {dec_dict['level']:^8d}"
                     f"freq. band from {dec_dict['bands'][0]:>5d} to {dec_dict['bands'][1]:>5d}"
                 )
@@ -744,6 +744,14 @@ class ZMM(ZMMHeader):
             fid.write("\n".join(lines))
         return self.fn
 
+    def _format_period(self, period: float) -> str:
+        """
+        Period as text, short periods need more than 5 decimals.
+        """
+        if period < 1:
+            return f"{period:{PERIOD_FORMAT}}"
+        return f"{period:.5f}"
+
     def _get_period_blocks(self) -> list[list[str]]:
         """
         split file into period blocks
-- 
2.43.0


From d837cb4db93292c3bb92a69b1a2e4432ce6e6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 111/143] fix: a text of 1980 is kept in dictionaries

to_dict took every value '1980' for a time that is not set, so a serial
number, a name or a comment of that text was lost in dictionaries, JSON, XML
and everything made of them.
---
 mt_metadata/base/metadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index b6bc0a3..b7f6ede 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1053,7 +1053,6 @@ class MetadataBase(DotNotationBaseModel):
                                 if comment_obj.value not in [
                                     None,
                                     "1980-01-01T00:00:00+00:00",
-                                    "1980",
                                     [],
                                     "",
                                 ]:
@@ -1150,7 +1149,7 @@ class MetadataBase(DotNotationBaseModel):
                     if value.size > 0:
                         meta_dict[name] = value
                 elif (
-                    value not in [None, "1980-01-01T00:00:00+00:00", "1980", [], ""]
+                    value not in [None, "1980-01-01T00:00:00+00:00", [], ""]
                     or name in self._required_fields
                     or helpers._should_include_coordinate_field(name)
                     or helpers._should_convert_none_to_empty_string(name)
-- 
2.43.0


From de9f19dc30bbf335a1242bc316f4b1da65144061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:18 +0000
Subject: [PATCH 112/143] fix: channels of Z files are read from their own
 dictionaries and XML

---
 .../transfer_functions/io/zfiles/metadata/channel.py      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
index 37c52ae..e09b009 100644
--- a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
+++ b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
@@ -5,6 +5,7 @@ from typing import Annotated
 
 from pydantic import Field
 
+from mt_metadata import NULL_VALUES
 from mt_metadata.base import MetadataBase
 from mt_metadata.common.enumerations import ChannelEnum
 
@@ -121,12 +122,17 @@ class Channel(MetadataBase):
         else:
             return None
 
-    def from_dict(self, channel_dict):
+    def from_dict(self, channel_dict, skip_none=False):
         """
         fill attributes from a dictionary
         """
 
+        # dictionaries of to_dict are named by the class
+        if isinstance(channel_dict.get("channel"), dict):
+            channel_dict = channel_dict["channel"]
         for key, value in channel_dict.items():
+            if skip_none and value in NULL_VALUES:
+                continue
             if key in ["azm", "azimuth", "measurement_azimuth"]:
                 self.azimuth = value
             elif key in ["chn_num", "number"]:
-- 
2.43.0


From 8ab3d667b58fe85fb40c8a9c16afe1db0f90ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:41 +0000
Subject: [PATCH 113/143] fix: comments of channels are kept in StationXML

A comment with more than one colon, also one made by reading a StationXML,
could not be written (ValueError), one without a colon was lost.
---
 .../stationxml/xml_channel_mt_channel.py      | 33 +++++++++++--------
 .../stationxml/xml_inventory_mt_experiment.py | 18 ++++++++--
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 8147439..e99848c 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -433,10 +433,14 @@ class XMLChannelMTChannel(BaseTranslator):
             if k == "mt.run.id":
                 runs.append(v)
             else:
+                if k == "mt.comments":
+                    text = comment.value
+                else:
+                    text = f"{k}: {comment.value}"
                 if mt_channel.comments.value:
-                    mt_channel.comments.value += f", {k}: {v}"
+                    mt_channel.comments.value += f", {text}"
                 else:
-                    mt_channel.comments.value = f", {k}: {v}"
+                    mt_channel.comments.value = text
         if mt_channel.comments.value:
             mt_channel.comments.value += f", run_ids: [{','.join(runs)}]"
         else:
@@ -460,18 +464,21 @@ class XMLChannelMTChannel(BaseTranslator):
         comments = []
         if mt_comment.value is None:
             return comments
-        clist = mt_comment.value.split("run_ids:")
-        for item in clist:
-            if ":" in item:
-                k, v = item.split(":")
+        text, _, run_ids = mt_comment.value.partition("run_ids:")
+        text = text.strip(", ")
+        if text:
+            k, _, v = [item.strip() for item in text.partition(":")]
+            if v and ":" not in v and k == k.replace(" ", "_").lower():
                 comments.append(inventory.Comment(v, subject=k))
-            elif "[" in item and "]" in item:
-                for run in item.replace("[", "").replace("]", "").split(","):
-                    run = run.strip()
-                    if run:
-                        comments.append(
-                            inventory.Comment(run.strip(), subject="mt.run.id")
-                        )
+            else:
+                # anything that is not one 'subject: value' is kept as it is
+                comments.append(inventory.Comment(text, subject="mt.comments"))
+
+        if "[" in run_ids and "]" in run_ids:
+            for run in run_ids.replace("[", "").replace("]", "").split(","):
+                run = run.strip()
+                if run:
+                    comments.append(inventory.Comment(run, subject="mt.run.id"))
         return comments
 
     def _get_mt_position(self, xml_channel, mt_channel):
diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 4b3b37d..5ce0774 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -271,7 +271,11 @@ class XMLInventoryMTExperiment:
                 existing_channel = existing_channels[start_list.index(max(start_list))]
                 # should only compare the last channel
                 # for existing_channel in existing_channels:
-                run_list = [c.value for c in existing_channel.comments]
+                run_list = [
+                    c.value
+                    for c in existing_channel.comments
+                    if c.subject == "mt.run.id"
+                ]
                 # Compare channel metadata if matches just add run.id if its
                 # not already there.
                 self.logger.debug(
@@ -298,7 +302,11 @@ class XMLInventoryMTExperiment:
                     self.logger.debug(
                         f"xxx Unmatched {xml_channel.code}!={existing_channel.code}"
                     )
-                    run_list = [c.value for c in xml_channel.comments]
+                    run_list = [
+                        c.value
+                        for c in xml_channel.comments
+                        if c.subject == "mt.run.id"
+                    ]
                     if not mt_run.id in run_list:
                         self.logger.debug(f"adding run id {mt_run.id} to {run_list}")
                         xml_channel.comments.append(
@@ -307,7 +315,11 @@ class XMLInventoryMTExperiment:
                     xml_station.channels.append(xml_channel)
             else:
                 self.logger.debug(f"no existing channels for {xml_channel.code}")
-                run_list = [c.value for c in xml_channel.comments]
+                run_list = [
+                    c.value
+                    for c in xml_channel.comments
+                    if c.subject == "mt.run.id"
+                ]
                 if not mt_run.id in run_list:
                     self.logger.debug(f"adding run id {mt_run.id} to {run_list}")
                     xml_channel.comments.append(
-- 
2.43.0


From 80c8b03f1572a13468c994aea7cfac33177f94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:21 +0000
Subject: [PATCH 114/143] fix: operators, equipment and comments of StationXML
 made elsewhere

Contacts without or with several email addresses and equipment of a station
that is no run refused the whole file, comments of stations without a subject
were lost, those with colons cut.
---
 .../timeseries/stationxml/xml_network_mt_survey.py     |  7 ++++---
 .../timeseries/stationxml/xml_station_mt_station.py    | 10 +++++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
index db8fba3..1890d13 100644
--- a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
+++ b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
@@ -90,11 +90,12 @@ class XMLNetworkMTSurvey(BaseTranslator):
                     org.append(operator.agency)
                     for person in operator.contacts:
                         name.append(", ".join(person.names))
-                        email.append(", ".join(person.emails))
+                        email.extend(person.emails)
                 if name:
                     mt_survey.update_attribute("project_lead.author", ", ".join(name))
                 if email:
-                    mt_survey.update_attribute("project_lead.email", ", ".join(email))
+                    # there is only room for one address
+                    mt_survey.update_attribute("project_lead.email", email[0])
                 if org:
                     mt_survey.update_attribute(
                         "project_lead.organization", ", ".join(org)
@@ -108,7 +109,7 @@ class XMLNetworkMTSurvey(BaseTranslator):
             elif mt_key in ["comments"]:
                 for comment in network.comments:
                     key, value = self.read_xml_comment(comment)
-                    if isinstance(value, dict) and key.startswith("mt.survey."):
+                    if isinstance(value, dict):
                         # these are all text, which can have a colon
                         value = comment.value
                     if "doi" in key:
diff --git a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
index e42ce0e..f8b1582 100644
--- a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
+++ b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
@@ -126,20 +126,21 @@ class XMLStationMTStation(BaseTranslator):
                 key = comment.subject.strip().replace(" ", "_")
                 run_comments.append({key: value})
                 continue
-            if isinstance(value, dict) and key.startswith("mt.station."):
+            if isinstance(value, dict):
                 # these are all text, which can have a colon
                 value = comment.value
 
             try:
                 key = key.split("mt.station.")[1]
             except IndexError:
-                pass
+                # a comment of someone else
+                key = "comments"
 
             if "summary" in key:
                 key = key.replace("summary", "comments")
             if key in ["comments"]:
                 if mt_station.comments.value:
-                    mt_station.comments.value += value
+                    mt_station.comments.value += f", {value}"
                 else:
                     mt_station.comments.value = value
             else:
@@ -324,6 +325,9 @@ class XMLStationMTStation(BaseTranslator):
             raise TypeError(msg)
 
         for equipment in equipments:
+            # only equipment that stands for a run has the id of a run
+            if not str(equipment.resource_id).startswith("mt.run.id:"):
+                continue
             run_translator = XMLEquipmentMTRun()
             run_item = run_translator.xml_to_mt(equipment)
             run_index = station_obj.run_index(run_item.id)
-- 
2.43.0


From 8698b684b4234c4cde2486f02047472103af84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 115/143] fix: sensors of any type and model are kept in
 StationXML

The sensor of a magnetic channel without a type was lost, one of another type
than 'magnetometer', 'induction coil' or 'coil' refused to be read again,
models lost all but their first word.
---
 .../stationxml/xml_channel_mt_channel.py      | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index e99848c..cf2860b 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -256,10 +256,15 @@ class XMLChannelMTChannel(BaseTranslator):
 
         sensor.type = self._deduce_sensor_type(sensor)
 
-        if not sensor.type:
-            return mt_channel
-
-        if sensor.type.lower() in ["magnetometer", "induction coil", "coil"]:
+        # a sensor of no or of a type that is not known is one of its channel
+        kind = (sensor.type or "").lower()
+        if kind not in self.understood_sensor_types:
+            if isinstance(mt_channel, Magnetic):
+                kind = "magnetometer"
+            elif isinstance(mt_channel, Electric):
+                kind = "dipole"
+
+        if kind in ["magnetometer", "induction coil", "coil"]:
             if not isinstance(mt_channel, Magnetic):
                 msg = (
                     f"Cannot put sensor of type {sensor.type} into an "
@@ -269,13 +274,16 @@ class XMLChannelMTChannel(BaseTranslator):
                 raise ValueError(msg)
             mt_channel.sensor.id = sensor.serial_number
             mt_channel.sensor.manufacturer = sensor.manufacturer
-            mt_channel.sensor.model = f"{sensor.model} {sensor.description}"
+            if sensor.model:
+                mt_channel.sensor.model = " ".join(
+                    [item for item in [sensor.model, sensor.description] if item]
+                )
             mt_channel.sensor.type = sensor.type
             mt_channel.sensor.name = sensor.description
 
             return mt_channel
 
-        elif sensor.type.lower() in ["dipole", "electrode"]:
+        elif kind in ["dipole", "electrode"]:
             if not isinstance(mt_channel, Electric):
                 msg = (
                     f"Cannot put sensor of type {sensor.type} into an "
@@ -343,11 +351,10 @@ class XMLChannelMTChannel(BaseTranslator):
         elif mt_channel.type in ["magnetic"]:
             s.type = mt_channel.sensor.type
             if mt_channel.sensor.model:
-                s.model = mt_channel.sensor.model.split()[0]
-                try:
-                    s.description = mt_channel.sensor.model.split()[1]
-                except IndexError:
-                    pass
+                # the name is in the description
+                s.model = mt_channel.sensor.model.removesuffix(
+                    f" {mt_channel.sensor.name}"
+                )
             s.serial_number = mt_channel.sensor.id
             s.manufacturer = mt_channel.sensor.manufacturer
             s.description = mt_channel.sensor.name
-- 
2.43.0


From 2a9832e65a78f11a1d7cca8925668cb7c2b36dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 116/143] fix: comments and project lead of surveys are kept in
 StationXML

A project lead with an author and no email could not be written, one without
an organization and the comments were lost.
---
 .../stationxml/xml_network_mt_survey.py       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
index 1890d13..e2a30da 100644
--- a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
+++ b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
@@ -62,6 +62,7 @@ class XMLNetworkMTSurvey(BaseTranslator):
             "project",
             "acquired_by.author",
             "acquired_by.comments.value",
+            "comments",
         ]
 
     def xml_to_mt(self, network):
@@ -87,9 +88,11 @@ class XMLNetworkMTSurvey(BaseTranslator):
                 email = []
                 org = []
                 for operator in network.operators:
-                    org.append(operator.agency)
+                    if operator.agency and operator.agency.strip():
+                        org.append(operator.agency)
                     for person in operator.contacts:
-                        name.append(", ".join(person.names))
+                        if person.names:
+                            name.append(", ".join(person.names))
                         email.extend(person.emails)
                 if name:
                     mt_survey.update_attribute("project_lead.author", ", ".join(name))
@@ -174,14 +177,16 @@ class XMLNetworkMTSurvey(BaseTranslator):
                 self.logger.debug(msg)
                 continue
             if inv_key == "operators":
-                if survey.project_lead.organization:
+                lead = survey.project_lead
+                if lead.organization or lead.author or lead.email:
+                    # agency is required, so use a blank if there is none
                     operator = inventory.Operator(
-                        agency=survey.project_lead.organization
+                        agency=lead.organization or " "
                     )
-                    if survey.project_lead.author:
+                    if lead.author or lead.email:
                         person = inventory.Person(
-                            names=[survey.project_lead.author],
-                            emails=[survey.project_lead.email],
+                            names=[lead.author] if lead.author else [],
+                            emails=[str(lead.email)] if lead.email else [],
                         )
                         operator.contacts = [person]
                     network.operators = [operator]
-- 
2.43.0


From 1ff45eca140acecb8b99bd1ac878ec3fdf1c8c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:54 +0000
Subject: [PATCH 117/143] fix: comments of stations never refuse EMTF XML and
 keep their texts

Comments with 'fieldnotes' or 'datalogger' and a colon raised AttributeError or
IndexError, what named no attribute was lost, places of channels went to
others.
---
 .../transfer_functions/io/emtfxml/emtfxml.py  | 109 +++++++++---------
 1 file changed, 53 insertions(+), 56 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 709d280..b29ca40 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -594,7 +594,7 @@ class EMTFXML:
             }
 
             dipole_names = []
-            for d in self.field_notes.run_list[0].dipole:
+            for d in self.field_notes._run_list[0].dipole:
                 if isinstance(d.name, str):
                     dipole_names.append(d.name.lower())
                 else:
@@ -604,25 +604,23 @@ class EMTFXML:
             elif None in dipole_names:
                 index = dipole_names.index(None)
             else:
-                self.field_notes.run_list[0].magnetometer.append(
+                self.field_notes._run_list[0].dipole.append(
                     emtf_xml.Dipole(name=comp)
                 )
                 index = -1
 
             setattr(
-                self.field_notes.run_list[0].dipole[index],
+                self.field_notes._run_list[0].dipole[index],
                 e_dict[fkey],
                 value,
             )
         elif fkey in ["x", "x2", "y", "y2", "z", "z2"]:
-            if len(self.site_layout.output_channels) == 0:
-                self.site_layout.output_channels.append(emtf_xml.Electric(name=comp))
-            ch_names = [c.name for c in self.site_layout.output_channels]
-            if comp in ch_names:
-                index = ch_names.index(comp)
-            else:
-                index = 0
-            self.site_layout.output_channels[index].update_attribute(fkey, value)
+            channels = self.site_layout.output_channels
+            ch_names = [c.name.lower() for c in channels]
+            if comp.lower() not in ch_names:
+                channels.append(emtf_xml.Electric(name=comp))
+                ch_names.append(comp.lower())
+            channels[ch_names.index(comp.lower())].update_attribute(fkey, value)
         return None, None
 
     def _parse_comments_magnetic(self, key: str, value: str) -> tuple[None, None]:
@@ -662,7 +660,7 @@ class EMTFXML:
             }
 
             mag_names = []
-            for d in self.field_notes.run_list[0].magnetometer:
+            for d in self.field_notes._run_list[0].magnetometer:
                 if isinstance(d.name, str):
                     mag_names.append(d.name.lower())
                 else:
@@ -673,38 +671,26 @@ class EMTFXML:
             elif None in mag_names:
                 index = mag_names.index(None)
             else:
-                self.field_notes.run_list[0].magnetometer.append(
+                self.field_notes._run_list[0].magnetometer.append(
                     emtf_xml.Magnetometer(name=comp)
                 )
                 index = -1
 
             setattr(
-                self.field_notes.run_list[0].magnetometer[index],
+                self.field_notes._run_list[0].magnetometer[index],
                 m_dict[fkey],
                 value,
             )
         elif fkey in ["x", "y", "z"]:
-            if comp in ["hx", "hy"]:
-                if len(self.site_layout.output_channels) == 0:
-                    self.site_layout.input_channels.append(emtf_xml.Magnetic(name=comp))
-                ch_names = [c.name for c in self.site_layout.output_channels]
-                if comp in ch_names:
-                    index = ch_names.index(comp)
-                else:
-                    index = 0
-                self.site_layout.output_channels[index].update_attribute(fkey, value)
-            elif comp in ["hz"]:
-                if len(self.site_layout.output_channels) == 0:
-                    self.site_layout.output_channels.append(
-                        emtf_xml.Magnetic(name=comp)
-                    )
-                ch_names = [c.name for c in self.site_layout.output_channels]
-                if comp in ch_names:
-                    index = ch_names.index(comp)
-                else:
-                    index = 0
-
-                self.site_layout.output_channels[index].update_attribute(fkey, value)
+            if comp.lower() in ["hx", "hy"]:
+                channels = self.site_layout.input_channels
+            else:
+                channels = self.site_layout.output_channels
+            ch_names = [c.name.lower() for c in channels]
+            if comp.lower() not in ch_names:
+                channels.append(emtf_xml.Magnetic(name=comp))
+                ch_names.append(comp.lower())
+            channels[ch_names.index(comp.lower())].update_attribute(fkey, value)
         return None, None
 
     def _parse_comments_processing(
@@ -759,30 +745,40 @@ class EMTFXML:
         if comments.count("\n") > 0 and comments.count("=") > 0:
             comments = comments.replace("\n", ";").replace("=", ":")
         for comment in comments.split(";"):
+            comment = comment.strip()
             if comment.count(":") >= 1:
                 key, value = [c.strip() for c in comment.split(":", 1)]
+                if "." not in key and key != "description":
+                    # only keys with dots are names of attributes
+                    other.append(comment)
+                    continue
                 if "fieldnotes" in key:
-                    if len(self.field_notes.run_list) == 0:
-                        self.field_notes.run_list.append(emtf_xml.Run())
-
-                if "datalogger" in key:
-                    key, value = self._parse_comments_data_logger(key, value)
-                    try:
-                        self.field_notes.run_list[0].update_attribute(key, value)
-                        key = None
-                        value = None
-                    except:
-                        pass
-
-                elif "fieldnotes" in key and "dataquality" in key:
-                    key, value = self._parse_comments_data_quality(key, value)
-
-                elif "fieldnotes" in key and "electrode_" in key:
-                    key, value = self._parse_comments_electric(key, value)
-                elif "fieldnotes" in key and "magnetometer_" in key:
-                    key, value = self._parse_comments_magnetic(key, value)
-                elif "processing" in key:
-                    key, value = self._parse_comments_processing(key, value)
+                    if len(self.field_notes._run_list) == 0:
+                        self.field_notes._run_list.append(emtf_xml.Run())
+
+                try:
+                    if "datalogger" in key:
+                        key, value = self._parse_comments_data_logger(key, value)
+                        try:
+                            self.field_notes._run_list[0].update_attribute(key, value)
+                            key = None
+                            value = None
+                        except:
+                            pass
+
+                    elif "fieldnotes" in key and "dataquality" in key:
+                        key, value = self._parse_comments_data_quality(key, value)
+
+                    elif "fieldnotes" in key and "electrode_" in key:
+                        key, value = self._parse_comments_electric(key, value)
+                    elif "fieldnotes" in key and "magnetometer_" in key:
+                        key, value = self._parse_comments_magnetic(key, value)
+                    elif "processing" in key:
+                        key, value = self._parse_comments_processing(key, value)
+                except (ValueError, IndexError):
+                    logger.warning(f"Cannot use {value} as {key}.")
+                    other.append(comment)
+                    continue
 
                 if key is not None and value is not None:
                     if "." in key:
@@ -791,6 +787,7 @@ class EMTFXML:
                             getattr(self, obj).update_attribute(attr_key, value)
                         except:
                             logger.warning(f"Cannot set attribute {key}.")
+                            other.append(comment)
                     elif key == "description":
                         # Handle description as direct attribute on the EMTFXML object
                         self.description = value
-- 
2.43.0


From 2612b02686be81db832852ff451c36428e95a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 118/143] fix: the response of a channel has its filters with
 capitals in their names

Names of applied filters are lower case, with " per " for "/", those of
filters keep theirs: a filter was left out of the response of a channel
unless the survey had it under the changed name.
---
 mt_metadata/timeseries/channel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c12b563..e12b1b7 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -586,10 +586,17 @@ class ChannelBase(MetadataBase):
             try:
                 mt_filter = filters_dict[applied_filter.name]
                 mt_filter_list.append(mt_filter)
+                continue
             except KeyError:
+                pass
+            # names of applied filters are lower case, those of filters are not
+            for name, mt_filter in filters_dict.items():
+                if self._filter_key(name) == applied_filter.name:
+                    mt_filter_list.append(mt_filter)
+                    break
+            else:
                 msg = f"Could not find {applied_filter.name} in filters dictionary, skipping"
                 logger.error(msg)
-                continue
         # compute instrument sensitivity and units in/out
         return ChannelResponse(filters_list=mt_filter_list)
 
-- 
2.43.0


From 450ee7f035c9ceeba310074f0afc11c228d4af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 119/143] fix: dictionaries of filters without a known type
 raise TypeError

---
 mt_metadata/timeseries/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 31308ff..bb8c57c 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -444,13 +444,14 @@ class Survey(MetadataBase):
             if len(value) > 0:
                 for ff in value:
                     if isinstance(ff, (dict, OrderedDict, ListDict)):
-                        f_type = ff["type"]
+                        f_type = ff.get("type")
                         if f_type is None:
                             msg = (
                                 "filter type is None do not know how to read the filter"
                             )
                             fails.append(msg)
                             logger.error(msg)
+                            continue
                         if f_type.lower() in ["zpk"]:
                             f = PoleZeroFilter()
                         elif f_type.lower() in ["coefficient"]:
@@ -465,6 +466,7 @@ class Survey(MetadataBase):
                             msg = f"filter type {f_type} not supported."
                             fails.append(msg)
                             logger.error(msg)
+                            continue
 
                         f.from_dict(ff)
                         filters[f.name] = f
-- 
2.43.0


From 396ebdbb8987813839d1dc6b8a9c23b03aaa5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:51 +0000
Subject: [PATCH 120/143] fix: channels can be given to a run as dictionaries
 of to_dict

Dictionaries under the name of the class, as to_dict gives them and as
surveys, stations and runs accept them, were refused.
---
 mt_metadata/timeseries/run.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 4cbc0f5..0832d85 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -1079,6 +1079,11 @@ class Run(MetadataBase):
                 return Auxiliary(component=channel_obj)
 
         elif isinstance(channel_obj, (dict, OrderedDict)):
+            # dictionaries of channels can be under the name of their class
+            if len(channel_obj) == 1:
+                class_name, attributes = list(channel_obj.items())[0]
+                if isinstance(attributes, (dict, OrderedDict)):
+                    channel_obj = {"type": class_name, **attributes}
             try:
                 ch_type = channel_obj.get("type")
                 if ch_type is None:
-- 
2.43.0


From 0140a1f58a4dedb0ce3df105c4f4f627d02e5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 121/143] fix: an arithmetic band without frequencies can be
 printed

---
 mt_metadata/common/band.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/common/band.py b/mt_metadata/common/band.py
index 7e0bd2b..84f8130 100644
--- a/mt_metadata/common/band.py
+++ b/mt_metadata/common/band.py
@@ -331,6 +331,8 @@ class Band(MetadataBase):
         -------
 
         """
+        if self.center_frequency == 0:
+            return float("nan")
         return self.width / self.center_frequency
 
     @computed_field
-- 
2.43.0


From 70da88be03b3eb769361ed98e8a06f05afa9bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 122/143] fix: an EMTFXML object without values can be printed

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index b29ca40..31d2a10 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -214,17 +214,17 @@ class EMTFXML:
             f"\t\tModel:     {self.station_metadata.location.declination.model}"
         )
 
-        if self.data.z is not None:
+        if self.data.z is not None and np.any(np.nan_to_num(self.data.z)):
             lines.append("\tImpedance:     True")
         else:
             lines.append("\tImpedance:     False")
 
-        if self.data.t is not None:
-            lines.append("\ttipper:        True")
+        if self.data.t is not None and np.any(np.nan_to_num(self.data.t)):
+            lines.append("\tTipper:        True")
         else:
             lines.append("\tTipper:        False")
 
-        if self.data.period is not None:
+        if self.data.n_periods > 0:
             lines.append(f"\tN Periods:     {len(self.data.period)}")
 
             lines.append("\tPeriod Range:")
-- 
2.43.0


From 98293497fea339d0957e685cf879eaccad17f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 123/143] fix: a JFile without values can be printed

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index 89b192f..d45cb00 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -338,7 +338,7 @@ class JFile:
         r1 = Run(id="001")
         if self.header.birrp_parameters.deltat < 0:
             r1.sample_rate = abs(self.header.birrp_parameters.deltat)
-        else:
+        elif self.header.birrp_parameters.deltat > 0:
             r1.sample_rate = 1.0 / (self.header.birrp_parameters.deltat)
 
         if not np.all(self.z == 0):
-- 
2.43.0


From 39db723e7aa6155aea6e6359a6f1433a818feff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:24 +0000
Subject: [PATCH 124/143] fix: to_dict leaves dictionaries of an object as they
 were

---
 mt_metadata/base/metadata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index b7f6ede..c1f1bdb 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1114,13 +1114,15 @@ class MetadataBase(DotNotationBaseModel):
                 elif hasattr(value, "to_dict"):
                     value = value.to_dict(nested=nested, required=required)
                 elif isinstance(value, dict):
+                    v_dict = {}
                     for key, obj in value.items():
                         if hasattr(obj, "to_dict"):
-                            value[key] = obj.to_dict(nested=nested, required=required)
+                            v_dict[key] = obj.to_dict(nested=nested, required=required)
                         elif isinstance(obj, Enum):
-                            value[key] = obj.value
+                            v_dict[key] = obj.value
                         else:
-                            value[key] = obj
+                            v_dict[key] = obj
+                    value = v_dict
                 elif isinstance(value, list):
                     v_list = []
                     for obj in value:
-- 
2.43.0


From 443f2262bbcbfd33276e2fc1368e73cb579dc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:39 +0000
Subject: [PATCH 125/143] fix: items of an EDI file with blanks before = are
 read, lines without = are no items

---
 .../transfer_functions/io/edi/metadata/data_section.py      | 2 +-
 .../io/edi/metadata/define_measurement.py                   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/data_section.py b/mt_metadata/transfer_functions/io/edi/metadata/data_section.py
index 5c25001..6a7a936 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/data_section.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/data_section.py
@@ -279,7 +279,7 @@ class DataSection(MetadataBase):
         for d_line in data_list:
             d_list = d_line.split("=")
             if len(d_list) > 1:
-                key = d_list[0].lower()
+                key = d_list[0].strip().lower()
                 value = d_list[1].strip().replace('"', "")
                 if key not in ["sectid"]:
                     try:
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
index 920e58d..929bdbc 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
@@ -368,8 +368,10 @@ class DefineMeasurement(MetadataBase):
 
         for line in self._measurement_list:
             if isinstance(line, str):
-                line_list = line.split("=")
-                key = line_list[0].lower()
+                if "=" not in line:
+                    continue
+                line_list = line.split("=", 1)
+                key = line_list[0].strip().lower()
                 value = line_list[1].strip()
                 if key in "reflatitude":
                     key = "reflat"
-- 
2.43.0


From a50bce9257187551ed3b780f38b7b43ec2f8d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 126/143] fix: depth and tilt of magnetic channels are read
 from and written to EDI files

---
 mt_metadata/transfer_functions/io/edi/edi.py                    | 2 ++
 .../transfer_functions/io/edi/metadata/define_measurement.py    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 5c98a07..a0a9e0c 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1395,6 +1395,8 @@ class EDI:
             magnetic.channel_id = meas.id
             magnetic.location.x = meas.x
             magnetic.location.y = meas.y
+            magnetic.location.z = meas.z
+            magnetic.measurement_tilt = meas.dip
             try:
                 magnetic.sensor.id = meas.meas_magnetic.sensor
             except AttributeError:
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
index 929bdbc..c8acdf5 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
@@ -560,6 +560,7 @@ class DefineMeasurement(MetadataBase):
                 **{
                     "x": channel.location.x,
                     "y": channel.location.y,
+                    "z": channel.location.z,
                     "azm": azm,
                     "chtype": channel.component,
                     "id": channel.channel_id,
-- 
2.43.0


From ed3ff4ef57cb5af2fe5691612280712ca967e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:02 +0000
Subject: [PATCH 127/143] fix: the azimuth of an electric channel of an EDI
 file without places of electrodes is the one given

---
 mt_metadata/transfer_functions/io/edi/edi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index a0a9e0c..2541a6d 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1316,10 +1316,12 @@ class EDI:
             ]:
                 if electric.get_attr_from_name(attr) is None:
                     electric.update_attribute(attr, 0)
+            # without the places of the electrodes the azimuth is the one given
+            azimuth = meas.azimuth if meas.dipole_length else meas.azm
             electric.dipole_length = meas.dipole_length
             electric.channel_id = meas.id
-            electric.measurement_azimuth = meas.azimuth
-            electric.translated_azimuth = meas.azimuth
+            electric.measurement_azimuth = azimuth
+            electric.translated_azimuth = azimuth
             electric.component = meas.chtype
             electric.channel_number = meas.channel_number
             electric.negative.x = meas.x
-- 
2.43.0


From fff0404f237594c912abe1bfe6f9ad23b62f6704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:11 +0000
Subject: [PATCH 128/143] fix: attributes of a measurement of an EDI file may
 have several words or no value

---
 mt_metadata/transfer_functions/io/tools.py | 34 +++++++++-------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/tools.py b/mt_metadata/transfer_functions/io/tools.py
index 943015d..87581d2 100644
--- a/mt_metadata/transfer_functions/io/tools.py
+++ b/mt_metadata/transfer_functions/io/tools.py
@@ -39,26 +39,20 @@ def _validate_str_with_equals(input_string):
     if input_string.find("//") > 0:
         input_string = input_string[0 : input_string.find("//")]
 
-    # split the line by =
-    l_list = input_string.strip().split("=")
-
-    # split the remaining strings
-    str_list = []
-    for line in l_list:
-        s_list = line.strip().split()
-        for l_str in s_list:
-            str_list.append(l_str.strip())
-
-    # probably not a good return
-    if len(str_list) % 2 != 0:
-        # _logger.info(
-        #     'The number of entries in {0} is not even'.format(str_list))
-        return str_list
-
-    line_list = [
-        "{0}={1}".format(str_list[ii], str_list[ii + 1])
-        for ii in range(0, len(str_list), 2)
-    ]
+    # split the line by =, the last word before it is the key, the words
+    # before that are the value of the key before
+    line_list = []
+    key = None
+    parts = input_string.strip().split("=")
+    for index, part in enumerate(parts):
+        words = part.split()
+        next_key = None
+        if index < len(parts) - 1 and words:
+            next_key = words.pop()
+        # a key without a value is skipped
+        if key is not None and words:
+            line_list.append("{0}={1}".format(key, " ".join(words)))
+        key = next_key
 
     return line_list
 
-- 
2.43.0


From d304f543589900db07dc5cfaa4b2f4d648cc6c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:11 +0000
Subject: [PATCH 129/143] fix: magnetic channels of EDI files called bx, by, bz
 are read, those of unknown type skipped

---
 .../io/edi/metadata/define_measurement.py                  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
index c8acdf5..aff3912 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
@@ -405,12 +405,15 @@ class DefineMeasurement(MetadataBase):
             elif isinstance(line, dict):
                 ch_type = line["chtype"].lower()
                 key = f"{ch_type}"
-                if ch_type.find("h") >= 0:
+                if "h" in ch_type or "b" in ch_type:
                     value = HMeasurement(**line)
-                elif ch_type.find("e") >= 0:
+                elif "e" in ch_type:
                     value = EMeasurement(**line)
                     if value.azm == 0:
                         value.azm = value.azimuth
+                else:
+                    logger.warning(f"Do not know channel type {ch_type}, skipping")
+                    continue
                 if key in self.measurements.keys():
                     existing_ch = self.measurements[key]
                     existing_line = existing_ch.write_meas_line()
-- 
2.43.0


From b27d80b4282f44d8d8b9ef7ada5f693ab86867da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 130/143] fix: EDI files without a DATAID can be read again
 after they are written

---
 mt_metadata/transfer_functions/io/edi/metadata/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/header.py b/mt_metadata/transfer_functions/io/edi/metadata/header.py
index 34f809b..9b7e31a 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/header.py
@@ -430,7 +430,7 @@ class Header(BasicLocation, GeographicLocation):
             elif key in ["elev", "elevation"]:
                 key = "elevation"
             else:
-                if key in ["dataid"]:
+                if key in ["dataid"] and value:
                     value = validate_station_name(value)
 
             setattr(self, key, value)
-- 
2.43.0


From 8dc03f8f3584ac92b114f523d9ccd99dbbf75531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:56 +0000
Subject: [PATCH 131/143] fix: give the limits and the validators of a field in
 its description

Limits such as a pattern or a range are metadata of the field, not part of its
annotation, so constraints only had nullable. Validators are kept under their
own names, so has_validators was False for fields that have them.
---
 mt_metadata/base/pydantic_helpers.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 0305453..d1ac221 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -358,7 +358,11 @@ def _to_serializable_field(
 
     enum_values, enum_names = _extract_enum_info(ann)
     extras = _extract_json_schema_extras(field_info)  # examples, required, units
-    constraints = _extract_constraints(ann)
+    # constraints of the field are not part of its annotation
+    metadata = getattr(field_info, "metadata", None)
+    constraints = _extract_constraints(
+        Annotated[(ann, *metadata)] if ann is not None and metadata else ann
+    )
 
     summary = {
         "__field__": True,
@@ -533,6 +537,13 @@ def _extract_constraints(annotation: Any) -> Dict[str, Any] | None:
                     return True
         return False
 
+    nullable = _is_nullable(schema)
+    # constraints of an optional value are those of its only type
+    if "anyOf" in schema:
+        options = [sub for sub in schema["anyOf"] if sub.get("type") != "null"]
+        if len(options) == 1:
+            schema = {**options[0], **schema}
+
     constraints: Dict[str, Any] = {
         "ge": schema.get("minimum"),
         "le": schema.get("maximum"),
@@ -547,7 +558,7 @@ def _extract_constraints(annotation: Any) -> Dict[str, Any] | None:
         "unique_items": schema.get("uniqueItems"),
         "const": schema.get("const"),
         "format": schema.get("format"),
-        "nullable": _is_nullable(schema),
+        "nullable": nullable,
     }
 
     return {k: v for k, v in constraints.items() if v is not None}
@@ -599,8 +610,10 @@ def _collect_field_validator_map(model_cls: type[BaseModel]) -> Dict[str, bool]:
 
     fv = getattr(decs, "field_validators", None)
     if isinstance(fv, dict):
-        for fname, validators in fv.items():
-            result[fname] = bool(validators)
+        # keys are the names of the validators
+        for validator in fv.values():
+            for fname in validator.info.fields:
+                result[fname] = True
 
     vals = getattr(decs, "validators", None)
     if vals:
@@ -723,12 +736,14 @@ def _model_fingerprint(
     -----
     - Uses a sorted JSON of tuples:
         (name, deprecated, annotation repr, default repr, json_schema_extra snapshot,
-        description, enum members, fingerprint of the nested class)
+        description, enum members, constraints, presence of validators, fingerprint of
+        the nested class)
     - Change in any of these will produce a different fingerprint, refreshing the disk cache.
     """
     field_map = getattr(model_cls, "model_fields", None) or getattr(
         model_cls, "__pydantic_fields__", {}
     )
+    validators_map = _collect_field_validator_map(model_cls)
     parts = []
     for name, info in field_map.items():
         extra = getattr(info, "json_schema_extra", None)
@@ -764,6 +779,8 @@ def _model_fingerprint(
                 extra_snapshot,
                 _safe_repr(getattr(info, "description", None)),
                 _safe_repr(_extract_enum_info(annotation)),
+                _safe_repr(getattr(info, "metadata", None)),
+                bool(validators_map.get(name, False)),
                 nested_fingerprint,
             )
         )
-- 
2.43.0


From 82e5bcfad994a2ccb1a69c5a1247a5a4adc44922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:19 +0000
Subject: [PATCH 132/143] fix: take arrays of run ids and channels for lists of
 names

Validators compare the value with those of nothing before they look for an
array, so np.array of more than one name raised an error.
---
 mt_metadata/timeseries/run.py     | 8 +++++++-
 mt_metadata/timeseries/station.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 0832d85..a73b9e0 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -278,7 +278,13 @@ class Run(MetadataBase):
         """
         Validate that the value is a list of strings.
         """
-        if value in [None, "None", "none", "NONE", "null"]:
+        if not isinstance(value, np.ndarray) and value in [
+            None,
+            "None",
+            "none",
+            "NONE",
+            "null",
+        ]:
             return []
 
         if isinstance(value, np.ndarray):
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 0cc2f96..2cde24d 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -250,7 +250,7 @@ class Station(MetadataBase):
         """
         Validate that the value is a list of strings.
         """
-        if value in NULL_VALUES:
+        if not isinstance(value, np.ndarray) and value in NULL_VALUES:
             return []
 
         if isinstance(value, np.ndarray):
-- 
2.43.0


From 36cc78501a1ae357ad17eb5aaa0346669900aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 133/143] fix: leave out blanks around names of channels and
 levels of FC

---
 mt_metadata/processing/fourier_coefficients/fc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/processing/fourier_coefficients/fc.py b/mt_metadata/processing/fourier_coefficients/fc.py
index 902ca2c..ca17208 100644
--- a/mt_metadata/processing/fourier_coefficients/fc.py
+++ b/mt_metadata/processing/fourier_coefficients/fc.py
@@ -135,7 +135,7 @@ class FC(MetadataBase):
             return value
 
         elif isinstance(value, (str)):
-            value = value.split(",")
+            value = [item.strip() for item in value.split(",")]
             return value
 
         else:
-- 
2.43.0


From f66865099a116a4d6e71994015f0054694d13a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 134/143] fix: leave out blanks around the runs of an EMTF XML
 site

---
 mt_metadata/transfer_functions/io/emtfxml/metadata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/site.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/site.py
index 8babcf0..b2ba056 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/site.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/site.py
@@ -291,10 +291,10 @@ class Site(MetadataBase):
                 value = value.strip("[]")
 
             if value.count(",") > 0:
-                return value.split(",")
+                return [item.strip() for item in value.split(",")]
             elif value.count(" ") > 0:
                 # Split by space if no commas are present
-                return value.split(" ")
+                return value.split()
             if value == "":
                 return []
             return [value]  # Return as a single-item list if no commas or spaces
-- 
2.43.0


From bde4d255e42f4c7b8d2f1371aa8e6c33943830a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 135/143] fix: leave out blanks around runs and remote
 references of EDI files

---
 mt_metadata/transfer_functions/io/edi/edi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 2541a6d..ddb1077 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1174,14 +1174,16 @@ class EDI:
                     sm.transfer_function.software.name = value
                 elif key in ["tag"]:
                     if value.count(",") > 0:
-                        sm.transfer_function.remote_references = value.split(",")
+                        sm.transfer_function.remote_references = [
+                            item.strip() for item in value.split(",")
+                        ]
                     else:
                         sm.transfer_function.remote_references = value.split()
             elif key in ["processedby", "processed_by"]:
                 sm.transfer_function.processed_by.author = value
             elif key in ["runlist", "run_list"]:
                 if value.count(",") > 0:
-                    runs = value.split(",")
+                    runs = [item.strip() for item in value.split(",")]
                 else:
                     runs = value.split()
                 sm.run_list = []
-- 
2.43.0


From 76fe3240d7b3d687dc0cd61f928d26ef21a6275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 136/143] fix: read EDI files whose INFO names runs that are
 not those of the station

Runs of run_list have no channels, looking for them raised a KeyError.
---
 mt_metadata/transfer_functions/io/edi/edi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index ddb1077..ab76610 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1214,7 +1214,7 @@ class EDI:
                 try:
                     ch_obj = rr.channels[ch]
                     ch_obj.update(getattr(self, f"{ch}_metadata"))
-                except AttributeError:
+                except (AttributeError, KeyError):
                     pass
         return sm
 
-- 
2.43.0


From 69403bd50905b19959c6da414d3c18390ddab61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:10 +0000
Subject: [PATCH 137/143] fix: take arrays with named dimensions in any order
 for transfer functions

A DataArray whose first dimension is not the period was compared by its shape
and refused, though its dimensions are named.
---
 mt_metadata/transfer_functions/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index f446423..6457ac5 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -827,6 +827,8 @@ class TF:
             raise TFError(msg)
         # need to reorder the data array to the expected coordinates
         da = da.reindex(output=ch_out, input=ch_in)
+        # as well as the expected order of dimensions
+        da = da.transpose("period", "output", "input")
         # if this is the first instantiation then just resize the
         # transfer function to fit the input
         if (
-- 
2.43.0


From 1877d3cf132daa916081d1bd985817be85084b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 138/143] fix: take numpy numbers as seconds (days) when they
 are added to times (dates)

---
 mt_metadata/common/mttime.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 05ae3fb..ccd1463 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -746,6 +746,9 @@ class MTime(BaseModel):
                  pd.Timedelta or seconds as a float or int.
 
         """
+        if isinstance(other, np.number) and not isinstance(other, np.timedelta64):
+            other = other.item()
+
         if isinstance(other, (int, float)):
             other = pd.Timedelta(seconds=other)
             logger.debug("Assuming other time is in seconds")
@@ -776,6 +779,9 @@ class MTime(BaseModel):
 
         """
 
+        if isinstance(other, np.number) and not isinstance(other, np.timedelta64):
+            other = other.item()
+
         if isinstance(other, (int, float)):
             other = pd.Timedelta(seconds=other)
             logger.info("Assuming other time is in seconds and not epoch seconds.")
@@ -1164,6 +1170,9 @@ class MDate(MTime):
                  pd.Timedelta or seconds as a float or int.
 
         """
+        if isinstance(other, np.number) and not isinstance(other, np.timedelta64):
+            other = other.item()
+
         if isinstance(other, (int, float)):
             other = pd.Timedelta(days=other)
             logger.debug("Assuming other time is in days")
@@ -1194,6 +1203,9 @@ class MDate(MTime):
 
         """
 
+        if isinstance(other, np.number) and not isinstance(other, np.timedelta64):
+            other = other.item()
+
         if isinstance(other, (int, float)):
             other = pd.Timedelta(days=other)
             logger.info("Assuming other time is in seconds and not epoch seconds.")
-- 
2.43.0


From 2735a366383f141457c1dd619631c9ad5ee82eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:47 +0000
Subject: [PATCH 139/143] fix: say that a JSON file given as path does not
 exist

---
 mt_metadata/base/metadata.py         | 5 ++---
 mt_metadata/timeseries/experiment.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index c1f1bdb..972b9a9 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1295,9 +1295,8 @@ class MetadataBase(DotNotationBaseModel):
             if json_dict is None:
                 json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
-            if json_str.exists():
-                with open(json_str, "r") as fid:
-                    json_dict = json.load(fid)
+            with open(json_str, "r") as fid:
+                json_dict = json.load(fid)
         elif not isinstance(json_str, (str, Path)):
             msg = f"Input must be valid JSON string not {type(json_str)}"
             logger.error(msg)
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 5148d0f..5e978c1 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -365,9 +365,8 @@ class Experiment(MetadataBase):
             if json_dict is None:
                 json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
-            if json_str.exists():
-                with open(json_str, "r") as fid:
-                    json_dict = json.load(fid)
+            with open(json_str, "r") as fid:
+                json_dict = json.load(fid)
         elif not isinstance(json_str, (str, Path)):
             msg = "Input must be valid JSON string not %"
             logger.error(msg, type(json_str))
-- 
2.43.0


From 1cef9d10db454c901cae42b81b7ce880edb2ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:48 +0000
Subject: [PATCH 140/143] fix: merging does not sort the transfer functions
 given in dictionaries

---
 mt_metadata/transfer_functions/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 6457ac5..8f26aa9 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1808,10 +1808,9 @@ class TF:
             """
             item = validate_dict(item)
             period_slice = get_slice_dict(item["period_min"], item["period_max"])
-            item["tf"]._transfer_function = sort_by_period(
-                item["tf"]._transfer_function
-            )
-            return get_slice(item["tf"], period_slice)
+            tf_item = item["tf"].copy()
+            tf_item._transfer_function = is_tf(item["tf"])
+            return get_slice(tf_item, period_slice)
 
         def get_slice(tf, period_slice: dict[str, slice]) -> xr.Dataset | None:
             """
-- 
2.43.0


From 46e36a110ef58322787f981ea05f3cacea82da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:48 +0000
Subject: [PATCH 141/143] fix: whole numbers weigh half in activations without
 bounds

---
 .../features/weights/activation_monotonic_weight_kernel.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
index 1bbe63a..53148ab 100644
--- a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
+++ b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
@@ -88,7 +88,7 @@ class ActivationMonotonicWeightKernel(MonotonicWeightKernel):
         # Infinite bounds: fallback (could be extended for custom behavior)
         msg = "ActivationMonotonicWeightKernel only supports finite transition bounds. "
         logger.warning(msg + "Returning 0.5 for all values.")
-        return np.full_like(values, 0.5)
+        return np.full(values.shape, 0.5)
 
     def evaluate(self, values: NDArray) -> NDArray:
         """
-- 
2.43.0


From f7d5e92f533a58f5e8679abf63e57dddb40dfd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 142/143] fix: channels of a level of FC are in the order of
 their names

---
 .../processing/fourier_coefficients/decimation.py      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index ffd1636..1bb9070 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -200,7 +200,11 @@ class Decimation(MetadataBase):
         )
 
         # Find channels that are estimated but don't exist in channels ListDict
-        missing_channels = estimated_channel_names - existing_channel_names
+        missing_channels = [
+            name
+            for name in dict.fromkeys(channels_estimated or [])
+            if name not in existing_channel_names
+        ]
 
         # Create FCChannel objects for missing channels
         for channel_name in missing_channels:
@@ -209,7 +213,9 @@ class Decimation(MetadataBase):
             channels.append(new_channel)
 
         # Find channels in ListDict that aren't in channels_estimated and add them
-        extra_channels = existing_channel_names - estimated_channel_names
+        extra_channels = [
+            name for name in channels.keys() if name not in estimated_channel_names
+        ]
         if extra_channels:
             logger.info(f"Adding channels to channels_estimated: {extra_channels}")
             # Add the extra channel names to channels_estimated
-- 
2.43.0


From c910b33434068f9a6c53423da1fef2bd79942eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:18 +0000
Subject: [PATCH 143/143] fix: EDI files with processing parameters without a
 value or with = in it can be written and read

---
 mt_metadata/transfer_functions/io/edi/edi.py | 32 +++++++++++---------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index ab76610..45e61b1 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1074,19 +1074,15 @@ class EDI:
                 key = key.split("transfer_function.")[1]
                 if "processing_parameters" in key:
                     if isinstance(value, list):
-                        for item in value:
-                            if "=" in item:
-                                param, val = item.split("=")
-                                sm.transfer_function.processing_parameters.append(
-                                    f"{param}={val}"
-                                )
-                            else:
-                                sm.transfer_function.processing_parameters.append(item)
-                    elif value not in NULL_VALUES:
-                        param = key.split(".")[-1]
-                        sm.transfer_function.processing_parameters.append(
-                            f"{param}={value}"
-                        )
+                        items = value
+                    elif key == "processing_parameters":
+                        # list of parameters without a value
+                        items = [v.strip() for v in value.split(",")]
+                    else:
+                        items = [f"{key.split('.')[-1]}={value}"]
+                    for item in items:
+                        if item not in sm.transfer_function.processing_parameters:
+                            sm.transfer_function.processing_parameters.append(item)
                 elif "remote_references" in key:
                     if key.count(".") > 1:
                         if key in ["remote_references.id"]:
@@ -1253,11 +1249,19 @@ class EDI:
         for k, v in sm.transfer_function.to_dict(single=True).items():
             if not v in NULL_VALUES:
                 if k in ["processing_parameters"]:
+                    no_value = []
                     for item in v:
-                        param, value = item.split("=", 1)
+                        param, equals, value = item.partition("=")
+                        if not equals:
+                            no_value.append(item)
+                            continue
                         self.Info.info_dict[
                             f"transfer_function.processing_parameters.{param}"
                         ] = value
+                    if no_value:
+                        self.Info.info_dict[
+                            "transfer_function.processing_parameters"
+                        ] = ", ".join(no_value)
 
                 else:
                     self.Info.info_dict[f"transfer_function.{k}"] = v
-- 
2.43.0

