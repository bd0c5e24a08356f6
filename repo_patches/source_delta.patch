From 431529b0cd1ea90bd419d6e369b03bb12e2de390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 01/70] fix: save sizing results without truncating the
 existing file first

---
 aviary/core/aviary_problem.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f4b1f42..2294876 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -6,6 +6,7 @@ import warnings
 from copy import deepcopy
 from datetime import datetime
 from enum import Enum
+from io import StringIO
 from itertools import count
 from pathlib import Path
 
@@ -1886,7 +1887,9 @@ class AviaryProblem(om.Problem):
             ``'sizing_results.json'``.
         """
         aviary_input_list = []
-        with open(json_filename, 'w') as jsonfile:
+        # Serialize in memory first, and only replace an existing file once the new one is complete, so
+        # that a failed or interrupted save never destroys earlier results.
+        with StringIO() as jsonfile:
             # Loop through aviary input datastructure and create a list
             for data in self.model.aviary_inputs:
                 (name, (value, units)) = data
@@ -1944,7 +1947,18 @@ class AviaryProblem(om.Problem):
                 ensure_ascii=False,
             )
 
-            jsonfile.close()
+            json_text = jsonfile.getvalue()
+
+        json_path = os.path.realpath(json_filename)
+        temp_path = f'{json_path}.{os.getpid()}.tmp'
+        try:
+            with open(temp_path, 'w') as temp_file:
+                temp_file.write(json_text)
+            os.replace(temp_path, json_path)
+        except BaseException:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
+            raise
 
     def _add_hybrid_objective(self, phase_info):
         """
-- 
2.43.0


From 49fd71878e34f97070c580c87aa323a4a348e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 02/70] fix: keep every entry when setting a list of enum names

---
 aviary/utils/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 1ad6e80..6e7536f 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -123,10 +123,14 @@ def enum_setter(opt_meta, value):
             elif isinstance(val, str):
                 try:
                     # see if str maps to ENUM value
-                    return enum_class(val)
+                    member = enum_class(val)
                 except ValueError:
                     # str instead maps to ENUM name
-                    return getattr(enum_class, val.upper())
+                    member = getattr(enum_class, val.upper())
+                # a lone string is unpacked
+                if len(value_iter) == 1:
+                    return member
+                values.append(member)
             else:
                 break
         else:
-- 
2.43.0


From 9f47c10d43cb2b91d0858c72f18dca89232e1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 03/70] fix: do not alter the problem's own lists when saving
 results

---
 aviary/core/aviary_problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 2294876..f96cbd0 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1910,8 +1910,10 @@ class AviaryProblem(om.Problem):
                     if type_value is np.ndarray:
                         value = value.tolist()
 
-                    # Lists are fine except if they contain enums or Paths
-                    if type_value is list:
+                    # Lists are fine except if they contain enums or Paths. Convert a copy, so that
+                    # the problem's own list is left as it is.
+                    if type_value is list and len(value) > 0:
+                        value = value.copy()
                         if isinstance(value[0], Enum):
                             for i in range(len(value)):
                                 value[i] = value[i].name
-- 
2.43.0


From 33392c1e9f6706290f03f8ac80bb3460f26205b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 04/70] fix: reload saved arrays and lists of enums with the
 type they were saved with

---
 aviary/core/aviary_problem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f96cbd0..5141f87 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -26,6 +26,7 @@ from aviary.utils.csv_data_file import write_data_file
 from aviary.utils.functions import convert_strings_to_data, get_path
 from aviary.utils.merge_variable_metadata import merge_meta_data
 from aviary.utils.named_values import NamedValues
+from aviary.utils.utils import cast_type
 from aviary.variable_info.enums import EquationsOfMotion, LegacyCode, ProblemType, Verbosity
 from aviary.variable_info.functions import setup_model_options
 from aviary.variable_info.variable_meta_data import CoreMetaData
@@ -2062,6 +2063,13 @@ def _read_sizing_json(json_filename, meta_data, verbosity=Verbosity.BRIEF):
         # Check if the variable is in meta data
         if var_name in meta_data.keys():
             try:
+                # json has no arrays, and lone enum names are unpacked when they are set: restore
+                # the type that was saved
+                if var_type == "<class 'numpy.ndarray'>":
+                    var_values = np.array(var_values)
+                elif var_type == "<class 'list'>":
+                    var_values = [cast_type(var_name, item, meta_data) for item in var_values]
+
                 aviary_inputs.set_val(var_name, var_values, units=var_units, meta_data=meta_data)
 
             except BaseException:
-- 
2.43.0


From 86b1b92287979b247c2d11bab3dc32858f6f0b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 05/70] fix: reload saved lists of strings that contain '<'
 unchanged

---
 aviary/core/aviary_problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 5141f87..585a1b3 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1,6 +1,7 @@
 import csv
 import json
 import os
+import re
 import subprocess
 import warnings
 from copy import deepcopy
@@ -2031,7 +2032,7 @@ def _read_sizing_json(json_filename, meta_data, verbosity=Verbosity.BRIEF):
             # check if the list contains enums
             for i in range(len(var_values)):
                 if isinstance(var_values[i], str):
-                    if var_values[i].find('<') != -1:
+                    if re.fullmatch(r'<\w+\.\w+: .+>', var_values[i]):
                         # Found a list of enums: set the flag
                         is_enum = True
 
-- 
2.43.0


From 56b6fa109160a6ab4a00d75e60ac7cdbba12e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 06/70] fix: give a copy of a value container its own items

---
 aviary/utils/named_values.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 0a38a78..132615b 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -95,7 +95,11 @@ class NamedValues(Collection):
         -------
         NamedValues()
         """
-        return copy.copy(self)
+        new = copy.copy(self)
+        # the copy has its own items
+        new._mapping = self._mapping.copy()
+
+        return new
 
     def deepcopy(self):
         """
-- 
2.43.0


From 285bb1768bd60399c16e3641b2f85fd3862feaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 07/70] fix: accept any NamedValues when updating a value
 container

---
 aviary/utils/named_values.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 132615b..721ac14 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -232,8 +232,7 @@ class NamedValues(Collection):
 
         set_val = self.set_val
 
-        if isinstance(other, type(self)):
-            # NamedValues
+        if isinstance(other, NamedValues):
             other = other._mapping
 
         if other is not None:
-- 
2.43.0


From 898f3538ebc7f09645a1de4302cd90203c0f353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 08/70] fix: compare value containers that hold arrays

---
 aviary/utils/named_values.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 721ac14..44efb02 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -20,6 +20,7 @@ import copy
 from collections.abc import Collection
 from typing import Any, Tuple, Union
 
+import numpy as np
 from openmdao.core.constants import _UNDEFINED
 
 from aviary.utils.utils import wrapped_convert_units
@@ -272,10 +273,17 @@ class NamedValues(Collection):
         """Return whether or not this collection is equivalent to another."""
         collection = self._mapping
 
-        if isinstance(other, type(self)):
-            return collection == other._mapping
+        if isinstance(other, NamedValues):
+            other = other._mapping
+
+        try:
+            return collection == other
+        except ValueError:
+            # values that are arrays have no single truth value when they are compared
+            if not hasattr(other, 'keys') or collection.keys() != other.keys():
+                return False
 
-        return collection == other
+            return all(_equal_items(item, other[key]) for key, item in collection.items())
 
     def __contains__(self, key):
         """Return whether or not the named value exists."""
@@ -313,6 +321,21 @@ class NamedValues(Collection):
             )
 
 
+def _equal_items(item, other):
+    """Return whether or not two values, which may hold arrays, are equal."""
+    if isinstance(item, np.ndarray) or isinstance(other, np.ndarray):
+        return type(item) is type(other) and np.array_equal(item, other)
+
+    if isinstance(item, (list, tuple)) and isinstance(other, (list, tuple)):
+        return (
+            type(item) is type(other)
+            and len(item) == len(other)
+            and all(_equal_items(left, right) for left, right in zip(item, other))
+        )
+
+    return item == other
+
+
 def get_keys(named_values: NamedValues):
     raise DeprecationWarning(
         'The get_keys() function has been replaced with the NamedValues.keys() method to better '
-- 
2.43.0


From 1005a2c4c06e30d48c24ef6cc249b335225979bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 09/70] fix: do not truncate integer arrays when converting
 units

---
 aviary/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 6e7536f..479c3c9 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -58,6 +58,10 @@ def wrapped_convert_units(val_unit_tuple, new_units):
         else:
             istuple = False
 
+        # integer arrays would truncate the converted values
+        if isinstance(value, np.ndarray) and value.dtype.kind in 'iu':
+            value = value.astype(float)
+
         for i, item in enumerate(value):
             # Any entry may be none.
             if value[i] is not None:
-- 
2.43.0


From bc8d9421be2229d120acaabdafa54fa8daf96c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 10/70] fix: do not modify the hierarchies being merged

---
 aviary/utils/merge_hierarchies.py | 35 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/aviary/utils/merge_hierarchies.py b/aviary/utils/merge_hierarchies.py
index 3453d65..747b35a 100644
--- a/aviary/utils/merge_hierarchies.py
+++ b/aviary/utils/merge_hierarchies.py
@@ -1,8 +1,23 @@
-import copy
-
 from aviary.utils.compare_hierarchies import compare_hierarchies_to_merge, compare_inner_classes
 
 
+def _copy_hierarchy(hierarchy):
+    """
+    Return a copy of a variable hierarchy with its own inner classes.
+
+    Copying a class with the copy module returns the class itself.
+    """
+    attributes = {
+        name: _copy_hierarchy(value) if isinstance(value, type) else value
+        for name, value in vars(hierarchy).items()
+        if name not in ('__dict__', '__weakref__')
+    }
+    hierarchy_copy = type(hierarchy)(hierarchy.__name__, hierarchy.__bases__, attributes)
+    hierarchy_copy.__qualname__ = hierarchy.__qualname__
+
+    return hierarchy_copy
+
+
 def merge_attributes(base_class, merge_class, base_class_attributes, merge_class_attributes):
     """
     Adds unique attributes of merge_class to base_class.
@@ -45,8 +60,12 @@ def merge_attributes(base_class, merge_class, base_class_attributes, merge_class
         merge_class_attributes - base_class_attributes
     )  # attributes present only in merge_class
 
-    for attr in merge_class_unique:
-        setattr(base_class, attr, getattr(merge_class, attr))
+    for attr in sorted(merge_class_unique):
+        value = getattr(merge_class, attr)
+        # do not share inner classes, they may be merged into later on
+        if isinstance(value, type):
+            value = _copy_hierarchy(value)
+        setattr(base_class, attr, value)
 
     return base_class
 
@@ -187,8 +206,8 @@ def merge_hierarchies(hierarchies_to_merge):
         # checks if the given hierarchy is the first subclass of the hierarchies
         if (len(hierarchy.__mro__) > 2) and (subclass_type is None):
             # gets highest level superclass of the class before "class" itself
-            subclass_type = copy.deepcopy(hierarchy.__mro__[-2])
-            subclass_hierarchy = copy.deepcopy(hierarchy)
+            subclass_type = hierarchy.__mro__[-2]
+            subclass_hierarchy = hierarchy
         elif len(hierarchy.__mro__) > 2:  # checks if the given hierarchy is a subclass
             if hierarchy.__mro__[-2] != subclass_type:
                 raise ValueError(
@@ -198,9 +217,9 @@ def merge_hierarchies(hierarchies_to_merge):
     if (
         subclass_hierarchy is not None
     ):  # ensure that we build on the subclassed hierarchy if we have one, that way the super class information is not lost
-        merged_hierarchy = subclass_hierarchy
+        merged_hierarchy = _copy_hierarchy(subclass_hierarchy)
     else:
-        merged_hierarchy = copy.deepcopy(hierarchies_to_merge[0])
+        merged_hierarchy = _copy_hierarchy(hierarchies_to_merge[0])
 
     for hierarchy in hierarchies_to_merge:
         merged_hierarchy = merge_two_hierarchies(merged_hierarchy, hierarchy)
-- 
2.43.0


From b85bde972f49b61edda4d53c87aa97fd05820d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 11/70] fix: merge metadata in an order that does not depend on
 the hash seed

---
 aviary/utils/merge_variable_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/merge_variable_metadata.py b/aviary/utils/merge_variable_metadata.py
index 619012d..9912f94 100644
--- a/aviary/utils/merge_variable_metadata.py
+++ b/aviary/utils/merge_variable_metadata.py
@@ -47,12 +47,12 @@ def merge_2_meta_data_dicts(dict1, dict2):
     """
     dict1_keys = set(dict1.keys())  # get keys of provided dictionaries
     dict2_keys = set(dict2.keys())  # get keys of provided dictionaries
-    # get keys that are unique to each dictionary
-    all_unique_keys = (dict1_keys | dict2_keys) - (dict1_keys & dict2_keys)
     # get all keys that are repeated in both dictionaries
     all_duplicate_keys = dict1_keys & dict2_keys
     # merge the two dictionaries, and allow the repeated keys to be overwritten
     merged = {**dict1, **dict2}
+    # get keys that are unique to each dictionary, in the order of the dictionaries
+    all_unique_keys = [key for key in merged if key not in all_duplicate_keys]
 
     dict_of_unique_variables = dict(
         # get a dictionary of all the unique keys (and their values) from the input dictionaries
-- 
2.43.0


From 7d863f074ca81e2a5a8bcde7c8ac99e516bca6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 12/70] fix: reject hierarchies that use one name for a
 variable and an inner class

---
 aviary/utils/compare_hierarchies.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aviary/utils/compare_hierarchies.py b/aviary/utils/compare_hierarchies.py
index 7162f45..ee17c04 100644
--- a/aviary/utils/compare_hierarchies.py
+++ b/aviary/utils/compare_hierarchies.py
@@ -96,6 +96,17 @@ def compare_inner_classes(class1, class2, show_all=False):
     class2_inner_classes_set = set(class2_inner_classes)
     overlapping_inner_classes = class1_inner_classes_set & class2_inner_classes_set
 
+    # a name can not be a variable in one class and an inner class in the other
+    mismatched = (class1_vars_set & class2_inner_classes_set) | (
+        class1_inner_classes_set & class2_vars_set
+    )
+    if mismatched:
+        raise ValueError(
+            f'You have attempted to merge two variable hierarchies together that use the same name '
+            f"for a variable and for an inner class. The offending names in '{class1.__qualname__}' "
+            f"and '{class2.__qualname__}' are {sorted(mismatched)}."
+        )
+
     if show_all:
         return (
             overlapping_inner_classes,
-- 
2.43.0


From 47ae7257cef351f66c931a92aec16a722c2f2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 13/70] fix: make packaged model lookup independent of
 directory order and of special characters in the path

---
 aviary/utils/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index f5aae7c..e310dc4 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -281,9 +281,11 @@ def get_model(file_name: str, verbosity=Verbosity.BRIEF) -> Path:
         return aviary_path
     # otherwise check models folder contents
     else:
-        from glob import glob
+        from glob import escape, glob
 
-        contents = glob(str(get_aviary_resource_path('models') / '**'), recursive=True)
+        # sorted, so that the match does not depend on the order the file system lists files in
+        models_path = escape(str(get_aviary_resource_path('models')))
+        contents = sorted(glob(str(Path(models_path, '**')), recursive=True))
         close_match = []
         for item in contents:
             item = Path(item)
-- 
2.43.0


From 83c9c49234ddc18a1197043e1bc864687da01d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 14/70] fix: always load phase information files from their
 current source

---
 aviary/core/aviary_group.py    | 11 ++---------
 aviary/interface/run_aviary.py | 11 ++---------
 aviary/utils/functions.py      | 30 ++++++++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 7f56f0d..57d2867 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1,7 +1,5 @@
 import inspect
-import sys
 import warnings
-from importlib.util import module_from_spec, spec_from_file_location
 import numpy as np
 from pathlib import Path
 
@@ -31,7 +29,7 @@ from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilde
 from aviary.subsystems.propulsion.utils import build_engine_deck
 from aviary.subsystems.subsystem_builder import SubsystemBuilder
 from aviary.utils.aviary_values import AviaryValues
-from aviary.utils.functions import get_path
+from aviary.utils.functions import get_path, load_phase_info_file
 from aviary.utils.merge_variable_metadata import merge_meta_data
 from aviary.utils.preprocessors import preprocess_options
 from aviary.utils.process_input_decks import (
@@ -335,12 +333,7 @@ class AviaryGroup(om.Group):
         # if phase info is a file, load it
         if isinstance(phase_info, str) or isinstance(phase_info, Path):
             phase_info_path = get_path(phase_info, verbosity)
-            spec = spec_from_file_location('phase_info_file', str(phase_info_path))
-            phase_info_file = module_from_spec(spec)
-            sys.modules['phase_info_file'] = phase_info_file
-            spec.loader.exec_module(phase_info_file)
-
-            phase_info = getattr(phase_info_file, 'phase_info')
+            phase_info = load_phase_info_file(phase_info_path)
 
         if phase_info is None:
             phase_info = self.configurator.get_default_phase_info(self)
diff --git a/aviary/interface/run_aviary.py b/aviary/interface/run_aviary.py
index 9171cbb..9c07b5d 100644
--- a/aviary/interface/run_aviary.py
+++ b/aviary/interface/run_aviary.py
@@ -1,13 +1,11 @@
 """This file contains functions needed to run Aviary using the Level 1 interface."""
 
-from importlib.util import spec_from_file_location, module_from_spec
 import os
 from pathlib import Path
 import subprocess
-import sys
 from pathlib import Path
 
-from aviary.utils.functions import get_path
+from aviary.utils.functions import get_path, load_phase_info_file
 from aviary.variable_info.enums import Verbosity
 
 
@@ -145,12 +143,7 @@ def run_aviary_cmd(
 
     if isinstance(phase_info, str):
         phase_info_path = get_path(phase_info, verbosity)
-        spec = spec_from_file_location('phase_info_file', str(phase_info_path))
-        phase_info_file = module_from_spec(spec)
-        sys.modules['phase_info_file'] = phase_info_file
-        spec.loader.exec_module(phase_info_file)
-
-        phase_info = getattr(phase_info_file, 'phase_info')
+        phase_info = load_phase_info_file(phase_info_path)
 
     prob = run_aviary(input_deck, phase_info, **kwargs)
 
diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index e310dc4..d6c581a 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -1,6 +1,8 @@
 import atexit
+import sys
 from contextlib import ExitStack
 from pathlib import Path
+from types import ModuleType
 from typing import Union
 
 import importlib_resources
@@ -254,6 +256,34 @@ def get_path(path: Union[str, Path], verbosity=Verbosity.BRIEF) -> Path:
     return path
 
 
+def load_phase_info_file(path: Path) -> dict:
+    """
+    Execute a Python file and return the phase_info it defines.
+
+    The source is always read again, without Python's bytecode cache: a cached version of a file that
+    was rewritten within the resolution of its time stamp would be taken for current, and no cache is
+    left next to the user's files.
+
+    Parameters
+    ----------
+    path : Path
+        The path to the file.
+
+    Returns
+    -------
+    dict
+        The phase_info dictionary defined in the file.
+    """
+    phase_info_file = ModuleType('phase_info_file')
+    phase_info_file.__file__ = str(path)
+    sys.modules['phase_info_file'] = phase_info_file
+    with open(path, 'rb') as file:
+        code = compile(file.read(), str(path), 'exec')
+    exec(code, phase_info_file.__dict__)
+
+    return getattr(phase_info_file, 'phase_info')
+
+
 def get_model(file_name: str, verbosity=Verbosity.BRIEF) -> Path:
     """
     This function attempts to find the path to a file or folder in aviary/models
-- 
2.43.0


From 2b9c2010117315297f549319896641d8fe9df545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 15/70] fix: do not change the aliases and comments given to
 the data file reader and writer

---
 aviary/utils/csv_data_file.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 4498bbe..ad68eac 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -68,10 +68,14 @@ def read_data_file(
 
     # prep aliases for case-insensitive matching, with spaces == underscores
     if aliases:
-        for key in aliases:
-            if isinstance(aliases[key], str):
-                aliases[key] = [aliases[key]]
-            aliases[key] = [re.sub('\\s', '_', item).lower() for item in aliases[key]]
+        # use a new dictionary, so that the one provided is not changed
+        aliases = {
+            key: [
+                re.sub('\\s', '_', item).lower()
+                for item in ([names] if isinstance(names, str) else names)
+            ]
+            for key, names in aliases.items()
+        }
 
     with open(filepath, newline=None, encoding='utf-8-sig') as file:
         # csv.reader() and other available packages that can read csv files are not used
@@ -253,8 +257,11 @@ def write_data_file(
     if outputs is not None:
         label_variables = True
 
+    # use a new list, so that the one provided is not changed
     if type(comments) is str:
         comments = [comments]
+    else:
+        comments = list(comments)
 
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
-- 
2.43.0


From b2e142c949f198b29850576f1a339139ec529227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 16/70] fix: write data file comments that have several lines
 or are not latin-1 so that they can be read

---
 aviary/utils/csv_data_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index ad68eac..69e23fb 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -257,11 +257,10 @@ def write_data_file(
     if outputs is not None:
         label_variables = True
 
-    # use a new list, so that the one provided is not changed
+    # use a new list, so that the one provided is not changed, with one entry per line
     if type(comments) is str:
         comments = [comments]
-    else:
-        comments = list(comments)
+    comments = [line for comment in comments for line in comment.split('\n')]
 
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
@@ -344,4 +343,5 @@ def write_data_file(
         delimiter=',',
         header=', '.join(header),
         comments='\n'.join(comments),
+        encoding='utf-8',
     )
-- 
2.43.0


From 8a18219616793dfcbe360a8a0783733fa839bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 17/70] fix: read data file columns whose units contain
 parentheses

---
 aviary/utils/csv_data_file.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 69e23fb..e5f8266 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -109,8 +109,7 @@ def read_data_file(
                     # list of which column goes with each valid header entry
                     valid_indices = []
                     for index in range(len(line_data)):
-                        item = re.split('[(,]', line_data[index])
-                        item = [item[i].strip(') ') for i in range(len(item))]
+                        item = _split_header_entry(line_data[index])
                         # OpenMDAO vars can't have spaces, convert to underscores
                         name = re.sub('\\s', '_', item[0])
                         if aliases:
@@ -217,6 +216,37 @@ def read_data_file(
         return data, inputs, outputs
 
 
+def _split_header_entry(entry):
+    """
+    Split a header entry into its variable name and the comma-separated information that follows in
+    parentheses. Parentheses inside of that information, such as in units, are kept.
+
+    Parameters
+    ----------
+    entry : str
+        a single column's header, such as 'fuel_flow (lbm/(hp*h), output)'
+
+    Returns
+    -------
+    list of str
+        the variable name, followed by any additional information
+    """
+    parts = ['']
+    depth = 0
+    for char in entry:
+        if char == '(':
+            depth += 1
+        elif char == ')':
+            depth -= 1
+
+        if char == ',' or (char == '(' and depth == 1):
+            parts.append('')
+        elif char != ')' or depth > 0:
+            parts[-1] += char
+
+    return [part.strip() for part in parts]
+
+
 # multiple type annotation uses "typeA | typeB" syntax, but requires Python 3.10+
 # filename: (str, Path)
 # comments: (str, list)
-- 
2.43.0


From defa43f860c77f280a9223fe7f6736de358b71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 18/70] fix: read numbers without a decimal point, such as
 1e-05, as numbers

---
 aviary/utils/functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index d6c581a..a7acb08 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -116,6 +116,12 @@ def convert_strings_to_data(input_string):
             # BUG this returns floats that can be converted to int (e.g. 1.0) as an
             # int (1), even if the variable requires floats
             value_list[ii] = int(dat) if '.' not in dat else float(dat)
+            continue
+        except ValueError:
+            pass
+        try:
+            # not all floats have a decimal point (e.g. 1e-05)
+            value_list[ii] = float(dat)
         except ValueError:
             # store value as a boolean if it is a string that represents True or False
             if dat.lower() == 'true':
-- 
2.43.0


From c22a3310faf97ca11d4abe6a1be28adf1d164fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 19/70] fix: save aircraft decks that load as the same
 aircraft, or raise without touching the file

---
 aviary/utils/aviary_inputs_to_csv.py | 69 ++++++++++++++++++++--------
 aviary/utils/process_input_decks.py  | 40 ++++++++++++++--
 2 files changed, 85 insertions(+), 24 deletions(-)

diff --git a/aviary/utils/aviary_inputs_to_csv.py b/aviary/utils/aviary_inputs_to_csv.py
index 7c0b638..50dbba2 100644
--- a/aviary/utils/aviary_inputs_to_csv.py
+++ b/aviary/utils/aviary_inputs_to_csv.py
@@ -1,4 +1,3 @@
-import csv
 import numpy as np
 import getpass
 from enum import Enum
@@ -8,22 +7,54 @@ from datetime import datetime
 
 def save_to_csv_file(filename, aviary_inputs):
     filename = Path(filename)
+
+    timestamp = datetime.now().strftime('%m/%d/%y at %H:%M')
+    try:
+        user = ' by ' + getpass.getuser()
+    except Exception:
+        user = ''
+
+    lines = [f'# created {timestamp}{user}', '']
+
+    for name, (value, units) in sorted(aviary_inputs):
+        if isinstance(value, np.ndarray):
+            value = value.tolist()
+
+        output = [name]
+        if isinstance(value, (list, tuple)):
+            if len(value) > 1 and '' in value:
+                raise ValueError(f'{name} has empty entries, which can not be saved to a csv file.')
+            output.extend(_format_item(name, item) for item in value)
+        else:
+            output.append(_format_item(name, value))
+        output.append(units)
+        lines.append(','.join(output))
+
     with open(filename, 'w', newline='') as csvfile:
-        writer = csv.writer(csvfile)
-
-        timestamp = datetime.now().strftime('%m/%d/%y at %H:%M')
-        user = getpass.getuser()
-
-        writer.writerow([f'# created {timestamp} by {user}'])
-        writer.writerow([])
-
-        for name, (value, units) in sorted(aviary_inputs):
-            output = [name]
-            if isinstance(value, (np.ndarray, list, tuple)):
-                output.extend(value)
-            elif isinstance(value, Enum):
-                output.append(value.value)
-            else:
-                output.append(value)
-            output.append(units)
-            writer.writerow(output)
+        for line in lines:
+            csvfile.write(line + '\r\n')
+
+
+def _format_item(name, item):
+    """
+    Convert a single value to the string that represents it in a csv file. Raises a ValueError for
+    values that could not be read back.
+    """
+    if isinstance(item, Enum):
+        item = item.value
+    if item is None:
+        return ''
+
+    if isinstance(item, (list, tuple, np.ndarray)):
+        raise ValueError(
+            f'{name} has more than one dimension, which can not be saved to a csv file.'
+        )
+
+    text = str(item)
+    if isinstance(item, str):
+        if text != text.strip().strip('[]') or len(text.splitlines()) > 1:
+            raise ValueError(f'{name} has a value of <{text}>, which can not be saved to a csv file.')
+        if any(char in text for char in ',#"'):
+            text = '"' + text.replace('"', '""') + '"'
+
+    return text
diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 044ecbe..ac15b7e 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -16,6 +16,7 @@ Functions:
     initialization_guessing(aircraft_values): Set initial guesses for aircraft parameters based on problem type and other factors.
 """
 
+import re
 import warnings
 from operator import eq, ge, gt, le, lt, ne
 
@@ -161,11 +162,8 @@ def parse_inputs(
         for line in f_in:
             data_units = None
 
-            tmp = [*line.split('#', 1), '']
-            line, comment = tmp[0], tmp[1]  # anything after the first # is a comment
-
             # remove any elements that are empty (caused by trailing commas or extra commas)
-            data_list = [dat.strip() for dat in line.split(',') if dat.strip() != '']
+            data_list = [dat.strip() for dat in split_line(line) if dat.strip() != '']
 
             if len(data_list) == 0:
                 continue  # skip line it contained only commas
@@ -179,7 +177,11 @@ def parse_inputs(
                 # if the last element is a unit, remove it from the list and update the variable's units
                 data_units = data_list.pop()
 
-            var_value = convert_strings_to_data(data_list)
+            if var_name in meta_data and meta_data[var_name]['types'] is str:
+                # strings are not converted, even if they look like numbers
+                var_value = [dat.strip('[]') for dat in data_list] or ['']
+            else:
+                var_value = convert_strings_to_data(data_list)
             # If var_value is length 1 list and is not supposed to be a list, pull out
             # individual value. Otherwise, convert list to numpy array
             if len(var_value) <= 1:
@@ -218,6 +220,34 @@ def parse_inputs(
     return aircraft_values, initialization_guesses
 
 
+def split_line(line):
+    """
+    Splits a line of a vehicle deck at its commas. Anything after the first # is a comment. Commas and
+    # that are inside of double quotes are part of the data.
+
+    Parameters
+    ----------
+    line (str): The line to be split.
+
+    Returns
+    -------
+    list: The elements of the line, with enclosing quotes removed.
+    """
+    data = ['']
+    # elements can only be quoted from their first to their last character
+    for piece in re.findall(r'\s*"(?:[^"]|"")*"\s*(?=[,#]|$)|[^,#]+|[,#]', line):
+        if piece == '#':
+            break
+        elif piece == ',':
+            data.append('')
+        elif data[-1] == '' and len(piece.strip()) > 1 and piece.strip()[0] == piece.strip()[-1] == '"':
+            data[-1] = piece.strip()[1:-1].replace('""', '"')
+        else:
+            data[-1] += piece
+
+    return data
+
+
 # TODO this should be a preprocessor, and tasks split to be specific to subsystem
 #      e.g. aero preprocessor, mass preprocessor, 2DOF preprocessor, etc.
 
-- 
2.43.0


From a0bbc1341daf3b5290ffabb4d561f75dbce2e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 20/70] fix: write data files and converted decks without
 truncating the existing file first

---
 aviary/core/aviary_problem.py     | 11 ++-------
 aviary/utils/csv_data_file.py     | 20 +++++++++-------
 aviary/utils/fortran_to_aviary.py |  4 ++--
 aviary/utils/utils.py             | 39 +++++++++++++++++++++++++++++++
 4 files changed, 54 insertions(+), 20 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 585a1b3..9030441 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -27,7 +27,7 @@ from aviary.utils.csv_data_file import write_data_file
 from aviary.utils.functions import convert_strings_to_data, get_path
 from aviary.utils.merge_variable_metadata import merge_meta_data
 from aviary.utils.named_values import NamedValues
-from aviary.utils.utils import cast_type
+from aviary.utils.utils import cast_type, replace_when_complete
 from aviary.variable_info.enums import EquationsOfMotion, LegacyCode, ProblemType, Verbosity
 from aviary.variable_info.functions import setup_model_options
 from aviary.variable_info.variable_meta_data import CoreMetaData
@@ -1953,16 +1953,9 @@ class AviaryProblem(om.Problem):
 
             json_text = jsonfile.getvalue()
 
-        json_path = os.path.realpath(json_filename)
-        temp_path = f'{json_path}.{os.getpid()}.tmp'
-        try:
+        with replace_when_complete(json_filename) as temp_path:
             with open(temp_path, 'w') as temp_file:
                 temp_file.write(json_text)
-            os.replace(temp_path, json_path)
-        except BaseException:
-            if os.path.exists(temp_path):
-                os.remove(temp_path)
-            raise
 
     def _add_hybrid_objective(self, phase_info):
         """
diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index e5f8266..cbdfdc0 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -9,6 +9,7 @@ from openmdao.utils.units import is_compatible, valid_units
 
 from aviary.utils.functions import get_path
 from aviary.utils.named_values import NamedValues
+from aviary.utils.utils import replace_when_complete
 from aviary.variable_info.enums import Verbosity
 
 
@@ -366,12 +367,13 @@ def write_data_file(
     formatted_data = np.array([data_dict[key] for key in data_dict]).transpose()
 
     # write to output file w/ header and comments
-    np.savetxt(
-        filepath,
-        formatted_data,
-        fmt=''.join(col_format),
-        delimiter=',',
-        header=', '.join(header),
-        comments='\n'.join(comments),
-        encoding='utf-8',
-    )
+    with replace_when_complete(filepath) as temp_path:
+        np.savetxt(
+            temp_path,
+            formatted_data,
+            fmt=''.join(col_format),
+            delimiter=',',
+            header=', '.join(header),
+            comments='\n'.join(comments),
+            encoding='utf-8',
+        )
diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 04d1ae9..0d0979d 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -29,7 +29,7 @@ from aviary.utils.functions import convert_strings_to_data, get_path
 from aviary.utils.legacy_code_data.flops_defaults import flops_default_values, flops_deprecated_vars
 from aviary.utils.legacy_code_data.gasp_defaults import gasp_default_values, gasp_deprecated_vars
 from aviary.utils.named_values import NamedValues
-from aviary.utils.utils import wrapped_convert_units
+from aviary.utils.utils import replace_when_complete, wrapped_convert_units
 from aviary.variable_info.enums import LegacyCode, Verbosity
 from aviary.variable_info.variable_meta_data import CoreMetaData
 from aviary.variable_info.variables import Aircraft, Mission, Settings
@@ -158,7 +158,7 @@ def fortran_to_aviary(
     # TODO Use the existing utilities to write this input file? It will be much more
     #      human-readable
     # open the file in write mode
-    with open(output_file, 'w', newline='') as f:
+    with replace_when_complete(output_file) as temp_file, open(temp_file, 'w', newline='') as f:
         writer = csv.writer(f)
         # Write header info and comments
         for comment in comments:
diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 479c3c9..84e4835 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -3,6 +3,10 @@ A home for helper functions that are used in multiple files in aviary/utils
 Helps to avoid circular imports. These functions do not rely on imports from other utility files.
 """
 
+import errno
+import os
+import shutil
+from contextlib import contextmanager
 from copy import deepcopy
 from enum import Enum
 from math import floor, log10
@@ -13,6 +17,41 @@ from openmdao.utils.units import convert_units
 from aviary.variable_info.variable_meta_data import CoreMetaData
 
 
+@contextmanager
+def replace_when_complete(path):
+    """
+    Context manager that provides a temporary file name to write to. The file at the requested path is
+    only replaced once everything has been written, so that a failed or interrupted write never leaves
+    an incomplete file there, or destroys an existing one.
+
+    Parameters
+    ----------
+    path : str or Path
+        The path to the file to be created or replaced.
+    """
+    path = os.path.realpath(path)
+
+    # devices, pipes etc. are written to directly
+    if os.path.exists(path) and not os.path.isfile(path):
+        yield path
+        return
+
+    if os.path.exists(path) and not os.access(path, os.W_OK):
+        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
+
+    root, extension = os.path.splitext(path)
+    temp_path = f'{root}.{os.getpid()}.tmp{extension}'
+    try:
+        yield temp_path
+        if os.path.exists(path):
+            shutil.copymode(path, temp_path)
+        os.replace(temp_path, path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+
+
 def isiterable(val, valid_iterables: tuple = (list, np.ndarray, tuple)):
     """
     Checks if provided value is an iterable, as defined by the _valid_iterables global variable.
-- 
2.43.0


From 2c6757266fe21a5cfd70c2b4c27f470e9b1a1c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 21/70] fix: convert files when there is no user name, as other
 writers do

---
 aviary/utils/fortran_to_aviary.py        | 7 +++++--
 aviary/utils/propeller_map_conversion.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 0d0979d..de22ca8 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -67,10 +67,13 @@ def fortran_to_aviary(
     fortran_deck: Path = get_path(fortran_deck, verbosity=verbosity)
 
     timestamp = datetime.now().strftime('%m/%d/%y at %H:%M')
-    user = getpass.getuser()
+    try:
+        user = ' by ' + getpass.getuser()
+    except Exception:
+        user = ''
     comments = []
 
-    comments.append(f'# created {timestamp} by {user}')
+    comments.append(f'# created {timestamp}{user}')
     comments.append(
         f'# {legacy_code.value}-derived aircraft input deck converted from {fortran_deck.name}'
     )
diff --git a/aviary/utils/propeller_map_conversion.py b/aviary/utils/propeller_map_conversion.py
index 5084c86..5fb96d0 100644
--- a/aviary/utils/propeller_map_conversion.py
+++ b/aviary/utils/propeller_map_conversion.py
@@ -42,13 +42,16 @@ def convert_propeller_map(
     aviary convert propeller_table -f GASP input_file output_file.
     """
     timestamp = datetime.now().strftime('%m/%d/%y at %H:%M')
-    user = getpass.getuser()
+    try:
+        user = ' by ' + getpass.getuser()
+    except Exception:
+        user = ''
     comments = []
     data = {}
 
     data_file = get_path(input_file)
 
-    comments.append(f'# created {timestamp} by {user}')
+    comments.append(f'# created {timestamp}{user}')
     comments.append(f'# {data_format}-derived propeller map converted from {data_file.name}')
 
     if data_format is PropMapType.GASP:
-- 
2.43.0


From 0eb3a7bf0923bae83ab976420658e6ddc95e29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 22/70] fix: do not overwrite the input propeller map by
 default

---
 aviary/utils/propeller_map_conversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/propeller_map_conversion.py b/aviary/utils/propeller_map_conversion.py
index 5fb96d0..124a1d8 100644
--- a/aviary/utils/propeller_map_conversion.py
+++ b/aviary/utils/propeller_map_conversion.py
@@ -80,7 +80,9 @@ def convert_propeller_map(
         write_data.set_val(key, data[key], 'unitless')
 
     if output_file is None:
-        output_file = data_file.stem + '.csv'
+        # do not overwrite the input file
+        extension = '_aviary.csv' if data_file.suffix == '.csv' else '.csv'
+        output_file = data_file.stem + extension
     write_data_file(output_file, write_data, outputs, comments, include_timestamp=False)
 
 
-- 
2.43.0


From 1a8534bcfc76a676271598c54e5b5666b8d7d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 23/70] fix: use default output names, and keep the list given,
 when converting FLOPS aero tables

---
 aviary/utils/aero_table_conversion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/aero_table_conversion.py b/aviary/utils/aero_table_conversion.py
index b43128e..5f79517 100644
--- a/aviary/utils/aero_table_conversion.py
+++ b/aviary/utils/aero_table_conversion.py
@@ -65,8 +65,7 @@ def convert_aero_table(input_file=None, output_file=None, data_format=None):
     if isinstance(output_file, str):
         output_file = Path(output_file)
     elif isinstance(output_file, list):
-        for ii, file in enumerate(output_file):
-            output_file[ii] = Path(file)
+        output_file = [Path(file) for file in output_file]
     if not output_file:
         if data_format in (CodeOrigin.GASP, CodeOrigin.GASP_ALT):
             # Default output file name is same location and name as input file, with
@@ -80,8 +79,8 @@ def convert_aero_table(input_file=None, output_file=None, data_format=None):
             path = data_file.parents[0]
             name = data_file.stem
             suffix = data_file.suffix
-            file1 = path / name + '_aviary_CDI' + suffix
-            file2 = path / name + '_aviary_CD0' + suffix
+            file1 = path / (name + '_aviary_CDI' + suffix)
+            file2 = path / (name + '_aviary_CD0' + suffix)
             output_file = [file1, file2]
 
     stamp = f'# {data_format.value}-derived aerodynamics data converted from {data_file.name}'
-- 
2.43.0


From 827cb90811dd917be9c553020e46fedd45d5aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 24/70] fix: do not carry initialization guesses over to the
 next converted deck

---
 aviary/utils/fortran_to_aviary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index de22ca8..4c79a90 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -61,7 +61,7 @@ def fortran_to_aviary(
     vehicle_data = {
         'input_values': NamedValues(),
         'unused_values': NamedValues(),
-        'initialization_guesses': initialization_guesses,
+        'initialization_guesses': initialization_guesses.copy(),
     }
 
     fortran_deck: Path = get_path(fortran_deck, verbosity=verbosity)
-- 
2.43.0


From 823b01fd6efc55079efc161fe841ba0cbc759037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:10 +0000
Subject: [PATCH 25/70] fix: convert GASP decks that set a gearbox ratio

---
 aviary/utils/fortran_to_aviary.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 4c79a90..b2cc0d6 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -352,9 +352,9 @@ def process_and_store_data(
         vehicle_data['input_values'] = set_value(
             Aircraft.Engine.Gearbox.GEAR_RATIO,
             var_values,
+            data_units,
             vehicle_data['input_values'],
             var_ind=var_ind,
-            units=data_units,
         )
 
     for name in list_of_equivalent_aviary_names:
@@ -787,13 +787,6 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     # the mission
     input_values.set_val(Aircraft.Engine.GLOBAL_THROTTLE, [True])
 
-    # GEARBOX
-    # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if Aircraft.Engine.Gearbox.GEAR_RATIO in input_values:
-        ratios = input_values.get_val(Aircraft.Engine.Gearbox.GEAR_RATIO)
-        ratios = [1 / val for val in ratios]
-        input_values.set_val(Aircraft.Engine.Gearbox.GEAR_RATIO, ratios, units='unitless')
-
     # CARGO
     if Aircraft.CrewPayload.Design.MAX_CARGO_MASS in input_values:
         if input_values.get_val(Aircraft.CrewPayload.Design.MAX_CARGO_MASS, 'lbm')[0] >= 0:
-- 
2.43.0


From 8f3d9bc6c7e440d97908b93eaf7981d822b42f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 26/70] fix: do not convert blank lines of FLOPS engine decks
 to data points of zeros

---
 aviary/utils/engine_deck_conversion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/engine_deck_conversion.py b/aviary/utils/engine_deck_conversion.py
index 2cd96f2..01f7fcc 100644
--- a/aviary/utils/engine_deck_conversion.py
+++ b/aviary/utils/engine_deck_conversion.py
@@ -369,6 +369,10 @@ def _read_flops_engine(input_file):
     always assumed to be in the order defined in the FLOPS manual.
     """
     for line in input_file:
+        # a blank line is not a data point
+        if not line.strip():
+            continue
+
         sz = len(line)
 
         if sz < 80:
-- 
2.43.0


From e46d649a57cc3dd6879d8b8452eef60aee08d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 27/70] fix: do not change the caller's or the default
 phase_info while building a problem

---
 aviary/core/aviary_group.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 57d2867..4f7e271 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -57,6 +57,15 @@ FLOPS = LegacyCode.FLOPS
 GASP = LegacyCode.GASP
 
 
+def _copy_containers(value):
+    """Copy nested dictionaries and lists, but share what they hold (arrays, solvers, ...)."""
+    if isinstance(value, dict):
+        return {key: _copy_containers(item) for key, item in value.items()}
+    if isinstance(value, list):
+        return [_copy_containers(item) for item in value]
+    return value
+
+
 class AviaryGroup(om.Group):
     """
     A standard OpenMDAO group where all elements of a given aviary aircraft design and mission are
@@ -343,6 +352,10 @@ class AviaryGroup(om.Group):
                     'of motion.'
                 )
 
+        # The mission information is filled in and changed while the problem is being built. Work on
+        # our own copy, so that the caller's dictionaries (or the default phase_info) stay as they are
+        phase_info = _copy_containers(phase_info)
+
         # create a new dictionary that only contains the phases from phase_info
         self.mission_info = {}
 
-- 
2.43.0


From 7b3f145b45008ea23b61b72fccfd81d281d0def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 28/70] fix: give every problem its own copy of the core
 metadata

---
 aviary/core/aviary_problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 9030441..2b51783 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -80,7 +80,7 @@ class AviaryProblem(om.Problem):
         self,
         problem_type: ProblemType = None,
         verbosity=None,
-        meta_data=CoreMetaData.copy(),
+        meta_data=None,
         **kwargs,
     ):
         # Modify OpenMDAO's default_reports for this session.
@@ -119,7 +119,8 @@ class AviaryProblem(om.Problem):
 
         self.aviary_groups_dict = {}
 
-        self.meta_data = meta_data
+        # each problem has its own copy of the core metadata, which users may add to
+        self.meta_data = deepcopy(CoreMetaData) if meta_data is None else meta_data
 
         # TODO try and find a better solution than a new custom flag - the issue is multimission
         #      problems don't have a consistent variable path to check the inputs later on
@@ -2085,7 +2086,7 @@ def _read_sizing_json(json_filename, meta_data, verbosity=Verbosity.BRIEF):
 
 
 def reload_aviary_problem(
-    filename, phase_info=None, metadata=CoreMetaData.copy(), verbosity=Verbosity.QUIET
+    filename, phase_info=None, metadata=CoreMetaData, verbosity=Verbosity.QUIET
 ):
     """
     Loads a previously sized Aviary model and returns an AviaryProblem for that model.
-- 
2.43.0


From aa8ca99a8409ebe54e415e244d3a6f950106ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 29/70] fix: do not change the data passed to engine decks and
 interpolators

---
 aviary/subsystems/aerodynamics/gasp_based/table_based.py | 4 ++--
 aviary/subsystems/propulsion/engine_deck.py              | 3 ++-
 aviary/utils/data_interpolator_builder.py                | 2 ++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/table_based.py b/aviary/subsystems/aerodynamics/gasp_based/table_based.py
index 4b14a21..265c5e3 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/table_based.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/table_based.py
@@ -504,7 +504,7 @@ def _build_free_aero_interp(
 
         # approx CL max as that with highest alpha, assume alpha monotonically increasing
         # free aero CL at max alpha is the same across altitudes but ignore that for now
-        cl_max = interp_data.get_val('lift_coefficient', 'unitless')[0, :, -1]
+        cl_max = interp_comp.training_outputs['lift_coefficient'][0, :, -1]
         # add a 1d metamodel for cl_max, promoting all variables
         meta_1d = om.MetaModelStructuredComp(
             method='1D-lagrange2', vec_size=num_nodes, extrapolate=extrapolate
@@ -514,7 +514,7 @@ def _build_free_aero_interp(
             0.0,
             units='unitless',
             shape=num_nodes,
-            training_data=interp_data.get_val(Dynamic.Atmosphere.MACH, 'unitless'),
+            training_data=np.unique(interp_data.get_val(Dynamic.Atmosphere.MACH, 'unitless')),
         )
         meta_1d.add_output(
             'lift_coefficient_max', units='unitless', shape=num_nodes, training_data=cl_max
diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 777e3bc..f6b363c 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -360,7 +360,8 @@ class EngineDeck(EngineModel):
             raw_data, self.inputs, self.outputs = read_data_file(data_file, aliases=aliases)
 
         else:
-            # run provided data through aliases
+            # run provided data through aliases, using a copy so that the data passed in is unchanged
+            raw_data = raw_data.deepcopy()
             # create dict of what names to change, modify outside of loop
             alias_dict = {}
             for item in raw_data.items():
diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index ebc9f67..73a9ffd 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -72,6 +72,8 @@ def build_data_interpolator(
     if isinstance(interpolator_data, Path):
         interpolator_data, inputs, outputs = read_data_file(interpolator_data)
     else:
+        # data is modified below, so use a copy of what was passed in
+        interpolator_data = interpolator_data.deepcopy()
         inputs = []
         outputs = []
 
-- 
2.43.0


From 292a27c150a5f57845087d2c636c309712036a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 30/70] fix: build engine decks from data in memory and without
 options

---
 aviary/subsystems/propulsion/engine_deck.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index f6b363c..f1d8114 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -190,13 +190,13 @@ class EngineDeck(EngineModel):
         # Create dict for variables present in engine data with associated units
         self.engine_variables = {}
 
-        if Aircraft.Engine.GLOBAL_THROTTLE in options:
+        if Aircraft.Engine.GLOBAL_THROTTLE in self.options:
             self.global_throttle = self.options.get_val(Aircraft.Engine.GLOBAL_THROTTLE)
         else:
             default = meta_data[Aircraft.Engine.GLOBAL_THROTTLE]['default_value']
             self.options.set_val(Aircraft.Engine.GLOBAL_THROTTLE, default)
             self.global_throttle = default
-        if Aircraft.Engine.GLOBAL_HYBRID_THROTTLE in options:
+        if Aircraft.Engine.GLOBAL_HYBRID_THROTTLE in self.options:
             self.global_hybrid_throttle = self.options.get_val(
                 Aircraft.Engine.GLOBAL_HYBRID_THROTTLE
             )
@@ -362,6 +362,9 @@ class EngineDeck(EngineModel):
         else:
             # run provided data through aliases, using a copy so that the data passed in is unchanged
             raw_data = raw_data.deepcopy()
+            # data in memory has no labels for inputs and outputs
+            self.inputs = []
+            self.outputs = []
             # create dict of what names to change, modify outside of loop
             alias_dict = {}
             for item in raw_data.items():
-- 
2.43.0


From 085f0c25489e777db87d1ff58572845c845eb62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 31/70] fix: order data with outputs before inputs for
 structured interpolators

---
 aviary/utils/data_interpolator_builder.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index 73a9ffd..75ac59c 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -72,8 +72,6 @@ def build_data_interpolator(
     if isinstance(interpolator_data, Path):
         interpolator_data, inputs, outputs = read_data_file(interpolator_data)
     else:
-        # data is modified below, so use a copy of what was passed in
-        interpolator_data = interpolator_data.deepcopy()
         inputs = []
         outputs = []
 
@@ -131,10 +129,9 @@ def build_data_interpolator(
             dep_vars.set_val(key, val, units)
         else:
             indep_vars.set_val(key, val, units)
-    # update interpolator_data with correctly ordered indep/dep vars in numpy arrays
-    interpolator_data.update(indep_vars)
-    for key, (val, units) in dep_vars.items():
-        interpolator_data.set_val(key, val, units)
+    # replace interpolator_data with correctly ordered indep/dep vars in numpy arrays
+    interpolator_data = NamedValues(indep_vars)
+    interpolator_data.update(dep_vars)
 
     # TODO investigate creating structured grid from semistructured grid via extrapolation
 
-- 
2.43.0


From 5a5954b3c9b962dc8f2912e0c429ae94ff697e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 32/70] fix: keep the sized problem's and the caller's
 phase_info unchanged by off-design runs

---
 aviary/core/aviary_problem.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 2b51783..124d519 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -20,7 +20,7 @@ from openmdao.utils.reports_system import _default_reports
 from openmdao.utils.units import convert_units
 from packaging import version
 
-from aviary.core.aviary_group import AviaryGroup
+from aviary.core.aviary_group import AviaryGroup, _copy_containers
 from aviary.interface.utils import set_warning_format
 from aviary.utils.aviary_values import AviaryValues
 from aviary.utils.csv_data_file import write_data_file
@@ -1486,9 +1486,10 @@ class AviaryProblem(om.Problem):
 
         if phase_info is None:
             # model phase_info only contains mission information, recreate the whole thing here
-            phase_info = self.model.mission_info.copy()
-            phase_info['pre_mission'] = self.model.pre_mission_info.copy()
-            phase_info['post_mission'] = self.model.post_mission_info.copy()
+            phase_info = self._get_full_phase_info()
+        else:
+            # the target range is set below, leave the caller's dictionaries as they are
+            phase_info = _copy_containers(phase_info)
 
         # update passenger count and cargo masses
         mass_method = inputs.get_val(Settings.MASS_METHOD)
@@ -1658,6 +1659,20 @@ class AviaryProblem(om.Problem):
 
         return off_design_prob
 
+    def _get_full_phase_info(self):
+        """
+        Recreate the complete phase_info of this problem, including pre- and post-mission.
+
+        Returns
+        -------
+        dict
+            A phase_info that can be changed without affecting this problem.
+        """
+        phase_info = _copy_containers(self.model.mission_info)
+        phase_info['pre_mission'] = _copy_containers(self.model.pre_mission_info)
+        phase_info['post_mission'] = _copy_containers(self.model.post_mission_info)
+        return phase_info
+
     def run_payload_range(self, verbosity=None):
         """
         Run payload-range analysis for the sized aircraft.
@@ -1703,9 +1718,7 @@ class AviaryProblem(om.Problem):
         equations_of_motion = self.model.aviary_inputs.get_val(Settings.EQUATIONS_OF_MOTION)
         if equations_of_motion is EquationsOfMotion.ENERGY_STATE:
             # make a copy of the phase_info to avoid modifying the original.
-            phase_info = self.model.mission_info.copy()
-            phase_info['pre_mission'] = self.model.pre_mission_info.copy()
-            phase_info['post_mission'] = self.model.post_mission_info.copy()
+            phase_info = self._get_full_phase_info()
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
             if phase_info['cruise']:
-- 
2.43.0


From 28e741a9b9113969a3057bb7a7ea23a73d047f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 33/70] fix: look for the output directories of earlier
 off-design runs where OpenMDAO writes them

---
 aviary/core/aviary_problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 124d519..2248ded 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -16,6 +16,7 @@ import numpy as np
 import openmdao
 import openmdao.api as om
 import openmdao.utils.hooks as hooks
+from openmdao.utils.file_utils import _get_work_dir
 from openmdao.utils.reports_system import _default_reports
 from openmdao.utils.units import convert_units
 from packaging import version
@@ -1465,7 +1466,7 @@ class AviaryProblem(om.Problem):
             base_name = self._name + '_off_design'
             for design_number in count(0):
                 name = base_name if design_number == 0 else f'{base_name}_{design_number}'
-                output_path = Path(f'{name}_out')
+                output_path = Path(_get_work_dir()) / f'{name}_out'
                 if not output_path.is_dir():
                     break
         off_design_prob = AviaryProblem(name=name)
-- 
2.43.0


From 7c9f49d04a1254fb96e571cf24966f1b59940865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 34/70] fix: never run a payload-range analysis of unconverged
 or multi-mission problems

---
 aviary/core/aviary_problem.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 2248ded..5f8c761 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1702,16 +1702,18 @@ class AviaryProblem(om.Problem):
         """
         verbosity = self._override_verbosity(verbosity)
 
-        if not self.result.success and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
-            )
+        if not self.result.success:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
+                )
             return ()
-        elif self.problem_type is ProblemType.MULTI_MISSION and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams currently cannot be generated for aircraft designed '
-                'using multimission capability.'
-            )
+        elif self.problem_type is ProblemType.MULTI_MISSION:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams currently cannot be generated for aircraft designed '
+                    'using multimission capability.'
+                )
             return ()
 
         # Off-design missions are not tested with 2DOF missions.
-- 
2.43.0


From 1e1e615ebeabe32b3400d378f2d65d5a7389ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 35/70] fix: complete payload-range analyses without a bounded
 cruise phase or without a third point

---
 aviary/core/aviary_problem.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 5f8c761..4a5b5db 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1724,14 +1724,15 @@ class AviaryProblem(om.Problem):
             phase_info = self._get_full_phase_info()
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
-            if phase_info['cruise']:
-                min_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][0]
-                max_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][1]
-                cruise_units = phase_info['cruise']['user_options']['time_duration_bounds'][1]
-
-                phase_info['cruise']['user_options'].update(
-                    {'time_duration_bounds': ((min_duration, 2 * max_duration), cruise_units)}
-                )
+            cruise_options = phase_info.get('cruise', {}).get('user_options', {})
+            if 'time_duration_bounds' in cruise_options:
+                (min_duration, max_duration), cruise_units = cruise_options['time_duration_bounds']
+
+                if max_duration is not None:
+                    cruise_options['time_duration_bounds'] = (
+                        (min_duration, 2 * max_duration),
+                        cruise_units,
+                    )
 
             # TODO Verify that previously run point is actually max payload/fuel point, and if not
             #      run off-design mission for that point
@@ -1855,6 +1856,7 @@ class AviaryProblem(om.Problem):
                 max_fuel_pyld_range_prob = ferry_range_prob
                 payload_3 = payload_4
                 range_3 = range_4
+                fuel_3 = fuel_4
 
             # Check if OFF_DESIGN_MAX_RANGE missions ran successfully before writing to csv file
             # If both missions ran successfully, writes the payload/range data to a csv file
-- 
2.43.0


From bd8e91a2373df9bedc8d5f1077e07e41fe0d38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 36/70] fix: do not present the result of an earlier
 optimization as the result of a single run

---
 aviary/core/aviary_problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 4a5b5db..f45c431 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1340,6 +1340,8 @@ class AviaryProblem(om.Problem):
             ):
                 warnings.warn('\nAviary run failed. See the dashboard for more details.\n')
         else:
+            # the driver is not run, do not present the result of an earlier run as the result of this one
+            self.driver.result.reset()
             self.run_model()
             self.result = self.driver.result
 
-- 
2.43.0


From 5102c047ce97121c7dffb0180c491ea6404b7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 37/70] fix: generate the reports of a problem after every run,
 not only after its first run

---
 aviary/interface/reports.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index d7c874f..152f455 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -16,6 +16,23 @@ from aviary.utils.utils import wrapped_convert_units
 from aviary.variable_info.enums import ProblemType
 
 
+def _register_report(**kwargs):
+    """
+    Registers a report that is generated every time its method is called.
+
+    OpenMDAO generates a registered report only once per problem. A problem can be run several
+    times, and its reports have to describe the latest run.
+
+    Parameters
+    ----------
+    **kwargs : dict
+        The arguments of OpenMDAO's register_report.
+    """
+    report = register_report(**kwargs)
+    for _, hook_kwargs in report.hooks:
+        hook_kwargs['ncalls'] = None
+
+
 def register_custom_reports():
     """
     Registers Aviary reports with OpenMDAO, so they are automatically generated and
@@ -25,7 +42,7 @@ def register_custom_reports():
     # TODO add flag to skip registering reports?
 
     # register per-subsystem report generation
-    register_report(
+    _register_report(
         name='subsystems',
         func=subsystem_report,
         desc='Generates reports for each subsystem builder in the Aviary Problem',
@@ -34,7 +51,7 @@ def register_custom_reports():
         pre_or_post='post',
     )
 
-    register_report(
+    _register_report(
         name='mission',
         func=mission_report,
         desc='Generates report for mission results from Aviary problem',
@@ -43,7 +60,7 @@ def register_custom_reports():
         pre_or_post='post',
     )
 
-    register_report(
+    _register_report(
         name='timeseries_csv',
         func=timeseries_csv,
         desc='Generates an output .csv file for variables in the timeseries of the trajectory',
@@ -52,7 +69,7 @@ def register_custom_reports():
         pre_or_post='post',
     )
 
-    register_report(
+    _register_report(
         name='run_status',
         func=run_status,
         desc='Generates a report on the status of the run',
@@ -61,7 +78,7 @@ def register_custom_reports():
         pre_or_post='post',
     )
 
-    register_report(
+    _register_report(
         name='sizing_results',
         func=sizing_results,
         desc='Generates an output file containing all variables in a completed sizing problem',
@@ -70,7 +87,7 @@ def register_custom_reports():
         pre_or_post='post',
     )
 
-    register_report(
+    _register_report(
         name='input_checks',
         func=input_check_report,
         desc='Generates a report on the aviary inputs',
@@ -79,7 +96,7 @@ def register_custom_reports():
         pre_or_post='post',
     )
 
-    register_report(
+    _register_report(
         name='overridden_variables',
         func=overridden_variables_report,
         desc='Generates a report on the overridden variables',
@@ -88,7 +105,7 @@ def register_custom_reports():
         pre_or_post='post',
     )
 
-    register_report(
+    _register_report(
         name='list_options',
         func=_list_options_report,
         desc='Generates a report on the Problem options',
-- 
2.43.0


From c1c500e87edb66b781aa121edc4334f854e114c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 38/70] fix: let a problem be run again after a failed or
 single verbose run

---
 aviary/core/aviary_problem.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f45c431..50f9082 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1282,12 +1282,15 @@ class AviaryProblem(om.Problem):
         if (
             verbosity >= Verbosity.VERBOSE or real_time_plotting
         ):  # If real_time_plotting needs a driver recorder file to run the realtime plot server
-            recorder = om.SqliteRecorder('optimization_history.db')
-            self.driver.add_recorder(recorder)
+            # an earlier run that did not use the optimizer leaves its recorder on the driver, and a
+            # second recorder would remove the database the first one is writing
+            recorder_file = 'optimization_history.db'
+            if not any(Path(rec._filepath).name == recorder_file for rec in self.driver._rec_mgr):
+                self.driver.add_recorder(om.SqliteRecorder(recorder_file))
             self.final_setup()
 
         if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
-            with open(self.get_reports_dir() / 'input_list.txt', 'w') as outfile:
+            with open(self.get_reports_dir(force=True) / 'input_list.txt', 'w') as outfile:
                 self.model.list_inputs(out_stream=outfile, units=True)
 
         def _view_realtime_plot_hook(driver):
@@ -1323,14 +1326,19 @@ class AviaryProblem(om.Problem):
 
         # and run mission, and dynamics
         if run_driver:
-            self.result = dm.run_problem(
-                self,
-                run_driver=run_driver,
-                simulate=simulate,
-                make_plots=make_plots,
-                solution_record_file='problem_history.db',
-                restart=restart_filename,
-            )
+            try:
+                self.result = dm.run_problem(
+                    self,
+                    run_driver=run_driver,
+                    simulate=simulate,
+                    make_plots=make_plots,
+                    solution_record_file='problem_history.db',
+                    restart=restart_filename,
+                )
+            except BaseException:
+                # shut down the recorders like a completed run does, so the problem can be run again
+                self.cleanup()
+                raise
 
             # Manually print out a failure message for low verbosity modes that suppress
             # optimizer printouts, which may include the results message. Assumes success,
-- 
2.43.0


From 3de64583257f718b2a316688da43834e87f34eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 39/70] fix: list GASP aerodynamics parameters in a fixed order

The parameters were collected in a set, so that the order of the parameters of a phase,
and of the variables of the model, depended on the hash seed of the interpreter.
---
 .../aerodynamics/aerodynamics_builder.py      | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/aerodynamics_builder.py b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
index c233be8..01ea0c4 100644
--- a/aviary/subsystems/aerodynamics/aerodynamics_builder.py
+++ b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
@@ -665,15 +665,15 @@ class CoreAerodynamicsBuilder(AerodynamicsBuilder):
                     params[Aircraft.Design.LIFT_POLAR] = lift_opts
                     params[Aircraft.Design.DRAG_POLAR] = drag_opts
 
-            all_vars = set()
+            # The order of these variables is the order of the parameters in the phase.
             if method == 'low_speed':
-                all_vars = set(AERO_2DOF_INPUTS + AERO_LS_2DOF_INPUTS)
+                all_vars = AERO_2DOF_INPUTS + AERO_LS_2DOF_INPUTS
             elif method == 'cruise':
-                all_vars = set(AERO_2DOF_INPUTS + AERO_CLEAN_2DOF_INPUTS)
+                all_vars = AERO_2DOF_INPUTS + AERO_CLEAN_2DOF_INPUTS
             elif method == 'tabular_low_speed':
-                all_vars = AERO_2DOF_TABULAR_LS_INPUTS
+                all_vars = list(AERO_2DOF_TABULAR_LS_INPUTS)
             elif method == 'tabular_cruise':
-                all_vars = TABULAR_CORE_INPUTS
+                all_vars = list(TABULAR_CORE_INPUTS)
             else:
                 raise ValueError(
                     'GASP-based aero method is not one of the following: (cruise, '
@@ -686,13 +686,13 @@ class CoreAerodynamicsBuilder(AerodynamicsBuilder):
                 design_type = AircraftTypes.TRANSPORT
 
             if design_type is AircraftTypes.BLENDED_WING_BODY:
-                all_vars.add(Aircraft.Fuselage.LIFT_CURVE_SLOPE_MACH0)
-                all_vars.add(Aircraft.Fuselage.HYDRAULIC_DIAMETER)
-                all_vars.add(Aircraft.Fuselage.PLANFORM_AREA)
-                all_vars.add(Aircraft.Wing.EXPOSED_AREA)
-                all_vars.add(Aircraft.Wing.ZERO_LIFT_ANGLE)
+                all_vars.append(Aircraft.Fuselage.LIFT_CURVE_SLOPE_MACH0)
+                all_vars.append(Aircraft.Fuselage.HYDRAULIC_DIAMETER)
+                all_vars.append(Aircraft.Fuselage.PLANFORM_AREA)
+                all_vars.append(Aircraft.Wing.EXPOSED_AREA)
+                all_vars.append(Aircraft.Wing.ZERO_LIFT_ANGLE)
 
-            for var in all_vars:
+            for var in dict.fromkeys(all_vars):
                 # TODO only checking core metadata here!!
                 meta = CoreMetaData[var]
 
-- 
2.43.0


From d6386a3a08e3699bffa61c0ddd0302f57beb1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 40/70] fix: number multi-engine parameters in a fixed order

The parameters passed through to several engine models were collected in a set, so that
the variables of the pass-through component depended on the hash seed.
---
 aviary/subsystems/propulsion/propulsion_mission.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_mission.py b/aviary/subsystems/propulsion/propulsion_mission.py
index 2bc160b..88700f5 100644
--- a/aviary/subsystems/propulsion/propulsion_mission.py
+++ b/aviary/subsystems/propulsion/propulsion_mission.py
@@ -75,17 +75,17 @@ class PropulsionMission(om.Group):
             # it is already sliced across several components.
             # TODO is this problem fixable from dymos end (introspection includes parameters)?
 
-            # create set of params
+            # create collection of params, in the order the engines give them
             # TODO get_parameters() should have access to aviary options + phase info here, pass
             #      via options into this component from subsystem builder?
             param_dict = {}
             # save parameters for use in configure()
-            parameters = self.parameters = set()
+            parameters = self.parameters = []
             for engine in engine_models:
                 eng_params = engine.get_parameters(aviary_inputs=options)
                 param_dict.update(eng_params)
 
-            parameters.update(param_dict.keys())
+            parameters.extend(param_dict.keys())
 
             comp = om.ExecComp(has_diag_partials=True)
 
-- 
2.43.0


From 940363088d5b3d7a67d77544df20698a0c245bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 41/70] fix: keep the order of the outputs of a data
 interpolator

The outputs asked for were collected in a set, so that the order of the outputs of the
component depended on the hash seed.
---
 aviary/utils/data_interpolator_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index 75ac59c..396d51c 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -82,7 +82,7 @@ def build_data_interpolator(
             addtl_outputs = list(interpolator_outputs.keys())
         else:
             addtl_outputs = interpolator_outputs
-        outputs = list(set(outputs + addtl_outputs))
+        outputs = list(dict.fromkeys(outputs + addtl_outputs))
 
     all_vars = interpolator_data.keys()
 
-- 
2.43.0


From be1951cd355d331da99d20183df3547433f11d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 42/70] fix: save and open dashboard bundles all or nothing

Saving wrote over an existing bundle, dropped the folder and anything after a dot from the requested
name, and skipped folders that could not be listed. Opening with --force deleted the existing
directory before it knew that the bundle could be unpacked, left partly unpacked directories behind,
and skipped files with '..' in their name. The save button saved another directory than the one shown.
---
 aviary/visualization/dashboard.py     |  3 +-
 aviary/visualization/dashboard_cmd.py | 76 ++++++++++++++++++++++++---
 2 files changed, 70 insertions(+), 9 deletions(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index 7c39aac..e74af6d 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -42,6 +42,7 @@ from openmdao.utils.om_warnings import issue_warning
 
 from aviary.variable_info.variable_meta_data import CoreMetaData
 from aviary.visualization.aircraft_3d_model import Aircraft3DModel
+from aviary.visualization.dashboard_cmd import _save_bundle
 
 # support getting this function from OpenMDAO post movement of the function to utils
 #    but also support its old location
@@ -1408,7 +1409,7 @@ def dashboard(script_name, port=0, run_in_background=False):
 
     def save_dashboard(event):
         print(f'Saving dashboard files to {script_name}.zip')
-        shutil.make_archive(script_name, 'zip', f'{script_name}_out')
+        _save_bundle(out_dir, f'{script_name}.zip')
 
     save_dashboard_button.on_click(save_dashboard)
 
diff --git a/aviary/visualization/dashboard_cmd.py b/aviary/visualization/dashboard_cmd.py
index 6e207a5..1f51369 100644
--- a/aviary/visualization/dashboard_cmd.py
+++ b/aviary/visualization/dashboard_cmd.py
@@ -4,10 +4,74 @@ import Bokeh unless we need it. This greatly speeds up the command line.
 """
 
 import argparse
+import os
 from pathlib import Path
 import shutil
 import zipfile
 
+from aviary.utils.utils import replace_when_complete
+
+
+def _save_bundle(output_dir, zip_path):
+    """
+    Save everything in the output directory of a run to a zip file. An existing zip file is only
+    replaced once the new one is complete.
+
+    Parameters
+    ----------
+    output_dir : str or Path
+        The output directory to be saved.
+    zip_path : str or Path
+        The zip file to be created or replaced.
+    """
+
+    def _raise(err):
+        raise err
+
+    paths = []
+    for root, dirs, files in os.walk(output_dir, onerror=_raise):
+        paths.extend(Path(root, name) for name in sorted(dirs) + sorted(files))
+
+    with replace_when_complete(zip_path) as temp_path:
+        with zipfile.ZipFile(temp_path, 'w', zipfile.ZIP_DEFLATED, strict_timestamps=False) as bundle:
+            for path in paths:
+                if path.is_file() or path.is_dir():
+                    bundle.write(path, path.relative_to(output_dir))
+
+
+def _open_bundle(zip_path, report_dir):
+    """
+    Unpack a zip file. An existing directory is only replaced once everything has been unpacked.
+
+    Parameters
+    ----------
+    zip_path : str or Path
+        The zip file to be unpacked.
+    report_dir : str or Path
+        The directory to be created or replaced.
+    """
+    temp_dir = f'{report_dir}.{os.getpid()}.tmp'
+    old_dir = f'{report_dir}.{os.getpid()}.old'
+
+    try:
+        with zipfile.ZipFile(zip_path) as bundle:
+            os.mkdir(temp_dir)
+            bundle.extractall(temp_dir)
+
+        if os.path.isdir(report_dir):
+            os.rename(report_dir, old_dir)
+        try:
+            os.rename(temp_dir, report_dir)
+        except BaseException:
+            if os.path.isdir(old_dir):
+                os.rename(old_dir, report_dir)
+            raise
+    except BaseException:
+        shutil.rmtree(temp_dir, ignore_errors=True)
+        raise
+
+    shutil.rmtree(old_dir, ignore_errors=True)
+
 
 def _dashboard_setup_parser(parser):
     """
@@ -98,12 +162,8 @@ def _dashboard_cmd(options, user_args):
                 f'The reports directory {report_dir_path} already exists. If you wish '
                 'to overwrite the existing directory, use the --force option'
             )
-        if (
-            report_dir_path.is_dir()
-        ):  # need to delete it. The unpacking will just add to what is there, not do a clean unpack
-            shutil.rmtree(report_dir_path)
-
-        shutil.unpack_archive(options.script_name, report_dir_path)
+        # an existing directory is replaced, not added to
+        _open_bundle(options.script_name, report_dir_path)
         dashboard(
             report_dir_name,
             # options.problem_recorder,
@@ -118,9 +178,9 @@ def _dashboard_cmd(options, user_args):
         if options.save is True:
             save_filename_stem = options.script_name
         else:
-            save_filename_stem = Path(options.save).stem
+            save_filename_stem = options.save.removesuffix('.zip')
         print(f'Saving to {save_filename_stem}.zip')
-        shutil.make_archive(save_filename_stem, 'zip', f'{options.script_name}_out')
+        _save_bundle(f'{options.script_name}_out', f'{save_filename_stem}.zip')
         return
 
     dashboard(
-- 
2.43.0


From 1b2b2a2a15279e5f6ac7723d9c03d5ea765352c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 43/70] fix: report the current engine values, and every
 engine's own masses

The propulsion report showed the thrust and scale factor the engine was created with rather than those
of the run. The mass report gave the second and later engines the masses of the first one.
---
 aviary/subsystems/mass/mass_builder.py      | 16 ++++++++-----
 aviary/subsystems/propulsion/engine_deck.py | 26 ++++++++++-----------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/aviary/subsystems/mass/mass_builder.py b/aviary/subsystems/mass/mass_builder.py
index bbb33fc..deb829d 100644
--- a/aviary/subsystems/mass/mass_builder.py
+++ b/aviary/subsystems/mass/mass_builder.py
@@ -165,9 +165,11 @@ class CoreMassBuilder(MassBuilder):
             val, units = find_variable_in_problem(Aircraft.Nacelle.MASS, prob, self.meta_data)
             f.write(f'|Nacelles|{np.dot(val, num_engines)}||\n')
             for i, engine in enumerate(engine_models):
-                if isinstance(val, (np.ndarray, list, tuple)):
-                    val = val[i]
-                f.write(f'|{tab}{engine.name}|{val} ({val * num_engines[i]} total)|{units}|\n')
+                engine_val = val[i] if isinstance(val, (np.ndarray, list, tuple)) else val
+                f.write(
+                    f'|{tab}{engine.name}|{engine_val} ({engine_val * num_engines[i]} total)'
+                    f'|{units}|\n'
+                )
 
             val, units = find_variable_in_problem(Aircraft.Nacelle.MASS, prob, self.meta_data)
             if val == 0.0:
@@ -202,9 +204,11 @@ class CoreMassBuilder(MassBuilder):
 
             val, units = find_variable_in_problem(Aircraft.Engine.MASS, prob, self.meta_data)
             for i, engine in enumerate(engine_models):
-                if isinstance(val, (np.ndarray, list, tuple)):
-                    val = val[i]
-                f.write(f'|{tab}{tab}{engine.name}|{val} ({val * num_engines[i]} total)|{units}|\n')
+                engine_val = val[i] if isinstance(val, (np.ndarray, list, tuple)) else val
+                f.write(
+                    f'|{tab}{tab}{engine.name}|{engine_val} ({engine_val * num_engines[i]} total)'
+                    f'|{units}|\n'
+                )
 
             # thrust reverser reporting optional
             val, units = find_variable_in_problem(
diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index f1d8114..b3a2c24 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1228,24 +1228,24 @@ class EngineDeck(EngineModel):
                     units = meta_data[var_name]['units']
                 except KeyError:
                     units = None
-                # try to get value from engine
+                # get value from problem, the engine only holds the values it was created with
                 try:
                     if units:
-                        val = self.get_val(var_name, units)
+                        val = problem.get_val(var_name, units)
                     else:
-                        val, units = self.get_item(var_name)
-                        if (val, units) == (None, None):
-                            raise KeyError
+                        # TODO find units for variable in problem?
+                        val = problem.get_val(var_name)
+                        units = 'unknown'
                 except KeyError:
-                    # get value from problem
+                    # variable not in problem, try to get value from engine
                     try:
                         if units:
-                            val = problem.get_val(var_name, units)
+                            val = self.get_val(var_name, units)
                         else:
-                            # TODO find units for variable in problem?
-                            val = problem.get_val(var_name)
-                            units = 'unknown'
-                    # variable not in problem, get from aviary_inputs instead
+                            val, units = self.get_item(var_name)
+                            if (val, units) == (None, None):
+                                raise KeyError
+                    # variable not in engine, get from aviary_inputs instead
                     except KeyError:
                         try:
                             if units:
@@ -1259,8 +1259,8 @@ class EngineDeck(EngineModel):
                             units = None
                         else:
                             val = val[engine_idx]
-                    else:
-                        val = val[engine_idx]
+                else:
+                    val = val[engine_idx]
                 # handle rounding + formatting
                 if isinstance(val, (np.ndarray, list, tuple)):
                     val = [round_it(item) for item in val]
-- 
2.43.0


From c54c4af49de1c8269ac0284d3e762400b60ad58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 44/70] fix: never leave incomplete reports

A report whose writing failed or was interrupted left a truncated file in place of an earlier
complete one. The time series file also kept the duplicate rows it is documented to drop.
---
 aviary/core/aviary_problem.py                 |  6 +++--
 aviary/interface/reports.py                   | 17 ++++++-------
 .../subsystems/geometry/geometry_builder.py   |  3 ++-
 aviary/subsystems/mass/mass_builder.py        |  3 ++-
 .../propulsion/propulsion_builder.py          | 24 +++++++++++--------
 5 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 50f9082..e30561e 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1290,7 +1290,8 @@ class AviaryProblem(om.Problem):
             self.final_setup()
 
         if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
-            with open(self.get_reports_dir(force=True) / 'input_list.txt', 'w') as outfile:
+            report_file = self.get_reports_dir(force=True) / 'input_list.txt'
+            with replace_when_complete(report_file) as temp_file, open(temp_file, 'w') as outfile:
                 self.model.list_inputs(out_stream=outfile, units=True)
 
         def _view_realtime_plot_hook(driver):
@@ -1363,7 +1364,8 @@ class AviaryProblem(om.Problem):
         )
 
         if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
-            with open(Path(self.get_reports_dir()) / 'output_list.txt', 'w') as outfile:
+            report_file = Path(self.get_reports_dir()) / 'output_list.txt'
+            with replace_when_complete(report_file) as temp_file, open(temp_file, 'w') as outfile:
                 self.model.list_vars(out_stream=outfile, units=True, print_arrays=True)
 
         if self.generate_payload_range and self.problem_type == ProblemType.SIZING:
diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index 152f455..93d8b8f 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -12,7 +12,7 @@ from openmdao.utils.reports_system import register_report
 from aviary.core.aviary_problem import AviaryProblem
 from aviary.interface.utils import write_markdown_variable_table
 from aviary.utils.named_values import NamedValues
-from aviary.utils.utils import wrapped_convert_units
+from aviary.utils.utils import replace_when_complete, wrapped_convert_units
 from aviary.variable_info.enums import ProblemType
 
 
@@ -151,7 +151,7 @@ def run_status(prob: AviaryProblem):
     status['Exit status'] = prob.driver.result.exit_status
     status['Report generation date and time'] = time_stamp
 
-    with open(report_file, 'w') as f:
+    with replace_when_complete(report_file) as temp_file, open(temp_file, 'w') as f:
         json.dump(status, f, indent=1, ensure_ascii=False)
         print(file=f)  # avoid 'no newline at end of file' message
 
@@ -326,7 +326,7 @@ def mission_report(prob: AviaryProblem, **kwargs):
         # All collective calls are completed. We only output on rank 0.
         return
 
-    with open(report_file, mode='w') as f:
+    with replace_when_complete(report_file) as temp_file, open(temp_file, mode='w') as f:
         for name, model in models.items():
             data = all_data[name]
             totals = all_totals[name]
@@ -437,7 +437,7 @@ def input_check_report(prob: AviaryProblem, **kwargs):
     if MPI and prob.comm.rank != 0:
         return
 
-    with open(report_file, mode='w') as f:
+    with replace_when_complete(report_file) as temp_file, open(temp_file, mode='w') as f:
         f.write('# Unspecified Hierarchy Variables\n')
         f.write(
             'These aviary inputs are unspecified in aviary_inputs, and may be using default values '
@@ -615,14 +615,15 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
     # Add units to column names
     df.columns = [f'{col} ({timeseries_data[col]["units"]})' for col in df.columns]
 
-    df.drop_duplicates()
+    df = df.drop_duplicates()
 
     # The path where you want to save the CSV file
     reports_folder = Path(prob.get_reports_dir())
     report_file = reports_folder / 'mission_timeseries_data.csv'
 
     # Write the DataFrame to a CSV file
-    df.to_csv(report_file, index=False)
+    with replace_when_complete(report_file) as temp_file:
+        df.to_csv(temp_file, index=False)
 
 
 def overridden_variables_report(prob: AviaryProblem, **kwargs):
@@ -637,7 +638,7 @@ def overridden_variables_report(prob: AviaryProblem, **kwargs):
 
     reports_folder = Path(prob.get_reports_dir())
     report_file = reports_folder / 'overridden_variables.md'
-    with open(report_file, mode='w') as f:
+    with replace_when_complete(report_file) as temp_file, open(temp_file, mode='w') as f:
         # check to see if this is a multi-mission problem
         #   and make a list of all the aviary groups
         if prob.aviary_groups_dict:
@@ -744,5 +745,5 @@ def _list_options_report(prob: AviaryProblem, **kwargs):
 
     reports_folder = Path(prob.get_reports_dir())
     report_file = reports_folder / 'options.txt'
-    with open(report_file, mode='w') as f:
+    with replace_when_complete(report_file) as temp_file, open(temp_file, mode='w') as f:
         prob.model.list_options(out_stream=f, include_default=False, include_solvers=False)
diff --git a/aviary/subsystems/geometry/geometry_builder.py b/aviary/subsystems/geometry/geometry_builder.py
index 9d0ab72..95a19f3 100644
--- a/aviary/subsystems/geometry/geometry_builder.py
+++ b/aviary/subsystems/geometry/geometry_builder.py
@@ -13,6 +13,7 @@ from aviary.subsystems.geometry.combined_geometry import CombinedGeometry
 from aviary.subsystems.geometry.flops_based.prep_geom import PrepGeom
 from aviary.subsystems.geometry.gasp_based.size_group import SizeGroup
 from aviary.subsystems.subsystem_builder import SubsystemBuilder
+from aviary.utils.utils import replace_when_complete
 from aviary.variable_info.enums import LegacyCode
 from aviary.variable_info.variables import Aircraft
 
@@ -139,7 +140,7 @@ class CoreGeometryBuilder(GeometryBuilder):
         if self.code_origin is GASP or self.use_both_geometries:
             fuselage_outputs.append(Aircraft.Fuselage.AVG_DIAMETER)
 
-        with open(filepath, mode='w') as f:
+        with replace_when_complete(filepath) as temp_file, open(temp_file, mode='w') as f:
             if self.use_both_geometries:
                 method = 'FLOPS and GASP methods'
             else:
diff --git a/aviary/subsystems/mass/mass_builder.py b/aviary/subsystems/mass/mass_builder.py
index deb829d..a54449e 100644
--- a/aviary/subsystems/mass/mass_builder.py
+++ b/aviary/subsystems/mass/mass_builder.py
@@ -16,6 +16,7 @@ from aviary.interface.utils import find_variable_in_problem
 from aviary.subsystems.mass.flops_based.mass_premission import MassPremission as MassPremissionFLOPS
 from aviary.subsystems.mass.gasp_based.mass_premission import MassPremission as MassPremissionGASP
 from aviary.subsystems.subsystem_builder import SubsystemBuilder
+from aviary.utils.utils import replace_when_complete
 from aviary.variable_info.enums import LegacyCode, ProblemType
 from aviary.variable_info.variables import Aircraft, Mission
 
@@ -105,7 +106,7 @@ class CoreMassBuilder(MassBuilder):
         # "double-size" (8-character) tabs were found to greatly improve readability
         tab = '&nbsp;&nbsp;&nbsp;&nbsp;&nbsp;&nbsp;&nbsp;&nbsp;'
 
-        with open(filepath, mode='w') as f:
+        with replace_when_complete(filepath) as temp_file, open(temp_file, mode='w') as f:
             method = self.code_origin.value + '-derived relations'
             f.write(f'# Mass estimation: {method}')
 
diff --git a/aviary/subsystems/propulsion/propulsion_builder.py b/aviary/subsystems/propulsion/propulsion_builder.py
index a7c61ce..59df86e 100644
--- a/aviary/subsystems/propulsion/propulsion_builder.py
+++ b/aviary/subsystems/propulsion/propulsion_builder.py
@@ -8,6 +8,8 @@ PropulsionBuilder : the interface for a propulsion subsystem builder.
 CorePropulsionBuilder : the interface for Aviary's core propulsion subsystem builder
 """
 
+from pathlib import Path
+
 import numpy as np
 
 from aviary.interface.utils import write_markdown_variable_table
@@ -20,6 +22,7 @@ from aviary.subsystems.subsystem_builder import SubsystemBuilder
 #      Ideally, an alternate solution to loop through the hierarchy will be created and
 #      these can be replaced.
 from aviary.utils.preprocessors import _get_engine_variables
+from aviary.utils.utils import replace_when_complete
 from aviary.variable_info.variables import Aircraft
 
 
@@ -310,13 +313,14 @@ class CorePropulsionBuilder(PropulsionBuilder):
             Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST,
         ]
 
-        with open(filepath, mode='w') as f:
-            f.write('# Propulsion')
-            write_markdown_variable_table(f, prob, propulsion_outputs, self.meta_data)
-            f.write('\n## Engines')
-
-        # each engine can append to this file
-        kwargs['meta_data'] = self.meta_data
-        for idx, engine in enumerate(self.engine_models):
-            kwargs['engine_idx'] = idx
-            engine.report(prob, filepath, **kwargs)
+        with replace_when_complete(filepath) as temp_file:
+            with open(temp_file, mode='w') as f:
+                f.write('# Propulsion')
+                write_markdown_variable_table(f, prob, propulsion_outputs, self.meta_data)
+                f.write('\n## Engines')
+
+            # each engine can append to this file
+            kwargs['meta_data'] = self.meta_data
+            for idx, engine in enumerate(self.engine_models):
+                kwargs['engine_idx'] = idx
+                engine.report(prob, Path(temp_file), **kwargs)
-- 
2.43.0


From d761db2a27de68109953f7ff8d47539f7dd10016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 45/70] fix: time series of several engine types, inputs of
 several missions and long runs in reports

Variables with several values per point in time filled one longer column, so their rows did not
belong to the times next to them. The name of a mission was stripped from variable names character by
character. The run time in the status report restarted at zero after a day.
---
 aviary/interface/reports.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index 93d8b8f..6e2df96 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -1,7 +1,6 @@
 import datetime
 import json
 import sys
-import time
 from pathlib import Path
 
 import numpy as np
@@ -132,8 +131,10 @@ def run_status(prob: AviaryProblem):
 
     runtime = prob.driver.result.runtime
     runtime_ms = (runtime * 1000.0) % 1000.0
+    minutes, seconds = divmod(int(runtime), 60)
+    hours, minutes = divmod(minutes, 60)
     runtime_formatted = (
-        f'{time.strftime("%H hours %M minutes %S seconds", time.gmtime(runtime))} '
+        f'{hours:02d} hours {minutes:02d} minutes {seconds:02d} seconds '
         f'{runtime_ms:.1f} milliseconds'
     )
 
@@ -421,7 +422,7 @@ def input_check_report(prob: AviaryProblem, **kwargs):
 
         bare_inputs = {v for v in bare_inputs if v not in aviary_inputs}
         if multi_mission:
-            bare_inputs = {v for v in bare_inputs if v.lstrip(f'{name}.') not in aviary_inputs}
+            bare_inputs = {v for v in bare_inputs if v.removeprefix(f'{name}.') not in aviary_inputs}
 
     bare_hierarchy_inputs = {
         v
@@ -555,6 +556,11 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
         timeseries_data[variable_name] = {}
         first = True  # flag to check if this is first iteration in for loop
         units = None
+        val_shape = next(
+            value['val'].shape[1:]
+            for key, value in timeseries_outputs.items()
+            if key.split('.')[-1] == variable_name
+        )
         for idx_phase, phase_name in enumerate(phase_names):
             variable_str = f'traj.{phase_name}.timeseries.{variable_name}'
             time_str = f'traj.{phase_name}.timeseries.time'
@@ -564,8 +570,8 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
                     f'Variable {variable_str} not found in timeseries_outputs for phase '
                     f'{phase_name}.'
                 )
-                val = np.zeros_like(timeseries_outputs[time_str]['val'])
-                val[:] = np.nan
+                num_nodes = timeseries_outputs[time_str]['val'].shape[0]
+                val = np.full((num_nodes,) + val_shape, np.nan)
                 if first:
                     val_full_traj = val
                     first = False
@@ -599,11 +605,16 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
         timeseries_data[variable_name]['units'] = units
         timeseries_data[variable_name]['shape'] = val_full_traj.shape
 
-    # Create a DataFrame from timeseries_data
-    df_data = {
-        variable_name: pd.Series(timeseries_data[variable_name]['val'].flatten())
-        for variable_name in timeseries_data
-    }
+    # Create a DataFrame from timeseries_data. A variable with several values at each point in time,
+    # such as the throttles of several engine types, gets a column for each of them.
+    df_data = {}
+    column_units = {}
+    for variable_name, data in timeseries_data.items():
+        vals = data['val'].reshape(data['shape'][0], -1)
+        for i in range(vals.shape[1]):
+            column = variable_name if vals.shape[1] == 1 else f'{variable_name}[{i}]'
+            df_data[column] = pd.Series(vals[:, i])
+            column_units[column] = data['units']
     df = pd.DataFrame(df_data)
 
     time_column = ['time']  # Isolate the 'time' column
@@ -613,7 +624,7 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
     df = df[columns]
 
     # Add units to column names
-    df.columns = [f'{col} ({timeseries_data[col]["units"]})' for col in df.columns]
+    df.columns = [f'{col} ({column_units[col]})' for col in df.columns]
 
     df = df.drop_duplicates()
 
-- 
2.43.0


From 61bc717e245070b08b9f6a821db095fecf05ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 46/70] fix: input check reports values in the units it shows

A local input that is promoted to a name with its own units was listed with its value in those
units, next to the units of the component.
---
 aviary/interface/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index 6e2df96..434b35e 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -491,9 +491,9 @@ def input_check_report(prob: AviaryProblem, **kwargs):
                     continue
 
                 abs_paths = prom2abs(var)
-                val = prob.model.get_val(var)
                 meta = prob.model._var_allprocs_abs2meta['input'][abs_paths[0]]
                 units = meta['units']
+                val = prob.model.get_val(var, units=units)
 
                 f.write(f'| **{var}** | {val} | {units} | {abs_paths}|\n')
 
-- 
2.43.0


From 52843c077265cd25752c080b73eb9cea565af9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 47/70] fix: write missions of the mission editor in a form
 that can be read again

---
 aviary/interface/graphical_input.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index c02660f..00eb445 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -1609,7 +1609,10 @@ def create_phase_info(
     # times = np.round(np.array(times)).astype(int)
     # altitudes = np.round(np.array(altitudes) / 500) * 500
     # mach_values = np.round(np.array(mach_values), 2)
-    times, altitudes, mach_values = np.array(times), np.array(altitudes), np.array(mach_values)
+    # plain numbers, numpy types are not readable once they are written to a file
+    times, altitudes, mach_values = [
+        np.array(values, dtype=float).tolist() for values in (times, altitudes, mach_values)
+    ]
 
     # Utility function to create bounds
     def create_bounds(center):
@@ -1671,7 +1674,7 @@ def create_phase_info(
                 'mach_initial': (mach_values[i], units[2]),
                 'mach_final': (mach_values[i + 1], units[2]),
                 'mach_bounds': (
-                    (np.min(mach_values[i : i + 2]) - 0.02, np.max(mach_values[i : i + 2]) + 0.02),
+                    (min(mach_values[i : i + 2]) - 0.02, max(mach_values[i : i + 2]) + 0.02),
                     units[2],
                 ),
                 'altitude_optimize': altitude_optimize_phase_vars[i].get(),
@@ -1680,8 +1683,8 @@ def create_phase_info(
                 'altitude_final': (altitudes[i + 1], units[1]),
                 'altitude_bounds': (
                     (
-                        max(np.min(altitudes[i : i + 2]) - alt_margin, 0.0),
-                        np.max(altitudes[i : i + 2]) + alt_margin,
+                        max(min(altitudes[i : i + 2]) - alt_margin, 0.0),
+                        max(altitudes[i : i + 2]) + alt_margin,
                     ),
                     units[1],
                 ),
@@ -1752,7 +1755,7 @@ def estimate_total_range_trapezoidal(times, mach_numbers, units):
         range_unit = 'nmi'
 
     # return range in the same units as altitude units
-    return round(convert_units(total_range, 'm', range_unit), 2), range_unit
+    return round(float(convert_units(total_range, 'm', range_unit)), 2), range_unit
 
 
 def _setup_flight_profile_parser(parser):
-- 
2.43.0


From 97dea64fc13bb5538aa2e9ada39ddba9b5b12e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 48/70] fix: never leave incomplete missions or settings of the
 mission editor

---
 aviary/interface/graphical_input.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index 00eb445..688d1be 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -14,6 +14,8 @@ from matplotlib.figure import Figure
 # used for unit conversion of numerical data
 from openmdao.utils.units import convert_units
 
+from aviary.utils.utils import replace_when_complete
+
 try:
     from numpy import trapz
 except ImportError:
@@ -1184,13 +1186,17 @@ class AviaryMissionEditor(tk.Tk):
 
     def close_window(self):
         """Closes main window and saves persistent settings into a binary pickle file."""
-        if self.store_settings.get():  # if user wants to store settings
-            with open(self.persist_filename, 'w') as fp:
-                json.dump({'window_geometry': self.winfo_geometry(), 'theme': self.theme}, fp)
-        # if user doesn't want to store settings and file exists
-        elif os.path.exists(self.persist_filename):
-            os.remove(self.persist_filename)  # remove file
-        self.destroy()
+        try:
+            if self.store_settings.get():  # if user wants to store settings
+                settings = {'window_geometry': self.winfo_geometry(), 'theme': self.theme}
+                with replace_when_complete(self.persist_filename) as temp_file:
+                    with open(temp_file, 'w') as fp:
+                        json.dump(settings, fp)
+            # if user doesn't want to store settings and file exists
+            elif os.path.exists(self.persist_filename):
+                os.remove(self.persist_filename)  # remove file
+        finally:
+            self.destroy()
 
     def toggle_optimize_view(self):
         """Runs update table with overwrite on to toggle display of optimize checkboxes."""
@@ -1725,7 +1731,7 @@ def create_phase_info(
     phase_info['post_mission']['target_range'] = (total_range, range_unit)
 
     # write a python file with the phase information
-    with open(filename, 'w') as f:
+    with replace_when_complete(filename) as temp_file, open(temp_file, 'w') as f:
         f.write('phase_info = ')
         f.write(_format_phase_info_value(phase_info, 0))
         f.write('\n')
-- 
2.43.0


From 19d4a60293599f3f9cea5d1595fa6abe7272491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 49/70] fix: keep the table of the mission editor in step with
 its points

---
 aviary/interface/graphical_input.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index 688d1be..d6e1daa 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -320,6 +320,9 @@ class AviaryMissionEditor(tk.Tk):
         except (ValueError, TypeError):
             self.point_warning_strvar.set('Invalid table entry!')
             return  # skip updating if value is not convertible to a float
+        if not np.isfinite(value):
+            self.point_warning_strvar.set('Table entries must be finite values!')
+            return  # skip updating values which cannot be part of a mission
         if value < 0:
             self.point_warning_strvar.set('Table entries must be positive values!')
             return  # skip updating negative values
@@ -548,9 +551,9 @@ class AviaryMissionEditor(tk.Tk):
                         value=event.ydata if plot_idx == y_idx else default_val,
                     )
                 valid_click = False
-            # update plots and tables after having changed the lists
-            self.redraw_plot()
-            self.update_table()
+                # update plots and tables after having changed the lists
+                self.redraw_plot()
+                self.update_table()
 
     def on_mouse_move(self, event):
         """Handles functionality related to mouse movement. Creates crosshair if mouse is inside
@@ -629,12 +632,14 @@ class AviaryMissionEditor(tk.Tk):
         """When X button next to tabular point is pressed, lists are popped and plot and tables
         are updated to show the removed point.
         """
-        if row < len(self.data[0]) and row > 0:
-            self.phase_order_list.pop(row - 1)
+        if row < len(self.data[0]) and len(self.data[0]) > 1:
+            # the phase that ends at the point is removed, or the first one together with its start
+            phase = max(row - 1, 0)
+            self.phase_order_list.pop(phase)
             if len(self.plot_texts[0]) > 0:
                 for i in range(self.num_dep_vars):
-                    self.plot_texts[i][row - 1].remove()
-                    self.plot_texts[i].pop(row - 1)
+                    self.plot_texts[i][phase].remove()
+                    self.plot_texts[i].pop(phase)
                 self.figure_canvas.draw()
 
         for i in range(len(self.data)):
@@ -655,7 +660,7 @@ class AviaryMissionEditor(tk.Tk):
             )
             - 1
         )
-        if overwrite and len(self.table_widgets) > 0:
+        if overwrite:
             for item in self.table_widgets:
                 item.destroy()
             self.table_widgets = []
-- 
2.43.0


From 214d6c19e5129fd29ead4abdc8f09c3540c0e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 50/70] fix: change units, rounding and limits of the mission
 editor only when they are applied

---
 aviary/interface/graphical_input.py | 113 ++++++++++++++--------------
 1 file changed, 58 insertions(+), 55 deletions(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index d6e1daa..c15e656 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -299,7 +299,7 @@ class AviaryMissionEditor(tk.Tk):
         self.data_info_defaults = {}
         for key, item in self.data_info.items():
             if key == 'units' or key == 'limits' or key == 'rounding':
-                self.data_info_defaults[key] = [element for element in item]
+                self.data_info_defaults[key] = [element.get() for element in item]
 
     def check_data_info(self):
         """Verifies data_info dict has consistent number of dependent variables."""
@@ -936,33 +936,46 @@ class AviaryMissionEditor(tk.Tk):
         by the menu buttons.
         """
 
-        def reset_options(old_list=None):
-            if not old_list:
+        def reset_options():
+            for i, (default, lim_str) in enumerate(
+                zip(self.data_info_defaults['limits'], self.data_info['limits'])
+            ):
+                value = float(default)
                 if len(self.data[0]) > 0:  # if resetting to bring data into view
-                    old_list = []
-                    for val_list in self.data:
-                        old_list.append(max(val_list) * 1.2)
-                else:
-                    old_list = [float(item.get()) for item in self.data_info_defaults['limits']]
-            for i, (value, lim_str) in enumerate(zip(old_list, self.data_info['limits'])):
+                    value = max(self.data[i]) * 1.2 or value
                 lim_str.set(value=self.display_rounding(value, col=i))
 
-        current_lims = [float(lim.get()) for lim in self.data_info['limits']]
+        def apply_options():
+            try:
+                new_lims = [float(lim.get()) for lim in popup_lims]
+            except ValueError:
+                new_lims = [np.nan]
+            if not all(np.isfinite(lim) and lim > 0 for lim in new_lims):
+                messagebox.showerror(
+                    title='Error', message='Axes limits must be positive numbers!', parent=popup
+                )
+                return
+            for lim, lim_str in zip(popup_lims, self.data_info['limits']):
+                lim_str.set(value=lim.get())
+            self.close_popup()
+            self.update_axes(limits=True, refresh=True)
+
+        # limits are edited on copies, which only replace the actual limits when they are applied
+        popup_lims = [
+            tk.StringVar(value=self.display_rounding(float(lim.get()), col=i))
+            for i, lim in enumerate(self.data_info['limits'])
+        ]
 
         popup, content_frame, buttons = self.generic_popup(
             pop_title='Axes Limits', buttons_text=['apply', 'reset', 'cancel']
         )
-        popup.protocol(
-            'WM_DELETE_WINDOW', func=lambda: [self.close_popup(), reset_options(current_lims)]
-        )
         for i in range(2):
             # allow columns to expand in frame
             content_frame.columnconfigure(i, weight=1)
 
         for row, (label, unit, lim_str) in enumerate(
-            zip(self.data_info['labels'], self.data_info['units'], self.data_info['limits'])
+            zip(self.data_info['labels'], self.data_info['units'], popup_lims)
         ):
-            lim_str.set(value=self.display_rounding(float(lim_str.get()), col=row))
             lim_label = tk.Label(
                 content_frame,
                 text=f'{label} ({unit.get()})',
@@ -981,9 +994,7 @@ class AviaryMissionEditor(tk.Tk):
             lim_entry.grid(row=row, column=1, sticky='w')
 
         # apply uses values in entry boxes, reset defaults to original limits, cancel uses previously set limits
-        buttons['apply'].configure(
-            command=lambda: [self.close_popup(), self.update_axes(limits=True, refresh=True)]
-        )
+        buttons['apply'].configure(command=apply_options)
         buttons['reset'].configure(
             command=lambda: [
                 self.close_popup(),
@@ -991,13 +1002,7 @@ class AviaryMissionEditor(tk.Tk):
                 self.update_axes(limits=True, refresh=True),
             ]
         )
-        buttons['cancel'].configure(
-            command=lambda: [
-                self.close_popup(),
-                reset_options(current_lims),
-                self.update_axes(limits=True, refresh=True),
-            ]
-        )
+        buttons['cancel'].configure(command=self.close_popup)
         self.place_popup()
 
     def get_phase_names(self):
@@ -1302,15 +1307,6 @@ class AviaryMissionEditor(tk.Tk):
         for i in range(2):
             content_frame.columnconfigure(i, weight=1)
 
-        def set_var(row):
-            self.data_info['units'][row].set(unit_combos[row].get())
-
-        def reset_units_strvar():
-            for i, unit in enumerate(old_units):
-                self.data_info['units'][i].set(unit)
-
-        # this creates a copy instead of a reference
-        old_units = [item.get() for item in self.data_info['units']]
         unit_combos = [None] * (self.num_dep_vars + 1)
         avail_units = [['s', 'min', 'h'], ['m', 'km', 'ft', 'mi', 'nmi']]
         for row, (var_label, var_unit) in enumerate(
@@ -1332,23 +1328,23 @@ class AviaryMissionEditor(tk.Tk):
                     content_frame, values=unit_list, state='readonly', width=10
                 )
                 unit_combos[row].current(unit_list.index(var_unit.get()))
-                unit_combos[row].bind('<<ComboboxSelected>>', lambda e, row=row: set_var(row))
                 unit_combos[row].grid(row=row, column=1, sticky='w')
 
         def apply_units():
+            # this creates a copy instead of a reference
+            old_units = [item.get() for item in self.data_info['units']]
+            for unit, combo in zip(self.data_info['units'], unit_combos):
+                if combo is not None:
+                    unit.set(combo.get())
+
             new_headers = [
                 f'{label} ({unit.get()})'
                 for label, unit in zip(self.data_info['labels'], self.data_info['units'])
             ]
             self.update_header(new_headers)
 
-            for col, (old_unit, new_unit, limit, rounding) in enumerate(
-                zip(
-                    old_units,
-                    self.data_info['units'],
-                    self.data_info['limits'],
-                    self.data_info['rounding'],
-                )
+            for col, (old_unit, new_unit, limit) in enumerate(
+                zip(old_units, self.data_info['units'], self.data_info['limits'])
             ):
                 new_lim = convert_units(
                     val=float(limit.get()), old_units=old_unit, new_units=new_unit.get()
@@ -1357,8 +1353,6 @@ class AviaryMissionEditor(tk.Tk):
                 for row, val in enumerate(self.data[col]):
                     new_val = convert_units(val=val, old_units=old_unit, new_units=new_unit.get())
                     self.update_list(index=row, axis=col, value=new_val)
-                num_digs = np.floor(np.log10(new_lim)) + 1
-                rounding.set(value=0 if num_digs >= 3 else 2)
 
             self.update_axes(limits=True, units=True)
             self.redraw_plot()
@@ -1368,8 +1362,8 @@ class AviaryMissionEditor(tk.Tk):
                 self.show_phase_slope.set(not self.show_phase_slope.get())
                 self.toggle_phase_slope(redraw=i == 1)
 
-        buttons['apply'].configure(command=lambda: [self.close_popup(), apply_units()])
-        buttons['cancel'].configure(command=lambda: [self.close_popup(), reset_units_strvar()])
+        buttons['apply'].configure(command=lambda: [apply_units(), self.close_popup()])
+        buttons['cancel'].configure(command=self.close_popup)
         self.place_popup()
 
     def change_rounding(self):
@@ -1382,16 +1376,25 @@ class AviaryMissionEditor(tk.Tk):
             content_frame.columnconfigure(i, weight=1)
 
         def apply_rounding():
-            self.update_table(overwrite=True)
-
-        def cancel_rounding():
-            for changed, old in zip(self.data_info['rounding'], current_rounding):
-                changed.set(old.get())
+            if not all(digits.get().strip().isdecimal() for digits in popup_rounding):
+                messagebox.showerror(
+                    title='Error',
+                    message='Rounding must be the number of digits to show!',
+                    parent=popup,
+                )
+                return
+            for digits, round_str in zip(popup_rounding, self.data_info['rounding']):
+                round_str.set(int(digits.get()))
+            self.close_popup()
+            self.redraw_plot()
+            bool_list = [[item.get() for item in axis] for axis in self.table_boolvars]
+            self.update_table(overwrite=True, bool_list=bool_list)
 
-        current_rounding = [item for item in self.data_info['rounding']]
+        # edited on copies, which only replace the actual rounding when they are applied
+        popup_rounding = [tk.StringVar(value=item.get()) for item in self.data_info['rounding']]
 
         for row, (label, unit, round_str) in enumerate(
-            zip(self.data_info['labels'], self.data_info['units'], self.data_info['rounding'])
+            zip(self.data_info['labels'], self.data_info['units'], popup_rounding)
         ):
             round_label = tk.Label(
                 content_frame,
@@ -1410,8 +1413,8 @@ class AviaryMissionEditor(tk.Tk):
             )
             round_entry.grid(row=row, column=1, sticky='w')
 
-        buttons['apply'].configure(command=lambda: [self.close_popup(), apply_rounding()])
-        buttons['cancel'].configure(command=lambda: [self.close_popup(), cancel_rounding()])
+        buttons['apply'].configure(command=apply_rounding)
+        buttons['cancel'].configure(command=self.close_popup)
         self.place_popup()
 
     def open_phase_info(self):
-- 
2.43.0


From aaa89ecc71c7022970b5add90d32caf75dab23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 51/70] fix: cancel the advanced options of the mission editor
 without losing phase orders

---
 aviary/interface/graphical_input.py | 31 ++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index c15e656..0184914 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -1033,20 +1033,34 @@ class AviaryMissionEditor(tk.Tk):
         include landing/takeoff, polynomial order, and phase order. This function is triggered by the menu buttons.
         """
 
-        def reset_options(self, old_dict=self.advanced_options_defaults):
+        def reset_options(self, old_dict=self.advanced_options_defaults, old_orders=None):
             for key, value in old_dict.items():
                 self.advanced_options[key].set(value=value)
-            self.phase_order_list = [self.phase_order_default] * (len(self.data[0]) - 1)
+            if old_orders is None:
+                old_orders = [self.phase_order_default] * (len(self.data[0]) - 1)
+            self.phase_order_list = old_orders
+
+        def apply_options():
+            try:
+                self.advanced_options['polynomial_order'].get()
+            except tk.TclError:
+                messagebox.showerror(
+                    title='Error', message='Polynomial order must be an integer!', parent=popup
+                )
+                return
+            self.close_popup()
 
         current_info = {}  # this stores option values as they are before user edits inside popup
         for key, var in self.advanced_options.items():
             current_info[key] = var.get()
+        current_orders = list(self.phase_order_list)
 
         popup, content_frame, buttons = self.generic_popup(
             pop_title='Advanced Options', buttons_text=['apply', 'reset', 'cancel']
         )
         popup.protocol(
-            'WM_DELETE_WINDOW', func=lambda: [self.close_popup(), reset_options(self, current_info)]
+            'WM_DELETE_WINDOW',
+            func=lambda: [self.close_popup(), reset_options(self, current_info, current_orders)],
         )
 
         for i in range(3):
@@ -1098,7 +1112,7 @@ class AviaryMissionEditor(tk.Tk):
                 messagebox.showwarning(
                     title='Error',
                     message='Phase transcription order must be '
-                    + 'at least {self.phase_order_default}!',
+                    + f'at least {self.phase_order_default}!',
                 )
                 newval = self.phase_order_default
             self.phase_order_list[phase_idx] = newval
@@ -1117,7 +1131,7 @@ class AviaryMissionEditor(tk.Tk):
             order_combo.bind('<<ComboboxSelected>>', set_var)
             order_combo.current(0)
             order_combo.grid(row=row + 1, column=1, sticky='w')
-            order_var = tk.StringVar(value=self.phase_order_default)
+            order_var = tk.StringVar(value=self.phase_order_list[0])
             order_entry = tk.Entry(
                 content_frame,
                 width=3,
@@ -1130,10 +1144,13 @@ class AviaryMissionEditor(tk.Tk):
 
         # apply maintains user options as set by user in popup, reset reverts them to default values, cancel reverts to
         # values as they were at the start of the popup
-        buttons['apply'].configure(command=lambda: self.close_popup())
+        buttons['apply'].configure(command=apply_options)
         buttons['reset'].configure(command=lambda: [self.close_popup(), reset_options(self)])
         buttons['cancel'].configure(
-            command=lambda: [self.close_popup(), reset_options(self, current_info)]
+            command=lambda: [
+                self.close_popup(),
+                reset_options(self, current_info, current_orders),
+            ]
         )
         self.place_popup()
 
-- 
2.43.0


From c6d653a8214bc3a27abdc68e4d5d7c10a4b460e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 52/70] fix: mission editor writes duration bounds that contain
 the phase, and keeps its mission if it is not saved

---
 aviary/interface/graphical_input.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index 0184914..583768e 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -1573,14 +1573,16 @@ class AviaryMissionEditor(tk.Tk):
         if not filename:
             filename = os.path.join(os.getcwd(), 'outputted_phase_info.py')
 
-        for j, axis in enumerate(self.data):
-            for i, value in enumerate(axis):
-                self.data[j][i] = float(self.display_rounding(value, col=j))
+        # the mission being edited is not changed, it is still needed if it cannot be saved
+        rounded_data = [
+            [float(self.display_rounding(value, col=j)) for value in axis]
+            for j, axis in enumerate(self.data)
+        ]
 
         create_phase_info(
-            times=self.data[0],
-            altitudes=self.data[1],
-            mach_values=self.data[2],
+            times=rounded_data[0],
+            altitudes=rounded_data[1],
+            mach_values=rounded_data[2],
             units=[item.get() for item in self.data_info['units']],
             polynomial_order=polyord,
             num_segments=len(self.data[0]) - 1,
@@ -1647,7 +1649,8 @@ def create_phase_info(
 
     # Utility function to create bounds
     def create_bounds(center):
-        lower_bound = max(center / 2, 0.1)  # Ensuring lower bound is not less than 0.1
+        # Ensuring lower bound is not less than 0.1, unless the phase is shorter than that
+        lower_bound = min(max(center / 2, 0.1), center)
         upper_bound = center * 1.5
         return (lower_bound, upper_bound)
 
-- 
2.43.0


From d0f0149adce235f13448512911cc375de4473dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 53/70] fix: mission editor opens any number of phases, or
 keeps the current mission

---
 aviary/interface/graphical_input.py | 84 ++++++++++++++++-------------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index 583768e..33f7d68 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -1230,6 +1230,11 @@ class AviaryMissionEditor(tk.Tk):
         self.update_table(overwrite=True)
 
     def toggle_phase_slope(self, redraw=True):
+        # phases that do not exist any more, e.g. after opening a mission with fewer phases
+        for text_list in self.plot_texts:
+            while len(text_list) > max(len(self.data[0]) - 1, 0):
+                text_list.pop().remove()
+
         if len(self.data[0]) > 1 and self.show_phase_slope.get():
             y_lims = [float(item.get()) for item in self.data_info['limits'][1:]]
             for i in range(len(self.data[0]) - 1):
@@ -1453,11 +1458,14 @@ class AviaryMissionEditor(tk.Tk):
                     'Python File does not contain a global dictionary called phase_info!'
                 )
             if phase_info:
-                first_phase = True
-                idx = 0
+                # everything is read before anything is shown, so that a file which is not usable
+                # leaves the current mission as it is
                 ylabs = ['altitude', 'mach']
-                self.phase_order_list = []
-                units = [None] * 3
+                data = [[] for _ in range(self.num_dep_vars + 1)]
+                bool_list = [[] for _ in range(self.num_dep_vars)]
+                phase_order_list = []
+                units = None
+                advanced_options = {}
                 for name, phase_dict in phase_info.items():
                     if name in ['pre_mission', 'post_mission']:
                         # Skip pre/post
@@ -1467,45 +1475,47 @@ class AviaryMissionEditor(tk.Tk):
 
                     value = usr_opts.get('distance_solve_segments', None)
                     if value is not None:
-                        self.advanced_options['distance_solve_segments'].set(value=value)
+                        advanced_options['distance_solve_segments'] = value
 
                     mach_poly = usr_opts.get('mach_polynomial_order', None)
                     alt_poly = usr_opts.get('altitude_polynomial_order', None)
 
                     if mach_poly is not None:
-                        self.advanced_options['polynomial_order'].set(value=mach_poly)
+                        advanced_options['polynomial_order'] = mach_poly
                     elif alt_poly is not None:
-                        self.advanced_options['polynomial_order'].set(value=alt_poly)
-
-                    self.phase_order_list.append(usr_opts['order'])
-
-                    timevals, units[0] = phase_dict['initial_guesses']['time']
-                    if first_phase:
-                        # For first phase, initialize internal lists with correct num of elements
-                        numpts = usr_opts['num_segments'] + 1
-                        self.data = [[0] * numpts for _ in range(self.num_dep_vars + 1)]
-                        bool_list = [[0] * (numpts - 1) for _ in range(self.num_dep_vars)]
-                        self.data[0][0] = timevals[0]
-                        for i in range(self.num_dep_vars):
-                            self.data[i + 1][0], units[i + 1] = usr_opts[f'{ylabs[i]}_initial']
-                        first_phase = False
-
-                    self.data[0][idx + 1] = timevals[1] + timevals[0]
+                        advanced_options['polynomial_order'] = alt_poly
+
+                    phase_order_list.append(usr_opts['order'])
+
+                    timevals, time_units = phase_dict['initial_guesses']['time']
+                    initial = [(timevals[0], time_units)]
+                    final = [(timevals[1] + timevals[0], time_units)]
                     for i in range(self.num_dep_vars):
-                        self.data[i + 1][idx + 1] = usr_opts[f'{ylabs[i]}_final'][0]
-                        bool_list[i][idx] = usr_opts[f'{ylabs[i]}_optimize']
+                        initial.append(usr_opts[f'{ylabs[i]}_initial'])
+                        final.append(usr_opts[f'{ylabs[i]}_final'])
+                        bool_list[i].append(usr_opts[f'{ylabs[i]}_optimize'])
+
+                    if units is None:
+                        # the first phase also defines the first point, and the units of all points
+                        units = [unit for _, unit in initial]
+                        points = [initial, final]
+                    else:
+                        points = [final]
+                    for point in points:
+                        for axis, unit, (val, val_units) in zip(data, units, point):
+                            axis.append(float(convert_units(val, val_units, unit)))
 
-                    idx += 1
+                if units is None:
+                    raise Exception('phase_info in this Python file does not contain any phases!')
 
-                self.advanced_options['constrain_range'].set(
-                    value=phase_info['post_mission']['constrain_range']
-                )
-                self.advanced_options['include_landing'].set(
-                    value=phase_info['post_mission']['include_landing']
-                )
-                self.advanced_options['include_takeoff'].set(
-                    value=phase_info['pre_mission']['include_takeoff']
-                )
+                for key in ['constrain_range', 'include_landing']:
+                    advanced_options[key] = phase_info['post_mission'][key]
+                advanced_options['include_takeoff'] = phase_info['pre_mission']['include_takeoff']
+
+                self.data = data
+                self.phase_order_list = phase_order_list
+                for key, value in advanced_options.items():
+                    self.advanced_options[key].set(value=value)
 
                 # checks if any optimize values are true, in which case checkboxes are shown
                 for axis_list in bool_list:
@@ -1514,9 +1524,9 @@ class AviaryMissionEditor(tk.Tk):
                             self.show_optimize.set(True)
                             break
                 lim_margin = 1.2
-                limits = [max(axis) * lim_margin for axis in self.data]
-                for var, lim in zip(self.data_info['limits'], limits):
-                    var.set(value=lim)
+                for axis, var in zip(self.data, self.data_info['limits']):
+                    if max(axis) > 0:
+                        var.set(value=max(axis) * lim_margin)
                 for str_var, unit in zip(self.data_info['units'], units):
                     str_var.set(unit)
                 self.update_axes(limits=True, units=True)
-- 
2.43.0


From b9e00ba4316c43daa1efb23e1e8e406a12d9f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 54/70] fix: mission editor opens the current contents of a
 file

---
 aviary/interface/graphical_input.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index 33f7d68..656f420 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -1,4 +1,3 @@
-import importlib.util  # used for opening existing phase info file
 import json
 import os
 import platform
@@ -14,6 +13,7 @@ from matplotlib.figure import Figure
 # used for unit conversion of numerical data
 from openmdao.utils.units import convert_units
 
+from aviary.utils.functions import load_phase_info_file
 from aviary.utils.utils import replace_when_complete
 
 try:
@@ -1446,13 +1446,10 @@ class AviaryMissionEditor(tk.Tk):
         file_dialog = filedialog.Open(self, filetypes=[('Python files', '*.py')])
         filename = file_dialog.show()
         if filename != '':
-            # imports file similar to how a module is imported, allowing direct access to variables
-            spec = importlib.util.spec_from_file_location('module_name', filename)
-            module = importlib.util.module_from_spec(spec)
-            spec.loader.exec_module(module)
+            # runs the current contents of the file, never an earlier version that is still cached
             phase_info = None
             try:
-                phase_info = module.phase_info
+                phase_info = load_phase_info_file(filename)
             except AttributeError:
                 raise Exception(
                     'Python File does not contain a global dictionary called phase_info!'
-- 
2.43.0


From b7de4cd687cd8c55b46622fc77a2c389a74f8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 55/70] fix: building a phase leaves the caller's phase_info as
 it is

from_phase_info wrapped the plain entries of the caller's user_options in
place, so information shared by several phases or problems was changed.
---
 aviary/mission/phase_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index bd14bc2..b619832 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -324,12 +324,14 @@ class PhaseBuilder(ABC):
         """
         # loop over user_options dict entries
         # if the value is not a tuple, wrap it in a tuple with the second entry of 'unitless'
+        # NOTE the phase_info belongs to the caller, and stays as it is
+        user_options = {}
         for key, value in phase_info['user_options'].items():
             if not isinstance(value, tuple):
-                phase_info['user_options'][key] = (value, 'unitless')
+                value = (value, 'unitless')
+            user_options[key] = value
 
         subsystem_options = phase_info.get('subsystem_options', {})  # TODO: aero info?
-        user_options = phase_info.get('user_options', ())
         initial_guesses = AviaryValues(phase_info.get('initial_guesses', ()))
 
         # TODO some of these may be purely programming API hooks, rather than for use
-- 
2.43.0


From 191a88af2b67bfb49bffb1d9af700475904ddfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 56/70] fix: phase builders with initial guesses can be stored
 as phase_info

to_phase_info called dict() on an AviaryValues, which raised TypeError as soon
as there was a guess to store.
---
 aviary/mission/phase_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index b619832..e423d06 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -288,7 +288,7 @@ class PhaseBuilder(ABC):
         """
         subsystem_options = self.subsystem_options  # TODO: aero info?
         user_options = self.user_options.to_phase_info()
-        initial_guesses = dict(self.initial_guesses)
+        initial_guesses = {key: item for key, item in self.initial_guesses}
 
         # TODO some of these may be purely programming API hooks, rather than for use
         # with phase info
-- 
2.43.0


From f3f3bbaa52bd73302151a9432a436b20f2515fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 57/70] fix: combining engine parameters leaves the engines'
 own tables as they are

---
 aviary/subsystems/propulsion/propulsion_builder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_builder.py b/aviary/subsystems/propulsion/propulsion_builder.py
index 59df86e..5dc6785 100644
--- a/aviary/subsystems/propulsion/propulsion_builder.py
+++ b/aviary/subsystems/propulsion/propulsion_builder.py
@@ -186,8 +186,12 @@ class CorePropulsionBuilder(PropulsionBuilder):
             if var in engine_vars:
                 # TODO shape for variables that are supposed to be vectors, like wing
                 #      engine locations
-                params[var]['shape'] = (num_engine_type,)
-                params[var]['static_target'] = True
+                # NOTE the original entry belongs to the engine model, and stays as it is
+                params[var] = {
+                    **params[var],
+                    'shape': (num_engine_type,),
+                    'static_target': True,
+                }
 
         return params
 
-- 
2.43.0


From 9545441aaaabf075d314600af98297dc353c44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 58/70] fix: combine the lists of several engine models into
 one flat list

get_linked_variables and get_mass_names called update with lists and raised,
and get_timeseries returned nested lists that phases cannot use.
---
 aviary/subsystems/propulsion/propulsion_builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_builder.py b/aviary/subsystems/propulsion/propulsion_builder.py
index 5dc6785..a293c91 100644
--- a/aviary/subsystems/propulsion/propulsion_builder.py
+++ b/aviary/subsystems/propulsion/propulsion_builder.py
@@ -61,7 +61,7 @@ class CorePropulsionBuilder(PropulsionBuilder):
         Set expected shape of all variables that need to be vectorized for multiple engine types.
     get_controls(self, phase_name=None) -> dict:
         Call get_controls() on all engine models and return combined result.
-    get_linked_variables(self) -> dict:
+    get_linked_variables(self) -> list:
         Call get_linked_variables() on all engine models and return combined result.
     get_pre_mission_bus_variables(self) -> dict
         Call get_linked_variables() on all engine models and return combined result.
@@ -212,14 +212,14 @@ class CorePropulsionBuilder(PropulsionBuilder):
     # NOTE no unittests!
     def get_linked_variables(self, aviary_inputs=None, user_options=None, subsystem_options=None):
         """Call get_linked_variables() on all engine models and return combined result."""
-        linked_vars = {}
+        linked_vars = []
         for engine in self.engine_models:
             engine_linked_vars = engine.get_linked_variables(
                 aviary_inputs=aviary_inputs,
                 user_options=user_options,
                 subsystem_options=subsystem_options,
             )
-            linked_vars.update(engine_linked_vars)
+            linked_vars.extend(engine_linked_vars)
 
         return linked_vars
 
@@ -267,10 +267,10 @@ class CorePropulsionBuilder(PropulsionBuilder):
     # NOTE no unittests!
     def get_mass_names(self, aviary_inputs=None):
         """Call get_mass_names() on all engine models and return combined result."""
-        mass_names = {}
+        mass_names = []
         for engine in self.engine_models:
             engine_mass_names = engine.get_mass_names(aviary_inputs=aviary_inputs)
-            mass_names.update(engine_mass_names)
+            mass_names.extend(engine_mass_names)
 
         return mass_names
 
@@ -294,7 +294,7 @@ class CorePropulsionBuilder(PropulsionBuilder):
                 user_options=user_options,
                 subsystem_options=subsystem_options,
             )
-            outputs.append(engine_outputs)
+            outputs.extend(engine_outputs)
 
         return outputs
 
-- 
2.43.0


From 154a2f64ee848b2b2799ef28caeeba9700a62ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 59/70] fix: engine decks without labelled data name the same
 inputs before and after they are built

mission_inputs was empty until the interpolator had been built once.
---
 aviary/subsystems/propulsion/engine_deck.py | 26 +++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index b3a2c24..c589535 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -779,13 +779,18 @@ class EngineDeck(EngineModel):
         """
         return SizeEngine()
 
+    def _get_independent_variables(self):
+        """Return the variables that must be inputs of the engine data, in requested order."""
+        if self.get_val(Aircraft.Engine.INTERPOLATION_SORT) == 'altitude':
+            return [ALTITUDE, MACH, THROTTLE, HYBRID_THROTTLE]
+        return [MACH, ALTITUDE, THROTTLE, HYBRID_THROTTLE]
+
     def _build_engine_interpolator(self, num_nodes, aviary_inputs):
         """
         Builds the OpenMDAO metamodel component for the engine deck.
         Currently only the semistructured model is supported.
         """
         interp_method = self.get_val(Aircraft.Engine.INTERPOLATION_METHOD)
-        interp_sort = self.get_val(Aircraft.Engine.INTERPOLATION_SORT)
         # interpolator object for engine data
         engine = om.MetaModelSemiStructuredComp(
             method=interp_method, extrapolate=True, vec_size=num_nodes
@@ -798,14 +803,10 @@ class EngineDeck(EngineModel):
 
         # add inputs and outputs to interpolator
         # independent variables that currently MUST be inputs
-        if interp_sort == 'altitude':
-            independent_variables = [ALTITUDE, MACH, THROTTLE, HYBRID_THROTTLE]
-        else:
-            independent_variables = [MACH, ALTITUDE, THROTTLE, HYBRID_THROTTLE]
+        independent_variables = self._get_independent_variables()
+        inputs = self.inputs or independent_variables
 
-        if self.inputs == []:
-            self.inputs = independent_variables
-        else:
+        if self.inputs:
             for var in independent_variables:
                 if var in self.outputs:
                     raise UserWarning(
@@ -817,7 +818,7 @@ class EngineDeck(EngineModel):
 
         # Add the first table inputs in the requested order.
         for variable in independent_variables:
-            if variable in self.inputs and variable in self.engine_variables:
+            if variable in inputs and variable in self.engine_variables:
                 engine.add_input(
                     variable.value,
                     self.data[variable],
@@ -826,7 +827,7 @@ class EngineDeck(EngineModel):
 
         # Add the remaining variables.
         for variable in self.engine_variables:
-            if variable in self.inputs:
+            if variable in inputs:
                 if variable in independent_variables:
                     # Already handled above.
                     continue
@@ -1200,8 +1201,9 @@ class EngineDeck(EngineModel):
         return params
 
     def mission_inputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
-        inputs = [inp.value for inp in self.inputs]
-        return inputs
+        # data without labels uses the independent variables as inputs
+        inputs = self.inputs or self._get_independent_variables()
+        return [inp.value for inp in inputs]
 
     def mission_outputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
         outputs = [out.value for out in self.outputs]
-- 
2.43.0


From d1684515c2035ddb74f9429e722843b9206f53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 60/70] fix: loading inputs again drops the engine deck built
 from the previous ones

---
 aviary/core/aviary_group.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 4f7e271..5a53075 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -86,6 +86,7 @@ class AviaryGroup(om.Group):
         self.verbosity = verbosity
         self.external_subsystems = []
         self.engine_models = []
+        self.default_engine = None  # built from the inputs if no engine model is provided
         self.main_phases = []
         self.reserve_phases = []
         self.subsystems = []
@@ -307,6 +308,12 @@ class AviaryGroup(om.Group):
         # run stored in aviary_inputs. Save this to self.
         self.aviary_inputs = aviary_inputs
 
+        # An engine deck that was built from previously loaded inputs does not describe these
+        self.engine_models = [
+            engine for engine in self.engine_models if engine is not self.default_engine
+        ]
+        self.default_engine = None
+
         # pull which methods will be used for subsystems and mission
         self.mission_method = mission_method = aviary_inputs.get_val(Settings.EQUATIONS_OF_MOTION)
         self.mass_method = mass_method = aviary_inputs.get_val(Settings.MASS_METHOD)
@@ -462,7 +469,8 @@ class AviaryGroup(om.Group):
                         guesses['time'] = ((None, time_duration), units)
 
         if self.engine_models == []:
-            self.engine_models = [build_engine_deck(aviary_inputs)]
+            self.default_engine = build_engine_deck(aviary_inputs)
+            self.engine_models = [self.default_engine]
 
         for external_subsystem in self.external_subsystems:
             aviary_inputs = external_subsystem.preprocess_inputs(aviary_inputs)
-- 
2.43.0


From 5ca01d13e6525a1d7c935af97ae2eeb386ef64cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 61/70] fix: add_aviary_group refuses single-mission problems
 as documented

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index e30561e..6bf4068 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -298,7 +298,7 @@ class AviaryProblem(om.Problem):
         verbosity = self._override_verbosity(verbosity)
 
         if self.problem_type is not ProblemType.MULTI_MISSION:
-            ValueError(
+            raise ValueError(
                 'add_aviary_group() should only be called when ProblemType is MULTI_MISSION.'
             )
 
-- 
2.43.0


From cce1b62b163a50d4d13a70ebbc80f019b2d76852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 62/70] fix: a group that could not be loaded is not left
 behind in a multi-mission problem

---
 aviary/core/aviary_problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 6bf4068..ca37532 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -302,7 +302,7 @@ class AviaryProblem(om.Problem):
                 'add_aviary_group() should only be called when ProblemType is MULTI_MISSION.'
             )
 
-        sub = self.model.add_subsystem(name, AviaryGroup())
+        sub = AviaryGroup()
         sub.meta_data = self.meta_data
         sub.load_inputs(
             aircraft_data=aircraft,
@@ -314,6 +314,8 @@ class AviaryProblem(om.Problem):
 
         sub.check_and_preprocess_inputs()
 
+        # The group only becomes a part of the model once its inputs proved to be usable
+        self.model.add_subsystem(name, sub)
         self.aviary_groups_dict[name] = sub
 
         if self.verbosity is None:
-- 
2.43.0


From 576de1c08b0e6da18cd059c22d5df7a06d11839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 63/70] fix: report an invalid time_duration instead of failing
 to

---
 aviary/core/aviary_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 5a53075..e2eb81b 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -443,8 +443,8 @@ class AviaryGroup(om.Group):
                     if time_duration <= 0:
                         raise ValueError(
                             f'Invalid time_duration in phase_info[{phase_name}]'
-                            f'[user_options]. Current (value: {time_duration[0]}), '
-                            f'(units: {time_duration[1]}) <= 0")'
+                            f'[user_options]. Current (value: {time_duration}), '
+                            f'(units: {units}) <= 0'
                         )
 
                     if 'initial_guesses' not in phase:
-- 
2.43.0


From 6f6440a45347ee122aa848432b7d8cb4627eebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 64/70] fix: a damaged payload/range file does not stop the
 whole dashboard

---
 aviary/visualization/dashboard.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index e74af6d..c8b82a8 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -931,16 +931,13 @@ def _create_interactive_xy_plot_mission_variables(documentation, problem_recorde
     return interactive_mission_var_plot_pane_with_doc
 
 
-def create_payload_range_frame(title, results_tabs_list, documentation, csv_filepath):
+@_handle_pane_creation_errors()
+def create_payload_range_frame(documentation, csv_filepath):
     """
     Create a Panel Pane that contains a Bokeh chart display of the data in a CSV file.
 
     Parameters
     ----------
-    title : str
-        Title for the tab.
-    results_tabs_list : list
-        List to append the chart frame to.
     documentation : str
         Explanation of what this tab is showing.
     csv_filepath : str or Path
@@ -948,8 +945,8 @@ def create_payload_range_frame(title, results_tabs_list, documentation, csv_file
 
     Returns
     -------
-    None
-        Appends the chart pane to results_tabs_list.
+    pane : Panel.Pane
+        A Panel Pane object showing the chart, or a message if the CSV file does not exist.
     """
     if os.path.isfile(csv_filepath):
         df = pd.read_csv(csv_filepath, skipinitialspace=True)
@@ -995,7 +992,7 @@ def create_payload_range_frame(title, results_tabs_list, documentation, csv_file
             ),
         )
 
-    results_tabs_list.append((title, report_pane))
+    return report_pane
 
 
 # The main script that generates all the tabs in the dashboard
-- 
2.43.0


From 60861ad42f777cfea1ab55420159cec81155c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 65/70] fix: an unreadable or empty optimization history does
 not stop the whole dashboard

---
 aviary/visualization/dashboard.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index c8b82a8..2d7b7b7 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -759,6 +759,15 @@ def create_optimization_history_plot(case_recorder, df):
     return layout
 
 
+@_handle_pane_creation_errors()
+def _create_optimization_history_pane(documentation, driver_recorder_path):
+    """Create a pane showing the optimization history recorded in the given file."""
+    df = convert_driver_case_recorder_file_to_df(driver_recorder_path)
+    if df is None:
+        raise ValueError(f"No driver cases are recorded in '{driver_recorder_path}'")
+    return create_optimization_history_plot(om.CaseReader(driver_recorder_path), df)
+
+
 @_handle_pane_creation_errors()
 def _create_interactive_xy_plot_mission_variables(documentation, problem_recorder_path):
     """
@@ -1150,10 +1159,12 @@ def dashboard(script_name, port=0, run_in_background=False):
     # Optimization History Plot
     opt_history_path = out_dir / 'optimization_history.db'
     if opt_history_path.exists():
-        df = convert_driver_case_recorder_file_to_df(opt_history_path)
-        cr = om.CaseReader(opt_history_path)
-        opt_history_pane = create_optimization_history_plot(cr, df)
-        optimization_tabs_list.append(('Optimization History', opt_history_pane))
+        _create_optimization_history_pane(
+            'Optimization History',
+            optimization_tabs_list,
+            'The optimization history recorded by the driver.',
+            opt_history_path,
+        )
 
     # IPOPT report
     if os.path.isfile(reports_dir / 'IPOPT.out'):
-- 
2.43.0


From 5c5dd5ae636fd6977d38d61568f44f8c2d24af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 66/70] fix: show why the aircraft 3D model could not be
 created

---
 aviary/visualization/dashboard.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index 2d7b7b7..9aa80c1 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -1251,13 +1251,11 @@ def dashboard(script_name, port=0, run_in_background=False):
                     aircraft_3d_file,
                 )
             except Exception as e:
-                create_report_frame(
-                    'Aircraft 3d model',
-                    results_tabs_list,
+                pane = _create_message_pane(
                     '3D model view of designed aircraft.',
-                    'simple_message',
                     f'Unable to create aircraft 3D model display due to error: {e}',
                 )
+                results_tabs_list.append(('Aircraft 3d model', pane))
 
     # Make the Aviary variables table pane
     if os.path.isfile(problem_recorder_path):
-- 
2.43.0


From b5c5d1240b1892a1b4b4cccb2bcf1606d997fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 67/70] fix: the dashboard does not show the variables of an
 earlier run when those of this run cannot be read

---
 aviary/visualization/dashboard.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index 9aa80c1..66ca116 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -1279,23 +1279,25 @@ def dashboard(script_name, port=0, run_in_background=False):
             # mod the script.js file to point at the json file
             # create the json file and put it in
             # reports/out_dir/aviary_vars/aviary_vars.json
-            create_aviary_variables_table_data_nested(
+            table_data = create_aviary_variables_table_data_nested(
                 out_dir, problem_recorder_path
             )  # create the json file
+            if table_data is None:
+                raise ValueError(f"no case named 'final' in '{problem_recorder_path}'")
         except Exception as e:
             pane = _create_message_pane(
                 'Table showing Aviary variables',
                 f"Unable to create 'Aviary Variables' pane in dashboard due to error: {e}.",
             )
             results_tabs_list.append(('Aviary Variables', pane))
-
-        create_report_frame(
-            'Aviary Variables',
-            results_tabs_list,
-            'Table showing Aviary variables.',
-            'html',
-            reports_dir / 'aviary_vars/index.html',
-        )
+        else:
+            create_report_frame(
+                'Aviary Variables',
+                results_tabs_list,
+                'Table showing Aviary variables.',
+                'html',
+                reports_dir / 'aviary_vars/index.html',
+            )
 
     # Mission Summary
     create_report_frame(
-- 
2.43.0


From 7c4d6f38f0beab4b0445ffa282dcfc85b315c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 68/70] fix: show the whole name of a variable that is alone in
 its group of the dashboard's table

---
 aviary/visualization/dashboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index 66ca116..0bd60ff 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -390,7 +390,7 @@ def create_aviary_variables_table_data_nested(output_dir, recorder_file):
             aviary_metadata = make_serializable(aviary_metadata)
             table_data_nested.append(
                 {
-                    'abs_name': group_name,
+                    'abs_name': var_info,
                     'prom_name': prom_name,
                     'value': convert_ndarray_to_support_nans_in_json(outputs[var_info]['val']),
                     'units': outputs[var_info]['units'],
-- 
2.43.0


From 7cbaec06b615116f3c87b81a29871032fc677a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 69/70] fix: the dashboard reads text reports in the encoding
 they are written in

---
 aviary/visualization/dashboard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index 0bd60ff..7a5e5fa 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -293,7 +293,10 @@ def create_report_frame(documentation, format, text_filepath):
             with open(text_filepath, 'rb') as f:
                 file_text = f.read()
                 # need to deal with some encoding errors
-                file_text = file_text.decode('latin-1')
+                try:
+                    file_text = file_text.decode('utf-8')
+                except UnicodeDecodeError:
+                    file_text = file_text.decode('latin-1')
             if format == 'markdown':
                 report_pane = pn.pane.Markdown(file_text)
             elif format == 'text':
-- 
2.43.0


From 6b5d1987dad1e3e75a1615365e5236d157897f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 70/70] fix: the optimization history keeps the sign of scalar
 variables

---
 aviary/visualization/dashboard.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index 7a5e5fa..9c27243 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -489,20 +489,17 @@ def convert_driver_case_recorder_file_to_df(recorder_file_name):
         # important to do in this order since that is the order added to the header
         for varname in objectives_names:
             value = objectives[varname]
-            if not np.isscalar(value):
-                value = np.linalg.norm(value)
+            value = np.asarray(value).item() if np.size(value) == 1 else np.linalg.norm(value)
             row.append(value)
 
         for varname in constraints_names:
             value = constraints[varname]
-            if not np.isscalar(value):
-                value = np.linalg.norm(value)
+            value = np.asarray(value).item() if np.size(value) == 1 else np.linalg.norm(value)
             row.append(value)
 
         for varname in desvars_names:
             value = desvars[varname]
-            if not np.isscalar(value):
-                value = np.linalg.norm(value)
+            value = np.asarray(value).item() if np.size(value) == 1 else np.linalg.norm(value)
             row.append(value)
         df.loc[i] = row
 
-- 
2.43.0

