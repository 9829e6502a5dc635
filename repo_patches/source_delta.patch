From 37da8f089bb2532b1ee94eef590b7f3241b6c62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 01/63] fix: SectionPath.endswith must not match a longer
 section path

---
 pyfileconf/sectionpath/sectionpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/sectionpath/sectionpath.py b/pyfileconf/sectionpath/sectionpath.py
index 81a31d7..5e747e0 100644
--- a/pyfileconf/sectionpath/sectionpath.py
+++ b/pyfileconf/sectionpath/sectionpath.py
@@ -100,6 +100,8 @@ class SectionPath(ReprMixin):
 
     def endswith(self, sp: 'SectionPath'):
         num_to_match = len(sp)
+        if num_to_match > len(self):
+            return False
         match_parts = self[-num_to_match:]
         for i, part in enumerate(match_parts):
             if part != sp[i]:
-- 
2.43.0


From 5c5f772f09b6f0c6baadd16d621ab8a065722ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 02/63] fix: run classes inside a section by their own path
 instead of the section's

---
 pyfileconf/runner/models/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0218935..384786a 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -168,9 +168,9 @@ class Runner(ReprMixin):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-                results.append(self._run_one_specific_class(section_path_str))
+                results.append(self._run_one_specific_class(subsection_path_str))
             elif inspect.isclass(section_or_callable):
-                results.append(self._run_one_class(section_path_str))
+                results.append(self._run_one_class(subsection_path_str))
             elif callable(section_or_callable):
                 # run function
                 results.append(self._run_one_func(subsection_path_str))
-- 
2.43.0


From 0afc123e63b21bec41e36aaeaf1f9c2e7c313eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 03/63] fix: attribute lookups must not corrupt later lookups
 after a typo or a partial section access

---
 pyfileconf/runner/models/runner.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 384786a..e8dcf74 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -44,25 +44,20 @@ class Runner(ReprMixin):
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
-        # TODO [#14]: find way of doing runner look ups with fewer side effects
         # TODO [#15]: find a way to get __getattr__ logic for runner working for sections
-        self._full_getattr += item
-        try:
-            func_or_collection = self._get_func_or_collection(self._full_getattr)
-        except KeyError as e:
-            self._full_getattr = '' # didn't find an item, must be incorrect path. reset total path
-            raise e
+        full_getattr = self._full_getattr + item
+        func_or_collection = self._get_func_or_collection(full_getattr)
 
         if isinstance(func_or_collection, (PipelineCollection, SpecificClassCollection)):
-            # Got section, need to keep going. Return self
-            self._full_getattr += '.' # add period to separate next section
-            return self
-        else:
-            # Got function or class, return the function or class itself
-            full_getattr = self._full_getattr
-            self._full_getattr = ''  # found the item, reset for next time
-            configured_func_or_class = self.get(full_getattr)
-            return configured_func_or_class
+            # Got section, need to keep going. Return a runner for that section, leaving the
+            # look up state of this runner as it was
+            section_runner = self.__class__.__new__(self.__class__)
+            section_runner.__dict__.update(self.__dict__)
+            section_runner._full_getattr = full_getattr + '.' # add period to separate next section
+            return section_runner
+
+        # Got function or class, return the function or class itself
+        return self.get(full_getattr)
 
     # TODO [#16]: this may work once __getattr__ works with sections
     # def __dir__(self):
-- 
2.43.0


From 509b8cc219a77a93337ec548cd0e6739364180d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 04/63] fix: argument names such as d or E must not clash with
 internal keyword names on update, reset and refresh

---
 pyfileconf/basemodels/config.py     | 2 +-
 pyfileconf/config/models/manager.py | 7 ++++---
 pyfileconf/runner/models/runner.py  | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b1ed6f5..d71b1e5 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -130,7 +130,7 @@ class ConfigBase(dict):
         # Reload from file
         new_config = self._get_new_config_from_file()
         all_updates = {**new_config, **self._applied_updates}
-        self.update(pyfileconf_persist=False, **all_updates)
+        self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
     def would_update(self, E=None, **F) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 2dd815e..e0f279d 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -58,11 +58,12 @@ class ConfigManager(ReprMixin):
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
             raise ConfigManagerNotLoadedException('no config to update')
+        all_updates = {**(d_ or {}), **kwargs}
         would_update = self._determine_and_track_if_config_would_be_updated(
-            config_obj, section_path_str, d_, **kwargs
+            config_obj, section_path_str, all_updates
         )
         if would_update:
-            config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+            config_obj.update(all_updates, pyfileconf_persist=pyfileconf_persist)
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
@@ -192,7 +193,7 @@ class ConfigManager(ReprMixin):
         assert current_config is not None  # should never fail this, for mypy
 
         # Not a new config, need to actually determine whether would be updated
-        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
+        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
         if would_update:
             self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index e8dcf74..3cb66dd 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -375,7 +375,7 @@ class Runner(ReprMixin):
 
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
+            self._config.track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -385,7 +385,7 @@ class Runner(ReprMixin):
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, **default)
+            self._config.track_post_update(default, section_path_str, default)
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
-- 
2.43.0


From 4579e1296090a015afef51229bd4540a6051cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 05/63] fix: section and local config updates must apply keys
 which were not set before

---
 pyfileconf/config/models/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index e0f279d..dfc1b67 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -62,6 +62,9 @@ class ConfigManager(ReprMixin):
         would_update = self._determine_and_track_if_config_would_be_updated(
             config_obj, section_path_str, all_updates
         )
+        if section_path_str is None or not self._is_function_or_pipeline_path(section_path_str):
+            # Unlike the config of an item, section and local configs can get any new key
+            would_update = would_update or any(key not in config_obj for key in all_updates)
         if would_update:
             config_obj.update(all_updates, pyfileconf_persist=pyfileconf_persist)
         return config_obj, would_update
-- 
2.43.0


From ef6b0cabe56235cd9ed11afca0294d52f854ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 06/63] fix: an update to the current values must also persist
 through refresh

---
 pyfileconf/config/models/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index dfc1b67..e967d57 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -67,6 +67,9 @@ class ConfigManager(ReprMixin):
             would_update = would_update or any(key not in config_obj for key in all_updates)
         if would_update:
             config_obj.update(all_updates, pyfileconf_persist=pyfileconf_persist)
+        elif pyfileconf_persist:
+            # Already has these values, but they still must last through refreshing config
+            config_obj._applied_updates.update({key: all_updates[key] for key in all_updates if key in config_obj})
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
-- 
2.43.0


From c67938c44afd2237e7d22c1b5ba938706e8ae096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 07/63] fix: reset must discard tracked updates even when the
 values already equal the file

---
 pyfileconf/config/models/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index e967d57..94b8ea4 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -200,8 +200,8 @@ class ConfigManager(ReprMixin):
 
         # Not a new config, need to actually determine whether would be updated
         would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
-        if would_update:
-            self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
+        # Replace even if the values are the same, so that updates applied before are forgotten
+        self._set_func_or_section_config(section_path_str, value=value, allow_create=False)
         return value, would_update
 
     def _get_func_or_section_configs(self, section_path_str: str) -> Optional[ActiveFunctionConfig]:
-- 
2.43.0


From 6035bd19fefbddd554c2f2596618c234b398e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 08/63] fix: resetting a section config must not raise

---
 pyfileconf/config/models/manager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 94b8ea4..97d7cf1 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -266,10 +266,15 @@ class ConfigManager(ReprMixin):
         obj.append(value)
 
     def _set_func_or_config_no_create(self, section_path: SectionPath, value: Any):
+        config_or_section = _get_from_nested_obj_by_section_path(self, section_path)
+        if isinstance(config_or_section, ConfigSection):
+            # Only the config of the section itself is replaced, not the items in the section
+            config_or_section.config = value
+            return
         _set_in_nested_obj_by_section_path(self, section_path, value)
 
     def _get_default_func_or_section_config(self, section_path_str: str=None,
-                                            create: bool = False) -> Union[ActiveFunctionConfig, ConfigSection]:
+                                            create: bool = False) -> ActiveFunctionConfig:
 
         if section_path_str is None:
             # local config. Default is blank config
@@ -287,7 +292,8 @@ class ConfigManager(ReprMixin):
                     raise e
                 config_obj = ActiveFunctionConfig()
             if isinstance(config_obj, ConfigSection):
-                return ConfigSection.from_files(filepath)
+                section_config = ConfigSection.from_files(filepath).config
+                return ActiveFunctionConfig() if section_config is None else section_config
             if isinstance(config_obj, (ActiveFunctionConfig, ActiveFunctionConfigFile)):
                 return ActiveFunctionConfig.from_file(filepath + '.py')
             else:
-- 
2.43.0


From b64027eef983499fd17b9bdba0f3eb84361f154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 09/63] fix: an item or section named like its parent section
 must get its own config

---
 pyfileconf/config/models/manager.py | 2 +-
 pyfileconf/config/models/section.py | 5 -----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 97d7cf1..ff0e448 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -220,7 +220,7 @@ class ConfigManager(ReprMixin):
             raise ConfigManagerNotLoadedException('call .load() on ConfigManager before .get()')
 
         if section_path_str is None:
-            section_path_str = self.section.name
+            return self.section.config
 
         section_path = SectionPath(section_path_str)
 
diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index ac4d977..217adb2 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -21,11 +21,6 @@ class ConfigSection(Container, ReprMixin):
         self.name = name
 
     def __getattr__(self, item):
-
-        # Handle if trying to get this section's config
-        if self.config is not None and item == self.config.name:
-            return self.config
-
         return self.config_map[item]
 
     def __dir__(self):
-- 
2.43.0


From db03da4d4b8cf2cb9fdf52f2a1973f1d0a3bb5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 10/63] fix: resetting a loaded item must keep the values it
 inherits from its sections

---
 pyfileconf/runner/models/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 3cb66dd..a48b39f 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -384,6 +384,7 @@ class Runner(ReprMixin):
         """
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
+            default = self._get_config(section_path_str)
             apply_config(self._loaded_objects[section_path_str], default)
             self._config.track_post_update(default, section_path_str, default)
 
-- 
2.43.0


From 359436760ff43d8b980ff36801aa28bd82dc7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 11/63] fix: support keyword-only arguments without a default

---
 pyfileconf/imports/logic/load/func.py | 5 ++---
 pyfileconf/io/func/load/config.py     | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 9b31e3b..720fd8f 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -21,9 +21,8 @@ def function_args_as_dict(func: Callable):
 
     # Handle kwargs
     for kwarg in args.kwonlyargs:
-        if args.kwonlydefaults:
-            default = args.kwonlydefaults[kwarg] if kwarg in args.kwonlydefaults else None
-            out_dict.update({kwarg: default})
+        default = (args.kwonlydefaults or {}).get(kwarg)
+        out_dict.update({kwarg: default})
 
     return out_dict
 
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index a6faea1..0e7d1a0 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -39,6 +39,9 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     # Handle kwargs
     for i, kwarg in enumerate(args.kwonlyargs):
         default = args.kw_defaults[i]
+        if default is None:
+            # Required keyword-only argument
+            default = ast.NameConstant(value=None)
         arg_dict[kwarg.arg] = default
         if kwarg.annotation is not None:
             annotation_dict[kwarg.arg] = _strip_ast_quotes_if_necessary(kwarg.annotation)
-- 
2.43.0


From cb275cf9aadf6d12a5a55feabab85d3f6b7f0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 12/63] fix: scaffold defaults and annotations which name
 builtins or things assigned or defined in the source module

---
 pyfileconf/io/func/load/args.py       |  6 +++++-
 pyfileconf/io/func/load/extractimp.py | 31 ++++++++++++++++-----------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index 2c2ef51..c8b5c5f 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -73,7 +73,11 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
             ast_function_def.args,
             loader.imports,
             loader.assigns,
-            imp.module
+            imp.module,
+            defined_names=[
+                node.name for node in loader.ast.body  # type: ignore
+                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))
+            ],
         )
         return ast_function_def.args, function_arg_imports
 
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2ebbcb3..d9a780d 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -1,7 +1,9 @@
-from typing import List, cast
+from typing import List, Sequence, cast
 import ast
+import builtins
 import warnings
 
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
@@ -12,6 +14,7 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
                                                                      imports: ImportStatementContainer,
                                                                      assigns: AssignmentStatementContainer,
                                                                      current_module_section_path_str: str,
+                                                                     defined_names: Sequence[str] = (),
                                                                      ) -> ImportStatementContainer:
     defaults_dict, annotation_dict = function_args_as_arg_and_annotation_dict(args)
 
@@ -20,25 +23,29 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
 
     out_imports = ImportStatementContainer([])
 
-    # External names may be either due to assignment or due to imports
-    # Handle names due to assignment
+    # External names may be either due to assignment or definition in this module, or due to imports.
+    # Builtins don't need any import
+    missing_names: List[str] = []
     for name in external_names:
-        if assigns.contains_varname(name):
+        if assigns.contains_varname(name) or name in defined_names:
             # External name is due to assignment in this module. Create import from this module
             out_imports.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
+            continue
 
-    # Handle names which are imported into this file
-    for name in external_names:
-        import_or_none = imports.get_import_for_module_or_obj_name(name)
+        # Handle names which are imported into this file
+        try:
+            import_or_none = imports.get_import_for_module_or_obj_name(name)
+        except NoImportMatchingNameException:
+            import_or_none = None
         if import_or_none is not None:
             out_imports.append(import_or_none)
+        elif not hasattr(builtins, name):
+            missing_names.append(name)
 
     # Sanity check, did we find all the imports?
-    n_external = len(external_names)
-    n_imports = len(out_imports)
-    if n_external != n_imports:
-        warnings.warn(f'had {n_external} external names from function definition, only '
-                      f'found {n_imports} imports. May be missing imports')
+    if missing_names:
+        warnings.warn(f'did not find imports for the names {missing_names} from function definition. '
+                      f'May be missing imports')
 
     return out_imports
 
-- 
2.43.0


From 860af7ce3a933fe82493243b165856bbca17d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 13/63] fix: scaffold annotations of any form such as unions,
 nested attributes and quoted generics

---
 pyfileconf/io/func/load/config.py     | 5 ++---
 pyfileconf/io/func/load/extractimp.py | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index 0e7d1a0..94ad93a 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -65,7 +65,6 @@ def _get_list_of_arg_section(section):
 
 def _strip_ast_quotes_if_necessary(node: ast.AST) -> ast.AST:
     if isinstance(node, ast.Str):
-        # Got a quoted annotation such as 'DataPipeline'. Strip the quotes
-        str_value = node.s
-        return ast.Name(str_value)
+        # Got a quoted annotation such as 'DataPipeline' or 'List[int]'. Strip the quotes
+        return ast.parse(node.s, mode='eval').body
     return node
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index d9a780d..2dd1af5 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -100,14 +100,12 @@ def _extract_str_names_from_ambiguous_annotation(annotation) -> List[str]:
     elif isinstance(annotation, ast.Subscript):
         # E.g. Tuple[int]
         names.extend(_extract_str_names_from_subscript(annotation))
-    elif isinstance(annotation, ast.Attribute):
-        # E.g. pd.DataFrame
-        names.append(annotation.value.id)  # type: ignore
     elif isinstance(annotation, ast.Str):
         # E.g. 'DataPipeline' (quoted type declaration where type was imported if TYPE_CHECKING)
         names.append(annotation.s)
     else:
-        raise NotImplementedError(f'no handling for {annotation} of type {type(annotation)}')
+        # E.g. pd.DataFrame, int | None, or anything else which may be used as an annotation
+        names.extend(extract_unique_external_names_from_assign_value(annotation))
 
     return names
 
-- 
2.43.0


From 43c75dda9665d14162c2ac6741031cd3156a5d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 14/63] fix: equal import statements must compare equal

---
 pyfileconf/imports/models/statements/comment.py | 4 +++-
 pyfileconf/imports/models/statements/rename.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/statements/comment.py b/pyfileconf/imports/models/statements/comment.py
index 01d6eb6..9adbd49 100644
--- a/pyfileconf/imports/models/statements/comment.py
+++ b/pyfileconf/imports/models/statements/comment.py
@@ -1,8 +1,10 @@
 
+from mixins.attrequals import EqOnAttrsMixin
 from mixins.repr import ReprMixin
 
-class Comment(ReprMixin):
+class Comment(ReprMixin, EqOnAttrsMixin):
     repr_cols = ['comment']
+    equal_attrs = ['comment']
 
     def __init__(self, comment_str: str):
         self.comment = comment_str
diff --git a/pyfileconf/imports/models/statements/rename.py b/pyfileconf/imports/models/statements/rename.py
index 966e10e..ab1da3e 100644
--- a/pyfileconf/imports/models/statements/rename.py
+++ b/pyfileconf/imports/models/statements/rename.py
@@ -32,8 +32,9 @@ class RenameStatement(ReprMixin, EqOnAttrsMixin):
         )
 
 
-class RenameStatementCollection(ReprMixin):
+class RenameStatementCollection(ReprMixin, EqOnAttrsMixin):
     repr_cols = ['items']
+    equal_attrs = ['items']
 
     def __init__(self, items: Sequence[RenameStatement]):
         self.items = items
-- 
2.43.0


From 1b973a7113c669765cb6147e5f0c310d50f64ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 15/63] fix: an item imported several times under different
 names must keep all its names

---
 .../imports/models/statements/importbase.py   | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 8a7144c..cd0bddc 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -1,4 +1,4 @@
-from typing import List, Optional
+from typing import List, Optional, Tuple
 from mixins.attrequals import EqOnAttrsMixin
 from pyfileconf.mixins.orderpref import OrderPreferenceMixin
 
@@ -22,11 +22,26 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
         if self.renames is None:
             return rename_items # no saved renames, just return original attrs
 
-        renamed_items = []
-        for item in rename_items:
-            if item in self.renames:
-                renamed_items.append(str(self.renames[item]))
-            else:
-                renamed_items.append(item)
+        return [
+            item if item == new_name else f'{item} as {new_name}'
+            for item, new_name in self.item_new_name_pairs
+        ]
 
-        return renamed_items
+    @property
+    def item_new_name_pairs(self) -> List[Tuple[str, str]]:
+        """
+        The imported items together with the name under which each of them is available, which is
+        the item itself unless it was renamed. The same item may be imported multiple times with different names.
+        """
+        if self.rename_attr is None:
+            raise ValueError(f'must set rename_attr in class {self.__class__.__name__}')
+        items: List[str] = list(getattr(self, self.rename_attr))
+        renames = [] if self.renames is None else list(self.renames)
+
+        pairs = []
+        for item in dict.fromkeys(items):
+            new_names = [rename.new_name for rename in renames if rename.item == item]
+            num_not_renamed = items.count(item) - len(new_names)
+            pairs.extend([(item, item)] * num_not_renamed)
+            pairs.extend([(item, new_name) for new_name in new_names])
+        return pairs
-- 
2.43.0


From 8452cf0f41c3011d92e202b8a38267eb9a64f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 16/63] fix: look up imports by the names they bind, so that
 renamed and dotted imports are matched correctly

---
 .../imports/models/statements/container.py    | 70 ++++++-------------
 1 file changed, 21 insertions(+), 49 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index df82740..7233dad 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -12,7 +12,7 @@ from pyfileconf.imports.models.statements.interfaces import (
     Comment,
     ImportOrNone
 )
-from pyfileconf.imports.models.statements.rename import RenameStatementCollection
+from pyfileconf.imports.models.statements.rename import RenameStatement, RenameStatementCollection
 from pyfileconf.io.file.load.parsers.extname import extract_external_name_from_assign_value
 
 class ImportStatementContainer(Container, ReprMixin):
@@ -36,22 +36,19 @@ class ImportStatementContainer(Container, ReprMixin):
             # first handle where it's a module import statement
             # e.g. item is: import this
             # and import statement in collection is: import this, that
+            # An item imported only under another name does not match.
+            matching_names = all(pair in imp_or_comment.item_new_name_pairs for pair in item.item_new_name_pairs)
             if isinstance(item, ModuleImportStatement) and isinstance(imp_or_comment, ModuleImportStatement):
-                matching_modules = all(mod in imp_or_comment.modules for mod in item.modules)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_modules and matching_renames:
+                if matching_names:
                     return True
 
             # e.g. item is: from this import that
             # and import statement in collection is: from this import that, another
             if isinstance(item, ObjectImportStatement) and isinstance(imp_or_comment, ObjectImportStatement):
                 matching_module = imp_or_comment.module == item.module
-                matching_objs = all(mod in imp_or_comment.objs for mod in item.objs)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_module and matching_objs and matching_renames:
+                if matching_module and matching_names:
                     return True
 
-
         return False
 
     def __str__(self):
@@ -95,48 +92,23 @@ class ImportStatementContainer(Container, ReprMixin):
         return self.get_import_for_module_or_obj_name(possibly_imported_name)
 
     def get_import_for_module_or_obj_name(self, name: str) -> ImportOrNone:
-        found_import = False
         for imp in self:
-            if isinstance(imp, ModuleImportStatement):
-                if name in imp.modules:
-                    # match on original module name
-                    # set up for creating a new import
-                    found_import = True
-                    renames = None
-                    modules = [name]
-                elif name in imp.renames.new_names:
-                    # match on renamed module name
-                    # set up for creating a new import
-                    found_import = True
-                    renames = RenameStatementCollection(
-                        # Pull the rename matching this name
-                        [rename for rename in imp.renames if rename.new_name == name]
-                    )
-                    # grab original module matching this rename
-                    modules = [renames.reverse_name_map[name]]
-                if found_import:
-                    # May be multiple modules imported in this one statement. Create a new statement with just this module
-                    return ModuleImportStatement(modules=modules, renames=renames)
-            elif isinstance(imp, ObjectImportStatement):
-                if name in imp.objs:
-                    # match on original object name
-                    # set up for creating a new import
-                    found_import = True
-                    renames = None
-                    objs = [name]
-                elif name in imp.renames.new_names:
-                    # match on renamed object name
-                    # set up for creating a new import
-                    found_import = True
-                    renames = RenameStatementCollection(
-                        # Pull the rename matching this name
-                        [rename for rename in imp.renames if rename.new_name == name]
-                    )
-                    # grab original object matching this rename
-                    objs = [renames.reverse_name_map[name]]
-                if found_import:
-                    # May be multiple objects imported in this one statement. Create a new statement with just this object
-                    return ObjectImportStatement(objs, module=imp.module, renames=renames)
+            if not isinstance(imp, (ModuleImportStatement, ObjectImportStatement)):
+                continue  # could not be imported from a comment
+            for item, new_name in imp.item_new_name_pairs:
+                is_match = name == new_name
+                if isinstance(imp, ModuleImportStatement) and item == new_name:
+                    # import this.that makes available this
+                    is_match = is_match or name == item.split('.')[0]
+                if not is_match:
+                    continue
+                # May be multiple modules or objects imported in this one statement. Create a new statement
+                # with just this module or object, with the rename which made it match, if any
+                renames = RenameStatementCollection([RenameStatement(item, new_name)] if item != new_name else [])
+                if isinstance(imp, ModuleImportStatement):
+                    return ModuleImportStatement(modules=[item], renames=renames)
+                else:
+                    return ObjectImportStatement([item], module=imp.module, renames=renames)
         raise NoImportMatchingNameException(f'could not find name {name} in {self}')
 
     @property
-- 
2.43.0


From a7507276d116067bdc7e537c7d710a0018b8e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 17/63] fix: support relative imports in source modules

---
 pyfileconf/imports/models/statements/obj.py |  6 +++---
 pyfileconf/io/func/load/args.py             | 14 +++++++-------
 pyfileconf/io/func/load/extractimp.py       |  3 +++
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyfileconf/imports/models/statements/obj.py b/pyfileconf/imports/models/statements/obj.py
index aaf1846..7f035df 100644
--- a/pyfileconf/imports/models/statements/obj.py
+++ b/pyfileconf/imports/models/statements/obj.py
@@ -59,12 +59,12 @@ class ObjectImportStatement(ImportStatement, ReprMixin):
         # Collect object names
         objs = [alias.name for alias in ast_import.names]
 
-        if ast_import.module is None:
-            raise CouldNotExtractObjectImportFromAstException(f'original ast: {ast_import}')
+        # Relative imports have a number of levels, e.g. from . import this, from ..that import this
+        module = '.' * (ast_import.level or 0) + (ast_import.module or '')
 
         return cls(
             objs,
-            ast_import.module,
+            module,
             renames,
             preferred_position=preferred_position
         )
diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index c8b5c5f..706b011 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -1,4 +1,5 @@
 import ast
+import os
 from typing import TYPE_CHECKING, Tuple, Optional, cast
 
 from pyfileconf.exceptions.imports import NoImportStatementException
@@ -51,13 +52,6 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
 
     loader = ImportAssignmentLazyLoader(filepath)
 
-    # TODO [#44]: handle relative nested imports such as from .this import that
-    #
-    # This code keeps importing and checking whether the name is defined in the file. If not,
-    # it follows the next import. This doesn't properly work if one of those followed imports
-    # is a relative import such as `from .this import that`. Add test to show this and
-    # also fix it.
-
     ast_function_def = extract_function_definition_or_class_init_from_ast_by_name(
         loader.ast,
         function_name
@@ -88,6 +82,12 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
         raise ValueError(f'not able to find function definition for {function_name}. Could not '
                          f'find in definitions or in imports')
 
+    if isinstance(next_level_import, ObjectImportStatement) and next_level_import.module.startswith('.'):
+        # Relative import such as from .this import that, is relative to the package of the current module
+        is_package = os.path.basename(filepath) == '__init__.py'
+        package = imp.module if is_package else imp.module.rpartition('.')[0]
+        next_level_import.module = resolve_name(next_level_import.module, package)
+
     if import_section_path_str is not None:
         next_module = next_level_import.module
         new_section_path = resolve_name(next_module, import_section_path_str) if next_module.startswith('.') else next_module
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2dd1af5..46fd666 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -37,6 +37,9 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
             import_or_none = imports.get_import_for_module_or_obj_name(name)
         except NoImportMatchingNameException:
             import_or_none = None
+        if isinstance(import_or_none, ObjectImportStatement) and import_or_none.module.startswith('.'):
+            # Relative imports can only be used in that file, import the name from that file instead
+            import_or_none = ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}')
         if import_or_none is not None:
             out_imports.append(import_or_none)
         elif not hasattr(builtins, name):
-- 
2.43.0


From baaf35414881c706e3f6bdcb51e0f44c05afba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 18/63] fix: re-scaffolding must keep the user's imports,
 comments and docstring in existing config files

---
 pyfileconf/config/logic/load.py         | 87 ++++++++++++-------------
 pyfileconf/io/file/interfaces/config.py |  7 +-
 pyfileconf/io/file/load/lazy/config.py  | 12 ++--
 pyfileconf/io/file/write/base.py        | 29 +++++++--
 pyfileconf/io/file/write/config.py      |  6 +-
 5 files changed, 82 insertions(+), 59 deletions(-)

diff --git a/pyfileconf/config/logic/load.py b/pyfileconf/config/logic/load.py
index 1e025df..6a3abd7 100644
--- a/pyfileconf/config/logic/load.py
+++ b/pyfileconf/config/logic/load.py
@@ -1,5 +1,5 @@
+import ast
 from typing import Tuple, List, Union, Sequence
-from copy import deepcopy
 
 ListOfStrs = List[str]
 TwoNoneTuple = Tuple[None, None]
@@ -7,40 +7,57 @@ TwoStrTuple = Tuple[str, str]
 TwoTupleNoneOrStr = Union[TwoStrTuple, TwoNoneTuple]
 
 def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True) -> Tuple[ListOfStrs, ListOfStrs]:
+    """
+    The import section is made of the module docstring, if any, and the imports at the beginning of the
+    file (each may span multiple lines), with any comments between them. Everything else is the
+    assignment section.
+    """
     # TODO [#2]: deal with later imports
     #
     # Imports can currently only be read from the top of the file
+    end_of_imports = 0
+    nodes = ast.parse(''.join(lines)).body
+    for i, node in enumerate(nodes):
+        is_docstring = i == 0 and _is_docstring(node)
+        shares_line_with_next = i + 1 < len(nodes) and nodes[i + 1].lineno == node.end_lineno
+        if not (is_docstring or isinstance(node, (ast.Import, ast.ImportFrom))) or shares_line_with_next:
+            break
+        end_of_imports = node.end_lineno  # type: ignore
 
-    # TODO [#3]: deal with use of import other than the word import
+    if strip_lines:
+        lines = [line.strip('\n') for line in lines]
 
-    import_section = []
-    assignment_section = []
-    # We can have three cases for the following two booleans:
-    # The file starts in the import section
-    # Then, we enter the whitespace section between import and assignments. Still consider this the import section.
-    # Finally, once text is detected again after import section,
-    # assignment section starts (in_import_section=False)
-    in_import_section = True
-    for i, line in enumerate(lines):
+    import_section = lines[:end_of_imports]
+    assignment_section = lines[end_of_imports:]
 
-        if strip_lines:
-            line = line.strip('\n')
+    # Whitespace between the sections belongs to neither
+    while assignment_section and _is_whitespace_line(assignment_section[0]):
+        del assignment_section[0]
 
-        # Handle import section and add whitespace below import section
-        if in_import_section:
-            if 'import' in line or _is_whitespace_line(line):
-                import_section.append(line)
-            else:
-                in_import_section = False  # no longer dealing with imports, must have assignment line
+    return import_section, assignment_section
 
-        # Assignment section, just output
-        if not in_import_section:
-            assignment_section.append(line)
 
-    # Import section was handled as both import section and following whitespace. Strip following whitespace.
-    import_section = _strip_whitespace_lines_from_end_of_lines(import_section)
+def _get_number_of_lines_which_must_stay_first(lines: ListOfStrs) -> int:
+    """
+    No imports can be added before the module docstring and __future__ imports
+    """
+    num_lines = 0
+    for i, node in enumerate(ast.parse('\n'.join(lines)).body):
+        is_docstring = i == 0 and _is_docstring(node)
+        is_future = isinstance(node, ast.ImportFrom) and node.module == '__future__'
+        if not (is_docstring or is_future):
+            break
+        num_lines = node.end_lineno  # type: ignore
+    return num_lines
+
+
+def _is_docstring(node: ast.AST) -> bool:
+    return (
+        isinstance(node, ast.Expr)
+        and isinstance(node.value, ast.Constant)
+        and isinstance(node.value.value, str)
+    )
 
-    return import_section, assignment_section
 
 def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTupleNoneOrStr:
 
@@ -62,23 +79,3 @@ def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTu
 
 def _is_whitespace_line(line: str) -> bool:
     return line.strip() == ''
-
-def _strip_whitespace_lines_from_end_of_lines(lines: List[str]) -> List[str]:
-
-    # Handle empty list
-    if lines == []:
-        return []
-
-    reversed_lines = deepcopy(lines)
-    reversed_lines.reverse()
-
-    # starting from end first. Discard all lines until non-whitespace is found
-    for line_index, line in enumerate(reversed_lines):
-        if not _is_whitespace_line(line):
-            break
-
-    output_lines = reversed_lines[line_index:]
-    output_lines.reverse() # back to first first
-
-    return output_lines
-
diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index a8a5200..aa7e46a 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -12,8 +12,13 @@ class ConfigFileInterface(ConfigFileLoader):
             config,
             existing_assigns=self.assigns,
             existing_imports=self.imports,
-            existing_body=self.assignment_body
+            existing_body=self.assignment_body,
+            existing_import_body=self.import_body
         )
 
+        if self.body is not None and not file_str_obj.has_additions:
+            # Nothing to add to the existing file, leave it as the user wrote it
+            return
+
         with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
             f.write(file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ec486f6..4c6e060 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -25,16 +25,16 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
     def assignment_body(self) -> List[str]:
         return self._try_getattr_else_call_func('_assignment_body', self.load)
 
-    def _file_body_to_assignment_body(self):
-        """
-        Warning: Assumes that imports come first, then an assignment section. May have
-        issues when imports come later
-        Returns:
+    @property
+    def import_body(self) -> List[str]:
+        return self._try_getattr_else_call_func('_import_body', self.load)
 
-        """
+    def _file_body_to_assignment_body(self):
         if self.body is not None:
             import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
+            self._import_body = import_lines
             self._assignment_body = assignment_lines
         else:
+            self._import_body = []
             self._assignment_body = []
 
diff --git a/pyfileconf/io/file/write/base.py b/pyfileconf/io/file/write/base.py
index a94eddc..143583e 100644
--- a/pyfileconf/io/file/write/base.py
+++ b/pyfileconf/io/file/write/base.py
@@ -1,5 +1,6 @@
-from typing import Tuple, List
+from typing import Tuple, List, Optional
 
+from pyfileconf.config.logic.load import _get_number_of_lines_which_must_stay_first
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 
@@ -8,7 +9,8 @@ ImportsDoubleAssignsTuple = Tuple[ImportStatementContainer, AssignmentStatementC
 class FileStr:
 
     def __init__(self, import_assignment_obj, existing_imports: ImportStatementContainer,
-                 existing_assigns: AssignmentStatementContainer, existing_body: List[str]):
+                 existing_assigns: AssignmentStatementContainer, existing_body: List[str],
+                 existing_import_body: Optional[List[str]] = None):
         """
 
         Args:
@@ -16,16 +18,20 @@ class FileStr:
             existing_imports:
             existing_assigns:
             existing_body: should not contain imports, but should contain rest of existing file as str
+            existing_import_body: lines of existing file which come before existing_body, will be kept as they
+                are. If not passed, existing_imports will be output instead
         """
         self.file_str = self._create_str(
             import_assignment_obj=import_assignment_obj,
             existing_imports=existing_imports,
             existing_assigns=existing_assigns,
-            existing_body=existing_body
+            existing_body=existing_body,
+            existing_import_body=existing_import_body
         )
 
     def _create_str(self, import_assignment_obj, existing_imports: ImportStatementContainer,
-                 existing_assigns: AssignmentStatementContainer, existing_body: List[str]) -> str:
+                 existing_assigns: AssignmentStatementContainer, existing_body: List[str],
+                 existing_import_body: Optional[List[str]] = None) -> str:
         """
         calls obj.as_imports_and_assignments(), combines those with existing imports and
         assignments
@@ -44,9 +50,22 @@ class FileStr:
             existing_assigns=existing_assigns
         )
 
+        new_imports = [imp for imp in all_imports if imp not in existing_imports]
+        self.has_additions = bool(new_imports or len(new_assigns_begin) or len(new_assigns_end))
+
         # Now convert to str
+        if existing_import_body is None:
+            imports_str = str(all_imports)
+        else:
+            num_first = _get_number_of_lines_which_must_stay_first(existing_import_body)
+            imports_str = '\n'.join([
+                *existing_import_body[:num_first],
+                *[str(imp) for imp in new_imports if imp.prefer_beginning],
+                *existing_import_body[num_first:],
+                *[str(imp) for imp in new_imports if not imp.prefer_beginning],
+            ])
         items = [
-            str(all_imports) + '\n',
+            imports_str + '\n',
             str(new_assigns_begin),
             '\n'.join(existing_body),
             str(new_assigns_end)
diff --git a/pyfileconf/io/file/write/config.py b/pyfileconf/io/file/write/config.py
index 4859e1d..2ed780f 100644
--- a/pyfileconf/io/file/write/config.py
+++ b/pyfileconf/io/file/write/config.py
@@ -10,10 +10,12 @@ from pyfileconf.assignments.models.container import AssignmentStatementContainer
 class ConfigFileStr(FileStr):
 
     def __init__(self, config: 'ConfigBase', existing_imports: ImportStatementContainer,
-                 existing_assigns: AssignmentStatementContainer, existing_body: List[str]):
+                 existing_assigns: AssignmentStatementContainer, existing_body: List[str],
+                 existing_import_body: List[str]):
         super().__init__(
             config,
             existing_imports=existing_imports,
             existing_assigns=existing_assigns,
-            existing_body=existing_body
+            existing_body=existing_body,
+            existing_import_body=existing_import_body
         )
\ No newline at end of file
-- 
2.43.0


From acabd7eb0a1dffeb5b8b21aae81a59bc93959199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 19/63] fix: assignments into objects such as a['b'] = 6 must
 not prevent loading config and dict files

---
 pyfileconf/assignments/models/statement.py | 32 +++++++++-------------
 pyfileconf/io/file/load/parsers/assign.py  |  4 +--
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/pyfileconf/assignments/models/statement.py b/pyfileconf/assignments/models/statement.py
index b9da56b..739606e 100644
--- a/pyfileconf/assignments/models/statement.py
+++ b/pyfileconf/assignments/models/statement.py
@@ -84,27 +84,21 @@ class AssignmentStatement(ReprMixin, OrderPreferenceMixin):
         )
 
     def to_default_dict_and_annotation_dict(self) -> Tuple[Dict[str, ast.AST], Dict[str, ast.Name]]:
-        # Set default dict
-        try:
-            default_dict = {self.target.id: self.value}
-        except AttributeError as e:
-            if "no attribute 'id'" in str(e):
-                try:
-                    self.target.attr  # type: ignore
-                    # Success, means that this was an attribute assignment like a.b = 6, do not need to put
-                    # into default dict
-                    default_dict = {}
-                except AttributeError:
-                    raise NotImplementedError(
-                        f'do not understand how to parse {self.target} (dict: {self.target.__dict__})'
-                    )
-            else:
-                raise e
+        default_dict: Dict[str, ast.AST] = {}
+        annotation_dict: Dict[str, ast.Name] = {}
+
+        if isinstance(self.target, (ast.Attribute, ast.Subscript)):
+            # An assignment into an object like a.b = 6 or a['b'] = 6, do not need to put into dicts
+            return default_dict, annotation_dict
+
+        if not isinstance(self.target, ast.Name):
+            raise NotImplementedError(
+                f'do not understand how to parse {self.target} (dict: {self.target.__dict__})'
+            )
 
-        # Set annotation dict
-        annotation_dict = {}
+        default_dict[self.target.id] = self.value
         if self.annotation is not None:
-            annotation_dict = {self.target.id: self.annotation}
+            annotation_dict[self.target.id] = self.annotation
 
         return default_dict, annotation_dict
 
diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index 995d52c..bcc0f32 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -49,12 +49,12 @@ class AssignmentByVarnameExtractor(AssignmentExtractor):
         super().__init__()
 
     def visit_Assign(self, node):
-        varnames = [target.id for target in node.targets]
+        varnames = [target.id for target in node.targets if isinstance(target, ast.Name)]
         if self.varname in varnames:
             super().visit_Assign(node)
 
     def visit_AnnAssign(self, node):
-        if node.target.id == self.varname:
+        if isinstance(node.target, ast.Name) and node.target.id == self.varname:
             super().visit_AnnAssign(node)
 
 
-- 
2.43.0


From 7357591004315cd3947271489fcefcd46f9a4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 20/63] fix: comparing an object import with an import of
 multiple modules must not raise

---
 pyfileconf/imports/models/statements/importbase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index cd0bddc..2f39ff4 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -5,6 +5,12 @@ from pyfileconf.mixins.orderpref import OrderPreferenceMixin
 class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
     rename_attr: Optional[str] = None
 
+    def __eq__(self, other):
+        # e.g. import statements of multiple modules cannot be compared with object import statements by module
+        if not isinstance(other, type(self)):
+            return False
+        return super().__eq__(other)
+
     ### Scaffolding methods
 
     def execute(self):
-- 
2.43.0


From bc3783d5fc0e893e5e8d667b8a62ecd60e202e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:45 +0000
Subject: [PATCH 21/63] fix: rendering an assignment must not change how it
 compares and renders later

---
 pyfileconf/io/file/write/asttosource.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyfileconf/io/file/write/asttosource.py b/pyfileconf/io/file/write/asttosource.py
index 43baf2c..2d08c21 100644
--- a/pyfileconf/io/file/write/asttosource.py
+++ b/pyfileconf/io/file/write/asttosource.py
@@ -1,4 +1,6 @@
 import ast
+from copy import deepcopy
+
 import astor
 
 def ast_node_to_source(ast_node: ast.AST) -> str:
@@ -15,6 +17,9 @@ def ast_node_to_source(ast_node: ast.AST) -> str:
 
     """
 
+    # Fixing line numbers and astor both modify the nodes, after which the same nodes may produce different source
+    ast_node = deepcopy(ast_node)
+
     # Must be a module to output to source. Wrap in module if not already
     if not isinstance(ast_node, ast.Module):
         ast_node = ast.Module([ast_node])
-- 
2.43.0


From f6bab65a9f77f5ca063abe244a265e28c99ba68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:11 +0000
Subject: [PATCH 22/63] fix: an import renamed to its own name is the same
 import

---
 pyfileconf/imports/models/statements/rename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/imports/models/statements/rename.py b/pyfileconf/imports/models/statements/rename.py
index ab1da3e..07378e0 100644
--- a/pyfileconf/imports/models/statements/rename.py
+++ b/pyfileconf/imports/models/statements/rename.py
@@ -80,7 +80,7 @@ class RenameStatementCollection(ReprMixin, EqOnAttrsMixin):
         renames = []
         for alias in ast_import.names:
             alias = cast(ast.alias, alias)
-            if alias.asname is not None:
+            if alias.asname is not None and alias.asname != alias.name:
                 renames.append(RenameStatement.from_ast_alias(alias))
 
         return cls(renames)
\ No newline at end of file
-- 
2.43.0


From 0e56f2fca05fde4e004f2b847be2542dc319045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:51 +0000
Subject: [PATCH 23/63] fix: saving a config to another file must write that
 file instead of doing nothing

---
 pyfileconf/basemodels/config.py         | 1 +
 pyfileconf/io/file/interfaces/config.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index d71b1e5..c08a4e5 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -87,6 +87,7 @@ class ConfigBase(dict):
             # In case this is a new filepath for the same config, copy old file contents for use in new filepath
             output_file = deepcopy(self._file)
             output_file.filepath = filepath
+            output_file.interface.filepath = filepath
 
         if os.path.exists(filepath):
             output_file.load() # load any existing config saved in the file, for preserving of user-saved inputs
diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index aa7e46a..5b6ad0f 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -1,3 +1,4 @@
+import os
 from typing import TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
@@ -16,7 +17,7 @@ class ConfigFileInterface(ConfigFileLoader):
             existing_import_body=self.import_body
         )
 
-        if self.body is not None and not file_str_obj.has_additions:
+        if os.path.exists(self.filepath) and not file_str_obj.has_additions:
             # Nothing to add to the existing file, leave it as the user wrote it
             return
 
-- 
2.43.0


From 372ca4bbe03ab18d0a8e67fd8654699d59763a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 24/63] fix: stdout must be restored when a run with log_stdout
 fails

---
 pyfileconf/logger/bind_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 559c2bd..599aae1 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -8,8 +8,10 @@ from pyfileconf.logger.logger import logger
 def stdout_also_logged():
     stdout_logger = StdoutLogger()
     sys.stdout = stdout_logger  # type: ignore
-    yield stdout_logger
-    sys.stdout = stdout_logger.terminal
+    try:
+        yield stdout_logger
+    finally:
+        sys.stdout = stdout_logger.terminal
 
 
 class StdoutLogger(object):
-- 
2.43.0


From dfe4ce765c6977b0a6367376e8a607d488b1fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 25/63] fix: changing log_folder must replace the file handler
 instead of adding another

---
 pyfileconf/logger/logger.py | 4 ++++
 pyfileconf/opts/filelog.py  | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 64046f0..6f88e43 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -43,6 +43,10 @@ def add_file_handler():
     logger.addHandler(fh)
 
 
+def has_file_handler() -> bool:
+    return any(isinstance(h, TimedRotatingFileHandler) for h in logger.handlers)
+
+
 def remove_file_handler():
     timed_handlers = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
     if len(timed_handlers) != 1:
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index b33147e..dfcdaa5 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,10 +1,11 @@
 from typing import Optional
 
-from pyfileconf.logger.logger import add_file_handler, remove_file_handler
+from pyfileconf.logger.logger import add_file_handler, has_file_handler, remove_file_handler
 
 
 def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, log_folder: Optional[str]):
+    if has_file_handler():
+        # Remove also when there is a new folder, otherwise would keep logging in the previous folder
+        remove_file_handler()
     if log_folder is not None:
         add_file_handler()
-    else:
-        remove_file_handler()
-- 
2.43.0


From 8f7f7dfaff23799239d1b759d51a974956adb043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 26/63] fix: running a section of a specific class dict must
 run its entries

---
 pyfileconf/runner/models/runner.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index a48b39f..75ce6d7 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -131,7 +131,7 @@ class Runner(ReprMixin):
 
         """
         func_or_collection = self._get_func_or_collection(section_path_str)
-        if isinstance(func_or_collection, PipelineCollection):
+        if isinstance(func_or_collection, Collection):
             return self._run_section(section_path_str)
         elif self._is_specific_class(func_or_collection):
             return self._run_one_specific_class(section_path_str)
@@ -140,26 +140,30 @@ class Runner(ReprMixin):
         elif callable(func_or_collection):
             return self._run_one_func(section_path_str)
         else:
-            raise ValueError(f'could not run section {section_path_str}. expected PipelineCollection or function,'
+            raise ValueError(f'could not run section {section_path_str}. expected Collection or function,'
                              f'got {func_or_collection} of type {type(func_or_collection)}')
 
     def _run_section(self, section_path_str: str) -> Results:
         section = self._get_func_or_collection(section_path_str)
-        section = cast(PipelineCollection, section)
+        section = cast(Collection, section)
         results = []
         for section_or_object_view in section:
 
-            # Get section path by which to call this item
-            subsection_name = _get_public_name_or_special_name(section_or_object_view, accept_output_names=False)
-            subsection_path_str = SectionPath.join(section_path_str, subsection_name).path_str
-
             # Get from object view if necessary
             if isinstance(section_or_object_view, ObjectView):
                 section_or_callable = section_or_object_view.item
             else:
                 section_or_callable = section_or_object_view
 
-            if isinstance(section_or_callable, PipelineCollection):
+            # Get section path by which to call this item
+            if self._is_specific_class(section_or_callable):
+                # If specific class, need to look up which key holds the name
+                subsection_name = section.name_for_obj(section_or_object_view)
+            else:
+                subsection_name = _get_public_name_or_special_name(section_or_object_view, accept_output_names=False)
+            subsection_path_str = SectionPath.join(section_path_str, subsection_name).path_str
+
+            if isinstance(section_or_callable, Collection):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-- 
2.43.0


From d4b327d3e216d0bddc16a7b96a5ab5063aa956a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 27/63] fix: running a list of one section path must return a
 list

---
 pyfileconf/main.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 31f9ecf..4f6762a 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -26,7 +26,7 @@ from pyfileconf.imports.models.statements.obj import ObjectImportStatement
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
 from pyfileconf.logic.combine import \
-    combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item
+    combine_items_into_list_whether_they_are_lists_or_not
 from pyfileconf.pipelines.models.collection import PipelineCollection
 from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
 from pyfileconf.plugin import manager as plugin_manager
@@ -148,10 +148,11 @@ class PipelineManager:
         additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
             section_path_str_or_list=section_path_str_or_list, pm=self
         )
-        # Will be converted into list always
-        str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
-            str_or_list_only, additional_items
-        )
+        # Stays a single str only if that is what was passed and no plugin added an item
+        if isinstance(str_or_list_only, list) or additional_items:
+            str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not(
+                str_or_list_only, additional_items
+            )
 
         if options.log_stdout:
             with stdout_also_logged():
-- 
2.43.0


From bd2581ee14abcfdcf9e2191461eda938b817d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 28/63] fix: getting a section must not break its classes for
 later runs

---
 pyfileconf/runner/models/runner.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 75ce6d7..e1da96d 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -285,6 +285,9 @@ class Runner(ReprMixin):
                 )
             elif self._is_specific_class(section_or_callable):
                 results.append(self._get_one_obj_with_config(subsection_path_str))
+            elif inspect.isclass(section_or_callable):
+                # get class
+                results.append(self._get_one_class_with_config(subsection_path_str))
             elif callable(section_or_callable):
                 # get function
                 results.append(self._get_one_func_with_config(subsection_path_str))
@@ -308,6 +311,19 @@ class Runner(ReprMixin):
         self._add_to_config_dependencies_if_necessary(section_path_str)
         return full_func
 
+    def _get_one_class_with_config(self, section_path_str: str) -> Any:
+        if section_path_str in self._loaded_objects:
+            return self._loaded_objects[section_path_str]
+
+        klass, config_dict = self._get_class_and_config(section_path_str)
+
+        full_class = partial(klass, **config_dict)
+
+        # Does not create the object, so must not be stored as the loaded object
+        self._add_full_section_path_str_to_obj(section_path_str, full_class)
+        self._add_to_config_dependencies_if_necessary(section_path_str)
+        return full_class
+
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
             return self._loaded_objects[section_path_str]
-- 
2.43.0


From b98783bae4bfa7e7834d04eda034c526f42ac5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 29/63] fix: reading an item of a config as attribute must give
 its value

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index c08a4e5..32ee7bb 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -54,7 +54,7 @@ class ConfigBase(dict):
 
     def __getattr__(self, attr):
         try:
-            self[attr]
+            return self[attr]
         except KeyError:
             raise AttributeError(attr)
 
-- 
2.43.0


From 2db3251fb41a0bec2815796f3262eafae1d0ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 30/63] fix: two specific class dicts of the same class must
 use their own execute_attr

---
 pyfileconf/runner/models/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index e1da96d..706e252 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -40,7 +40,8 @@ class Runner(ReprMixin):
 
         self._full_getattr = ''
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
-        self._specific_class_registrar_map = {registrar.klass: registrar for registrar in self._registrars}
+        # By name of the specific class dict, because multiple may use the same class
+        self._specific_class_registrar_map = {registrar.name: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
@@ -207,7 +208,7 @@ class Runner(ReprMixin):
         with StackTracker(section_path_str, base_section_path_str=self._manager_name):
             klass, config_dict = self._get_class_and_config(section_path_str)
             obj = self._get_one_obj_with_config(section_path_str)
-            registrar = self._specific_class_registrar_map[klass]
+            registrar = self._specific_class_registrar_map[SectionPath(section_path_str)[0]]
             execute_attr = registrar.execute_attr
             func = getattr(obj, execute_attr)
 
-- 
2.43.0


From 72332763bd7162f6b810c130bd7c9ff4b7bb7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:17 +0000
Subject: [PATCH 31/63] fix: calling a view must use the execute_attr of its
 own specific class dict

---
 pyfileconf/selector/models/itemview.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index a20596a..f9044df 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -118,8 +118,7 @@ class ItemView:
             # Got specific registrar class
             # Need to look up the execute attribute and apply section path str
             actual_item._section_path_str = self.section_path_str
-            collection = self._specific_class_collection_map[type(actual_item)]
-            execute_attr = collection.execute_attr
+            execute_attr = manager._registrar_dict[collection_name].execute_attr
             func = getattr(actual_item, execute_attr)
         else:
             cannot_parse_error = ValueError(f'could not parse actual item, expected partial, '
-- 
2.43.0


From 80e659f3365a7c947cc795a060a41bcc4386206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 32/63] fix: membership in a selector must work for
 SectionPaths and unknown managers

---
 pyfileconf/selector/models/selector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 8d7e3ed..272e966 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -22,6 +22,12 @@ class Selector:
             warnings.warn('check for if non-str object in Selector will always return False')
             return False
 
+        if isinstance(item, SectionPath):
+            item = item.path_str
+
+        if SectionPath(item)[0] not in self._managers:
+            return False
+
         collection_obj, relative_section_path = self._get_collection_obj_and_relative_section_path_from_structure(item)
         if relative_section_path is None:
             # got only the root data path, e.g. project.sources. Return the collection object itself
-- 
2.43.0


From 7570d15a934761f5eda0323587c006d116b409ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 33/63] fix: pre_run hooks may add lists and views and modify
 the list in place

---
 pyfileconf/main.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 4f6762a..2059042 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -142,16 +142,22 @@ class PipelineManager:
         Returns: result or list of results
 
         """
-        str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
-            section_path_str_or_list
-        )
         additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
             section_path_str_or_list=section_path_str_or_list, pm=self
         )
+        # Only convert now, because a plugin may have modified the list in place
+        str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
+            section_path_str_or_list
+        )
+        additional_strs: List[str] = []
+        for item in additional_items:
+            additional_strs = combine_items_into_list_whether_they_are_lists_or_not(
+                additional_strs, self._convert_list_or_single_item_view_or_str_to_strs(item)
+            )
         # Stays a single str only if that is what was passed and no plugin added an item
-        if isinstance(str_or_list_only, list) or additional_items:
+        if additional_strs:
             str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not(
-                str_or_list_only, additional_items
+                str_or_list_only, additional_strs
             )
 
         if options.log_stdout:
-- 
2.43.0


From c9bf02d7d8ad7583c54d6e20e9f78049cf649f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 34/63] fix: iteration plugins may add cases for other items or
 remove all cases

---
 pyfileconf/iterate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2fcd6f4..e180151 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -71,12 +71,13 @@ class IterativeRunner:
 
         if not hasattr(self, 'cases'):
             raise ValueError('must set cases before calling get_defaults')
-        case = self.cases[0]
         section_path_strs = [
-            self._get_full_section_path_str(conf['section_path_str']) for conf in case
+            self._get_full_section_path_str(conf['section_path_str']) for case in self.cases for conf in case
         ]
         defaults: Dict[str, Dict[str, Any]] = {}
         for sp_str in section_path_strs:
+            if sp_str in defaults:
+                continue
             pm = PipelineManager.get_manager_by_section_path_str(sp_str)
             sp = SectionPath(sp_str)
             relative_section_path_str = SectionPath(".".join(sp[1:])).path_str
-- 
2.43.0


From 37c342b4afda2b4e8cda0d7cfc7080ea5791c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:51 +0000
Subject: [PATCH 35/63] fix: create must import objects from their module
 rather than the running script

---
 pyfileconf/imports/logic/load/name.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/imports/logic/load/name.py b/pyfileconf/imports/logic/load/name.py
index 0e92b0b..63dd481 100644
--- a/pyfileconf/imports/logic/load/name.py
+++ b/pyfileconf/imports/logic/load/name.py
@@ -14,7 +14,9 @@ def get_imported_obj_variable_name(obj, module: ModuleType) -> str:
 
 def get_module_and_name_imported_from(obj, search_list: List[str]=None) -> Tuple[ModuleType, str]:
     if search_list is None:
-        search_list = list(sys.modules.keys())
+        # The running script usually imports its objects from somewhere else and cannot be imported itself,
+        # so only use it when the object is in no other module
+        search_list = sorted(sys.modules.keys(), key=lambda name: name in ('__main__', '__mp_main__'))
 
     for module_name in search_list:
 
-- 
2.43.0


From 93e6830708cba239fd24e684e552f7dcf39cc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 36/63] fix: create must also give new sections their section
 config

---
 pyfileconf/basemodels/collection.py       | 4 ++++
 pyfileconf/basemodels/registrar.py        | 6 ++++++
 pyfileconf/config/models/manager.py       | 6 +++++-
 pyfileconf/pipelines/models/collection.py | 1 +
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/collection.py b/pyfileconf/basemodels/collection.py
index e482172..8296e3c 100644
--- a/pyfileconf/basemodels/collection.py
+++ b/pyfileconf/basemodels/collection.py
@@ -21,6 +21,10 @@ class Collection(Container, ReprMixin):
     def _output_config_files(self):
         raise scaffolding_error
 
+    def _output_section_config_file(self):
+        # By default, sections have no config of their own
+        pass
+
     def _transform_item(self, item):
         """
         Is called on each item when adding items to collection. Should handle whether the item
diff --git a/pyfileconf/basemodels/registrar.py b/pyfileconf/basemodels/registrar.py
index 0cd2f03..2b5a4ef 100644
--- a/pyfileconf/basemodels/registrar.py
+++ b/pyfileconf/basemodels/registrar.py
@@ -64,6 +64,12 @@ class Registrar(ReprMixin):
     def scaffold_config_for(self, section_path_str: str):
         section_path = SectionPath(section_path_str)
 
+        # The sections on the way to the item may be new as well, then they also need their config
+        collection = self.collection
+        for section in section_path[:-2]:
+            collection = getattr(collection, section)
+            collection._output_section_config_file()
+
         collection = _get_from_nested_obj_by_section_path(self, section_path[:-1])
         collection._output_config_files()
 
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index ff0e448..9e6285f 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -258,7 +258,11 @@ class ConfigManager(ReprMixin):
             try:
                 obj = getattr(obj, section)
             except KeyError as e:
-                new_section = ConfigSection([], name=section)
+                section_filepath = os.path.join(section_basepath, 'section.py')
+                section_config = None
+                if os.path.exists(section_filepath):
+                    section_config = ActiveFunctionConfig.from_file(section_filepath, name=section)
+                new_section = ConfigSection([], section_config=section_config, name=section)
                 obj.append(new_section)
                 obj = getattr(obj, section)
 
diff --git a/pyfileconf/pipelines/models/collection.py b/pyfileconf/pipelines/models/collection.py
index 00e9815..6a4f095 100644
--- a/pyfileconf/pipelines/models/collection.py
+++ b/pyfileconf/pipelines/models/collection.py
@@ -72,6 +72,7 @@ class PipelineCollection(Collection):
             # Never overwrite section config.
             return
 
+        os.makedirs(self.basepath, exist_ok=True)
         with open(outpath, 'w') as f:
             f.write('\n')
 
-- 
2.43.0


From 46531827ff1e608fd1d1122863ce66020d9cdb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:36 +0000
Subject: [PATCH 37/63] fix: create must work in projects with sections next to
 items

---
 pyfileconf/dictfiles/modify.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/dictfiles/modify.py b/pyfileconf/dictfiles/modify.py
index 6bb6fdd..d78472c 100644
--- a/pyfileconf/dictfiles/modify.py
+++ b/pyfileconf/dictfiles/modify.py
@@ -71,7 +71,13 @@ def create_dict_assignment_str_from_nested_dict_with_ast_names(nested_dict: dict
         elif isinstance(value, list):
             use_str += '['
             for item in value:
-                use_str += item.id + ','
+                if isinstance(item, dict):
+                    # Sections next to the items of this section
+                    use_str += '{'
+                    use_str += create_dict_assignment_str_from_nested_dict_with_ast_names(item, use_str)
+                    use_str += '},'
+                else:
+                    use_str += item.id + ','
             use_str += '],'
         elif isinstance(value, dict):
             use_str += '{'
-- 
2.43.0


From ec68bf2ccc54e53ccf90e6e50737844129e405e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:36 +0000
Subject: [PATCH 38/63] fix: create must work in a section that is an empty
 dict

---
 pyfileconf/dictfiles/modify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyfileconf/dictfiles/modify.py b/pyfileconf/dictfiles/modify.py
index d78472c..a103e64 100644
--- a/pyfileconf/dictfiles/modify.py
+++ b/pyfileconf/dictfiles/modify.py
@@ -48,6 +48,11 @@ def add_item_into_nested_dict_at_section_path(nested_dict: dict, section_path: S
                 current_dict[section] = []
                 last_container = current_dict[section]
 
+            if last_container == {}:
+                # Empty section, can hold items just as well
+                current_dict[section] = []
+                last_container = current_dict[section]
+
             if not isinstance(last_container, list):
                 raise ValueError('trying to insert item into existing dictionary section, must be existing '
                                  'list section or non-existent section')
-- 
2.43.0


From c3f573476e16bacca209cfe3da9b40ddf4384e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:07 +0000
Subject: [PATCH 39/63] fix: create must not change what a name in the dict
 file stands for

---
 pyfileconf/main.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 2059042..9197dee 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -43,6 +43,7 @@ from pyfileconf.data.models.dictfile import SpecificClassDictFile
 from pyfileconf.runner.models.runner import Runner, ResultOrResults
 from pyfileconf.imports.models.tracker import ImportTracker
 from pyfileconf.sectionpath.sectionpath import SectionPath
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException, \
     NoPipelineManagerForFilepathException, NoPipelineManagerForSectionPathException
 from pyfileconf.logger.bind_stdout import stdout_also_logged
@@ -530,6 +531,11 @@ class PipelineManager:
         pipeline_dict_file = PipelineDictFile(self.pipeline_dict_path, name='pipeline_dict')
         pipeline_dict = pipeline_dict_file.load()
 
+        existing_obj = _get_imported_obj_by_name(pipeline_dict_file.interface.imports, func_or_class.__name__)
+        if existing_obj is not None and existing_obj is not func_or_class:
+            raise ValueError(f'cannot add {func_or_class} to pipeline dict, because there the name '
+                             f'{func_or_class.__name__} already stands for {existing_obj}')
+
         mod, import_base = get_module_and_name_imported_from(func_or_class)
         obj_import = ObjectImportStatement([func_or_class.__name__], import_base)
         imports = ImportStatementContainer([obj_import])
@@ -713,6 +719,14 @@ def report_runner_exceptions(runner_exceptions: List[RunnerException]) -> None:
     logger.error(full_exc_str)
 
 
+def _get_imported_obj_by_name(imports: ImportStatementContainer, name: str) -> Any:
+    try:
+        import_statement = imports.get_import_for_module_or_obj_name(name)
+    except NoImportMatchingNameException:
+        return None
+    return import_statement.execute()[0]  # type: ignore
+
+
 def create_project(path: str, logs_path: str,
                    specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None):
     """
-- 
2.43.0


From 0691bc22ee36fe21264782fcf1d7724b34ffee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:07 +0000
Subject: [PATCH 40/63] fix: getting a section config must not change what its
 items inherit

---
 pyfileconf/config/models/manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 9e6285f..7fdf3ff 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -152,7 +152,10 @@ class ConfigManager(ReprMixin):
         full_section += section_path[-1]
         if not self._is_function_or_pipeline_path(full_section):
             # if is a section, not function/pipeline
-            section_configs.append(self._get_func_or_section_configs(full_section))
+            section_configs.append(config)
+            if config is not None:
+                # The config of the section itself must not receive the values of the other levels
+                config = ActiveFunctionConfig(config, name=config.name)
 
         if config:
             # Override configs. Default config is base config, then gets updated by project, then high
-- 
2.43.0


From 39e76c470a2afc10483fb70faf83c342301003cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 41/63] fix: refreshing a config must also pick up added keys
 and drop temporary ones

---
 pyfileconf/basemodels/config.py     | 12 ++++++++----
 pyfileconf/config/models/manager.py |  7 ++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 32ee7bb..3921680 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -131,6 +131,8 @@ class ConfigBase(dict):
         # Reload from file
         new_config = self._get_new_config_from_file()
         all_updates = {**new_config, **self._applied_updates}
+        for key in [key for key in self if key not in all_updates]:
+            del self[key]
         self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
@@ -157,7 +159,7 @@ class ConfigBase(dict):
 
         return False
 
-    def change_from_refresh(self) -> Dict[str, Any]:
+    def change_from_refresh(self) -> Optional[Dict[str, Any]]:
         """
         Determines whether refresh would actually cause
         a change in the config and returns a dictionary of
@@ -165,14 +167,16 @@ class ConfigBase(dict):
 
         :return: the new config dict that would apply
             while calling .refresh if it would be updated,
-            otherwise an empty dict
+            otherwise None
         """
         new_config = self._get_new_config_from_file()
         final_updates = {**new_config, **self._applied_updates}
         would_update = self.would_update(final_updates)
-        if would_update:
+        # Keys may have been added to or removed from the file, or come from updates which were not persisted
+        keys_would_change = set(final_updates) != set(self)
+        if would_update or keys_would_change:
             return final_updates
-        return {}
+        return None
 
 
 def _values_are_equal(val1: Any, val2: Any) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 7fdf3ff..8f83830 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -358,9 +358,10 @@ class ConfigManager(ReprMixin):
 
     def _determine_and_track_if_config_would_be_refreshed(self, config: ConfigBase, section_path_str: str) -> bool:
         updates = config.change_from_refresh()
-        if updates:
-            self._track_pre_update(config, section_path_str, updates)
-        return updates != {}
+        if updates is None:
+            return False
+        self._track_pre_update(config, section_path_str, updates)
+        return True
 
     @property
     def pipeline_manager(self) -> 'PipelineManager':
-- 
2.43.0


From 64f2efedb47d19bd34f64609132c118f8a9c6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 42/63] fix: create must reject objects which cannot be
 imported before writing the dict file

---
 pyfileconf/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 9197dee..8c50510 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -445,7 +445,6 @@ class PipelineManager:
             # Got path for main pipeline dict, add to main pipeline dict
             if func_or_class is None:
                 raise ValueError('when adding creating item in main pipeline dict, must pass function or class')
-            self._create_pipeline_dict_entry(section_path, func_or_class)
             name = func_or_class.__name__
             full_sp = SectionPath.join(section_path, name)
             mod, import_base = get_module_and_name_imported_from(func_or_class)
@@ -453,6 +452,12 @@ class PipelineManager:
             item = ast.Name(id=name)
             imports = ImportStatementContainer([obj_import])
             registrar_obj = ObjectView.from_ast_and_imports(item, imports)
+            # Ensure it can be imported and configured before adding it to the pipeline dict
+            if registrar_obj.item is not func_or_class:
+                raise ValueError(f'cannot add {func_or_class} to pipeline dict, because {name} in '
+                                 f'{import_base} is {registrar_obj.item}')
+            registrar_obj.default_config
+            self._create_pipeline_dict_entry(section_path, func_or_class)
             if self._general_registrar is None:
                 raise ValueError('general registrar must be defined')
             registrar = self._general_registrar
-- 
2.43.0


From f15107184dd2416710adb4ab8d3002663a6bafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:11 +0000
Subject: [PATCH 43/63] fix: a rejected update with a view must not record a
 dependency

---
 pyfileconf/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 8c50510..7e11e40 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -386,6 +386,8 @@ class PipelineManager:
         all_updates.update(kwargs)
         logger.info(f'Updating {section_path_str} with config: {all_updates}')
 
+        self.runner.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
+
         if section_path_str:
             # If any of the updates are putting an ItemView as the value, then
             # record that this config is dependent on the config referenced
@@ -398,7 +400,6 @@ class PipelineManager:
                 if is_item_view(value):
                     context.add_config_dependency(full_sp, value)
 
-        self.runner.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
         logger.debug(f'Finished updating {section_path_str} with config: {all_updates}')
 
     def refresh(self, section_path_str: str):
-- 
2.43.0


From 04dfefdd31a28ffb1b2ec07a892f9c0d470d38ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:00 +0000
Subject: [PATCH 44/63] fix: logging a config which holds a view must not look
 up its item

---
 pyfileconf/selector/models/itemview.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index f9044df..45dcecd 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -20,6 +20,8 @@ class ItemView:
     that unit to be loaded into pipeline manager. Allows using selector in config files and in app,
     by delaying looking up the item until an attribute/method is accessed or item is called.
     """
+    # Without this, checking whether an ItemView is a selector would look up the item
+    _is_selector = False
 
     def __init__(self, section_path_str: str, selector: Optional[Selector] = None):
         if selector is None:
-- 
2.43.0


From 40684fbafd759c50311e148a4b879837f0c7ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 45/63] fix: using an already loaded item while running another
 must be recorded as dependency

---
 pyfileconf/runner/models/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 706e252..dd98672 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -301,6 +301,7 @@ class Runner(ReprMixin):
 
     def _get_one_func_with_config(self, section_path_str: str) -> Callable:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         func, config_dict = self._get_func_and_config(section_path_str)
@@ -314,6 +315,7 @@ class Runner(ReprMixin):
 
     def _get_one_class_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         klass, config_dict = self._get_class_and_config(section_path_str)
@@ -327,6 +329,7 @@ class Runner(ReprMixin):
 
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         obj = self._get_func_or_collection(section_path_str)
-- 
2.43.0


From 719bddd2435158b5f0235eb566ead180bd56c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:13 +0000
Subject: [PATCH 46/63] fix: reload must forget the dependencies of the items
 it may have removed

---
 pyfileconf/main.py           | 3 +++
 pyfileconf/pmcontext/main.py | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 7e11e40..3363c3a 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -567,6 +567,9 @@ class PipelineManager:
         Returns:
 
         """
+        # Start over with tracking what the items use, as items may have been removed since the last load
+        context.forget_dependencies_of_manager(self.name)
+
         # Load dynamically instead of passing dict to ensure modules are loaded into sys now
         self._registrars, self._general_registrar = create_registrars(
             self.specific_class_config_dicts,
diff --git a/pyfileconf/pmcontext/main.py b/pyfileconf/pmcontext/main.py
index 00c9aa8..cfeff66 100644
--- a/pyfileconf/pmcontext/main.py
+++ b/pyfileconf/pmcontext/main.py
@@ -62,6 +62,15 @@ class PyFileConfContext:
         if force_update:
             self.force_update_dependencies[depends_on_section_path_str].add(dependent_section_path)
 
+    def forget_dependencies_of_manager(self, manager_name: str):
+        """
+        Removes what was recorded for dependents within the passed manager. Used when loading
+        the manager, as its items may not exist any more and will record what they use again.
+        """
+        for dependencies in (self.config_dependencies, self.force_update_dependencies):
+            for dependents in dependencies.values():
+                dependents.difference_update([sp for sp in dependents if sp[0] == manager_name])
+
     def add_config_dependency_for_currently_running_item_if_exists(self, depends_on: SectionPathLike,
                                                                    force_update: bool = False):
         if self.currently_running_section_path_str is not None:
-- 
2.43.0


From 680aa093ed1aabc39ed7670e7cf832e260d12832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 47/63] fix: reload must re-import the modules of every load
 since the last reload

---
 pyfileconf/main.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 3363c3a..2fb5f9e 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -75,6 +75,7 @@ class PipelineManager:
         self.auto_pdb = auto_pdb
         self.force_continue = force_continue
 
+        self._loaded_modules: List[str] = []
         self._registrars: Optional[Sequence[Registrar]] = None
         self._general_registrar: Optional[PipelineRegistrar] = None
 
@@ -316,12 +317,11 @@ class PipelineManager:
             self._load_pipeline_config_and_runner()
         except Exception as e:
             # Reset loaded modules from import, completely canceling load so it can be tried again
-            self._loaded_modules = self._import_tracker.imported_modules
-            self._wipe_loaded_modules()
-            self._loaded_modules = [] # modules have been wiped, must be sure they won't be wiped again
+            _wipe_modules(self._import_tracker.imported_modules)
             raise e
 
-        self._loaded_modules = self._import_tracker.imported_modules
+        # Keep the modules from prior loads as well, they still need to be wiped upon reloading
+        self._loaded_modules += self._import_tracker.imported_modules
         logger.debug(f'Finished running load for {self.name}')
 
     def update(self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs):
@@ -590,7 +590,8 @@ class PipelineManager:
         )
 
     def _wipe_loaded_modules(self):
-        [sys.modules.pop(module) for module in self._loaded_modules]
+        _wipe_modules(self._loaded_modules)
+        self._loaded_modules = []  # modules have been wiped, must be sure they won't be wiped again
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
@@ -728,6 +729,11 @@ def report_runner_exceptions(runner_exceptions: List[RunnerException]) -> None:
     logger.error(full_exc_str)
 
 
+def _wipe_modules(modules: Iterable[str]) -> None:
+    for module in modules:
+        sys.modules.pop(module, None)
+
+
 def _get_imported_obj_by_name(imports: ImportStatementContainer, name: str) -> Any:
     try:
         import_statement = imports.get_import_for_module_or_obj_name(name)
-- 
2.43.0


From 5fcd80edae51f2c380d45af031b55575ba8bccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:01 +0000
Subject: [PATCH 48/63] fix: assigning an option as documented must set it
 instead of replacing it

---
 pyfileconf/opts/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index cc630e2..df4f33a 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -155,6 +155,13 @@ class PyfileconfOptionsManager:
             setattr(self, attr, opt)
             self._options.append(opt)
 
+    def __setattr__(self, key: str, value: Any):
+        if key in options.option_attrs and not isinstance(value, PyfileconfOption):
+            # Setting the value of the option, must not replace the option itself
+            self.set_option(key, value)
+        else:
+            super().__setattr__(key, value)
+
     def __repr__(self):
         opts_str = '\t' + '\n\t'.join(repr(opt) for opt in self._options) + '\n'
         return f'<PyfileconfOptionsManager(options=[\n{opts_str}])>'
-- 
2.43.0


From a7c094586da4d440f4c70844c8c4823b56160b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:53 +0000
Subject: [PATCH 49/63] fix: running an IterativeRunner again must apply all
 updates of its first case

---
 pyfileconf/iterate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index e180151..70a459b 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -110,6 +110,7 @@ class IterativeRunner:
         from pyfileconf.main import PipelineManager
         logger.info(f'Running {self.run_items} with cases')
         all_results = []
+        self.last_case = None  # config may have changed since the last case of a previous run
         for case in self.cases:
             if not self.should_run(case):
                 continue
@@ -122,6 +123,7 @@ class IterativeRunner:
 
     def run_gen(self) -> Iterator[IterativeResult]:
         logger.info(f'Running {self.run_items} with cases')
+        self.last_case = None  # config may have changed since the last case of a previous run
         for case in self.cases:
             if not self.should_run(case):
                 continue
-- 
2.43.0


From 0cb1b748f277cd52af38725607bd3154e2038f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:16 +0000
Subject: [PATCH 50/63] fix: an update given both ways must record the views it
 really sets

pm.update(dict(b=1), section_path_str=..., b=view) sets b to the view, as
keywords take precedence, but the dependency was derived with the precedence
the other way around: it was not recorded, while a view overridden by a
keyword was.
---
 pyfileconf/main.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 2fb5f9e..d8a9e3c 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -392,9 +392,6 @@ class PipelineManager:
             # If any of the updates are putting an ItemView as the value, then
             # record that this config is dependent on the config referenced
             # by the ItemView
-            all_updates = {**kwargs}
-            if d_ is not None:
-                all_updates.update(d_)
             full_sp = SectionPath.join(self.name, section_path_str)
             for value in all_updates.values():
                 if is_item_view(value):
-- 
2.43.0


From 6852abb2693861c064af618b1df3c2fe3d951965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:27 +0000
Subject: [PATCH 51/63] fix: create the defaults folder under the name it was
 given

A manager with default_config_folder_name=... created a folder 'defaults' which
it never used, every time it was constructed with something missing.
---
 pyfileconf/main.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index d8a9e3c..2f09dd7 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -618,7 +618,12 @@ class PipelineManager:
 
     def _create_project_if_needed(self):
         if self._need_to_create_project():
-            create_project(self.folder, options.log_folder, self.specific_class_config_dicts)
+            create_project(
+                self.folder,
+                options.log_folder,
+                self.specific_class_config_dicts,
+                default_config_folder_name=os.path.basename(self.default_config_path),
+            )
 
     def _need_to_create_project(self) -> bool:
         return any([
@@ -740,11 +745,12 @@ def _get_imported_obj_by_name(imports: ImportStatementContainer, name: str) -> A
 
 
 def create_project(path: str, logs_path: str,
-                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None):
+                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None,
+                   default_config_folder_name: str = 'defaults'):
     """
     Creates a new pyfileconf project file structure
     """
-    defaults_path = os.path.join(path, 'defaults')
+    defaults_path = os.path.join(path, default_config_folder_name)
     pipeline_path = os.path.join(path, 'pipeline_dict.py')
 
     if not os.path.exists(defaults_path):
-- 
2.43.0


From 4b0544c1457a148d5cb94487cbb64995eeeab8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:44 +0000
Subject: [PATCH 52/63] fix: updating a config to or from a numpy array must
 not raise

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 3921680..199c72f 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -188,7 +188,7 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
         return False
 
     try:
-        return val1 == val2
+        return bool(val1 == val2)  # e.g. numpy arrays compare by element, then there is no single truth value
     except Exception as e:
         warnings.warn(f'Could not check if values {val1} and {val2} of '
                       f'type {type(val1)} and {type(val2)} are '
-- 
2.43.0


From 4385aa64c70a37cbeee944df775c56227ca8d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:44 +0000
Subject: [PATCH 53/63] fix: running iterations over DataFrame or array values
 must not raise

---
 pyfileconf/plugin/default_hooks.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/plugin/default_hooks.py b/pyfileconf/plugin/default_hooks.py
index 100040d..e79d7c3 100644
--- a/pyfileconf/plugin/default_hooks.py
+++ b/pyfileconf/plugin/default_hooks.py
@@ -46,7 +46,10 @@ def pyfileconf_iter_update_for_case(
 
     updated_confs: Sequence[Dict[str, Any]]
     if runner.last_case is not None:
-        updated_confs = [conf for conf in case if conf not in runner.last_case]
+        updated_confs = [
+            conf for conf in case
+            if not any(_is_same_update(conf, last_conf) for last_conf in runner.last_case)
+        ]
     else:
         updated_confs = case
 
@@ -57,6 +60,15 @@ def pyfileconf_iter_update_for_case(
     bu.update(updated_confs)
 
 
+def _is_same_update(conf: Dict[str, Any], other: Dict[str, Any]) -> bool:
+    from pyfileconf.basemodels.config import _values_are_equal
+
+    # Not comparing the dictionaries, as values such as DataFrames have no single truth value for ==
+    if set(conf) != set(other):
+        return False
+    return all(value is other[key] or _values_are_equal(value, other[key]) for key, value in conf.items())
+
+
 @hookimpl
 def pyfileconf_pre_update_batch(
     pm: "PipelineManager", updates: Iterable[dict],
-- 
2.43.0


From 08db6cc3491eb17e9ff1698fd8323b06579d6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:57 +0000
Subject: [PATCH 54/63] fix: a manager which is not loaded must not break the
 selectors of the others

---
 pyfileconf/selector/models/selector.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 272e966..f45c0a4 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -28,6 +28,10 @@ class Selector:
         if SectionPath(item)[0] not in self._managers:
             return False
 
+        if len(SectionPath(item)) > 1 and SectionPath(item)[0] not in self._structure:
+            # Manager was not loaded, has no items
+            return False
+
         collection_obj, relative_section_path = self._get_collection_obj_and_relative_section_path_from_structure(item)
         if relative_section_path is None:
             # got only the root data path, e.g. project.sources. Return the collection object itself
@@ -180,6 +184,9 @@ class Selector:
         out_dict = {}
         manager: PipelineManager
         for manager_name, manager in self._managers.items():
+            if manager._general_registrar is None:
+                # Not loaded yet, has no items
+                continue
             manager_dict = {
                 '_general': manager._general_registrar.collection,
             }
-- 
2.43.0


From a5fda1eaa5c15c56cb42898aff7c9aaba2992b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:57 +0000
Subject: [PATCH 55/63] fix: assignments to several names must not prevent
 loading config and dict files and sources

---
 pyfileconf/assignments/models/container.py |  2 +-
 pyfileconf/assignments/models/statement.py | 17 ++++++++++++++---
 pyfileconf/io/file/load/parsers/assign.py  | 14 ++++++++------
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/pyfileconf/assignments/models/container.py b/pyfileconf/assignments/models/container.py
index 5cbe90c..a39caae 100644
--- a/pyfileconf/assignments/models/container.py
+++ b/pyfileconf/assignments/models/container.py
@@ -15,7 +15,7 @@ class AssignmentStatementContainer(Container, ReprMixin):
         return ''.join(str(assign) for assign in self)
 
     def contains_varname(self, varname: str):
-        return any([assign.varname == varname for assign in self])
+        return any([varname in assign.varnames for assign in self])
 
     def to_default_dict_and_annotation_dict(self) -> Tuple[Dict[str, ast.AST], Dict[str, ast.Name]]:
         default_dict: Dict[str, ast.AST] = {}
diff --git a/pyfileconf/assignments/models/statement.py b/pyfileconf/assignments/models/statement.py
index 739606e..bccb483 100644
--- a/pyfileconf/assignments/models/statement.py
+++ b/pyfileconf/assignments/models/statement.py
@@ -1,4 +1,4 @@
-from typing import Union, Tuple, Dict, Optional
+from typing import Union, Tuple, Dict, List, Optional
 import ast
 
 from pyfileconf.exceptions.assignments import CouldNotExtractAssignmentFromAstException
@@ -56,6 +56,16 @@ class AssignmentStatement(ReprMixin, OrderPreferenceMixin):
         # Passed all checks, must be the same
         return True
 
+    @property
+    def varnames(self) -> List[str]:
+        # There are multiple names in e.g. a, b = 1, 2
+        if isinstance(self.target, (ast.Tuple, ast.List)):
+            return [
+                node.id for node in ast.walk(self.target)
+                if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store)
+            ]
+        return [self.varname]
+
     @classmethod
     def from_ast_assign(cls, ast_assign: AnyAstAssign, preferred_position: str = None):
 
@@ -87,8 +97,9 @@ class AssignmentStatement(ReprMixin, OrderPreferenceMixin):
         default_dict: Dict[str, ast.AST] = {}
         annotation_dict: Dict[str, ast.Name] = {}
 
-        if isinstance(self.target, (ast.Attribute, ast.Subscript)):
-            # An assignment into an object like a.b = 6 or a['b'] = 6, do not need to put into dicts
+        if isinstance(self.target, (ast.Attribute, ast.Subscript, ast.Tuple, ast.List)):
+            # An assignment into an object like a.b = 6 or a['b'] = 6, or one which takes a value apart
+            # like a, b = value, do not need to put into dicts
             return default_dict, annotation_dict
 
         if not isinstance(self.target, ast.Name):
diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index bcc0f32..9b751f4 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -14,9 +14,11 @@ class AssignmentExtractor(ast.NodeVisitor):
 
     def visit_Assign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
-        self.assigns.append(
-            AssignmentStatement.from_ast_assign(node)
-        )
+        # May be multiple targets, e.g. a = b = 5. That is the same as multiple assignments of one value
+        for target in node.targets:
+            self.assigns.append(
+                AssignmentStatement.from_ast_assign(ast.Assign(targets=[target], value=node.value))
+            )
 
     def visit_AnnAssign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
@@ -49,9 +51,9 @@ class AssignmentByVarnameExtractor(AssignmentExtractor):
         super().__init__()
 
     def visit_Assign(self, node):
-        varnames = [target.id for target in node.targets if isinstance(target, ast.Name)]
-        if self.varname in varnames:
-            super().visit_Assign(node)
+        targets = [target for target in node.targets if isinstance(target, ast.Name) and target.id == self.varname]
+        if targets:
+            super().visit_Assign(ast.Assign(targets=targets[:1], value=node.value))
 
     def visit_AnnAssign(self, node):
         if isinstance(node.target, ast.Name) and node.target.id == self.varname:
-- 
2.43.0


From 5ffc031ea733311ead3403a066f630002c1f039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:57 +0000
Subject: [PATCH 56/63] fix: names within functions and classes of a file are
 not names of the file

---
 pyfileconf/io/file/load/parsers/assign.py | 7 +++++++
 pyfileconf/io/file/load/parsers/imp.py    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index 9b751f4..8418747 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -26,6 +26,13 @@ class AssignmentExtractor(ast.NodeVisitor):
             AssignmentStatement.from_ast_assign(node)
         )
 
+    def visit_FunctionDef(self, node):
+        pass
+        # don't go into children, names assigned within functions and classes are not names of the module
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
+
 
 def extract_assignments_from_ast(module: ast.Module) -> 'AssignmentStatementContainer':
     ae = AssignmentExtractor()
diff --git a/pyfileconf/io/file/load/parsers/imp.py b/pyfileconf/io/file/load/parsers/imp.py
index d9fcb79..347ce37 100644
--- a/pyfileconf/io/file/load/parsers/imp.py
+++ b/pyfileconf/io/file/load/parsers/imp.py
@@ -28,6 +28,13 @@ class ImportExtractor(ast.NodeVisitor):
             ObjectImportStatement.from_ast_import_from(node)
         )
 
+    def visit_FunctionDef(self, node):
+        pass
+        # don't go into children, names imported within functions and classes are not names of the module
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
+
 def extract_imports_from_ast(module: ast.Module) -> ImportStatementContainer:
     ie = ImportExtractor()
     ie.visit(module)
-- 
2.43.0


From 6f5f80f18efd73fcfab02f70dc87ee15071aab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:16 +0000
Subject: [PATCH 57/63] fix: configs must also apply to decorated functions and
 init methods

---
 pyfileconf/imports/logic/load/func.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 720fd8f..d7a4cf0 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -3,7 +3,11 @@ import inspect
 
 
 def function_args_as_dict(func: Callable):
-    args = inspect.getfullargspec(func)
+    # Decorated functions and init methods take the arguments of the original function
+    if inspect.isclass(func) and hasattr(func.__init__, '__wrapped__'):
+        func = func.__init__
+    orig_func = inspect.unwrap(func, stop=lambda f: hasattr(f, '__signature__'))
+    args = inspect.getfullargspec(orig_func)
     out_dict = {}
 
     # for methods and classmethods, want to ignore the first argument (self, cls)
-- 
2.43.0


From 4362ef0a36b60ea7eab22726a2da8e061479fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:18 +0000
Subject: [PATCH 58/63] fix: listing the attributes of a manager which is not
 loaded must not raise

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 2f09dd7..d9bd7ef 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -108,7 +108,7 @@ class PipelineManager:
         ]
         exposed_attrs = ['name'] + self.specific_class_names
         exposed = exposed_methods + exposed_attrs
-        if hasattr(self, '_registrars'):
+        if self._registrars is not None:
             skip_methods = [
                 'scaffold_config',
                 'basepath',
-- 
2.43.0


From 1c5d33923e271b83817b187400d6d2ef94e9a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:18 +0000
Subject: [PATCH 59/63] fix: a file in a project within the folder of another
 project must give its own manager

---
 pyfileconf/main.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index d9bd7ef..dd229cb 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -479,12 +479,17 @@ class PipelineManager:
             manager has a config file matching the file path
         """
         abs_filepath = os.path.abspath(filepath)
+        matching_managers: Dict[str, 'PipelineManager'] = {}
         for manager in context.active_managers.values():
             manager_path = os.path.abspath(manager.folder)
             if abs_filepath.startswith(manager_path + os.sep):
-                return manager
+                matching_managers.setdefault(manager_path, manager)
 
-        raise NoPipelineManagerForFilepathException
+        if not matching_managers:
+            raise NoPipelineManagerForFilepathException
+
+        # The folder of a manager may be within the folder of another one, then the file belongs to the inner one
+        return matching_managers[max(matching_managers, key=len)]
 
     @classmethod
     def get_manager_by_section_path_str(cls, section_path_str: str) -> 'PipelineManager':
-- 
2.43.0


From 5c164c297bc1a4d47f3babb3ede268a397d5c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:18 +0000
Subject: [PATCH 60/63] fix: items must be able to use stdout as a file while
 it is logged

---
 pyfileconf/logger/bind_stdout.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 599aae1..a092ad5 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -18,9 +18,21 @@ class StdoutLogger(object):
     def __init__(self):
         self.terminal = sys.stdout
 
+    def __getattr__(self, item):
+        # Everything besides writing, e.g. encoding or isatty, is that of the real stdout
+        if item == 'terminal':
+            # must not be defined yet
+            raise AttributeError(item)
+        return getattr(self.terminal, item)
+
     def write(self, message):
         if message != '\n':
             logger.info(message)
+        return len(message)
+
+    def writelines(self, messages):
+        for message in messages:
+            self.write(message)
 
     def flush(self):
         #this flush method is needed for python 3 compatibility.
-- 
2.43.0


From 678fc449a5e6bf84bb7d60797efeffe7fb96ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:02 +0000
Subject: [PATCH 61/63] fix: errors of items must not be hidden when using them
 through views

---
 pyfileconf/selector/models/itemview.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index 45dcecd..747cab8 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -42,23 +42,28 @@ class ItemView:
         # Must be either an attribute of an item, or a typo. Actually look up the item now
 
         try:
-            actual_item = self.item
-        except PipelineManagerNotLoadedException:
-            # Dealing with typos is difficult because if this is a typo and we are reaching here,
-            # if PipelineManager.load() has not been run yet, we can't know the attributes of the items,
+            # Not using self.item, as it would come back here if the look up raises an AttributeError
+            actual_item = self.selector._get_real_item(self.section_path_str)
+        except (PipelineManagerNotLoadedException, AttributeError) as e:
+            if len(SectionPath(self.section_path_str)) > 1 and self.section_path_str in self.selector:
+                # The item is there, so creating it or loading its config is what failed
+                raise
 
-            # check whether this is an item attribute or a typo, and raise error if needed
-            return handle_pipeline_manager_not_loaded_or_typo(full_section_path_str, self.selector._managers)
+            if isinstance(e, PipelineManagerNotLoadedException):
+                # Dealing with typos is difficult because if this is a typo and we are reaching here,
+                # if PipelineManager.load() has not been run yet, we can't know the attributes of the items,
 
-        # TODO [#18]: refactor item view lookup errors
-        #
-        #  So that there is a better way of catching a known typo than python throwing a RecursionError
+                # check whether this is an item attribute or a typo, and raise error if needed
+                return handle_pipeline_manager_not_loaded_or_typo(full_section_path_str, self.selector._managers)
 
-        except RecursionError:
             # We are landing here when there is a typo in after the pipeline manager selection of a longer
             # section path, e.g if "this" was portfolio manager name: s.this.tpyo.would.cause.this
             return handle_known_typo_after_pipeline_manager_name(full_section_path_str)
 
+        if item == 'item':
+            # The property failed before, but now there is an item
+            return actual_item
+
         try:
             result = getattr(actual_item, item)
         except (KeyError, AttributeError) as e:
-- 
2.43.0


From e4e7414b4a65ad7d5560b087766c1435a91a0c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:32 +0000
Subject: [PATCH 62/63] fix: objects which accept no additional attributes must
 be usable as items

---
 pyfileconf/logic/set.py                | 9 +++++++++
 pyfileconf/runner/models/runner.py     | 3 ++-
 pyfileconf/selector/models/itemview.py | 7 ++++---
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/logic/set.py b/pyfileconf/logic/set.py
index 74a5405..6d91c65 100644
--- a/pyfileconf/logic/set.py
+++ b/pyfileconf/logic/set.py
@@ -1,3 +1,4 @@
+from typing import Any
 
 from pyfileconf.sectionpath.sectionpath import SectionPath
 
@@ -9,3 +10,11 @@ def _set_in_nested_obj_by_section_path(obj, section_path: SectionPath, value) ->
 
     # Now have object of next level up from object desired to be set
     setattr(obj, section_path[-1], value)
+
+
+def _set_section_path_str_if_possible(obj: Any, section_path_str: str) -> None:
+    try:
+        obj._section_path_str = section_path_str
+    except AttributeError:
+        # The objects of some classes accept no additional attributes, e.g. those with __slots__
+        pass
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index dd98672..2eabec9 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -13,6 +13,7 @@ from pyfileconf.exceptions.config import ConfigManagerNotLoadedException
 from pyfileconf.logger.logger import logger
 from pyfileconf.pipelines.models.registrar import PipelineRegistrar, PipelineCollection
 from pyfileconf.logic.get import _get_public_name_or_special_name
+from pyfileconf.logic.set import _set_section_path_str_if_possible
 from pyfileconf.plugin import manager
 from pyfileconf.runner.models.interfaces import (
     StrOrListOfStrs,
@@ -430,5 +431,5 @@ class Runner(ReprMixin):
 
     def _add_full_section_path_str_to_obj(self, section_path_str: str, obj: Any):
         full_sp_str = SectionPath.join(self._manager_name, section_path_str).path_str
-        obj._section_path_str = full_sp_str
+        _set_section_path_str_if_possible(obj, full_sp_str)
 
diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index 747cab8..ea1789c 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -3,6 +3,7 @@ from functools import partial
 from typing import cast, List, Type, Dict, Tuple, Any, Optional
 
 from pyfileconf.data.models.collection import SpecificClassCollection
+from pyfileconf.logic.set import _set_section_path_str_if_possible
 from pyfileconf.sectionpath.sectionpath import SectionPath
 from pyfileconf.selector.logic.exc.typo import (
     handle_pipeline_manager_not_loaded_or_typo,
@@ -124,7 +125,7 @@ class ItemView:
         elif specific_class and isinstance(actual_item, self._specific_classes):
             # Got specific registrar class
             # Need to look up the execute attribute and apply section path str
-            actual_item._section_path_str = self.section_path_str
+            _set_section_path_str_if_possible(actual_item, self.section_path_str)
             execute_attr = manager._registrar_dict[collection_name].execute_attr
             func = getattr(actual_item, execute_attr)
         else:
@@ -147,13 +148,13 @@ class ItemView:
                 # Add section path to original item and then set method to be called
                 orig_item_sp = SectionPath.from_section_str_list(SectionPath(self.section_path_str)[:-1])
                 orig_item_sp_str = orig_item_sp.path_str
-                orig_item._section_path_str = orig_item_sp_str
+                _set_section_path_str_if_possible(orig_item, orig_item_sp_str)
                 func = actual_item
             else:
                 if inspect.isclass(actual_item):
                     raise cannot_parse_error
                 # Got a class object in the general registrar
-                actual_item._section_path_str = self.section_path_str
+                _set_section_path_str_if_possible(actual_item, self.section_path_str)
                 # Simply return it
                 return actual_item
 
-- 
2.43.0


From 048e2b03b64980993479b274e16c29a40b154f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:41 +0000
Subject: [PATCH 63/63] fix: sections whose names begin with an underscore must
 have their configs

Folders of the defaults which begin with an underscore were left out when
the configs are loaded, so the items of such a section could be neither
run nor configured although the section was scaffolded and listed.  Only
__pycache__ and hidden folders are no sections.
---
 pyfileconf/config/models/section.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index 217adb2..73e4106 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -75,11 +75,10 @@ class ConfigSection(Container, ReprMixin):
 
         config_file_list = [file for file in next(os.walk(basepath))[2] if file.endswith('.py')]
 
-        # Ignore folders starting with . or _
+        # Ignore folders which cannot be sections, such as __pycache__ and hidden folders
         config_section_list = [
-            folder for folder in next(os.walk(basepath))[1] if not any(
-                [folder.startswith(item) for item in ('_','.')]
-            )
+            folder for folder in next(os.walk(basepath))[1]
+            if folder != '__pycache__' and not folder.startswith('.')
         ]
 
         # Special handling for section config
-- 
2.43.0

