From 5dd2ce52adaa87f0081e828fa7004326e4214f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 01/65] fix: do not carry state between attribute lookups in
 Runner

A lookup of a missing name, or one which stopped at a section, left a partial
path in the runner, so that every later attribute access (also through Selector)
looked up the wrong path.
---
 pyfileconf/runner/models/runner.py | 48 +++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0218935..52f1ce5 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -28,6 +28,23 @@ from pyfileconf.config.logic.write import dict_as_function_kwarg_str
 from pyfileconf.pmcontext.tracing import StackTracker
 from pyfileconf.views.object import ObjectView
 
+class RunnerSectionView(ReprMixin):
+    """
+    Section of a :class:`Runner`, which is returned while looking up items by attribute access
+    """
+    repr_cols = ['_section_path_str']
+
+    def __init__(self, runner: 'Runner', section_path_str: str):
+        self._runner = runner
+        self._section_path_str = section_path_str
+
+    def __getattr__(self, item):
+        if item.startswith('__'):
+            raise AttributeError(item)
+        section_path_str = SectionPath.join(self._section_path_str, item).path_str
+        return self._runner._lookup_by_attr(section_path_str)
+
+
 class Runner(ReprMixin):
     repr_cols = ['_config', '_pipelines']
 
@@ -38,31 +55,28 @@ class Runner(ReprMixin):
         self._general_registrar = general_registrar
         self._manager_name = name
 
-        self._full_getattr = ''
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
         self._specific_class_registrar_map = {registrar.klass: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
-        # TODO [#14]: find way of doing runner look ups with fewer side effects
         # TODO [#15]: find a way to get __getattr__ logic for runner working for sections
-        self._full_getattr += item
-        try:
-            func_or_collection = self._get_func_or_collection(self._full_getattr)
-        except KeyError as e:
-            self._full_getattr = '' # didn't find an item, must be incorrect path. reset total path
-            raise e
+        return self._lookup_by_attr(item)
+
+    def _lookup_by_attr(self, section_path_str: str) -> Any:
+        """
+        Handles attribute access. The path looked up so far is carried by the returned section view
+        instead of being stored in the runner, so that a lookup which fails or which is
+        abandoned part way through does not affect the following lookups.
+        """
+        func_or_collection = self._get_func_or_collection(section_path_str)
 
         if isinstance(func_or_collection, (PipelineCollection, SpecificClassCollection)):
-            # Got section, need to keep going. Return self
-            self._full_getattr += '.' # add period to separate next section
-            return self
-        else:
-            # Got function or class, return the function or class itself
-            full_getattr = self._full_getattr
-            self._full_getattr = ''  # found the item, reset for next time
-            configured_func_or_class = self.get(full_getattr)
-            return configured_func_or_class
+            # Got section, need to keep going
+            return RunnerSectionView(self, section_path_str)
+
+        # Got function or class, return the function or class itself
+        return self.get(section_path_str)
 
     # TODO [#16]: this may work once __getattr__ works with sections
     # def __dir__(self):
-- 
2.43.0


From d72b1b1046eff7f73b39d750ccb990d0ab0435e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 02/65] fix: run sections which contain classes or specific
 class items

Items of a section which are classes were run with the path of the section
instead of their own path, and sections of specific classes were not recognized
as sections at all.
---
 pyfileconf/runner/models/runner.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 52f1ce5..f380875 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -150,7 +150,7 @@ class Runner(ReprMixin):
 
         """
         func_or_collection = self._get_func_or_collection(section_path_str)
-        if isinstance(func_or_collection, PipelineCollection):
+        if isinstance(func_or_collection, Collection):
             return self._run_section(section_path_str)
         elif self._is_specific_class(func_or_collection):
             return self._run_one_specific_class(section_path_str)
@@ -159,37 +159,41 @@ class Runner(ReprMixin):
         elif callable(func_or_collection):
             return self._run_one_func(section_path_str)
         else:
-            raise ValueError(f'could not run section {section_path_str}. expected PipelineCollection or function,'
+            raise ValueError(f'could not run section {section_path_str}. expected Collection or function,'
                              f'got {func_or_collection} of type {type(func_or_collection)}')
 
     def _run_section(self, section_path_str: str) -> Results:
         section = self._get_func_or_collection(section_path_str)
-        section = cast(PipelineCollection, section)
+        section = cast(Collection, section)
         results = []
         for section_or_object_view in section:
 
-            # Get section path by which to call this item
-            subsection_name = _get_public_name_or_special_name(section_or_object_view, accept_output_names=False)
-            subsection_path_str = SectionPath.join(section_path_str, subsection_name).path_str
-
             # Get from object view if necessary
             if isinstance(section_or_object_view, ObjectView):
                 section_or_callable = section_or_object_view.item
             else:
                 section_or_callable = section_or_object_view
 
-            if isinstance(section_or_callable, PipelineCollection):
+            # Get section path by which to call this item
+            if self._is_specific_class(section_or_callable):
+                # If specific class, need to look up which key holds the name
+                subsection_name = section.name_for_obj(section_or_object_view)
+            else:
+                subsection_name = _get_public_name_or_special_name(section_or_object_view, accept_output_names=False)
+            subsection_path_str = SectionPath.join(section_path_str, subsection_name).path_str
+
+            if isinstance(section_or_callable, Collection):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-                results.append(self._run_one_specific_class(section_path_str))
+                results.append(self._run_one_specific_class(subsection_path_str))
             elif inspect.isclass(section_or_callable):
-                results.append(self._run_one_class(section_path_str))
+                results.append(self._run_one_class(subsection_path_str))
             elif callable(section_or_callable):
                 # run function
                 results.append(self._run_one_func(subsection_path_str))
             else:
-                raise ValueError(f'could not run section {subsection_path_str}. expected PipelineCollection or '
+                raise ValueError(f'could not run section {subsection_path_str}. expected Collection or '
                                  f'function or class,'
                                  f'got {section_or_callable} of type {type(section_or_callable)}')
 
-- 
2.43.0


From 3f373d87f37bf0b1c6bc45bb3e83192b733c84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 03/65] fix: do not drop or corrupt user lines at the top of
 config files on load

Lines of the import section were recognized by containing the text 'import',
so assignments such as 'important = 5' or docstrings were deleted from the file
on every load, and import statements which span multiple lines were split.
---
 pyfileconf/config/logic/load.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/config/logic/load.py b/pyfileconf/config/logic/load.py
index 1e025df..6bfa129 100644
--- a/pyfileconf/config/logic/load.py
+++ b/pyfileconf/config/logic/load.py
@@ -1,4 +1,5 @@
-from typing import Tuple, List, Union, Sequence
+import ast
+from typing import Tuple, List, Union, Sequence, Set
 from copy import deepcopy
 
 ListOfStrs = List[str]
@@ -11,7 +12,7 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
     #
     # Imports can currently only be read from the top of the file
 
-    # TODO [#3]: deal with use of import other than the word import
+    import_line_nums = _get_line_nums_of_import_statements(lines)
 
     import_section = []
     assignment_section = []
@@ -28,7 +29,7 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
 
         # Handle import section and add whitespace below import section
         if in_import_section:
-            if 'import' in line or _is_whitespace_line(line):
+            if i + 1 in import_line_nums or _is_whitespace_line(line):
                 import_section.append(line)
             else:
                 in_import_section = False  # no longer dealing with imports, must have assignment line
@@ -42,6 +43,21 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
 
     return import_section, assignment_section
 
+def _get_line_nums_of_import_statements(lines: ListOfStrs) -> Set[int]:
+    """
+    Gets the numbers (starting from 1) of the lines which contain only top-level import statements
+    """
+    module = ast.parse('\n'.join(line.rstrip('\n') for line in lines))
+
+    import_line_nums: Set[int] = set()
+    other_line_nums: Set[int] = set()
+    for statement in module.body:
+        is_import = isinstance(statement, (ast.Import, ast.ImportFrom))
+        line_nums = import_line_nums if is_import else other_line_nums
+        line_nums.update(range(statement.lineno, statement.end_lineno + 1))  # type: ignore
+
+    return import_line_nums - other_line_nums
+
 def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTupleNoneOrStr:
 
     # handle whitespace lines
-- 
2.43.0


From a2a820d87d147da950b25497b7e94e30dddbb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 04/65] fix: treat imports of the same name under different
 renames as different

'from a import b' was considered to be contained in 'from a import b as c' (and
'import a' in 'import a as b'), so one of the two was not written to the config
file and loading it failed with a NameError.
---
 pyfileconf/imports/models/statements/container.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index df82740..eabe8d6 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -8,6 +8,7 @@ from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.imports.models.statements.obj import ObjectImportStatement
 from pyfileconf.imports.models.statements.module import ModuleImportStatement
 from pyfileconf.imports.models.statements.interfaces import (
+    AnyImportStatement,
     AnyImportStatementOrComment,
     Comment,
     ImportOrNone
@@ -38,8 +39,7 @@ class ImportStatementContainer(Container, ReprMixin):
             # and import statement in collection is: import this, that
             if isinstance(item, ModuleImportStatement) and isinstance(imp_or_comment, ModuleImportStatement):
                 matching_modules = all(mod in imp_or_comment.modules for mod in item.modules)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_modules and matching_renames:
+                if matching_modules and _has_same_renames_for(item.modules, item, imp_or_comment):
                     return True
 
             # e.g. item is: from this import that
@@ -47,8 +47,7 @@ class ImportStatementContainer(Container, ReprMixin):
             if isinstance(item, ObjectImportStatement) and isinstance(imp_or_comment, ObjectImportStatement):
                 matching_module = imp_or_comment.module == item.module
                 matching_objs = all(mod in imp_or_comment.objs for mod in item.objs)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_module and matching_objs and matching_renames:
+                if matching_module and matching_objs and _has_same_renames_for(item.objs, item, imp_or_comment):
                     return True
 
 
@@ -186,3 +185,11 @@ class ImportStatementContainer(Container, ReprMixin):
     #
     #     return renames
 
+
+def _has_same_renames_for(names: List[str], import_1: AnyImportStatement, import_2: AnyImportStatement) -> bool:
+    """
+    Whether both imports bind each of the (original) names to the same variable name
+    """
+    return all(
+        import_1.renames.name_map.get(name, name) == import_2.renames.name_map.get(name, name) for name in names
+    )
-- 
2.43.0


From e17667e680dedbe981b8fdfe625dc599158ef1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 05/65] fix: do not match imported names by a name which they
 are not bound to

With 'from a import b as c' followed by 'from d import b', looking up b resolved
to the object of module a instead of the object of module d.
---
 pyfileconf/imports/models/statements/container.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index eabe8d6..6119902 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -97,7 +97,7 @@ class ImportStatementContainer(Container, ReprMixin):
         found_import = False
         for imp in self:
             if isinstance(imp, ModuleImportStatement):
-                if name in imp.modules:
+                if name in imp.modules and not _is_always_renamed(name, imp.modules, imp):
                     # match on original module name
                     # set up for creating a new import
                     found_import = True
@@ -117,7 +117,7 @@ class ImportStatementContainer(Container, ReprMixin):
                     # May be multiple modules imported in this one statement. Create a new statement with just this module
                     return ModuleImportStatement(modules=modules, renames=renames)
             elif isinstance(imp, ObjectImportStatement):
-                if name in imp.objs:
+                if name in imp.objs and not _is_always_renamed(name, imp.objs, imp):
                     # match on original object name
                     # set up for creating a new import
                     found_import = True
@@ -193,3 +193,10 @@ def _has_same_renames_for(names: List[str], import_1: AnyImportStatement, import
     return all(
         import_1.renames.name_map.get(name, name) == import_2.renames.name_map.get(name, name) for name in names
     )
+
+
+def _is_always_renamed(name: str, names: List[str], imp: AnyImportStatement) -> bool:
+    """
+    Whether the import binds the (original) name only to other variable names
+    """
+    return imp.renames.orig_names.count(name) == names.count(name)
-- 
2.43.0


From 12a7e98972fbbe4d9e28a22643935df9267c2d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 06/65] fix: support keyword-only arguments which do not have a
 default

Loading a project with such a function failed, and they were left out of the
config passed to the function when no keyword-only argument had a default.
---
 pyfileconf/imports/logic/load/func.py | 5 ++---
 pyfileconf/io/func/load/config.py     | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 9b31e3b..0541f65 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -21,9 +21,8 @@ def function_args_as_dict(func: Callable):
 
     # Handle kwargs
     for kwarg in args.kwonlyargs:
-        if args.kwonlydefaults:
-            default = args.kwonlydefaults[kwarg] if kwarg in args.kwonlydefaults else None
-            out_dict.update({kwarg: default})
+        default = args.kwonlydefaults[kwarg] if args.kwonlydefaults and kwarg in args.kwonlydefaults else None
+        out_dict.update({kwarg: default})
 
     return out_dict
 
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index a6faea1..d6be496 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -39,6 +39,9 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     # Handle kwargs
     for i, kwarg in enumerate(args.kwonlyargs):
         default = args.kw_defaults[i]
+        if default is None:
+            # Keyword-only argument without a default
+            default = ast.NameConstant(value=None)
         arg_dict[kwarg.arg] = default
         if kwarg.annotation is not None:
             annotation_dict[kwarg.arg] = _strip_ast_quotes_if_necessary(kwarg.annotation)
-- 
2.43.0


From f916f3f7928758b62c8c1ec4ed7aebf315ffe54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 07/65] fix: load functions whose defaults or annotations use
 names defined in their module

Looking up an import raises when there is none, so a default or annotation which
refers to a constant, function or class of the same module, or to a builtin,
made loading the whole project fail.
---
 pyfileconf/io/func/load/args.py       | 14 +++++++++++---
 pyfileconf/io/func/load/extractimp.py | 23 ++++++++++++++---------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index 2c2ef51..e5e41d9 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -1,5 +1,5 @@
 import ast
-from typing import TYPE_CHECKING, Tuple, Optional, cast
+from typing import TYPE_CHECKING, List, Tuple, Optional, cast
 
 from pyfileconf.exceptions.imports import NoImportStatementException
 
@@ -73,7 +73,8 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
             ast_function_def.args,
             loader.imports,
             loader.assigns,
-            imp.module
+            imp.module,
+            defined_names=_get_names_of_functions_and_classes_defined_in(loader.ast)
         )
         return ast_function_def.args, function_arg_imports
 
@@ -114,4 +115,11 @@ def get_module_filepath_from_import(imp: Optional[AnyImportStatement], import_se
         raise ValueError(f'expected import statement to be ObjectImportStatement or ModuleImportStatement.'
                          f' Got {imp} of type {type(imp)}')
 
-    return func()
\ No newline at end of file
+    return func()
+
+
+def _get_names_of_functions_and_classes_defined_in(module: ast.AST) -> List[str]:
+    return [
+        statement.name for statement in module.body  # type: ignore
+        if isinstance(statement, (ast.FunctionDef, ast.ClassDef))
+    ]
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2ebbcb3..0ebd4de 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -1,7 +1,8 @@
-from typing import List, cast
+from typing import List, Sequence, cast
 import ast
 import warnings
 
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
@@ -12,6 +13,7 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
                                                                      imports: ImportStatementContainer,
                                                                      assigns: AssignmentStatementContainer,
                                                                      current_module_section_path_str: str,
+                                                                     defined_names: Sequence[str] = (),
                                                                      ) -> ImportStatementContainer:
     defaults_dict, annotation_dict = function_args_as_arg_and_annotation_dict(args)
 
@@ -20,16 +22,19 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
 
     out_imports = ImportStatementContainer([])
 
-    # External names may be either due to assignment or due to imports
-    # Handle names due to assignment
+    # External names may be either due to definition in this module or due to imports
     for name in external_names:
-        if assigns.contains_varname(name):
-            # External name is due to assignment in this module. Create import from this module
+        if assigns.contains_varname(name) or name in defined_names:
+            # External name is due to assignment or definition in this module. Create import from this module
             out_imports.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
-
-    # Handle names which are imported into this file
-    for name in external_names:
-        import_or_none = imports.get_import_for_module_or_obj_name(name)
+            continue
+
+        # Handle names which are imported into this file
+        try:
+            import_or_none = imports.get_import_for_module_or_obj_name(name)
+        except NoImportMatchingNameException:
+            # Not defined in or imported into this file, e.g. builtins
+            continue
         if import_or_none is not None:
             out_imports.append(import_or_none)
 
-- 
2.43.0


From f48f7a658a53e793e5ceaa49de82c8eac1ea6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 08/65] fix: load functions with annotations such as Tuple[int,
 ...], int | str or None

Extracting the names from them raised NotImplementedError, and for quoted
annotations which are not a single name the imports were missing.
---
 pyfileconf/io/func/load/config.py     |  6 +++++-
 pyfileconf/io/func/load/extractimp.py | 24 +++++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index d6be496..01e41b1 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -67,5 +67,9 @@ def _strip_ast_quotes_if_necessary(node: ast.AST) -> ast.AST:
     if isinstance(node, ast.Str):
         # Got a quoted annotation such as 'DataPipeline'. Strip the quotes
         str_value = node.s
-        return ast.Name(str_value)
+        try:
+            # May be any expression, e.g. 'List[DataPipeline]'
+            return ast.parse(str_value, mode='eval').body
+        except SyntaxError:
+            return ast.Name(str_value)
     return node
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 0ebd4de..fe02f9a 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -100,10 +100,16 @@ def _extract_str_names_from_ambiguous_annotation(annotation) -> List[str]:
         names.extend(_extract_str_names_from_subscript(annotation))
     elif isinstance(annotation, ast.Attribute):
         # E.g. pd.DataFrame
-        names.append(annotation.value.id)  # type: ignore
-    elif isinstance(annotation, ast.Str):
-        # E.g. 'DataPipeline' (quoted type declaration where type was imported if TYPE_CHECKING)
-        names.append(annotation.s)
+        names.extend(_extract_str_names_from_ambiguous_annotation(annotation.value))
+    elif isinstance(annotation, ast.BinOp):
+        # E.g. int | str
+        names.extend(_extract_str_names_from_ambiguous_annotation(annotation.left))
+        names.extend(_extract_str_names_from_ambiguous_annotation(annotation.right))
+    elif isinstance(annotation, ast.Constant):
+        if isinstance(annotation.value, str):
+            # E.g. 'DataPipeline' (quoted type declaration where type was imported if TYPE_CHECKING)
+            names.extend(_extract_str_names_from_quoted_annotation(annotation.value))
+        # Otherwise e.g. None, or ... in Tuple[int, ...], there is no name to extract
     else:
         raise NotImplementedError(f'no handling for {annotation} of type {type(annotation)}')
 
@@ -125,4 +131,12 @@ def _extract_str_names_from_tuple(tuple: ast.Tuple) -> List[str]:
     names = []
     for item in tuple.elts:
         names.extend(_extract_str_names_from_ambiguous_annotation(item))
-    return names
\ No newline at end of file
+    return names
+
+def _extract_str_names_from_quoted_annotation(annotation_str: str) -> List[str]:
+    try:
+        expression = ast.parse(annotation_str, mode='eval')
+    except SyntaxError:
+        # E.g. an arbitrary string in Literal['some string']
+        return []
+    return _extract_str_names_from_ambiguous_annotation(expression.body)
-- 
2.43.0


From f44cf8e369073d54a88e20505d5f74906d970620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 09/65] fix: find the import of a package's root name for
 'import a.b' defaults

---
 pyfileconf/imports/models/statements/container.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index 6119902..ac5100f 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -103,6 +103,14 @@ class ImportStatementContainer(Container, ReprMixin):
                     found_import = True
                     renames = None
                     modules = [name]
+                elif any(_is_root_of_module(name, mod) and not _is_always_renamed(mod, imp.modules, imp)
+                         for mod in imp.modules):
+                    # match on root package, e.g. name is a for: import a.b
+                    # set up for creating a new import
+                    found_import = True
+                    renames = None
+                    modules = [mod for mod in imp.modules if _is_root_of_module(name, mod)
+                               and not _is_always_renamed(mod, imp.modules, imp)]
                 elif name in imp.renames.new_names:
                     # match on renamed module name
                     # set up for creating a new import
@@ -200,3 +208,7 @@ def _is_always_renamed(name: str, names: List[str], imp: AnyImportStatement) ->
     Whether the import binds the (original) name only to other variable names
     """
     return imp.renames.orig_names.count(name) == names.count(name)
+
+
+def _is_root_of_module(name: str, module: str) -> bool:
+    return module.startswith(name + '.')
-- 
2.43.0


From b8003d3e646cc37aea5457baf7642b31e20870df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 10/65] fix: do not fail to update config values which cannot
 be compared, e.g. numpy arrays

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b1ed6f5..a49f19a 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -183,7 +183,7 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
         return False
 
     try:
-        return val1 == val2
+        return bool(val1 == val2)
     except Exception as e:
         warnings.warn(f'Could not check if values {val1} and {val2} of '
                       f'type {type(val1)} and {type(val2)} are '
-- 
2.43.0


From 87d54619ff17bffd8ea6e79e0642bb48d63eb933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 11/65] fix: restore stdout when an exception is raised while
 stdout is logged

---
 pyfileconf/logger/bind_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 559c2bd..599aae1 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -8,8 +8,10 @@ from pyfileconf.logger.logger import logger
 def stdout_also_logged():
     stdout_logger = StdoutLogger()
     sys.stdout = stdout_logger  # type: ignore
-    yield stdout_logger
-    sys.stdout = stdout_logger.terminal
+    try:
+        yield stdout_logger
+    finally:
+        sys.stdout = stdout_logger.terminal
 
 
 class StdoutLogger(object):
-- 
2.43.0


From 1ec718822869ddb0deeca9605efd8140064d36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 12/65] fix: a section path does not end with a longer section
 path

---
 pyfileconf/sectionpath/sectionpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/sectionpath/sectionpath.py b/pyfileconf/sectionpath/sectionpath.py
index 81a31d7..5e747e0 100644
--- a/pyfileconf/sectionpath/sectionpath.py
+++ b/pyfileconf/sectionpath/sectionpath.py
@@ -100,6 +100,8 @@ class SectionPath(ReprMixin):
 
     def endswith(self, sp: 'SectionPath'):
         num_to_match = len(sp)
+        if num_to_match > len(self):
+            return False
         match_parts = self[-num_to_match:]
         for i, part in enumerate(match_parts):
             if part != sp[i]:
-- 
2.43.0


From 939be4f9be2327407e65e08bea71948123487c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 13/65] fix: look up the closest manager for a file path when
 manager folders are nested

---
 pyfileconf/main.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 31f9ecf..cdb1d34 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -468,10 +468,17 @@ class PipelineManager:
             manager has a config file matching the file path
         """
         abs_filepath = os.path.abspath(filepath)
+        matched_path: Optional[str] = None
+        matched_manager: Optional['PipelineManager'] = None
         for manager in context.active_managers.values():
             manager_path = os.path.abspath(manager.folder)
             if abs_filepath.startswith(manager_path + os.sep):
-                return manager
+                # The folder of one manager may be within the folder of another, so need the closest folder
+                if matched_path is None or len(manager_path) > len(matched_path):
+                    matched_path, matched_manager = manager_path, manager
+
+        if matched_manager is not None:
+            return matched_manager
 
         raise NoPipelineManagerForFilepathException
 
-- 
2.43.0


From e2a598f39029ab2c1ca74f90cc91a188772aec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 14/65] fix: support changing the log folder from one folder to
 another

---
 pyfileconf/logger/logger.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 64046f0..89f0c07 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -40,11 +40,14 @@ def add_file_handler():
     )
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(CustomFormatter())
+    if _get_file_handlers():
+        # Log folder changed, stop logging in the previous folder
+        remove_file_handler()
     logger.addHandler(fh)
 
 
 def remove_file_handler():
-    timed_handlers = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
+    timed_handlers = _get_file_handlers()
     if len(timed_handlers) != 1:
         raise ValueError(f'Could not remove pyfileconf TimedRotatingFileHandler. '
                          f'Expected 1 registered TimedRotatingFileHandler, '
@@ -52,3 +55,7 @@ def remove_file_handler():
     timed_handler = timed_handlers[0]
     timed_handler.close()
     logger.handlers = [h for h in logger.handlers if h is not timed_handler]
+
+
+def _get_file_handlers():
+    return [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
-- 
2.43.0


From c1b53f19a60050a05b68d15c177abe21be3a8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 15/65] fix: track config changes for items which are not
 loaded or which have an argument named 'd'

---
 pyfileconf/config/models/manager.py |  2 +-
 pyfileconf/runner/models/runner.py  | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 2dd815e..348e16e 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -192,7 +192,7 @@ class ConfigManager(ReprMixin):
         assert current_config is not None  # should never fail this, for mypy
 
         # Not a new config, need to actually determine whether would be updated
-        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
+        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
         if would_update:
             self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index f380875..a4d7925 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -398,7 +398,8 @@ class Runner(ReprMixin):
 
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
+        if updated and section_path_str is not None:
+            self._config.track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -406,9 +407,12 @@ class Runner(ReprMixin):
         is passed, resets local config.
         """
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
-        if updated and section_path_str in self._loaded_objects:
+        is_loaded = section_path_str in self._loaded_objects
+        if updated and is_loaded:
             apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, **default)
+        # With allow_create, may be a new item, which does not have a config that changed
+        if updated and section_path_str is not None and (is_loaded or not allow_create):
+            self._config.track_post_update(default, section_path_str, default)
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
@@ -416,6 +420,7 @@ class Runner(ReprMixin):
         if updated and section_path_str in self._loaded_objects:
             config = self._get_config(section_path_str)
             apply_config(self._loaded_objects[section_path_str], config)
+        if updated:
             self._config.track_post_update(config, section_path_str, updates)
 
     def _is_specific_class(self, obj: Any) -> bool:
-- 
2.43.0


From 08fd262fd646ed825b3a5973067c822e4d810664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 16/65] fix: keep applying section configs to items after reset

---
 pyfileconf/runner/models/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index a4d7925..d8c1adc 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -409,6 +409,8 @@ class Runner(ReprMixin):
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         is_loaded = section_path_str in self._loaded_objects
         if updated and is_loaded:
+            # Need to apply section configs on top of the default from the file
+            default = self._get_config(section_path_str)  # type: ignore
             apply_config(self._loaded_objects[section_path_str], default)
         # With allow_create, may be a new item, which does not have a config that changed
         if updated and section_path_str is not None and (is_loaded or not allow_create):
-- 
2.43.0


From 75dcf44b533f162e5473a95dcb7b0b7a59b206fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 17/65] fix: persist updates through refresh even if they match
 the current config

---
 pyfileconf/basemodels/config.py     | 13 ++++++++++---
 pyfileconf/config/models/manager.py |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index a49f19a..9ef7346 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -66,13 +66,20 @@ class ConfigBase(dict):
         if E is None:
             E = {}
 
-        # Track the updates so they can be applied later
-        all_updates = {**E, **F}
         if pyfileconf_persist:
-            self._applied_updates.update(all_updates)
+            self.persist_update(E, **F)
 
         super().update(E, **F)
 
+    def persist_update(self, E=None, **F):
+        """
+        Track the updates so they can be applied later, when refreshing
+        """
+        if E is None:
+            E = {}
+
+        self._applied_updates.update({**E, **F})
+
     def to_file(self, filepath: str):
 
         if self._file is None:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 348e16e..65e9e8a 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -63,6 +63,9 @@ class ConfigManager(ReprMixin):
         )
         if would_update:
             config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+        elif pyfileconf_persist:
+            # Nothing to change now, but the values must also last through refreshing
+            config_obj.persist_update(d_, **kwargs)
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
-- 
2.43.0


From aaff89d54238d30e3c81d8bdaa4306d05cd60fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 18/65] fix: forget updates on reset even if the config matches
 the default

---
 pyfileconf/config/models/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 65e9e8a..14f0f0a 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -196,8 +196,9 @@ class ConfigManager(ReprMixin):
 
         # Not a new config, need to actually determine whether would be updated
         would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
-        if would_update:
-            self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
+        # Always replace the config, as even if the values are the same, it may have updates to be forgotten.
+        # The config exists already so it must not be created
+        self._set_func_or_section_config(section_path_str, value=value, allow_create=False)
         return value, would_update
 
     def _get_func_or_section_configs(self, section_path_str: str) -> Optional[ActiveFunctionConfig]:
-- 
2.43.0


From 1b52457a0d05f02df2d3bff5dfa9d5e044faeffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 19/65] fix: do not fail to reload after a module was already
 removed

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index cdb1d34..a30293e 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -575,7 +575,7 @@ class PipelineManager:
         )
 
     def _wipe_loaded_modules(self):
-        [sys.modules.pop(module) for module in self._loaded_modules]
+        [sys.modules.pop(module, None) for module in self._loaded_modules]
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
-- 
2.43.0


From 00b75f4cf86b758b2df25781c415104509782b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 20/65] fix: run each case with its own config even if the
 config was changed between cases

---
 pyfileconf/plugin/default_hooks.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/plugin/default_hooks.py b/pyfileconf/plugin/default_hooks.py
index 100040d..d8ab70e 100644
--- a/pyfileconf/plugin/default_hooks.py
+++ b/pyfileconf/plugin/default_hooks.py
@@ -44,17 +44,13 @@ def pyfileconf_iter_update_for_case(
     """
     from pyfileconf.batch import BatchUpdater
 
-    updated_confs: Sequence[Dict[str, Any]]
-    if runner.last_case is not None:
-        updated_confs = [conf for conf in case if conf not in runner.last_case]
-    else:
-        updated_confs = case
-
     bu = BatchUpdater(
         base_section_path_str=runner.base_section_path_str,
         strip_manager_from_iv=runner.strip_manager_from_iv,
     )
-    bu.update(updated_confs)
+    # Always apply the full case, even if part of it is the same as in the last case, as the
+    # config may have been changed in between. It has no effect for config which did not change
+    bu.update(case)
 
 
 @hookimpl
-- 
2.43.0


From 6f54c81ae9eb665fdaf016c4636cb817897badee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 21/65] fix: allow updating local and section configs with keys
 they do not have yet

---
 pyfileconf/config/models/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 14f0f0a..e401ce1 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -336,6 +336,10 @@ class ConfigManager(ReprMixin):
 
         all_updates = {**d_, **updates}
         would_update = config_.would_update(all_updates)
+        if section_path_str is None or not self._is_function_or_pipeline_path(section_path_str):
+            # The keys of an item's config are the arguments of the item, but local and section configs
+            # apply to items having different arguments and so can take new keys
+            would_update = would_update or any(key not in config_ for key in all_updates)
         if would_update and section_path_str is not None:
             self._track_pre_update(config_, section_path_str, all_updates)
         return would_update
-- 
2.43.0


From 6b141af06f81280db669b08a79fa6d748f2bc272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 22/65] fix: never lose the contents of config and dict files
 if writing them fails part way

---
 pyfileconf/io/file/interfaces/config.py   |  5 +++--
 pyfileconf/io/file/interfaces/datadict.py |  4 ++--
 pyfileconf/io/file/interfaces/pipeline.py |  4 ++--
 pyfileconf/io/file/write/atomic.py        | 27 +++++++++++++++++++++++
 pyfileconf/main.py                        |  7 +++---
 5 files changed, 37 insertions(+), 10 deletions(-)
 create mode 100644 pyfileconf/io/file/write/atomic.py

diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index a8a5200..0ea4764 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -4,6 +4,8 @@ if TYPE_CHECKING:
 
 from pyfileconf.io.file.load.lazy.config import ConfigFileLoader
 from pyfileconf.io.file.write.config import ConfigFileStr
+from pyfileconf.io.file.write.atomic import write_text_atomically
+
 
 class ConfigFileInterface(ConfigFileLoader):
 
@@ -15,5 +17,4 @@ class ConfigFileInterface(ConfigFileLoader):
             existing_body=self.assignment_body
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_text_atomically(self.filepath, file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/interfaces/datadict.py b/pyfileconf/io/file/interfaces/datadict.py
index 7c7c78a..26a8713 100644
--- a/pyfileconf/io/file/interfaces/datadict.py
+++ b/pyfileconf/io/file/interfaces/datadict.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 from pyfileconf.io.file.load.lazy.datadict import SpecificClassDictLoader
 from pyfileconf.io.file.write.base import FileStr
+from pyfileconf.io.file.write.atomic import write_text_atomically
 
 
 class SpecificClassDictInterface(SpecificClassDictLoader):
@@ -19,5 +20,4 @@ class SpecificClassDictInterface(SpecificClassDictLoader):
             existing_body=[]
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_text_atomically(self.filepath, file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/interfaces/pipeline.py b/pyfileconf/io/file/interfaces/pipeline.py
index 1cac03f..84c9170 100644
--- a/pyfileconf/io/file/interfaces/pipeline.py
+++ b/pyfileconf/io/file/interfaces/pipeline.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 from pyfileconf.io.file.load.lazy.pipeline import PipelineDictLoader
 from pyfileconf.io.file.write.base import FileStr
+from pyfileconf.io.file.write.atomic import write_text_atomically
 
 
 class PipelineDictInterface(PipelineDictLoader):
@@ -19,5 +20,4 @@ class PipelineDictInterface(PipelineDictLoader):
             existing_body=[]
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_text_atomically(self.filepath, file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/write/atomic.py b/pyfileconf/io/file/write/atomic.py
new file mode 100644
index 0000000..86ad3c3
--- /dev/null
+++ b/pyfileconf/io/file/write/atomic.py
@@ -0,0 +1,27 @@
+import os
+import shutil
+
+
+def write_text_atomically(filepath: str, text: str) -> None:
+    """
+    Replaces the contents of a file at once, so that the existing contents, which may be defined
+    by the user, are never lost or cut off if the process stops or fails while writing.
+
+    :param filepath: file to create or replace
+    :param text: full contents for the file
+    :return:
+    """
+    target_path = os.path.realpath(filepath)
+    # Not ending with .py so it will never be picked up as a config file
+    temp_path = target_path + '.tmp'
+
+    try:
+        with open(temp_path, 'w', newline='\n', encoding='utf8') as f:
+            f.write(text)
+        if os.path.exists(target_path):
+            shutil.copymode(target_path, temp_path)
+        os.replace(temp_path, target_path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index a30293e..0f98dcc 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -23,6 +23,7 @@ from pyfileconf.dictfiles.modify import add_item_into_nested_dict_at_section_pat
 from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.imports.models.statements.obj import ObjectImportStatement
+from pyfileconf.io.file.write.atomic import write_text_atomically
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
 from pyfileconf.logic.combine import \
@@ -726,15 +727,13 @@ def create_project(path: str, logs_path: str,
     if logs_path is not None and not os.path.exists(logs_path):
         os.makedirs(logs_path)
     if not os.path.exists(pipeline_path):
-        with open(pipeline_path, 'w') as f:
-            f.write('\npipeline_dict = {}\n')
+        write_text_atomically(pipeline_path, '\npipeline_dict = {}\n')
     if specific_class_config_dicts:
         for specific_class_config in specific_class_config_dicts:
             name = specific_class_config['name']
             dict_path = os.path.join(path, f'{name}_dict.py')
             if not os.path.exists(dict_path):
-                with open(dict_path, 'w') as f:
-                    f.write(f'\nclass_dict = {{}}\n')
+                write_text_atomically(dict_path, '\nclass_dict = {}\n')
 
 
 
-- 
2.43.0


From 74eded93f1f95a87ee6b2f6752d5cee7cc8bf10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 23/65] fix: return a list when running a list and run all the
 items returned by pre-run hooks

---
 pyfileconf/main.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 0f98dcc..57f35a4 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -26,8 +26,7 @@ from pyfileconf.imports.models.statements.obj import ObjectImportStatement
 from pyfileconf.io.file.write.atomic import write_text_atomically
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
-from pyfileconf.logic.combine import \
-    combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item
+from pyfileconf.logic.combine import combine_items_into_list_whether_they_are_lists_or_not
 from pyfileconf.pipelines.models.collection import PipelineCollection
 from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
 from pyfileconf.plugin import manager as plugin_manager
@@ -143,16 +142,18 @@ class PipelineManager:
         Returns: result or list of results
 
         """
-        str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
-            section_path_str_or_list
-        )
         additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
             section_path_str_or_list=section_path_str_or_list, pm=self
         )
-        # Will be converted into list always
-        str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
-            str_or_list_only, additional_items
+        # Must convert after calling the hook as it may modify the passed list in place
+        str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
+            section_path_str_or_list
         )
+        for items in additional_items:
+            # Each hook implementation may return one or multiple items
+            str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not(
+                str_or_list_only, self._convert_list_or_single_item_view_or_str_to_strs(items)
+            )
 
         if options.log_stdout:
             with stdout_also_logged():
-- 
2.43.0


From 3dbe6cb3ad87bb9bc5b2a270dce54ceb1222dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 24/65] fix: create the project with the passed name for the
 defaults folder

---
 pyfileconf/main.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 57f35a4..a2b1438 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -69,6 +69,7 @@ class PipelineManager:
         self.pipeline_dict_path = os.path.join(folder, 'pipeline_dict.py')
         self.specific_class_config_dicts = specific_class_config_dicts
         self.specific_class_names = [sc_dict['name'] for sc_dict in specific_class_config_dicts]
+        self.default_config_folder_name = default_config_folder_name
         self.default_config_path = os.path.join(self.folder, default_config_folder_name)
         self.name = name
         self.auto_pdb = auto_pdb
@@ -607,7 +608,10 @@ class PipelineManager:
 
     def _create_project_if_needed(self):
         if self._need_to_create_project():
-            create_project(self.folder, options.log_folder, self.specific_class_config_dicts)
+            create_project(
+                self.folder, options.log_folder, self.specific_class_config_dicts,
+                default_config_folder_name=self.default_config_folder_name
+            )
 
     def _need_to_create_project(self) -> bool:
         return any([
@@ -716,11 +720,12 @@ def report_runner_exceptions(runner_exceptions: List[RunnerException]) -> None:
 
 
 def create_project(path: str, logs_path: str,
-                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None):
+                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None,
+                   default_config_folder_name: str = 'defaults'):
     """
     Creates a new pyfileconf project file structure
     """
-    defaults_path = os.path.join(path, 'defaults')
+    defaults_path = os.path.join(path, default_config_folder_name)
     pipeline_path = os.path.join(path, 'pipeline_dict.py')
 
     if not os.path.exists(defaults_path):
-- 
2.43.0


From 292aa3d8775cc37e189c4e6735c5c8297322e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 25/65] fix: getting a section does not replace the objects of
 class items in it with partials

---
 pyfileconf/runner/models/runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index d8c1adc..7490034 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -323,7 +323,9 @@ class Runner(ReprMixin):
         full_func = partial(func, **config_dict)
 
         self._add_full_section_path_str_to_obj(section_path_str, full_func)
-        self._loaded_objects[section_path_str] = full_func
+        if not inspect.isclass(func):
+            # For a class within a section, the object to be loaded for the item is the instance, not this partial
+            self._loaded_objects[section_path_str] = full_func
         self._add_to_config_dependencies_if_necessary(section_path_str)
         return full_func
 
-- 
2.43.0


From 04cc00486002e3341559004de72a928f39919089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 26/65] fix: import names used in signatures which come from
 star imports

---
 pyfileconf/io/func/load/extractimp.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index fe02f9a..0eb3dbf 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -1,5 +1,6 @@
 from typing import List, Sequence, cast
 import ast
+import builtins
 import warnings
 
 from pyfileconf.exceptions.imports import NoImportMatchingNameException
@@ -33,7 +34,12 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
         try:
             import_or_none = imports.get_import_for_module_or_obj_name(name)
         except NoImportMatchingNameException:
-            # Not defined in or imported into this file, e.g. builtins
+            # Not defined in or directly imported into this file, e.g. builtins
+            if _contains_star_import(imports) and not hasattr(builtins, name):
+                # Must come from the star import, and so is available in this module
+                out_imports.append(
+                    ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}')
+                )
             continue
         if import_or_none is not None:
             out_imports.append(import_or_none)
@@ -47,6 +53,9 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
 
     return out_imports
 
+def _contains_star_import(imports: ImportStatementContainer) -> bool:
+    return any(isinstance(imp, ObjectImportStatement) and '*' in imp.objs for imp in imports)
+
 def _unique_external_names_from_default_dict_and_annotation_dict(default_dict: dict,
                                                                  annotation_dict: dict) -> List[str]:
     names = _unique_external_names_from_assignment_dict(default_dict)
-- 
2.43.0


From e8562750db5b38bb2bbf7b3384c9ac0c11fdefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 27/65] fix: support arbitrary expressions in annotations, e.g.
 Literal[-1]

---
 pyfileconf/io/func/load/extractimp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 0eb3dbf..8143eab 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -120,7 +120,10 @@ def _extract_str_names_from_ambiguous_annotation(annotation) -> List[str]:
             names.extend(_extract_str_names_from_quoted_annotation(annotation.value))
         # Otherwise e.g. None, or ... in Tuple[int, ...], there is no name to extract
     else:
-        raise NotImplementedError(f'no handling for {annotation} of type {type(annotation)}')
+        # E.g. -1 in Literal[-1] or Field(gt=0) in Annotated[int, Field(gt=0)]
+        for child in ast.iter_child_nodes(annotation):
+            if isinstance(child, (ast.expr, ast.keyword)):
+                names.extend(_extract_str_names_from_ambiguous_annotation(child))
 
     return names
 
-- 
2.43.0


From c723f391d18076be083763fc827891dbff92561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 28/65] fix: pass config to functions and classes which are
 decorated using functools.wraps

---
 pyfileconf/imports/logic/load/func.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 0541f65..4ca6073 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -3,7 +3,7 @@ import inspect
 
 
 def function_args_as_dict(func: Callable):
-    args = inspect.getfullargspec(func)
+    args = inspect.getfullargspec(_get_wrapped_function(func))
     out_dict = {}
 
     # for methods and classmethods, want to ignore the first argument (self, cls)
@@ -27,6 +27,14 @@ def function_args_as_dict(func: Callable):
     return out_dict
 
 
+def _get_wrapped_function(func: Callable) -> Callable:
+    # Decorators commonly accept any arguments, get the function which has the actual signature
+    if inspect.isclass(func):
+        init = func.__init__  # type: ignore
+        return inspect.unwrap(init) if hasattr(init, '__wrapped__') else func
+    return inspect.unwrap(func)
+
+
 def get_variable_name_of_obj(obj: Any) -> str:
     return [key for key, value in globals().items() if value == obj][0]
 
-- 
2.43.0


From 387af962168deef128c062a91d68a96bf70e8258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 29/65] fix: allow chained assignments such as a = b = 1 in
 files which are parsed

---
 pyfileconf/io/file/load/parsers/assign.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index 995d52c..d67d804 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -14,9 +14,13 @@ class AssignmentExtractor(ast.NodeVisitor):
 
     def visit_Assign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
-        self.assigns.append(
-            AssignmentStatement.from_ast_assign(node)
-        )
+        for target in node.targets:
+            # There are multiple targets in a chained assignment such as a = b = 1
+            self.assigns.append(
+                AssignmentStatement.from_ast_assign(
+                    ast.copy_location(ast.Assign(targets=[target], value=node.value), node)
+                )
+            )
 
     def visit_AnnAssign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
-- 
2.43.0


From 04b007b12c71e224490d88af8bf0cb909505d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 30/65] fix: recognize all names which are defined in a module
 for defaults and annotations

---
 pyfileconf/io/func/load/args.py       | 41 ++++++++++++++++++++++-----
 pyfileconf/io/func/load/extractimp.py |  4 +--
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index e5e41d9..31638cd 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -72,9 +72,8 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
         function_arg_imports = extract_import_statements_from_function_args_imports_and_assigns(
             ast_function_def.args,
             loader.imports,
-            loader.assigns,
             imp.module,
-            defined_names=_get_names_of_functions_and_classes_defined_in(loader.ast)
+            defined_names=_get_names_defined_in(loader.ast)
         )
         return ast_function_def.args, function_arg_imports
 
@@ -118,8 +117,36 @@ def get_module_filepath_from_import(imp: Optional[AnyImportStatement], import_se
     return func()
 
 
-def _get_names_of_functions_and_classes_defined_in(module: ast.AST) -> List[str]:
-    return [
-        statement.name for statement in module.body  # type: ignore
-        if isinstance(statement, (ast.FunctionDef, ast.ClassDef))
-    ]
+def _get_names_defined_in(module: ast.Module) -> List[str]:
+    collector = _ModuleLevelNameCollector()
+    collector.visit(module)
+    return collector.names
+
+
+class _ModuleLevelNameCollector(ast.NodeVisitor):
+    """
+    Collects names of functions, classes, and variables, which are defined in the module itself, and
+    so not within the functions and classes
+    """
+
+    def __init__(self) -> None:
+        self.names: List[str] = []
+
+    def visit_FunctionDef(self, node):
+        self.names.append(node.name)
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
+
+    def visit_Name(self, node):
+        if isinstance(node.ctx, ast.Store):
+            self.names.append(node.id)
+
+    def _ignore_scope(self, node):
+        pass
+
+    visit_Lambda = _ignore_scope
+    visit_ListComp = _ignore_scope
+    visit_SetComp = _ignore_scope
+    visit_DictComp = _ignore_scope
+    visit_GeneratorExp = _ignore_scope
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 8143eab..8d19099 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -7,12 +7,10 @@ from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
-from pyfileconf.assignments.models.container import AssignmentStatementContainer
 from pyfileconf.logic.inspect import _is_str_matching_builtin_type
 
 def extract_import_statements_from_function_args_imports_and_assigns(args: ast.arguments,
                                                                      imports: ImportStatementContainer,
-                                                                     assigns: AssignmentStatementContainer,
                                                                      current_module_section_path_str: str,
                                                                      defined_names: Sequence[str] = (),
                                                                      ) -> ImportStatementContainer:
@@ -25,7 +23,7 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
 
     # External names may be either due to definition in this module or due to imports
     for name in external_names:
-        if assigns.contains_varname(name) or name in defined_names:
+        if name in defined_names:
             # External name is due to assignment or definition in this module. Create import from this module
             out_imports.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
             continue
-- 
2.43.0


From ee05136cd8889e748ba22a3aba02e682f987fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 31/65] fix: import items from the module which defines them
 rather than from the script being run

---
 pyfileconf/imports/logic/load/name.py | 30 ++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/imports/logic/load/name.py b/pyfileconf/imports/logic/load/name.py
index 0e92b0b..51818d1 100644
--- a/pyfileconf/imports/logic/load/name.py
+++ b/pyfileconf/imports/logic/load/name.py
@@ -16,15 +16,27 @@ def get_module_and_name_imported_from(obj, search_list: List[str]=None) -> Tuple
     if search_list is None:
         search_list = list(sys.modules.keys())
 
-    for module_name in search_list:
+    # The same object can be in many modules, use the one which defines it where possible
+    defining_module_name = getattr(obj, '__module__', None)
+    if defining_module_name in search_list and defining_module_name != '__main__':
+        module = sys.modules[defining_module_name]
+        if _obj_in_module_under_own_name(obj, module):
+            return module, defining_module_name
 
-        # skip modules which were causing issues
-        if _should_skip_module(module_name):
-            continue
+    # Imports from the script being run would not work from anywhere else, so only use it as last resort
+    search_list = sorted(search_list, key=lambda module_name: module_name == '__main__')
 
-        module = sys.modules[module_name]
-        if _obj_in_module(obj, module):
-            return module, module_name
+    # Prefer modules which have the object under its own name rather than renamed
+    for in_module_func in (_obj_in_module_under_own_name, _obj_in_module):
+        for module_name in search_list:
+
+            # skip modules which were causing issues
+            if _should_skip_module(module_name):
+                continue
+
+            module = sys.modules[module_name]
+            if in_module_func(obj, module):
+                return module, module_name
 
     raise CouldNotDetermineModuleForObjectException(f'could not find {obj} in {search_list}')
 
@@ -113,6 +125,10 @@ def _obj_in_module(obj, module: ModuleType) -> bool:
 
     return False
 
+def _obj_in_module_under_own_name(obj, module: ModuleType) -> bool:
+    name = getattr(obj, '__name__', None)
+    return isinstance(name, str) and getattr(module, '__dict__', {}).get(name) is obj
+
 def _name_in_module(name: str, module: ModuleType) -> bool:
     return name in dir(module)
 
-- 
2.43.0


From 0992a62d941e39e8b96093e60afe2437b343664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 32/65] fix: create items in projects which have sections
 within lists

---
 pyfileconf/dictfiles/modify.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/dictfiles/modify.py b/pyfileconf/dictfiles/modify.py
index 6bb6fdd..35041a6 100644
--- a/pyfileconf/dictfiles/modify.py
+++ b/pyfileconf/dictfiles/modify.py
@@ -71,7 +71,13 @@ def create_dict_assignment_str_from_nested_dict_with_ast_names(nested_dict: dict
         elif isinstance(value, list):
             use_str += '['
             for item in value:
-                use_str += item.id + ','
+                if isinstance(item, dict):
+                    # Sections may be next to the items within a list
+                    use_str += '{'
+                    use_str += create_dict_assignment_str_from_nested_dict_with_ast_names(item, use_str)
+                    use_str += '},'
+                else:
+                    use_str += item.id + ','
             use_str += '],'
         elif isinstance(value, dict):
             use_str += '{'
-- 
2.43.0


From 37b9f79e1996c28697156c82f7d25b0670346c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 33/65] fix: a create which fails as config cannot be generated
 does not change the pipeline dict

---
 pyfileconf/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index a2b1438..d9b6c89 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -440,7 +440,6 @@ class PipelineManager:
             # Got path for main pipeline dict, add to main pipeline dict
             if func_or_class is None:
                 raise ValueError('when adding creating item in main pipeline dict, must pass function or class')
-            self._create_pipeline_dict_entry(section_path, func_or_class)
             name = func_or_class.__name__
             full_sp = SectionPath.join(section_path, name)
             mod, import_base = get_module_and_name_imported_from(func_or_class)
@@ -448,6 +447,9 @@ class PipelineManager:
             item = ast.Name(id=name)
             imports = ImportStatementContainer([obj_import])
             registrar_obj = ObjectView.from_ast_and_imports(item, imports)
+            # Raises an exception if it is not possible to create config, so before changing the pipeline dict
+            registrar_obj.default_config
+            self._create_pipeline_dict_entry(section_path, func_or_class)
             if self._general_registrar is None:
                 raise ValueError('general registrar must be defined')
             registrar = self._general_registrar
-- 
2.43.0


From 64e772a299c7ef44353605ab4684dbeda6e8123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 34/65] fix: create does not mix up items of the same name from
 different modules

---
 pyfileconf/main.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index d9b6c89..92c5c88 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -20,6 +20,7 @@ from pyfileconf.data.models.dictconfig import SpecificClassDictConfig
 from pyfileconf.debug import pdb_post_mortem_or_passed_debug_fn
 from pyfileconf.dictfiles.modify import add_item_into_nested_dict_at_section_path, \
     create_dict_assignment_str_from_nested_dict_with_ast_names, pretty_format_str
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.imports.models.statements.obj import ObjectImportStatement
@@ -536,6 +537,7 @@ class PipelineManager:
         pipeline_dict = pipeline_dict_file.load()
 
         mod, import_base = get_module_and_name_imported_from(func_or_class)
+        self._validate_name_is_not_imported_for_another_object(pipeline_dict_file, func_or_class)
         obj_import = ObjectImportStatement([func_or_class.__name__], import_base)
         imports = ImportStatementContainer([obj_import])
 
@@ -554,6 +556,24 @@ class PipelineManager:
         pipeline_dict_file.save(pipeline_dict_config)
 
 
+    @staticmethod
+    def _validate_name_is_not_imported_for_another_object(pipeline_dict_file: PipelineDictFile,
+                                                          func_or_class: Union[Callable, Type]):
+        name = func_or_class.__name__
+        try:
+            existing_import = pipeline_dict_file.interface.imports.get_import_for_module_or_obj_name(name)
+        except NoImportMatchingNameException:
+            return
+
+        existing = existing_import.execute()[0]  # type: ignore
+        if existing is func_or_class:
+            return
+        if (getattr(existing, '__module__', None), getattr(existing, '__name__', None)) != (
+            func_or_class.__module__, name
+        ):
+            raise ValueError(f'cannot create {name} from {func_or_class.__module__} as the pipeline dict already uses '
+                             f'this name for {existing_import}')
+
     def _load_pipeline_config_and_runner(self) -> None:
         """
         External logic for main initialization
-- 
2.43.0


From 410ccf7b9c1a31b37152fc3e4ebfd8198fe579f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:33 +0000
Subject: [PATCH 35/65] fix: create section configs of all new sections when
 creating an item

---
 pyfileconf/basemodels/collection.py       | 8 ++++++++
 pyfileconf/basemodels/registrar.py        | 5 +++++
 pyfileconf/pipelines/models/collection.py | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/pyfileconf/basemodels/collection.py b/pyfileconf/basemodels/collection.py
index e482172..4b51565 100644
--- a/pyfileconf/basemodels/collection.py
+++ b/pyfileconf/basemodels/collection.py
@@ -21,6 +21,14 @@ class Collection(Container, ReprMixin):
     def _output_config_files(self):
         raise scaffolding_error
 
+    def _output_section_config(self):
+        """
+        Outputs only the config files of the section itself, without the items in it.
+
+        If not overridden, the section does not have config files of its own
+        """
+        pass
+
     def _transform_item(self, item):
         """
         Is called on each item when adding items to collection. Should handle whether the item
diff --git a/pyfileconf/basemodels/registrar.py b/pyfileconf/basemodels/registrar.py
index 0cd2f03..5232c47 100644
--- a/pyfileconf/basemodels/registrar.py
+++ b/pyfileconf/basemodels/registrar.py
@@ -64,6 +64,11 @@ class Registrar(ReprMixin):
     def scaffold_config_for(self, section_path_str: str):
         section_path = SectionPath(section_path_str)
 
+        # Outer sections may be new as well
+        for i in range(1, len(section_path) - 1):
+            outer_collection = _get_from_nested_obj_by_section_path(self, section_path[:i])
+            outer_collection._output_section_config()
+
         collection = _get_from_nested_obj_by_section_path(self, section_path[:-1])
         collection._output_config_files()
 
diff --git a/pyfileconf/pipelines/models/collection.py b/pyfileconf/pipelines/models/collection.py
index 00e9815..338b7c5 100644
--- a/pyfileconf/pipelines/models/collection.py
+++ b/pyfileconf/pipelines/models/collection.py
@@ -62,6 +62,12 @@ class PipelineCollection(Collection):
         item_config.update(existing_config) # override function defaults with any settings from file
         item_config.to_file(item_filepath)
 
+    def _output_section_config(self):
+        if not os.path.exists(self.basepath):
+            os.makedirs(self.basepath)
+
+        self._output_section_config_file()
+
     def _output_section_config_file(self):
         """
         creates a blank config file for the section
-- 
2.43.0


From c00db40957cc5157fc3d2f24a34ecf2fa2c47e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 36/65] fix: imports which are not at the top of config files
 are no longer added again on every load

---
 pyfileconf/data/models/collection.py    |  2 +-
 pyfileconf/io/file/interfaces/config.py |  2 +-
 pyfileconf/io/file/load/lazy/config.py  | 12 ++++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/data/models/collection.py b/pyfileconf/data/models/collection.py
index 2565e27..888b22a 100644
--- a/pyfileconf/data/models/collection.py
+++ b/pyfileconf/data/models/collection.py
@@ -74,7 +74,7 @@ class SpecificClassCollection(Collection):
                 name=item_name,
                 **class_config,  # type: ignore
             )
-            existing_imports = existing_config._file.interface.imports
+            existing_imports = existing_config._file.interface.import_section_imports
         else:
             existing_imports = None
 
diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index 0ea4764..ba0d04e 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -13,7 +13,7 @@ class ConfigFileInterface(ConfigFileLoader):
         file_str_obj = ConfigFileStr(
             config,
             existing_assigns=self.assigns,
-            existing_imports=self.imports,
+            existing_imports=self.import_section_imports,
             existing_body=self.assignment_body
         )
 
diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ec486f6..49ab8bc 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -1,6 +1,9 @@
+import ast
 from typing import List, Tuple
 
 from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
+from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
+from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment
 from pyfileconf.pmcontext.actions import PyfileconfActions
 from pyfileconf.pmcontext.tracing import StackTracker
@@ -25,6 +28,13 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
     def assignment_body(self) -> List[str]:
         return self._try_getattr_else_call_func('_assignment_body', self.load)
 
+    @property
+    def import_section_imports(self) -> ImportStatementContainer:
+        """
+        Only the imports which come before everything else in the file. Any others are part of the assignment body
+        """
+        return self._try_getattr_else_call_func('_import_section_imports', self.load)
+
     def _file_body_to_assignment_body(self):
         """
         Warning: Assumes that imports come first, then an assignment section. May have
@@ -35,6 +45,8 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
         if self.body is not None:
             import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
             self._assignment_body = assignment_lines
+            self._import_section_imports = extract_imports_from_ast(ast.parse('\n'.join(import_lines)))
         else:
             self._assignment_body = []
+            self._import_section_imports = ImportStatementContainer([])
 
-- 
2.43.0


From d1ac7a32827c015e455628caf2fbaca0270ea021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:02 +0000
Subject: [PATCH 37/65] fix: config files may import multiple modules in one
 statement

---
 pyfileconf/imports/models/statements/importbase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 8a7144c..5c0aca5 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -13,6 +13,12 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
 
     #### Common class methods and properties
 
+    def __eq__(self, other):
+        if not isinstance(other, type(self)):
+            # Cannot be the same, e.g. import a and from a import b
+            return False
+        return super().__eq__(other)
+
     @property
     def _renamed(self):
         if self.rename_attr is None:
-- 
2.43.0


From 7559879e86f4c3fb53cd062e6f8d5d7e981b25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:27 +0000
Subject: [PATCH 38/65] fix: support unpacking and item assignments, and
 assignments within functions, in config files

---
 pyfileconf/assignments/models/statement.py | 21 ++++------
 pyfileconf/io/file/load/parsers/assign.py  | 48 ++++++++++++++++++----
 2 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/pyfileconf/assignments/models/statement.py b/pyfileconf/assignments/models/statement.py
index b9da56b..da89902 100644
--- a/pyfileconf/assignments/models/statement.py
+++ b/pyfileconf/assignments/models/statement.py
@@ -84,22 +84,17 @@ class AssignmentStatement(ReprMixin, OrderPreferenceMixin):
         )
 
     def to_default_dict_and_annotation_dict(self) -> Tuple[Dict[str, ast.AST], Dict[str, ast.Name]]:
+        if isinstance(self.target, (ast.Attribute, ast.Subscript)):
+            # Assignment like a.b = 6 or a[0] = 6, does not assign a variable
+            return {}, {}
+
         # Set default dict
         try:
             default_dict = {self.target.id: self.value}
-        except AttributeError as e:
-            if "no attribute 'id'" in str(e):
-                try:
-                    self.target.attr  # type: ignore
-                    # Success, means that this was an attribute assignment like a.b = 6, do not need to put
-                    # into default dict
-                    default_dict = {}
-                except AttributeError:
-                    raise NotImplementedError(
-                        f'do not understand how to parse {self.target} (dict: {self.target.__dict__})'
-                    )
-            else:
-                raise e
+        except AttributeError:
+            raise NotImplementedError(
+                f'do not understand how to parse {self.target} (dict: {self.target.__dict__})'
+            )
 
         # Set annotation dict
         annotation_dict = {}
diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index d67d804..b84b038 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -1,5 +1,5 @@
 import ast
-from typing import Union, TYPE_CHECKING
+from typing import List, Tuple, Union, TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.assignments.models.statement import AssignmentStatement
     from pyfileconf.assignments.models.container import AssignmentStatementContainer
@@ -14,20 +14,52 @@ class AssignmentExtractor(ast.NodeVisitor):
 
     def visit_Assign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
-        for target in node.targets:
+        for chained_target in node.targets:
             # There are multiple targets in a chained assignment such as a = b = 1
-            self.assigns.append(
-                AssignmentStatement.from_ast_assign(
-                    ast.copy_location(ast.Assign(targets=[target], value=node.value), node)
+            for target, value in _extract_targets_and_values(chained_target, node.value):
+                self.assigns.append(
+                    AssignmentStatement.from_ast_assign(
+                        ast.copy_location(ast.Assign(targets=[target], value=value), node)
+                    )
                 )
-            )
 
     def visit_AnnAssign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
+        if node.value is None:
+            # Only declares the type, does not assign anything
+            return
         self.assigns.append(
             AssignmentStatement.from_ast_assign(node)
         )
 
+    def _ignore_scope(self, node):
+        # Variables assigned within functions and classes are not variables of the file
+        pass
+
+    visit_FunctionDef = _ignore_scope
+    visit_AsyncFunctionDef = _ignore_scope
+    visit_ClassDef = _ignore_scope
+
+
+def _extract_targets_and_values(target: ast.expr, value: ast.expr) -> List[Tuple[ast.expr, ast.expr]]:
+    """
+    Splits unpacking such as a, b = value into a = value[0] and b = value[1]
+    """
+    if not isinstance(target, (ast.Tuple, ast.List)):
+        return [(target, value)]
+
+    out: List[Tuple[ast.expr, ast.expr]] = []
+    for i, item in enumerate(target.elts):
+        if isinstance(item, ast.Starred) or any(isinstance(prior, ast.Starred) for prior in target.elts[:i]):
+            # Position is not known without evaluating
+            item_target = item.value if isinstance(item, ast.Starred) else item
+            out.extend(_extract_targets_and_values(item_target, value))
+        else:
+            index = ast.Constant(value=i)
+            item_value = ast.Subscript(value=value, slice=index, ctx=ast.Load())
+            out.extend(_extract_targets_and_values(item, item_value))
+    return out
+
 
 def extract_assignments_from_ast(module: ast.Module) -> 'AssignmentStatementContainer':
     ae = AssignmentExtractor()
@@ -53,12 +85,12 @@ class AssignmentByVarnameExtractor(AssignmentExtractor):
         super().__init__()
 
     def visit_Assign(self, node):
-        varnames = [target.id for target in node.targets]
+        varnames = [target.id for target in node.targets if isinstance(target, ast.Name)]
         if self.varname in varnames:
             super().visit_Assign(node)
 
     def visit_AnnAssign(self, node):
-        if node.target.id == self.varname:
+        if isinstance(node.target, ast.Name) and node.target.id == self.varname:
             super().visit_AnnAssign(node)
 
 
-- 
2.43.0


From 512f3661f62fa1456593f81ca26d15a3b5bf5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:53 +0000
Subject: [PATCH 39/65] fix: keep imports from __future__ at the top of config
 files

---
 pyfileconf/config/logic/load.py                   | 13 +++++++++++--
 pyfileconf/imports/models/statements/container.py |  8 +++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/config/logic/load.py b/pyfileconf/config/logic/load.py
index 6bfa129..1aad9fa 100644
--- a/pyfileconf/config/logic/load.py
+++ b/pyfileconf/config/logic/load.py
@@ -13,6 +13,7 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
     # Imports can currently only be read from the top of the file
 
     import_line_nums = _get_line_nums_of_import_statements(lines)
+    future_line_nums = _get_line_nums_of_import_statements(lines, only_future=True)
 
     import_section = []
     assignment_section = []
@@ -27,6 +28,11 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
         if strip_lines:
             line = line.strip('\n')
 
+        # Must stay at the top, even if e.g. a docstring or comment is before it
+        if i + 1 in future_line_nums:
+            import_section.append(line)
+            continue
+
         # Handle import section and add whitespace below import section
         if in_import_section:
             if i + 1 in import_line_nums or _is_whitespace_line(line):
@@ -43,9 +49,10 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
 
     return import_section, assignment_section
 
-def _get_line_nums_of_import_statements(lines: ListOfStrs) -> Set[int]:
+def _get_line_nums_of_import_statements(lines: ListOfStrs, only_future: bool = False) -> Set[int]:
     """
-    Gets the numbers (starting from 1) of the lines which contain only top-level import statements
+    Gets the numbers (starting from 1) of the lines which contain only top-level import statements,
+    optionally limited to imports from __future__
     """
     module = ast.parse('\n'.join(line.rstrip('\n') for line in lines))
 
@@ -53,6 +60,8 @@ def _get_line_nums_of_import_statements(lines: ListOfStrs) -> Set[int]:
     other_line_nums: Set[int] = set()
     for statement in module.body:
         is_import = isinstance(statement, (ast.Import, ast.ImportFrom))
+        if only_future:
+            is_import = isinstance(statement, ast.ImportFrom) and statement.module == '__future__'
         line_nums = import_line_nums if is_import else other_line_nums
         line_nums.update(range(statement.lineno, statement.end_lineno + 1))  # type: ignore
 
diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index ac5100f..dfb4b9f 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -54,7 +54,9 @@ class ImportStatementContainer(Container, ReprMixin):
         return False
 
     def __str__(self):
-        return '\n'.join(str(imp) for imp in self)
+        # Imports from __future__ are only valid before everything else
+        ordered = sorted(self, key=lambda imp: not _is_future_import(imp))
+        return '\n'.join(str(imp) for imp in ordered)
 
     def obj_name_is_imported(self, obj_name: str) -> bool:
 
@@ -194,6 +196,10 @@ class ImportStatementContainer(Container, ReprMixin):
     #     return renames
 
 
+def _is_future_import(imp: AnyImportStatementOrComment) -> bool:
+    return isinstance(imp, ObjectImportStatement) and imp.module == '__future__'
+
+
 def _has_same_renames_for(names: List[str], import_1: AnyImportStatement, import_2: AnyImportStatement) -> bool:
     """
     Whether both imports bind each of the (original) names to the same variable name
-- 
2.43.0


From 225c98cf7c148804001efeb5bf1e0d81b2e3969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:08 +0000
Subject: [PATCH 40/65] fix: items and sections may have the names of
 attributes of the objects they are stored in

---
 pyfileconf/basemodels/collection.py |  7 ++++++-
 pyfileconf/basemodels/registrar.py  | 10 +++++++---
 pyfileconf/config/models/manager.py | 14 +++++++++++---
 pyfileconf/config/models/section.py |  9 +++++++++
 pyfileconf/logic/get.py             | 16 +++++++++++++++-
 pyfileconf/logic/set.py             |  9 +++++++--
 pyfileconf/main.py                  |  8 ++++++++
 7 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/pyfileconf/basemodels/collection.py b/pyfileconf/basemodels/collection.py
index 4b51565..1465f5d 100644
--- a/pyfileconf/basemodels/collection.py
+++ b/pyfileconf/basemodels/collection.py
@@ -4,6 +4,7 @@ import os
 from pyfileconf.basemodels.container import Container
 from mixins.repr import ReprMixin
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
+from pyfileconf.logic.get import _get_child
 from pyfileconf.sectionpath.sectionpath import SectionPath
 
 StrList = List[str]
@@ -70,7 +71,7 @@ class Collection(Container, ReprMixin):
                 # a further section is trying to be accessed. Therefore
                 # this section is not in the collection
                 raise AttributeError(section)
-            obj = getattr(obj, section)
+            obj = _get_child(obj, section)
         return obj
 
     def __getattr__(self, item):
@@ -82,6 +83,10 @@ class Collection(Container, ReprMixin):
     def __dir__(self):
         return self.name_dict.keys()
 
+    @property
+    def _children(self):
+        return self.name_dict
+
     @property  # type: ignore
     def items(self):
         return self._items
diff --git a/pyfileconf/basemodels/registrar.py b/pyfileconf/basemodels/registrar.py
index 5232c47..08e8a61 100644
--- a/pyfileconf/basemodels/registrar.py
+++ b/pyfileconf/basemodels/registrar.py
@@ -5,7 +5,7 @@ from mixins.repr import ReprMixin
 from pyfileconf.basemodels.collection import Collection
 from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
 from pyfileconf.sectionpath.sectionpath import SectionPath
-from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
+from pyfileconf.logic.get import _get_child, _get_from_nested_obj_by_section_path
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 
 class Registrar(ReprMixin):
@@ -29,6 +29,10 @@ class Registrar(ReprMixin):
     def __getattr__(self, item):
         return getattr(self.collection, item)
 
+    @property
+    def _children(self):
+        return self.collection._children
+
     def __dir__(self):
         exposed_methods = [
             'scaffold_config',
@@ -87,7 +91,7 @@ class Registrar(ReprMixin):
         for i, section in enumerate(section_path):
             section_basepath = os.path.join(section_basepath, section)
             try:
-                obj = getattr(obj, section)
+                obj = _get_child(obj, section)
             except AttributeError as e:
                 new_collection = self.collection_class(
                     section_basepath, [], name=section, imports=self.imports,
@@ -96,7 +100,7 @@ class Registrar(ReprMixin):
                     key_attr=self.key_attr, execute_attr=self.execute_attr
                 )
                 obj.append(new_collection)
-                obj = getattr(obj, section)
+                obj = _get_child(obj, section)
 
         # Now have collection object which should hold this final object
         obj.append(value)
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index e401ce1..bab41ba 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -9,7 +9,7 @@ from mixins.repr import ReprMixin
 from pyfileconf.basemodels.config import ConfigBase
 from pyfileconf.config.models.file import ActiveFunctionConfigFile
 from pyfileconf.exceptions.config import ConfigManagerNotLoadedException, CannotResolveConfigDependenciesException
-from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
+from pyfileconf.logic.get import _get_child, _get_from_nested_obj_by_section_path
 from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
 from pyfileconf.config.models.interfaces import ConfigSectionOrConfig
 from pyfileconf.config.models.section import ConfigSection, ActiveFunctionConfig
@@ -29,6 +29,14 @@ class ConfigManager(ReprMixin):
     def __getattr__(self, item):
         return getattr(self.section, item)
 
+    @property
+    def _children(self):
+        return {} if self.section is None else self.section._children
+
+    def _set_child(self, name: str, value: ConfigSectionOrConfig):
+        assert self.section is not None
+        self.section._set_child(name, value)
+
     def __dir__(self):
         exposed_methods = [
             'load',
@@ -253,11 +261,11 @@ class ConfigManager(ReprMixin):
         for i, section in enumerate(section_path[:-1]):
             section_basepath = os.path.join(section_basepath, section)
             try:
-                obj = getattr(obj, section)
+                obj = _get_child(obj, section)
             except KeyError as e:
                 new_section = ConfigSection([], name=section)
                 obj.append(new_section)
-                obj = getattr(obj, section)
+                obj = _get_child(obj, section)
 
         # Now have collection object which should hold this final object
         obj.append(value)
diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index ac4d977..87d04dc 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -52,6 +52,15 @@ class ConfigSection(Container, ReprMixin):
     def config_map(self):
         return self._config_map
 
+    @property
+    def _children(self):
+        return self._config_map
+
+    def _set_child(self, name: str, value: Union[ActiveFunctionConfig, ActiveFunctionConfigFile, 'ConfigSection']):
+        if value.name is None:
+            value.name = name
+        self.items = [config for config in self if config.name != name] + [value]
+
     def _set_config_map(self):
         config_map = {}
         for config in self:
diff --git a/pyfileconf/logic/get.py b/pyfileconf/logic/get.py
index 0301077..39f6958 100644
--- a/pyfileconf/logic/get.py
+++ b/pyfileconf/logic/get.py
@@ -34,11 +34,25 @@ def _get_from_nested_obj_by_section_path(obj, section_path: SectionPath, prevent
             # for some reason it won't work without this try/except block
             pass
 
-        obj = getattr(obj, section)
+        obj = _get_child(obj, section)
 
     return obj
 
 
+def _get_child(obj, name: str):
+    """
+    Gets a section or item by name from the object which contains it. Sections and items may have
+    any name, so they take priority over the attributes of the object which contains them.
+
+    :param obj: collection of sections and items, or an item to get an attribute of
+    :param name: name of section, item, or attribute
+    :return:
+    """
+    if hasattr(type(obj), '_children') and name in obj._children:
+        return obj._children[name]
+    return getattr(obj, name)
+
+
 def _get_public_name_or_special_name(obj, accept_output_names=True) -> str:
     name_attrs = _get_name_attrs(accept_output=accept_output_names)
     for name_var in name_attrs:
diff --git a/pyfileconf/logic/set.py b/pyfileconf/logic/set.py
index 74a5405..0e7aa27 100644
--- a/pyfileconf/logic/set.py
+++ b/pyfileconf/logic/set.py
@@ -1,11 +1,16 @@
 
+from pyfileconf.logic.get import _get_child
 from pyfileconf.sectionpath.sectionpath import SectionPath
 
 
 def _set_in_nested_obj_by_section_path(obj, section_path: SectionPath, value) -> None:
     # Goes into nested sections, until it sets the final section or pipeline
     for section in section_path[:-1]:
-        obj = getattr(obj, section)
+        obj = _get_child(obj, section)
 
     # Now have object of next level up from object desired to be set
-    setattr(obj, section_path[-1], value)
+    name = section_path[-1]
+    if hasattr(type(obj), '_set_child'):
+        obj._set_child(name, value)
+    else:
+        setattr(obj, name, value)
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 92c5c88..46501ba 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -94,6 +94,14 @@ class PipelineManager:
         # Must be getting function
         return getattr(self.runner, item)
 
+    @property
+    def _children(self) -> Dict[str, Any]:
+        if self._general_registrar is None:
+            return {}
+        names = [*self._registrar_dict, *self._general_registrar._children]
+        names.remove('general')
+        return {name: self.runner._lookup_by_attr(name) for name in names}
+
     def __dir__(self):
         exposed_methods = [
             'run',
-- 
2.43.0


From 4f4a7b812a0058a0d343bf2a6ea2fcc6635e8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:34 +0000
Subject: [PATCH 41/65] fix: load the configs of sections with names starting
 with an underscore

---
 pyfileconf/config/models/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index 87d04dc..b791c90 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -89,10 +89,10 @@ class ConfigSection(Container, ReprMixin):
 
         config_file_list = [file for file in next(os.walk(basepath))[2] if file.endswith('.py')]
 
-        # Ignore folders starting with . or _
+        # Ignore folders starting with . or __ (e.g. __pycache__)
         config_section_list = [
             folder for folder in next(os.walk(basepath))[1] if not any(
-                [folder.startswith(item) for item in ('_','.')]
+                [folder.startswith(item) for item in ('__','.')]
             )
         ]
 
-- 
2.43.0


From b1a595f104ae72bc7ce83781cbd3c7450ab41757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:14 +0000
Subject: [PATCH 42/65] fix: selectors work while other managers are not loaded
 and follow managers which are loaded later

---
 pyfileconf/selector/models/selector.py | 49 +++++++++++++++-----------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 8d7e3ed..59f03db 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -2,6 +2,7 @@ import inspect
 from typing import Callable, List, Any
 import warnings
 
+from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException
 from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
 from pyfileconf.sectionpath.sectionpath import SectionPath
 from pyfileconf.pipelines.models.collection import PipelineCollection
@@ -12,7 +13,6 @@ class Selector:
 
     def __init__(self):
         self._attach_to_pipeline_manager()
-        self._load_structure()
         self._is_selector = True
 
     def __contains__(self, item):
@@ -101,12 +101,18 @@ class Selector:
             # return only the manager itself
             return self._managers[manager_name], None
 
+        structure = self._structure
+        if manager_name in self._managers and manager_name not in structure:
+            raise PipelineManagerNotLoadedException(
+                f'call PipelineManager.load() for {manager_name} before accessing its items'
+            )
+
         if section_path[1] in self._managers[manager_name].specific_class_names:
             # got a specific class path
             if len(section_path) == 2:
                 # got only the root data path, e.g. project.sources
                 # return the collection object itself
-                return self._structure[manager_name][section_path[1]], None
+                return structure[manager_name][section_path[1]], None
             collection_name = section_path[1]
             section_path_begin_index = 2
         else:
@@ -114,7 +120,7 @@ class Selector:
             section_path_begin_index = 1
 
         relative_section_path = SectionPath('.'.join(section_path[section_path_begin_index:]))
-        collection_obj = self._structure[manager_name][collection_name]
+        collection_obj = structure[manager_name][collection_name]
 
         return collection_obj, relative_section_path
 
@@ -168,24 +174,25 @@ class Selector:
         from pyfileconf import context
         self._managers = context.active_managers
 
-    def _load_structure(self):
-        from pyfileconf.main import create_collections
-        from pyfileconf import PipelineManager
-        out_dict = {}
-        manager: PipelineManager
-        for manager_name, manager in self._managers.items():
-            manager_dict = {
-                '_general': manager._general_registrar.collection,
-            }
-            for registrar in manager._registrars:
-                collection = registrar.collection
-                manager_dict.update({
-                    collection.name: collection
-                })
-            out_dict[manager_name] = manager_dict
-        self._structure = out_dict
-
-
+    @property
+    def _structure(self):
+        # Managers may be created, loaded or reloaded after the selector was created
+        return {
+            manager_name: self._get_manager_structure(manager)
+            for manager_name, manager in self._managers.items()
+            if manager._general_registrar is not None  # otherwise, manager is not loaded
+        }
+
+    def _get_manager_structure(self, manager):
+        manager_dict = {
+            '_general': manager._general_registrar.collection,
+        }
+        for registrar in manager._registrars:
+            collection = registrar.collection
+            manager_dict.update({
+                collection.name: collection
+            })
+        return manager_dict
 
 
 def _is_selector(obj) -> bool:
-- 
2.43.0


From 3f0025841aebfe24ec53a34b9f8a0e60ac4456fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:43 +0000
Subject: [PATCH 43/65] fix: call the execute attribute of the right specific
 class dict when multiple use the same class

---
 pyfileconf/runner/models/runner.py     | 5 +++--
 pyfileconf/selector/models/itemview.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 7490034..ccd5e84 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -56,7 +56,8 @@ class Runner(ReprMixin):
         self._manager_name = name
 
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
-        self._specific_class_registrar_map = {registrar.klass: registrar for registrar in self._registrars}
+        # The same class may be used in multiple specific class dicts, so must look up by name
+        self._specific_class_registrar_map = {registrar.name: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
@@ -226,7 +227,7 @@ class Runner(ReprMixin):
         with StackTracker(section_path_str, base_section_path_str=self._manager_name):
             klass, config_dict = self._get_class_and_config(section_path_str)
             obj = self._get_one_obj_with_config(section_path_str)
-            registrar = self._specific_class_registrar_map[klass]
+            registrar = self._specific_class_registrar_map[SectionPath(section_path_str)[0]]
             execute_attr = registrar.execute_attr
             func = getattr(obj, execute_attr)
 
diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index a20596a..fd4a96d 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -118,8 +118,9 @@ class ItemView:
             # Got specific registrar class
             # Need to look up the execute attribute and apply section path str
             actual_item._section_path_str = self.section_path_str
-            collection = self._specific_class_collection_map[type(actual_item)]
-            execute_attr = collection.execute_attr
+            # The same class may be used in multiple specific class dicts
+            registrar = manager._registrar_dict[collection_name]
+            execute_attr = registrar.collection.execute_attr
             func = getattr(actual_item, execute_attr)
         else:
             cannot_parse_error = ValueError(f'could not parse actual item, expected partial, '
-- 
2.43.0


From 5e985bb09e0dad3b4435de0d4afa9ae6c3ff2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 44/65] fix: apply changes of section configs and of the local
 config to items which are already loaded

---
 pyfileconf/runner/models/runner.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index ccd5e84..5e929c1 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -401,6 +401,8 @@ class Runner(ReprMixin):
 
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], new_config)
+        elif updated:
+            self._apply_inherited_config_to_loaded_objects(section_path_str)
         if updated and section_path_str is not None:
             self._config.track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
 
@@ -415,6 +417,8 @@ class Runner(ReprMixin):
             # Need to apply section configs on top of the default from the file
             default = self._get_config(section_path_str)  # type: ignore
             apply_config(self._loaded_objects[section_path_str], default)
+        elif updated:
+            self._apply_inherited_config_to_loaded_objects(section_path_str)
         # With allow_create, may be a new item, which does not have a config that changed
         if updated and section_path_str is not None and (is_loaded or not allow_create):
             self._config.track_post_update(default, section_path_str, default)
@@ -425,9 +429,21 @@ class Runner(ReprMixin):
         if updated and section_path_str in self._loaded_objects:
             config = self._get_config(section_path_str)
             apply_config(self._loaded_objects[section_path_str], config)
+        elif updated:
+            self._apply_inherited_config_to_loaded_objects(section_path_str)
         if updated:
             self._config.track_post_update(config, section_path_str, updates)
 
+    def _apply_inherited_config_to_loaded_objects(self, section_path_str: str=None) -> None:
+        """
+        After a section config or the local config was changed, applies it to the
+        items which it affects and which are already loaded
+        """
+        for item_path_str, obj in list(self._loaded_objects.items()):
+            if section_path_str is None or item_path_str.startswith(section_path_str + '.'):
+                apply_config(obj, self._get_config(item_path_str))
+                self._config.refresh_dependent_configs(item_path_str)
+
     def _is_specific_class(self, obj: Any) -> bool:
         return self._all_specific_classes and isinstance(obj, self._all_specific_classes)  # type: ignore
 
-- 
2.43.0


From a4d2a151dc8bd91a8cdbf21847ff1d252f3c5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:23 +0000
Subject: [PATCH 45/65] fix: support resetting sections

---
 pyfileconf/config/models/manager.py | 31 +++++++++++++++++++++++++++++
 pyfileconf/runner/models/runner.py  |  9 ++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index bab41ba..d8fe3a8 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -112,10 +112,41 @@ class ConfigManager(ReprMixin):
         :return: the default configuration
 
         """
+        section = self.get_section(section_path_str)
+        if section is not None:
+            return self._reset_section_config(section, section_path_str)  # type: ignore
+
         default = self._get_default_func_or_section_config(section_path_str, create=allow_create)
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
+    def get_section(self, section_path_str: Optional[str]) -> Optional[ConfigSection]:
+        """
+        :return: the section at the section path, or None if there is not a section at that path
+        """
+        if section_path_str is None:
+            return None
+
+        try:
+            section = _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))
+        except KeyError:
+            return None
+        return section if isinstance(section, ConfigSection) else None
+
+    def _reset_section_config(self, section: ConfigSection, section_path_str: str) -> Tuple[ConfigBase, bool]:
+        default = ConfigSection.from_files(SectionPath(section_path_str).to_filepath(self.basepath)).config
+        if default is None:
+            # Specific class sections do not have a config
+            return ActiveFunctionConfig(), False
+
+        current = section.config if section.config is not None else ActiveFunctionConfig()
+        would_update = self._determine_and_track_if_config_would_be_updated(current, section_path_str, default)
+        if not would_update and any(key not in default for key in current):
+            would_update = True
+            self._track_pre_update(current, section_path_str, default)
+        section.config = default
+        return default, would_update
+
     def pop(self, key: str, section_path_str: str=None) -> Any:
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 5e929c1..8418bf7 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -7,6 +7,7 @@ from mixins.repr import ReprMixin
 from pyfileconf.basemodels.collection import Collection
 from pyfileconf.basemodels.registrar import Registrar
 from pyfileconf.config.logic.apply import apply_config
+from pyfileconf.config.models.file import ActiveFunctionConfigFile
 from pyfileconf.config.models.manager import ConfigManager, ActiveFunctionConfig
 from pyfileconf.data.models.collection import SpecificClassCollection
 from pyfileconf.exceptions.config import ConfigManagerNotLoadedException
@@ -409,7 +410,7 @@ class Runner(ReprMixin):
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
         Resets a function or section config to default. If no section_path_str
-        is passed, resets local config.
+        is passed, resets local config. Resetting a section also resets everything in the section.
         """
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         is_loaded = section_path_str in self._loaded_objects
@@ -423,6 +424,12 @@ class Runner(ReprMixin):
         if updated and section_path_str is not None and (is_loaded or not allow_create):
             self._config.track_post_update(default, section_path_str, default)
 
+        section = self._config.get_section(section_path_str)
+        for config in list(section) if section is not None else []:
+            if not isinstance(config, ActiveFunctionConfigFile):
+                # Was already loaded from the file, so may have updates
+                self.reset(SectionPath.join(section_path_str, config.name).path_str)  # type: ignore
+
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
 
-- 
2.43.0


From 42d60c444c676d54ebed40f1fa750f02d4a3e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:52 +0000
Subject: [PATCH 46/65] fix: arguments of items may have the names of
 parameters used internally, e.g. E

---
 pyfileconf/basemodels/config.py     | 2 +-
 pyfileconf/config/models/manager.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 9ef7346..f475d94 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -137,7 +137,7 @@ class ConfigBase(dict):
         # Reload from file
         new_config = self._get_new_config_from_file()
         all_updates = {**new_config, **self._applied_updates}
-        self.update(pyfileconf_persist=False, **all_updates)
+        self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
     def would_update(self, E=None, **F) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index d8fe3a8..83ffdf6 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -66,14 +66,16 @@ class ConfigManager(ReprMixin):
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
             raise ConfigManagerNotLoadedException('no config to update')
+        # Arguments of items may have any name, so do not pass them on as keyword arguments
+        updates = {**(d_ or {}), **kwargs}
         would_update = self._determine_and_track_if_config_would_be_updated(
-            config_obj, section_path_str, d_, **kwargs
+            config_obj, section_path_str, updates
         )
         if would_update:
-            config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+            config_obj.update(updates, pyfileconf_persist=pyfileconf_persist)
         elif pyfileconf_persist:
             # Nothing to change now, but the values must also last through refreshing
-            config_obj.persist_update(d_, **kwargs)
+            config_obj.persist_update(updates)
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
-- 
2.43.0


From ff2020537be84a58357fee28ca6422c99a6c9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:27 +0000
Subject: [PATCH 47/65] fix: create items in sections with the names of
 attributes of the objects they are stored in

---
 pyfileconf/basemodels/registrar.py  |  8 ++++----
 pyfileconf/config/models/manager.py |  6 +++---
 pyfileconf/logic/get.py             | 13 +++++++++++++
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/basemodels/registrar.py b/pyfileconf/basemodels/registrar.py
index 08e8a61..86c9aa0 100644
--- a/pyfileconf/basemodels/registrar.py
+++ b/pyfileconf/basemodels/registrar.py
@@ -5,7 +5,7 @@ from mixins.repr import ReprMixin
 from pyfileconf.basemodels.collection import Collection
 from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
 from pyfileconf.sectionpath.sectionpath import SectionPath
-from pyfileconf.logic.get import _get_child, _get_from_nested_obj_by_section_path
+from pyfileconf.logic.get import _get_stored_child, _get_from_nested_obj_by_section_path
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 
 class Registrar(ReprMixin):
@@ -91,8 +91,8 @@ class Registrar(ReprMixin):
         for i, section in enumerate(section_path):
             section_basepath = os.path.join(section_basepath, section)
             try:
-                obj = _get_child(obj, section)
-            except AttributeError as e:
+                obj = _get_stored_child(obj, section)
+            except KeyError as e:
                 new_collection = self.collection_class(
                     section_basepath, [], name=section, imports=self.imports,
                     always_assign_strs=self.always_assign_strs,
@@ -100,7 +100,7 @@ class Registrar(ReprMixin):
                     key_attr=self.key_attr, execute_attr=self.execute_attr
                 )
                 obj.append(new_collection)
-                obj = _get_child(obj, section)
+                obj = _get_stored_child(obj, section)
 
         # Now have collection object which should hold this final object
         obj.append(value)
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 83ffdf6..16ec96e 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -9,7 +9,7 @@ from mixins.repr import ReprMixin
 from pyfileconf.basemodels.config import ConfigBase
 from pyfileconf.config.models.file import ActiveFunctionConfigFile
 from pyfileconf.exceptions.config import ConfigManagerNotLoadedException, CannotResolveConfigDependenciesException
-from pyfileconf.logic.get import _get_child, _get_from_nested_obj_by_section_path
+from pyfileconf.logic.get import _get_stored_child, _get_from_nested_obj_by_section_path
 from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
 from pyfileconf.config.models.interfaces import ConfigSectionOrConfig
 from pyfileconf.config.models.section import ConfigSection, ActiveFunctionConfig
@@ -294,11 +294,11 @@ class ConfigManager(ReprMixin):
         for i, section in enumerate(section_path[:-1]):
             section_basepath = os.path.join(section_basepath, section)
             try:
-                obj = _get_child(obj, section)
+                obj = _get_stored_child(obj, section)
             except KeyError as e:
                 new_section = ConfigSection([], name=section)
                 obj.append(new_section)
-                obj = _get_child(obj, section)
+                obj = _get_stored_child(obj, section)
 
         # Now have collection object which should hold this final object
         obj.append(value)
diff --git a/pyfileconf/logic/get.py b/pyfileconf/logic/get.py
index 39f6958..0798110 100644
--- a/pyfileconf/logic/get.py
+++ b/pyfileconf/logic/get.py
@@ -53,6 +53,19 @@ def _get_child(obj, name: str):
     return getattr(obj, name)
 
 
+def _get_stored_child(obj, name: str):
+    """
+    Gets a section or item by name from the object which contains it, without falling back to
+    the attributes of the object which contains it.
+
+    :param obj: collection of sections and items
+    :param name: name of section or item
+    :return:
+    :raises KeyError: When there is no section or item with this name
+    """
+    return obj._children[name]
+
+
 def _get_public_name_or_special_name(obj, accept_output_names=True) -> str:
     name_attrs = _get_name_attrs(accept_output=accept_output_names)
     for name_var in name_attrs:
-- 
2.43.0


From 81c0083b951e8cc4069a09bc4a2ccad928ab5fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 48/65] fix: specific class dicts may be named e.g. get unless
 this is in the pipeline dict as well

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 46501ba..44337ea 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -774,7 +774,7 @@ def create_project(path: str, logs_path: str,
 
 
 def _validate_registrars(registrars: List[SpecificRegistrar], general_registrar: PipelineRegistrar):
-    used_names = dir(general_registrar)
+    used_names = general_registrar._children
     for registrar in registrars:
         if registrar.name in used_names:
             raise ValueError(f'cannot use a name for a specific class dict which is already specified in '
-- 
2.43.0


From 7ba47e5ccaca05ba9b8524e65b80653169e22f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:38 +0000
Subject: [PATCH 49/65] fix: support items named output_name

---
 pyfileconf/logic/get.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logic/get.py b/pyfileconf/logic/get.py
index 0798110..634c6ca 100644
--- a/pyfileconf/logic/get.py
+++ b/pyfileconf/logic/get.py
@@ -69,7 +69,8 @@ def _get_stored_child(obj, name: str):
 def _get_public_name_or_special_name(obj, accept_output_names=True) -> str:
     name_attrs = _get_name_attrs(accept_output=accept_output_names)
     for name_var in name_attrs:
-        if hasattr(obj, name_var):
+        # The attribute may also be an item with this name within a collection
+        if isinstance(getattr(obj, name_var, None), str):
             return getattr(obj, name_var)
 
     raise ValueError(f'could not get .name or .__name__ from {obj} of type {type(obj)}')
@@ -77,7 +78,7 @@ def _get_public_name_or_special_name(obj, accept_output_names=True) -> str:
 def _has_public_name_or_special_name(obj, accept_output_names=True) -> bool:
     name_attrs = _get_name_attrs(accept_output=accept_output_names)
     for name_var in name_attrs:
-        if hasattr(obj, name_var):
+        if isinstance(getattr(obj, name_var, None), str):
             return True
 
     return False
-- 
2.43.0


From a8ac6bd70bed35f1ff461656a39347f00be7f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:12 +0000
Subject: [PATCH 50/65] fix: keep the value of an option if it is not possible
 to apply the new one

---
 pyfileconf/opts/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index cc630e2..a32542d 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -73,7 +73,12 @@ class PyfileconfOption:
         orig_value = getattr(options, self.name)
         setattr(options, self.name, val)
         if self.callback is not None and orig_value != val:
-            self.callback(self.name, val)
+            try:
+                self.callback(self.name, val)
+            except BaseException:
+                # Could not apply the new value, so the original value is still the one in use
+                setattr(options, self.name, orig_value)
+                raise
 
     @property
     def default_value(self) -> Any:
-- 
2.43.0


From b7ced2672492b066e24bbc1409329de602893959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:03 +0000
Subject: [PATCH 51/65] fix: apply log file options which are changed after the
 log folder

---
 pyfileconf/opts/__init__.py |  9 +++++++--
 pyfileconf/opts/filelog.py  | 10 +++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index a32542d..51532f9 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -15,7 +15,10 @@ being set as the second argument.
 from typing import Any, Tuple, Dict, Type, Iterable, List, Optional, Callable
 
 from pyfileconf.logger.logger import logger
-from pyfileconf.opts.filelog import add_file_handler_if_log_folder_exists_else_remove_handler
+from pyfileconf.opts.filelog import (
+    add_file_handler_if_log_folder_exists_else_remove_handler,
+    replace_file_handler_if_log_folder_exists,
+)
 
 
 class PyfileconfOptions:
@@ -32,7 +35,9 @@ class PyfileconfOptions:
     )
 
     option_callbacks: Dict[str, Callable[[str, Any], None]] = {
-        'log_folder': add_file_handler_if_log_folder_exists_else_remove_handler
+        'log_folder': add_file_handler_if_log_folder_exists_else_remove_handler,
+        'log_file_rollover_freq': replace_file_handler_if_log_folder_exists,
+        'log_file_num_keep': replace_file_handler_if_log_folder_exists,
     }
 
     def __init__(self, log_stdout: bool = False, log_folder: Optional[str] = None,
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index b33147e..e3535b7 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,4 +1,4 @@
-from typing import Optional
+from typing import Any, Optional
 
 from pyfileconf.logger.logger import add_file_handler, remove_file_handler
 
@@ -8,3 +8,11 @@ def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, lo
         add_file_handler()
     else:
         remove_file_handler()
+
+
+def replace_file_handler_if_log_folder_exists(attr_name: str, value: Any):
+    from pyfileconf.opts import options
+
+    if options.log_folder is not None:
+        # Handler was created with the previous value
+        add_file_handler()
-- 
2.43.0


From 4e233f4788c93c3039257d450d3095243b01131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:08 +0000
Subject: [PATCH 52/65] fix: do not ignore section configs which raise a
 ValueError

---
 pyfileconf/config/models/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index b791c90..86660d7 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -97,10 +97,10 @@ class ConfigSection(Container, ReprMixin):
         ]
 
         # Special handling for section config
-        try:
+        if 'section.py' in config_file_list:
             config_file_list.remove('section.py')
             section_config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
-        except ValueError:
+        else:
             # Didn't find section config
             section_config = None
 
-- 
2.43.0


From e01f583ac062b31a96c4c7f5050971a00eb18baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 53/65] fix: cancel loads which are interrupted, e.g. by
 KeyboardInterrupt, in the same way as loads which fail

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 44337ea..1b9892a 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -318,7 +318,7 @@ class PipelineManager:
 
         try:
             self._load_pipeline_config_and_runner()
-        except Exception as e:
+        except BaseException as e:
             # Reset loaded modules from import, completely canceling load so it can be tried again
             self._loaded_modules = self._import_tracker.imported_modules
             self._wipe_loaded_modules()
-- 
2.43.0


From 3bac6944640fde5ecbc91f4007743dc73f8937fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:47 +0000
Subject: [PATCH 54/65] fix: reload the modules of items which were imported
 after loading the project

---
 pyfileconf/main.py                        |  6 ++++++
 pyfileconf/pipelines/models/collection.py | 12 ++++++++++++
 pyfileconf/views/object.py                | 13 +++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 1b9892a..d9ee24b 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -608,6 +608,12 @@ class PipelineManager:
         )
 
     def _wipe_loaded_modules(self):
+        if self._general_registrar is not None:
+            # Items are imported once they are used, so this may be after loading
+            original_modules = set(self._import_tracker.original_modules)
+            for module in self._general_registrar.collection.item_modules:
+                if module not in original_modules:
+                    sys.modules.pop(module, None)
         [sys.modules.pop(module, None) for module in self._loaded_modules]
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
diff --git a/pyfileconf/pipelines/models/collection.py b/pyfileconf/pipelines/models/collection.py
index 338b7c5..dfb2c95 100644
--- a/pyfileconf/pipelines/models/collection.py
+++ b/pyfileconf/pipelines/models/collection.py
@@ -1,4 +1,5 @@
 import os
+from typing import List
 
 from pyfileconf.pipelines.models.config import FunctionConfig
 from pyfileconf.logic.get import _get_public_name_or_special_name
@@ -32,6 +33,17 @@ class PipelineCollection(Collection):
         # If item, convert to object view
         return ObjectView.from_ast_and_imports(item, self.imports)
 
+    @property
+    def item_modules(self) -> List[str]:
+        """
+        Modules which are imported to load the items in the collection
+        """
+        modules = []
+        for item in self:
+            if isinstance(item, (PipelineCollection, ObjectView)):
+                modules.extend(item.item_modules)
+        return modules
+
     def _output_config_files(self):
 
         if not os.path.exists(self.basepath):
diff --git a/pyfileconf/views/object.py b/pyfileconf/views/object.py
index 2d1e1b7..93ee1f0 100644
--- a/pyfileconf/views/object.py
+++ b/pyfileconf/views/object.py
@@ -1,4 +1,5 @@
 import ast
+from typing import List
 
 from mixins.propertycache import SimplePropertyCacheMixin
 from pyfileconf.imports.models.statements.interfaces import (
@@ -40,6 +41,18 @@ class ObjectView(SimplePropertyCacheMixin, ReprMixin):
     def module(self) -> str:
         return self._try_getattr_else_call_func('_module', self._set_module)
 
+    @property
+    def item_modules(self) -> List[str]:
+        """
+        Modules which are imported to load the item
+        """
+        if self.import_statement is None:
+            return []
+
+        # The module which defines the item may not be the one from which it is imported
+        modules = [self.module, getattr(getattr(self, '_item', None), '__module__', None)]
+        return [module for module in modules if isinstance(module, str)]
+
     @property
     def name(self) -> str:
         return self._try_getattr_else_call_func('_name', self._set_name)
-- 
2.43.0


From 2de85f3cc24afdbb49d4f4c022948c1515ab2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:25 +0000
Subject: [PATCH 55/65] fix: methods of collections are not items of the
 selector

---
 pyfileconf/basemodels/collection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/basemodels/collection.py b/pyfileconf/basemodels/collection.py
index 1465f5d..f18fddc 100644
--- a/pyfileconf/basemodels/collection.py
+++ b/pyfileconf/basemodels/collection.py
@@ -4,7 +4,7 @@ import os
 from pyfileconf.basemodels.container import Container
 from mixins.repr import ReprMixin
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
-from pyfileconf.logic.get import _get_child
+from pyfileconf.logic.get import _get_stored_child
 from pyfileconf.sectionpath.sectionpath import SectionPath
 
 StrList = List[str]
@@ -71,7 +71,11 @@ class Collection(Container, ReprMixin):
                 # a further section is trying to be accessed. Therefore
                 # this section is not in the collection
                 raise AttributeError(section)
-            obj = _get_child(obj, section)
+            try:
+                obj = _get_stored_child(obj, section)
+            except KeyError:
+                # Attributes of the collection itself are not items
+                raise AttributeError(section)
         return obj
 
     def __getattr__(self, item):
-- 
2.43.0


From c4dce853320f2e691afed8cad704531a5a673fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:26 +0000
Subject: [PATCH 56/65] fix: apply updates to values which are equal but of
 another type, such as True and 1

---
 pyfileconf/basemodels/config.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index f475d94..be9c59c 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -3,6 +3,7 @@ from typing import Tuple, Optional, Type, Sequence, Any, Dict
 import os
 from copy import deepcopy
 
+import numpy as np
 import pandas as pd
 
 from pyfileconf.basemodels.file import ConfigFileBase
@@ -182,17 +183,21 @@ class ConfigBase(dict):
 
 
 def _values_are_equal(val1: Any, val2: Any) -> bool:
+    if type(val1) is not type(val2):
+        # Different values, even if they compare as equal such as 1, 1.0 and True
+        return False
+
     # Special handling for pandas
     if isinstance(val1, (pd.DataFrame, pd.Series)):
         return val1.equals(val2)
-    elif isinstance(val2, (pd.DataFrame, pd.Series)):
-        # First is not pandas object, so must not be equal
-        return False
 
     try:
-        return bool(val1 == val2)
+        result = val1 == val2
     except Exception as e:
         warnings.warn(f'Could not check if values {val1} and {val2} of '
                       f'type {type(val1)} and {type(val2)} are '
                       f'equal. Returning False. Got exception: {e}')
         return False
+
+    # Other results, e.g. from comparing each element, do not tell whether the values are equal
+    return isinstance(result, (bool, np.bool_)) and bool(result)
-- 
2.43.0


From 380f183c714fa4b8c21d8f4611874359d9ea4336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:21 +0000
Subject: [PATCH 57/65] fix: do not change the dictionary passed to update when
 hooks change the updates

---
 pyfileconf/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index d9ee24b..8cdb7ba 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -341,6 +341,11 @@ class PipelineManager:
         :param kwargs: kwarg updates
         :return:
         """
+        if d_ is not None:
+            # Hooks may change the updates, this must not change the passed dictionary
+            # as it would then affect other items which get updated with the same dictionary
+            d_ = dict(d_)
+
         new_updates_list: List[Dict[str, Any]] = plugin_manager.plm.hook.pyfileconf_pre_update(
             pm=self, d_=d_, section_path_str=section_path_str, kwargs=kwargs
         )
-- 
2.43.0


From 45ea13ffdbd54fbaa40009ea65991cf4552eaa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:03 +0000
Subject: [PATCH 58/65] fix: names imported within functions and classes are
 not names of their module

---
 pyfileconf/io/file/load/parsers/imp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyfileconf/io/file/load/parsers/imp.py b/pyfileconf/io/file/load/parsers/imp.py
index d9fcb79..939cee8 100644
--- a/pyfileconf/io/file/load/parsers/imp.py
+++ b/pyfileconf/io/file/load/parsers/imp.py
@@ -28,6 +28,14 @@ class ImportExtractor(ast.NodeVisitor):
             ObjectImportStatement.from_ast_import_from(node)
         )
 
+    def _ignore_scope(self, node):
+        # Names imported within functions and classes are not names of the file
+        pass
+
+    visit_FunctionDef = _ignore_scope
+    visit_AsyncFunctionDef = _ignore_scope
+    visit_ClassDef = _ignore_scope
+
 def extract_imports_from_ast(module: ast.Module) -> ImportStatementContainer:
     ie = ImportExtractor()
     ie.visit(module)
-- 
2.43.0


From ec9492eb9842d2a168b7fb52493b8bad98823e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:08 +0000
Subject: [PATCH 59/65] fix: names which are imported multiple times, e.g. with
 a fallback, are those which took effect

---
 pyfileconf/io/func/load/args.py | 51 +++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index 31638cd..57cfc20 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -1,5 +1,6 @@
 import ast
-from typing import TYPE_CHECKING, List, Tuple, Optional, cast
+from collections import defaultdict
+from typing import TYPE_CHECKING, Dict, List, Set, Tuple, Optional, cast
 
 from pyfileconf.exceptions.imports import NoImportStatementException
 
@@ -120,17 +121,61 @@ def get_module_filepath_from_import(imp: Optional[AnyImportStatement], import_se
 def _get_names_defined_in(module: ast.Module) -> List[str]:
     collector = _ModuleLevelNameCollector()
     collector.visit(module)
-    return collector.names
+    # If a name is imported multiple times, e.g. with a fallback for an import
+    # which fails, only the module itself knows which of the imports took effect
+    return collector.names + collector.names_from_multiple_imports
 
 
 class _ModuleLevelNameCollector(ast.NodeVisitor):
     """
     Collects names of functions, classes, and variables, which are defined in the module itself, and
-    so not within the functions and classes
+    so not within the functions and classes. Also collects what each of the imported names is imported from
     """
 
     def __init__(self) -> None:
         self.names: List[str] = []
+        self.import_sources: Dict[str, Set[Tuple[str, ...]]] = defaultdict(set)
+        self.names_imported_at_runtime: Set[str] = set()
+        self._is_type_checking = False
+
+    @property
+    def names_from_multiple_imports(self) -> List[str]:
+        return [
+            name for name, sources in self.import_sources.items()
+            if len(sources) > 1 and name in self.names_imported_at_runtime
+        ]
+
+    def _add_import(self, name: str, *source: str):
+        self.import_sources[name].add(source)
+        if not self._is_type_checking:
+            self.names_imported_at_runtime.add(name)
+
+    def visit_Import(self, node):
+        for alias in node.names:
+            if alias.asname is None:
+                root_name = alias.name.split('.')[0]
+                self._add_import(root_name, root_name)
+            else:
+                self._add_import(alias.asname, alias.name)
+
+    def visit_ImportFrom(self, node):
+        module = '.' * node.level + (node.module or '')
+        for alias in node.names:
+            # A star import may replace any name which was imported before it
+            names = list(self.import_sources) if alias.name == '*' else [alias.asname or alias.name]
+            for name in names:
+                self._add_import(name, module, alias.name)
+
+    def visit_If(self, node):
+        outer_is_type_checking = self._is_type_checking
+        if 'TYPE_CHECKING' in (getattr(node.test, 'id', None), getattr(node.test, 'attr', None)):
+            # Not executed, so the names do not exist in the module unless it has them elsewhere
+            self._is_type_checking = True
+        for statement in node.body:
+            self.visit(statement)
+        self._is_type_checking = outer_is_type_checking
+        for statement in [node.test, *node.orelse]:
+            self.visit(statement)
 
     def visit_FunctionDef(self, node):
         self.names.append(node.name)
-- 
2.43.0


From b0f8912ade257c56cc412cef637b5c0414ed82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:22 +0000
Subject: [PATCH 60/65] fix: items which get an item that is already loaded
 while they run depend on it

---
 pyfileconf/runner/models/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 8418bf7..3f67f50 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -318,6 +318,7 @@ class Runner(ReprMixin):
 
     def _get_one_func_with_config(self, section_path_str: str) -> Callable:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         func, config_dict = self._get_func_and_config(section_path_str)
@@ -333,6 +334,7 @@ class Runner(ReprMixin):
 
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         obj = self._get_func_or_collection(section_path_str)
-- 
2.43.0


From 8f2523d9440046ca5c1ac5db8996d5ab43a7b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:01 +0000
Subject: [PATCH 61/65] fix: product runs whose cases are changed by plugins,
 e.g. other items or no cases at all

---
 pyfileconf/iterate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2fcd6f4..41d519b 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -71,10 +71,11 @@ class IterativeRunner:
 
         if not hasattr(self, 'cases'):
             raise ValueError('must set cases before calling get_defaults')
-        case = self.cases[0]
-        section_path_strs = [
-            self._get_full_section_path_str(conf['section_path_str']) for conf in case
-        ]
+        # Plugins may add cases for other section paths, or not leave any cases
+        section_path_strs = {
+            self._get_full_section_path_str(conf['section_path_str']): None
+            for case in self.cases for conf in case
+        }
         defaults: Dict[str, Dict[str, Any]] = {}
         for sp_str in section_path_strs:
             pm = PipelineManager.get_manager_by_section_path_str(sp_str)
-- 
2.43.0


From 5e11d226232c624502edaff4ff927c813118f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:32 +0000
Subject: [PATCH 62/65] fix: create of a function which wraps an item of the
 same name replaced that item

---
 pyfileconf/main.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 8cdb7ba..4a911c8 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -581,9 +581,8 @@ class PipelineManager:
         existing = existing_import.execute()[0]  # type: ignore
         if existing is func_or_class:
             return
-        if (getattr(existing, '__module__', None), getattr(existing, '__name__', None)) != (
-            func_or_class.__module__, name
-        ):
+        # The same definition gives another object after its module was reloaded
+        if _get_definitions(existing) != _get_definitions(func_or_class):
             raise ValueError(f'cannot create {name} from {func_or_class.__module__} as the pipeline dict already uses '
                              f'this name for {existing_import}')
 
@@ -726,6 +725,19 @@ def _try_except_run_func_except_user_interrupts(try_func: Callable, except_func:
             except_result = except_func(e, **except_func_kwargs)
         return except_result, False
 
+def _get_definitions(obj: Any) -> List[Tuple[Optional[str], Optional[str], Optional[str]]]:
+    """
+    Gets module, name, and file of the definition of a function or class. Functions which wrap other
+    functions have the module and name of the wrapped function, so also gets those of the wrapped ones.
+    """
+    definitions = []
+    while obj is not None:
+        file = getattr(getattr(obj, '__code__', None), 'co_filename', None)
+        definitions.append((getattr(obj, '__module__', None), getattr(obj, '__name__', None), file))
+        obj = getattr(obj, '__wrapped__', None)
+    return definitions
+
+
 def _return_with_traceback(any: Any) -> Tuple[Any, str]:
     return any, traceback.format_exc()
 
-- 
2.43.0


From 30ab7b37dfa3b3347be6f474b48611fc9a38b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:26 +0000
Subject: [PATCH 63/65] fix: refreshing a section applies keys which are not in
 its config yet, and drops those which should not persist

---
 pyfileconf/basemodels/config.py     | 18 ++++--------------
 pyfileconf/config/models/manager.py | 23 ++++++++++++++++++-----
 pyfileconf/runner/models/runner.py  |  4 +++-
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index be9c59c..d30837d 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -136,8 +136,7 @@ class ConfigBase(dict):
         :return: The updates made to the config
         """
         # Reload from file
-        new_config = self._get_new_config_from_file()
-        all_updates = {**new_config, **self._applied_updates}
+        all_updates = self.config_after_refresh()
         self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
@@ -164,22 +163,13 @@ class ConfigBase(dict):
 
         return False
 
-    def change_from_refresh(self) -> Dict[str, Any]:
+    def config_after_refresh(self) -> Dict[str, Any]:
         """
-        Determines whether refresh would actually cause
-        a change in the config and returns a dictionary of
-        what would be updated
-
         :return: the new config dict that would apply
-            while calling .refresh if it would be updated,
-            otherwise an empty dict
+            while calling .refresh, without changing this config
         """
         new_config = self._get_new_config_from_file()
-        final_updates = {**new_config, **self._applied_updates}
-        would_update = self.would_update(final_updates)
-        if would_update:
-            return final_updates
-        return {}
+        return {**new_config, **self._applied_updates}
 
 
 def _values_are_equal(val1: Any, val2: Any) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 16ec96e..f49f72b 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -1,4 +1,5 @@
 import os
+from copy import copy
 from typing import Union, Any, Optional, Iterable, Dict, TYPE_CHECKING, Tuple, cast
 
 if TYPE_CHECKING:
@@ -85,6 +86,10 @@ class ConfigManager(ReprMixin):
         would_refresh = self._determine_and_track_if_config_would_be_refreshed(config_obj, section_path_str)
         if would_refresh:
             updates = config_obj.refresh()
+            if not self._is_function_or_pipeline_path(section_path_str):
+                # Drop updates which should not persist, and what was removed from the file
+                for key in [key for key in config_obj if key not in updates]:
+                    config_obj.pop(key)
         else:
             updates = {}
         return config_obj, would_refresh, updates
@@ -192,12 +197,16 @@ class ConfigManager(ReprMixin):
             section_configs.append(self._get_func_or_section_configs(full_section))
 
         if config:
+            # Do not put the values of other configs in the item's own config, as they may be
+            # removed from the other configs
+            config = copy(config)
+
             # Override configs. Default config is base config, then gets updated by project, then high
             # level sections to low level sections
-            [config.update(section_config) for section_config in section_configs]
+            [config.update(section_config, pyfileconf_persist=False) for section_config in section_configs]
 
             # Last, override with local config
-            config.update(self.local_config)
+            config.update(self.local_config, pyfileconf_persist=False)
 
         return config
 
@@ -386,10 +395,14 @@ class ConfigManager(ReprMixin):
         return would_update
 
     def _determine_and_track_if_config_would_be_refreshed(self, config: ConfigBase, section_path_str: str) -> bool:
-        updates = config.change_from_refresh()
-        if updates:
+        updates = config.config_after_refresh()
+        would_refresh = config.would_update(updates)
+        if not self._is_function_or_pipeline_path(section_path_str):
+            # As with updates, section configs can take new keys
+            would_refresh = would_refresh or config.keys() != updates.keys()
+        if would_refresh:
             self._track_pre_update(config, section_path_str, updates)
-        return updates != {}
+        return would_refresh
 
     @property
     def pipeline_manager(self) -> 'PipelineManager':
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 3f67f50..6114168 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -403,7 +403,9 @@ class Runner(ReprMixin):
         new_config, updated = self._config.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
 
         if updated and section_path_str in self._loaded_objects:
-            apply_config(self._loaded_objects[section_path_str], new_config)
+            # Other keys may come from section configs
+            config = {**self._get_config(section_path_str), **(d_ or {}), **kwargs}  # type: ignore
+            apply_config(self._loaded_objects[section_path_str], config)  # type: ignore
         elif updated:
             self._apply_inherited_config_to_loaded_objects(section_path_str)
         if updated and section_path_str is not None:
-- 
2.43.0


From 31d2c4e8d51474f7cb83d834cbab5eb5b6f54ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:45 +0000
Subject: [PATCH 64/65] fix: selectors support checks for section paths and for
 items of managers which do not exist

---
 pyfileconf/selector/models/selector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 59f03db..5dac100 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -22,6 +22,10 @@ class Selector:
             warnings.warn('check for if non-str object in Selector will always return False')
             return False
 
+        item = SectionPath.from_ambiguous(item).path_str
+        if SectionPath(item)[0] not in self._managers:
+            return False
+
         collection_obj, relative_section_path = self._get_collection_obj_and_relative_section_path_from_structure(item)
         if relative_section_path is None:
             # got only the root data path, e.g. project.sources. Return the collection object itself
-- 
2.43.0


From 02bdc3700b0b4329265a7eb9723addf195cc66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:30 +0000
Subject: [PATCH 65/65] fix: call both hooks of config changes when resetting
 with allow_create

---
 pyfileconf/config/models/manager.py | 10 ++++++++++
 pyfileconf/runner/models/runner.py  |  8 ++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index f49f72b..0204dfd 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -127,6 +127,16 @@ class ConfigManager(ReprMixin):
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
+    def has_config(self, section_path_str: Optional[str]) -> bool:
+        """
+        :return: whether there is a config or section at the section path
+        """
+        try:
+            self._get_project_config_or_local_config_by_section_path(section_path_str)
+        except KeyError:
+            return False
+        return True
+
     def get_section(self, section_path_str: Optional[str]) -> Optional[ConfigSection]:
         """
         :return: the section at the section path, or None if there is not a section at that path
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 6114168..64a26d7 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -416,16 +416,16 @@ class Runner(ReprMixin):
         Resets a function or section config to default. If no section_path_str
         is passed, resets local config. Resetting a section also resets everything in the section.
         """
+        # With allow_create, may be a new item, which does not have a config that changed
+        is_new = allow_create and not self._config.has_config(section_path_str)
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
-        is_loaded = section_path_str in self._loaded_objects
-        if updated and is_loaded:
+        if updated and section_path_str in self._loaded_objects:
             # Need to apply section configs on top of the default from the file
             default = self._get_config(section_path_str)  # type: ignore
             apply_config(self._loaded_objects[section_path_str], default)
         elif updated:
             self._apply_inherited_config_to_loaded_objects(section_path_str)
-        # With allow_create, may be a new item, which does not have a config that changed
-        if updated and section_path_str is not None and (is_loaded or not allow_create):
+        if updated and section_path_str is not None and not is_new:
             self._config.track_post_update(default, section_path_str, default)
 
         section = self._config.get_section(section_path_str)
-- 
2.43.0

