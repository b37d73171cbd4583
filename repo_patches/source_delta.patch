From bd16891e2023bd36955ad68801de9370c2e87e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 01/35] fix: allow binding keywords named after bound
 positional-only parameters

Name of a positional-only parameter is not reserved among the keywords,
so signature with variadic keyword parameter should accept it (as it does in
"expects"), for the rest of the signatures keywords binding raises an error.
---
 paradigm/_core/models.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index da4ea56..80b117e 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -597,9 +597,6 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                     or kind is ParameterKind.KEYWORD_ONLY):
                 raise TypeError('Got multiple values '
                                 f'for parameter "{positional.name}".')
-            else:
-                raise TypeError(f'Parameter "{positional.name}" is {kind!s}, '
-                                'but was passed as a keyword.')
     return positionals[len(args):] + parameters[len(positionals):]
 
 
-- 
2.43.0


From 525557472bb1ff31803888f8abf01db20596fd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 02/35] fix: reject arguments passed both by position and by
 keyword

Previously "expects" and "all_set" of a signature with variadic keyword
parameter accepted calls that fail with "got multiple values for argument".
---
 paradigm/_core/models.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 80b117e..92ee66c 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -268,6 +268,13 @@ def all_parameters_are_optional(
                for parameter in parameters)
 
 
+def _any_parameter_is_named(parameters: t.Iterable[Parameter],
+                            names: t.Container[str]) -> bool:
+    return any(parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+               and parameter.name in names
+               for parameter in parameters)
+
+
 _Arg = t.TypeVar('_Arg')
 _KwArg = t.TypeVar('_KwArg')
 
@@ -316,6 +323,8 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if _any_parameter_is_named(positionals[:len(args)], kwargs):
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords: t.Iterable[Parameter] = (
@@ -353,6 +362,8 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if _any_parameter_is_named(positionals[:len(args)], kwargs):
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords = (
-- 
2.43.0


From 66076f0520b8c092abeb5d768b0c6dc58dd5b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 03/35] fix: use value of the bound keyword as the default of
 its parameter

Previously a parameter which already has default kept it after binding,
as opposed to both "functools.partial" and "inspect.signature".
---
 paradigm/_core/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 92ee66c..478e3d0 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -640,11 +640,12 @@ def _bind_keywords(parameters: t.Tuple[Parameter, ...],
                                 annotation=parameter.annotation,
                                 name=parameter.name,
                                 kind=ParameterKind.KEYWORD_ONLY,
-                                **({'default': parameter.default}
-                                   if (isinstance(parameter, OptionalParameter)
-                                       and parameter.has_default)
-                                   else ({'default': kwargs[parameter.name]}
-                                         if parameter.name in kwargs_names
+                                **({'default': kwargs[parameter.name]}
+                                   if parameter.name in kwargs_names
+                                   else ({'default': parameter.default}
+                                         if (isinstance(parameter,
+                                                        OptionalParameter)
+                                             and parameter.has_default)
                                          else {}))
                         )
                         if (isinstance(parameter, OptionalParameter)
-- 
2.43.0


From 1c88672994306b3766804b4cda09757747cf14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 04/35] fix: make hashes consistent with equality

Annotations & default values are compared structurally, so objects considered
equal (e.g. distinct but same type variables, "List[int]" and "list[int]")
were having different hashes.  Also unhashable default values are no more
a reason for parameters & signatures to be unhashable.
---
 paradigm/_core/models.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 478e3d0..5268706 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -124,7 +124,8 @@ class RequiredParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation, self._kind, self._name))
+        # equality of annotations does not imply equality of their hashes
+        return hash((self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -216,9 +217,9 @@ class OptionalParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation,
-                     *((self._default,) if self._has_default else ()),
-                     self._kind, self._name))
+        # equality of annotations & defaults
+        # does not imply equality of their hashes
+        return hash((self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -468,7 +469,8 @@ class PlainSignature(BaseSignature):
         return self._parameters, {'returns': self._returns}
 
     def __hash__(self) -> int:
-        return hash((self._parameters, self.returns))
+        # equality of annotations does not imply equality of their hashes
+        return hash(self._parameters)
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
-- 
2.43.0


From d42039dad2e79a434f699cef9a3b60e63282de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 05/35] fix: make annotations equality symmetric for aliases of
 builtin generics

"are_equal(List[int], list[int])" and "are_equal(List, list)" were disagreeing
with their swapped counterparts since neither special nor builtin generic aliases
were dispatched to the generics handler.
---
 paradigm/_core/annotated.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 2b0efb1..489d5af 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -22,6 +22,7 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 
 
 @are_equal.register(GenericAlias)
+@are_equal.register(type(t.List))
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
@@ -62,6 +63,9 @@ def _(left: ParamSpecArgs, right: t.Any) -> bool:
             and are_equal(left.__origin__, right.__origin__))
 
 
+if sys.version_info >= (3, 9):
+    are_equal.register(types.GenericAlias, are_equal.dispatch(type))
+
 if sys.version_info < (3, 10):
     @are_equal.register(types.LambdaType)
     def _(left: types.LambdaType,
-- 
2.43.0


From 105af129a25f4b2081b017811145d16ce9b305f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 06/35] fix: search for inherited constructors in bases of the
 class

Base classes were traversed, but the path of the derived class was looked up
in each of them, so subclasses of stubbed classes without own constructor
were considered accepting no arguments.
---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 14808fe..23489df 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -498,8 +498,8 @@ def _to_class_builder_qualified_path(
     for base_module_path, base_object_path in _to_mro(module_path,
                                                       object_path):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
-        constructor_path = (*object_path, constructor_name)
-        initializer_path = (*object_path, initializer_name)
+        constructor_path = (*base_object_path, constructor_name)
+        initializer_path = (*base_object_path, initializer_name)
         if initializer_path in base_module_annotations:
             return (base_module_path, initializer_path)
         elif constructor_path in base_module_annotations:
-- 
2.43.0


From facc0012134a0a4f1106dfc5578e0620047a7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 07/35] fix: respect positional-only naming convention of the
 stubs

All of the positional parameters were considered positional-only,
so e.g. "expects" of "argparse.ArgumentParser" signature was rejecting keywords
and signature of partial application of "warnings.warn" with keywords
could not be obtained.
---
 paradigm/_core/signatures.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 23489df..fa467ce 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -617,10 +617,25 @@ def _to_positional_parameters(
         _t.Tuple[_ast.arg, _t.Optional[_ast.expr]]
     ] = list(_zip_longest(reversed(signature_ast.args),
                           signature_ast.defaults[::-1]))[::-1]
-    kind = _ParameterKind.POSITIONAL_ONLY
-    return [_parameter_from_ast_node(parameter_ast, default_ast, module_path,
-                                     parent_path, kind)
-            for parameter_ast, default_ast in parameters_with_defaults_ast]
+    # according to PEP-484 names of the positional-only parameters in stubs
+    # start with double underscore
+    positionals_only_count = max(
+            [index
+             for index, parameter_ast in enumerate(signature_ast.args,
+                                                   start=1)
+             if (parameter_ast.arg.startswith('__')
+                 and not parameter_ast.arg.endswith('__'))],
+            default=0
+    )
+    return [_parameter_from_ast_node(
+                    parameter_ast, default_ast, module_path, parent_path,
+                    (_ParameterKind.POSITIONAL_ONLY
+                     if index < positionals_only_count
+                     else _ParameterKind.POSITIONAL_OR_KEYWORD)
+            )
+            for index, (parameter_ast, default_ast) in enumerate(
+                    parameters_with_defaults_ast
+            )]
 
 
 def _to_variadic_keyword_parameter(
-- 
2.43.0


From dcaaf4ff79481321363a8e4586880b5aa43003c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 08/35] fix: do not treat the first parameter of static methods
 as a receiver

---
 paradigm/_core/signatures.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index fa467ce..db1595b 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -334,7 +334,10 @@ def _parameters_from(
         result[0] = _RequiredParameter(annotation=_t.Type[_Self],
                                        kind=_ParameterKind.POSITIONAL_ONLY,
                                        name=result[0].name)
-    elif _stubs.nodes_kinds[module_path].get(parent_path) is _NodeKind.CLASS:
+    elif (_stubs.nodes_kinds[module_path].get(parent_path) is _NodeKind.CLASS
+          and not any(_is_staticmethod(decorator_node, module_path,
+                                       parent_path)
+                      for decorator_node in ast_node.decorator_list)):
         result[0] = _RequiredParameter(annotation=_Self,
                                        kind=_ParameterKind.POSITIONAL_ONLY,
                                        name=result[0].name)
@@ -376,6 +379,23 @@ def _is_classmethod(
             ) == classmethod_qualified_path)
 
 
+def _is_staticmethod(
+        expression_node: _ast.expr,
+        module_path: _catalog.Path,
+        parent_path: _catalog.Path,
+        *,
+        staticmethod_qualified_path: _catalog.QualifiedPath
+        = (_catalog.module_path_from_module(_builtins),
+           _catalog.path_from_string(staticmethod.__qualname__)),
+) -> bool:
+    maybe_path = _conversion.to_maybe_path(expression_node)
+    return (maybe_path is not None
+            and _scoping.resolve_object_path(
+                    module_path, parent_path, maybe_path, _stubs.definitions,
+                    _stubs.references, _stubs.submodules, _stubs.superclasses
+            ) == staticmethod_qualified_path)
+
+
 class _SignatureNotFound(Exception):
     pass
 
-- 
2.43.0


From 618787783a86ab81e7b9f143a6ef2a165638138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 09/35] fix: do not confuse shadowing objects with the builtins
 they shadow

Names missing in the stub of the module were searched among builtins,
so e.g. user-defined "any" from "__main__" or "enum.bin"
were getting signatures of the corresponding builtins.
---
 paradigm/_core/signatures.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index db1595b..68dec63 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -499,11 +499,27 @@ def resolve_qualified_paths(
         for module_path, object_path in [
             _try_resolve_object_path(module_path, object_path)
             for module_path, object_path in qualified_paths
+            if not _shadows_builtin(value, module_path, object_path)
         ]
         if module_path and object_path
     })
 
 
+def _shadows_builtin(
+        value: _t.Callable[..., _t.Any],
+        module_path: _catalog.Path,
+        object_path: _catalog.Path,
+        *,
+        builtins_module_path: _catalog.Path
+        = _catalog.module_path_from_module(_builtins)
+) -> bool:
+    builtin_path = (builtins_module_path, object_path)
+    return (module_path != builtins_module_path
+            and (_try_resolve_object_path(module_path, object_path)
+                 == builtin_path)
+            and not _value_has_qualified_path(value, builtin_path))
+
+
 def _to_class_builder_qualified_path(
         module_path: _catalog.Path,
         object_path: _catalog.Path,
-- 
2.43.0


From edb8f7d03082eae961b5442f3cbeb252dfeb55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 10/35] fix: do not hang forever if child process dies without
 a result

If function exits the interpreter, its process gets killed or its result
can not be serialized then nothing is put into the queue, while the parent
process waits for it indefinitely.
---
 paradigm/_core/execution.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 2def910..ae11584 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -3,7 +3,7 @@ import multiprocessing
 import sys
 import threading
 import typing as t
-from multiprocessing.queues import SimpleQueue
+from multiprocessing.connection import Connection
 
 
 def is_main_process() -> bool:
@@ -21,17 +21,26 @@ def call_in_process(function: t.Callable[..., t.Any],
         try:
             sys.modules['__main__'] = caller_module
             context = multiprocessing.get_context()
-            queue = context.SimpleQueue()
+            receiver, sender = context.Pipe(duplex=False)
             process = context.Process(
-                    target=_put_result_in_queue,
+                    target=_send_result,
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
-                    args=(queue, function, *args),
+                    args=(sender, function, *args),
                     kwargs=kwargs
             )
             process.start()
-            result, error = queue.get()
-            process.join()
+            # the only sender left is the one of the child process,
+            # so its death won't make us wait for the result forever
+            sender.close()
+            try:
+                result, error = receiver.recv()
+            except EOFError:
+                raise RuntimeError(f'Process "{process.name}" has finished '
+                                   'without returning a result.')
+            finally:
+                process.join()
+                receiver.close()
             if error is not None:
                 raise error
             return result
@@ -42,14 +51,14 @@ def call_in_process(function: t.Callable[..., t.Any],
                 sys.modules['__main__'] = main_module
 
 
-def _put_result_in_queue(queue: 'SimpleQueue[t.Any]',
-                         function: t.Callable[..., t.Any],
-                         *args: t.Any,
-                         **kwargs: t.Any) -> None:
+def _send_result(sender: Connection,
+                 function: t.Callable[..., t.Any],
+                 *args: t.Any,
+                 **kwargs: t.Any) -> None:
     try:
         result = function(*args, **kwargs)
     except Exception as error:
-        queue.put((None, error))
+        sender.send((None, error))
         raise error
     else:
-        queue.put((result, None))
+        sender.send((result, None))
-- 
2.43.0


From 0d41b600116a53ffd196143bda0c916e1d85aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 11/35] fix: share lock between calls in child processes

Lock created for each call guards nothing, so concurrent calls
were able to restore main module replaced by each other.
---
 paradigm/_core/execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index ae11584..a26bd5a 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -5,6 +5,9 @@ import threading
 import typing as t
 from multiprocessing.connection import Connection
 
+# replacing of the main module should not be seen by the concurrent calls
+_MAIN_MODULE_LOCK = threading.RLock()
+
 
 def is_main_process() -> bool:
     return multiprocessing.current_process().name == 'MainProcess'
@@ -13,7 +16,7 @@ def is_main_process() -> bool:
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
-    with threading.Lock():
+    with _MAIN_MODULE_LOCK:
         caller_frame = inspect.stack()[1].frame
         caller_module = inspect.getmodule(caller_frame)
         assert caller_module is not None
-- 
2.43.0


From 0dd6e7ca01a883658c32ea858497ce2728a90dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 12/35] fix: register constructors of stubbed named tuples
 under their own path

Generated constructor was added as an object of the class itself,
so it was never found by the search of constructors.
---
 paradigm/_core/stubs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2fb89cc..9f0e55b 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -301,7 +301,8 @@ if _reload_cache:
                         constructor_node = (
                             _named_tuple_to_constructor_ast_node(node)
                         )
-                        self._add_ast_node((class_name,), constructor_node)
+                        self._add_ast_node((class_name, constructor_node.name),
+                                           constructor_node)
                         self._add_superclass(class_path, base_module_path,
                                              base_object_path)
                         continue
-- 
2.43.0


From 31e5792bb7764631a38990ed7f665828a21e737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 13/35] fix: do not let hash seed affect parsed stubs & index
 of modules

Iteration order of sets of modules paths was defining order of definitions,
so state of the stubs (e.g. superclasses & references)
was varying from run to run.
---
 paradigm/_core/sources.py | 5 +++--
 paradigm/_core/stubs.py   | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index afb07ec..d6e67de 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -119,7 +119,8 @@ stdlib_modules_paths = dict.fromkeys(
         chain([catalog.path_from_string(module_name)
                for module_name in sys.builtin_module_names],
               [module_path
-               for path in _sources_directories
-               for module_path in _to_modules_paths(path)
+               # iteration order of sets depends on a hash seed
+               for path in sorted(_sources_directories)
+               for module_path in sorted(_to_modules_paths(path))
                if _is_valid_module_path(module_path)])
 ).keys()
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 9f0e55b..5740761 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -674,7 +674,8 @@ if _reload_cache:
                 modules_submodules, modules_superclasses,
                 visited_modules_paths, classes_bases, generics_parameters_paths
         )
-        for module_path in modules_paths:
+        # iteration order of sets depends on a hash seed
+        for module_path in sorted(modules_paths):
             _parse_stub_scope(
                     module_path, modules_ast_nodes, modules_nodes_kinds,
                     modules_definitions, modules_references,
-- 
2.43.0


From d1286ad6248624e0978098da2e47e94daf4381ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 14/35] fix: fall back to introspection if names used by a stub
 definition are not found

---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 68dec63..e807c7d 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -120,7 +120,7 @@ def _(_callable: _t.Callable[..., _t.Any]) -> _Signature:
         return _from_signatures(*[_from_statement_node(ast_node, _callable,
                                                        module_path, class_path)
                                   for ast_node in ast_nodes])
-    except _SignatureNotFound:
+    except (_SignatureNotFound, _scoping.ObjectNotFound):
         raw_signature = _inspect.signature(_callable)
         return _from_raw_signature(
                 raw_signature.replace(return_annotation=_Self)
@@ -421,7 +421,7 @@ def _from_callable(value: _t.Callable[..., _t.Any]) -> _Signature:
                 _from_statement_node(ast_node, value, module_path, parent_path)
                 for ast_node in ast_nodes
             ]
-        except _SignatureNotFound:
+        except (_SignatureNotFound, _scoping.ObjectNotFound):
             continue
         else:
             return _from_signatures(*signatures)
-- 
2.43.0


From de8d52ee2d97517141bd5317022f8baf764ad968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 15/35] fix: print elements of sets in a definite order

---
 paradigm/_core/pretty.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/pretty.py b/paradigm/_core/pretty.py
index 236b752..168193d 100644
--- a/paradigm/_core/pretty.py
+++ b/paradigm/_core/pretty.py
@@ -59,9 +59,10 @@ def _(value: t.Tuple[t.Any, ...], indent: int, depth: int) -> str:
 @repr_from.register(set)
 def _(value: t.Set[t.Any], indent: int, depth: int) -> str:
     return (('{\n'
-             + ',\n'.join([indent * ' ' * (depth + 1)
-                           + repr_from(sub_value, indent, depth + 1)
-                           for sub_value in value])
+             # iteration order of sets depends on a hash seed
+             + ',\n'.join(sorted([indent * ' ' * (depth + 1)
+                                  + repr_from(sub_value, indent, depth + 1)
+                                  for sub_value in value]))
              + '\n' + indent * ' ' * depth + '}')
             if value
             else repr(value))
-- 
2.43.0


From 69ae78ba7f4d4c2aa4bfeb3818204352d83a9a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 16/35] fix: do not specialize bases of generics in place

Bases of a generic class were modified by its first specialization,
so the class itself and all of its other specializations
inherited from a base with arguments of the first one.
---
 paradigm/_core/stubs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 5740761..50998de 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -816,7 +816,9 @@ if _reload_cache:
                     base_base_module_path: _catalog.Path
                     base_base_object_path: _catalog.Path
                     if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(generic_base)
+                        base_base_node = specialize(
+                                _deepcopy(generic_base)
+                        )
                         base_base_name = _serialization.to_identifier(
                                 base_base_node
                         )
-- 
2.43.0


From d493430770836868cba94e44bf32cba0bb35816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 17/35] fix: keep specializations of generics used in different
 modules apart

Specializations were identified by spelling of arguments only,
so e.g. ``multiprocessing.queues.JoinableQueue``
(based on ``Queue[_T]`` of its module)
was described as based on ``asyncio.Queue``.
---
 paradigm/_core/stubs.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 50998de..8da8702 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -716,30 +716,31 @@ if _reload_cache:
             *,
             specializations_module_path: _catalog.Path = ('__specializations',)
     ) -> None:
-        assert specializations_module_path not in modules_ast_nodes
-        specializations_ast_nodes = modules_ast_nodes[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_definitions
-        specializations_module_scope = modules_definitions[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_nodes_kinds
-        specializations_nodes_kinds = modules_nodes_kinds[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_references
-        specializations_references = modules_references[
-            specializations_module_path
-        ] = {}
         for (class_module_path, class_object_path), class_bases in (
                 classes_bases.items()
         ):
+            # arguments are resolved in modules of specializations users,
+            # so equally spelled ones may differ between modules
+            class_specializations_module_path = (*specializations_module_path,
+                                                 *class_module_path)
+            specializations_ast_nodes = modules_ast_nodes.setdefault(
+                    class_specializations_module_path, {}
+            )
+            specializations_module_scope = modules_definitions.setdefault(
+                    class_specializations_module_path, {}
+            )
+            specializations_nodes_kinds = modules_nodes_kinds.setdefault(
+                    class_specializations_module_path, {}
+            )
+            specializations_references = modules_references.setdefault(
+                    class_specializations_module_path, {}
+            )
             for base in class_bases:
                 base_module_path, base_object_path = _register_base_ast_node(
                         base, class_module_path, class_object_path,
                         classes_bases, generics_parameters_paths,
-                        specializations_ast_nodes, specializations_module_path,
+                        specializations_ast_nodes,
+                        class_specializations_module_path,
                         specializations_module_scope,
                         specializations_nodes_kinds,
                         specializations_references, modules_ast_nodes,
-- 
2.43.0


From ac131068383ab7eca6b61e58d0257c3b0639bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 18/35] fix: resolve names which are whole conditions in stubs

---
 paradigm/_core/stubs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 8da8702..b6ac93c 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -342,7 +342,8 @@ if _reload_cache:
             namespace: _namespacing.Namespace = {}
             for dependency_name in {
                 child.id
-                for child in _recursively_iterate_children(node.test)
+                for child in (node.test,
+                              *_recursively_iterate_children(node.test))
                 if _is_dependency_name(child)
             }:
                 module_path, object_path = self._resolve_object_path(
-- 
2.43.0


From a81d7bbf07670504b5bd0e0e04f09cd2bfbfbd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 19/35] fix: register bases of all specializations

Specializations which are bases of other ones had no bases on their own:
e.g. 'collections.OrderedDict.values' was described as returning a class
without parameters.
---
 paradigm/_core/stubs.py | 89 +++++++++++------------------------------
 1 file changed, 23 insertions(+), 66 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index b6ac93c..6d2f3f0 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -739,7 +739,8 @@ if _reload_cache:
             for base in class_bases:
                 base_module_path, base_object_path = _register_base_ast_node(
                         base, class_module_path, class_object_path,
-                        classes_bases, generics_parameters_paths,
+                        class_module_path, classes_bases,
+                        generics_parameters_paths,
                         specializations_ast_nodes,
                         class_specializations_module_path,
                         specializations_module_scope,
@@ -757,8 +758,9 @@ if _reload_cache:
 
     def _register_base_ast_node(
             base: _ast.expr,
+            origin_module_path: _catalog.Path,
+            origin_object_path: _catalog.Path,
             child_module_path: _catalog.Path,
-            child_object_path: _catalog.Path,
             classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
             generics_parameters_paths: _t.Dict[
                 _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
@@ -785,7 +787,7 @@ if _reload_cache:
                 generic_object_path = _conversion.to_path(base.value)
                 generic_module_path, generic_object_path = (
                     _scoping.resolve_object_path(
-                            child_module_path, child_object_path[:-1],
+                            origin_module_path, origin_object_path[:-1],
                             generic_object_path, modules_definitions,
                             modules_references, modules_submodules,
                             modules_superclasses
@@ -815,77 +817,32 @@ if _reload_cache:
                 generic_bases = classes_bases[(generic_module_path,
                                                generic_object_path)]
                 for generic_base in generic_bases:
-                    base_base_module_path: _catalog.Path
-                    base_base_object_path: _catalog.Path
-                    if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(
-                                _deepcopy(generic_base)
-                        )
-                        base_base_name = _serialization.to_identifier(
-                                base_base_node
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            specializations_module_path, (base_base_name,)
-                        )
-                        if base_base_name not in specializations_module_scope:
-                            generic_base_base_object_path = (
-                                _conversion.to_path(generic_base.value)
-                            )
-                            (
-                                generic_base_base_module_path,
-                                generic_base_base_object_path
-                            ) = _scoping.resolve_object_path(
-                                    generic_module_path,
-                                    generic_object_path[:-1],
-                                    generic_base_base_object_path,
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                            generic_base_base_parameters_paths = (
-                                generics_parameters_paths[
-                                    (generic_base_base_module_path,
-                                     generic_base_base_object_path)
-                                ]
-                            )
-                            base_base_specialization_args = _unpack_ast_node(
-                                    _subscript_to_item(base_base_node)
-                            )
-                            _register_generic_specialization(
-                                    generic_base_base_module_path,
-                                    generic_base_base_object_path,
-                                    child_module_path, base_base_object_path,
-                                    generic_base_base_parameters_paths,
-                                    base_base_specialization_args,
-                                    specializations_ast_nodes,
-                                    specializations_module_scope,
-                                    specializations_nodes_kinds,
-                                    specializations_references,
-                                    modules_ast_nodes, modules_definitions,
-                                    modules_nodes_kinds, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                    else:
-                        base_base_object_path = _conversion.to_path(
-                                generic_base
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            _scoping.resolve_object_path(
-                                    generic_module_path, (),
-                                    base_base_object_path, modules_definitions,
-                                    modules_references, modules_submodules,
-                                    modules_superclasses
-                            )
-                        )
+                    base_base_qualified_path = _register_base_ast_node(
+                            specialize(_deepcopy(generic_base))
+                            if _is_generic_specialization(generic_base)
+                            else generic_base,
+                            generic_module_path, generic_object_path,
+                            child_module_path, classes_bases,
+                            generics_parameters_paths,
+                            specializations_ast_nodes,
+                            specializations_module_path,
+                            specializations_module_scope,
+                            specializations_nodes_kinds,
+                            specializations_references, modules_ast_nodes,
+                            modules_definitions, modules_nodes_kinds,
+                            modules_references, modules_submodules,
+                            modules_superclasses
+                    )
                     modules_superclasses.setdefault(
                             specializations_module_path, {}
                     ).setdefault(base_object_path, []).append(
-                            (base_base_module_path, base_base_object_path)
+                            base_base_qualified_path
                     )
             return specializations_module_path, base_object_path
         else:
             base_reference_path = _conversion.to_path(base)
             return _scoping.resolve_object_path(
-                    child_module_path, child_object_path[:-1],
+                    origin_module_path, origin_object_path[:-1],
                     base_reference_path, modules_definitions,
                     modules_references, modules_submodules,
                     modules_superclasses
-- 
2.43.0


From ba9dd377fb9d7ace4561e686aeb55aa7f12a388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 20/35] fix: resolve aliases of builtins in specializations

E.g. '_DictReadMapping' of 'csv' is an alias of 'dict' and was not found by
members of specializations.
---
 paradigm/_core/stubs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 6d2f3f0..87519e8 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -926,7 +926,8 @@ if _reload_cache:
                             modules_superclasses
                     )
                 )
-                if dependency_module_path != builtins_module_path:
+                if ((dependency_module_path, dependency_object_path)
+                        != (builtins_module_path, dependency_path)):
                     specializations_references[dependency_path] = (
                         dependency_module_path, dependency_object_path
                     )
-- 
2.43.0


From 20ea4739eec86fbfcc00764db1b9109deb2a72b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 21/35] fix: resolve arguments of generics' bases in modules
 which name them

Arguments which are not parameters of the generic were looked up in modules of
its children.
---
 paradigm/_core/stubs.py | 50 +++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 87519e8..74ee597 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -739,8 +739,9 @@ if _reload_cache:
             for base in class_bases:
                 base_module_path, base_object_path = _register_base_ast_node(
                         base, class_module_path, class_object_path,
-                        class_module_path, classes_bases,
-                        generics_parameters_paths,
+                        {name: class_module_path
+                         for name in _to_args_names(base)},
+                        classes_bases, generics_parameters_paths,
                         specializations_ast_nodes,
                         class_specializations_module_path,
                         specializations_module_scope,
@@ -756,11 +757,20 @@ if _reload_cache:
                                                             base_object_path))
 
 
+    def _to_args_names(base: _ast.expr) -> _t.Set[str]:
+        if not _is_generic_specialization(base):
+            return set()
+        item = _subscript_to_item(base)
+        return {node.id
+                for node in (item, *_recursively_iterate_children(item))
+                if _is_dependency_name(node)}
+
+
     def _register_base_ast_node(
             base: _ast.expr,
-            origin_module_path: _catalog.Path,
-            origin_object_path: _catalog.Path,
             child_module_path: _catalog.Path,
+            child_object_path: _catalog.Path,
+            args_modules_paths: _t.Mapping[str, _catalog.Path],
             classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
             generics_parameters_paths: _t.Dict[
                 _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
@@ -787,7 +797,7 @@ if _reload_cache:
                 generic_object_path = _conversion.to_path(base.value)
                 generic_module_path, generic_object_path = (
                     _scoping.resolve_object_path(
-                            origin_module_path, origin_object_path[:-1],
+                            child_module_path, child_object_path[:-1],
                             generic_object_path, modules_definitions,
                             modules_references, modules_submodules,
                             modules_superclasses
@@ -798,9 +808,9 @@ if _reload_cache:
                 ]
                 _register_generic_specialization(
                         generic_module_path, generic_object_path,
-                        child_module_path, base_object_path,
-                        generic_parameters_paths,
-                        specialization_args, specializations_ast_nodes,
+                        base_object_path, generic_parameters_paths,
+                        specialization_args, args_modules_paths,
+                        specializations_ast_nodes,
                         specializations_module_scope,
                         specializations_nodes_kinds,
                         specializations_references, modules_ast_nodes,
@@ -822,8 +832,10 @@ if _reload_cache:
                             if _is_generic_specialization(generic_base)
                             else generic_base,
                             generic_module_path, generic_object_path,
-                            child_module_path, classes_bases,
-                            generics_parameters_paths,
+                            {**{name: generic_module_path
+                                for name in _to_args_names(generic_base)},
+                             **args_modules_paths},
+                            classes_bases, generics_parameters_paths,
                             specializations_ast_nodes,
                             specializations_module_path,
                             specializations_module_scope,
@@ -842,7 +854,7 @@ if _reload_cache:
         else:
             base_reference_path = _conversion.to_path(base)
             return _scoping.resolve_object_path(
-                    origin_module_path, origin_object_path[:-1],
+                    child_module_path, child_object_path[:-1],
                     base_reference_path, modules_definitions,
                     modules_references, modules_submodules,
                     modules_superclasses
@@ -852,10 +864,10 @@ if _reload_cache:
     def _register_generic_specialization(
             generic_module_path: _catalog.Path,
             generic_object_path: _catalog.Path,
-            specialization_module_path: _catalog.Path,
             specialization_object_path: _catalog.Path,
             generic_parameters_paths: _t.Sequence[_catalog.Path],
             specialization_args: _t.Sequence[_ast.expr],
+            args_modules_paths: _t.Mapping[str, _catalog.Path],
             specializations_ast_nodes: _ModuleAstNodes,
             specializations_module_scope: _Scope,
             specializations_nodes_kinds: _ModuleAstNodesKinds,
@@ -885,15 +897,6 @@ if _reload_cache:
         specialize = _SpecializeGeneric(
                 dict(zip(generic_parameters_paths, specialization_args))
         ).visit
-        args_names = (
-                {arg.id
-                 for arg in specialization_args
-                 if _is_dependency_name(arg)}
-                | {child.id
-                   for ast_node in specialization_args
-                   for child in _recursively_iterate_children(ast_node)
-                   if _is_dependency_name(child)}
-        )
         for name in generic_scope.keys():
             generic_field_path = (*generic_object_path, name)
             generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
@@ -918,9 +921,8 @@ if _reload_cache:
                 dependency_path = (dependency_name,)
                 dependency_module_path, dependency_object_path = (
                     _scoping.resolve_object_path(
-                            (specialization_module_path
-                             if dependency_name in args_names
-                             else generic_module_path), (),
+                            args_modules_paths.get(dependency_name,
+                                                   generic_module_path), (),
                             dependency_path, modules_definitions,
                             modules_references, modules_submodules,
                             modules_superclasses
-- 
2.43.0


From 60526a95ebf3373156606ea0943a3fb74dc382e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 22/35] fix: keep declared order of generics' parameters

They were ordered by appearance in bases, so e.g. 'Coroutine[Y, S, R]' and
'dict_values[K, V]' were specialized with arguments put for wrong parameters.
---
 paradigm/_core/stubs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 74ee597..f27d5b1 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -266,19 +266,21 @@ if _reload_cache:
                                        self.module_path)
             class_bases = self.classes_bases[(module_path, class_path)] = []
             type_vars_local_paths = []
+            declared_type_vars_local_paths = []
             for base in node.bases:
                 if _is_generic_specialization(base):
                     type_args_maybe_objects_paths = [
                         _conversion.to_maybe_path(argument)
                         for argument in _collect_type_args(base)
                     ]
-                    type_vars_local_paths += [
+                    base_type_vars_local_paths = [
                         maybe_object_path
                         for maybe_object_path in type_args_maybe_objects_paths
                         if (maybe_object_path is not None
                             and
                             self._is_type_var_object_path(maybe_object_path))
                     ]
+                    type_vars_local_paths += base_type_vars_local_paths
                     base_origin_maybe_object_path = (
                         _conversion.to_maybe_path(base.value)
                     )
@@ -287,6 +289,10 @@ if _reload_cache:
                                     base_origin_maybe_object_path
                             ) in [(typing_module_path, generic_object_path),
                                   (typing_module_path, protocol_object_path)]):
+                        # lists all of the parameters in their order
+                        declared_type_vars_local_paths = (
+                            base_type_vars_local_paths
+                        )
                         continue
                 else:
                     base_reference_path = _conversion.to_path(base)
@@ -314,7 +320,9 @@ if _reload_cache:
                              and base_object_path == generic_object_path)
                     ), (module_path, class_path)
                 class_bases.append(base)
-            generic_parameters = tuple(dict.fromkeys(type_vars_local_paths))
+            generic_parameters = tuple(dict.fromkeys(
+                    declared_type_vars_local_paths + type_vars_local_paths
+            ))
             if generic_parameters:
                 self.generics_parameters_paths[
                     (module_path, class_path)
-- 
2.43.0


From 3711fbdbbf4c4ae0f62c66c2c002003b3f25ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 23/35] fix: recognize specifications of parameters among
 generics' parameters

---
 paradigm/_core/stubs.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index f27d5b1..bbd5746 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -461,10 +461,11 @@ if _reload_cache:
         def _is_type_var_object_path(
                 self, object_path: _catalog.Path,
                 *,
-                type_var_object_path: _catalog.Path
-                = _catalog.path_from_string(_t.TypeVar.__qualname__),
-                typing_module_path: _catalog.Path
-                = _catalog.module_path_from_module(_t),
+                type_vars_objects_paths: _t.Collection[_catalog.Path]
+                = (('ParamSpec',), ('TypeVar',)),
+                typing_modules_paths: _t.Collection[_catalog.Path]
+                = (_catalog.module_path_from_module(_t),
+                   ('typing_extensions',))
         ) -> bool:
             module_path, object_path = self._to_qualified_path(object_path)
             _parse_stub_scope(
@@ -497,8 +498,8 @@ if _reload_cache:
                         self.generics_parameters_paths
                 )
             )
-            return (callable_module_path == typing_module_path
-                    and callable_object_path == type_var_object_path)
+            return (callable_module_path in typing_modules_paths
+                    and callable_object_path in type_vars_objects_paths)
 
 
     class _ObjectNotFound(Exception):
@@ -651,7 +652,8 @@ if _reload_cache:
             if not isinstance(node.ctx, _ast.Load):
                 return node
             candidate = self.table.get(_conversion.to_path(node))
-            return (node
+            # parameter may be spelled in ``*args: P.args, **kwargs: P.kwargs``
+            return (self.generic_visit(node)
                     if candidate is None
                     else _ast.copy_location(_deepcopy(candidate), node))
 
-- 
2.43.0


From 03da615853ca135707b43f6751be940c9a6a9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 24/35] fix: collect nested parameters of generics in their
 order

---
 paradigm/_core/stubs.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index bbd5746..ab6f228 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -621,17 +621,13 @@ if _reload_cache:
 
     def _collect_type_args(ast_node: _ast.expr) -> _t.List[_ast.expr]:
         if _is_generic_specialization(ast_node):
-            queue = [_subscript_to_item(ast_node)]
             args: _t.List[_ast.expr] = []
-            while queue:
-                specialization_node = queue.pop()
-                candidates = _unpack_ast_node(specialization_node)
-                for candidate in reversed(candidates):
-                    if _is_generic_specialization(candidate):
-                        queue.append(_subscript_to_item(candidate))
-                    else:
-                        args.append(candidate)
-            return args[::-1]
+            for candidate in _unpack_ast_node(_subscript_to_item(ast_node)):
+                if _is_generic_specialization(candidate):
+                    args += _collect_type_args(candidate)
+                else:
+                    args.append(candidate)
+            return args
         else:
             return []
 
-- 
2.43.0


From a588101cb0413504a7749b28bdc880d5fa9a0698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 25/35] fix: resolve names of variables' declarations in their
 scopes

---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index e807c7d..26593a3 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -159,7 +159,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
         call_ast_nodes = _load_ast_nodes(module_path,
                                          (*object_path, call_name))
         call_signatures = [_from_statement_node(ast_node, callable_,
-                                                module_path, ())
+                                                module_path, object_path)
                            for ast_node in call_ast_nodes]
         return _from_signatures(*[signature.bind(callable_)
                                   for signature in call_signatures])
@@ -173,7 +173,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
             assert isinstance(annotation_node, _ast.stmt), (module_path,
                                                             object_path)
             return _from_statement_node(annotation_node, callable_,
-                                        module_path, ())
+                                        module_path, object_path[:-1])
     raise _SignatureNotFound
 
 
-- 
2.43.0


From b66fe09c8b6de510245e032bbe7636f93a5f3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 26/35] fix: introspect callables with unsupported declarations
 in stubs

---
 paradigm/_core/signatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 26593a3..3143c92 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -138,7 +138,7 @@ def _from_expression_node(ast_node: _ast.expr,
                           callable_: _t.Callable[..., _t.Any],
                           module_path: _catalog.Path,
                           parent_path: _catalog.Path) -> _Signature:
-    raise TypeError(ast_node)
+    raise _SignatureNotFound
 
 
 @_from_expression_node.register(_ast.Attribute)
-- 
2.43.0


From 5f841614a7e3fea6dd786262717a3cd7c8267c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:55 +0000
Subject: [PATCH 27/35] fix: introspect callables declared as unrestricted type
 variables

---
 paradigm/_core/signatures.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 3143c92..c113ea0 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -198,16 +198,16 @@ def _(ast_node: _ast.Call,
                                       for keyword in ast_node.keywords
                                       if keyword.arg == 'bound'),
                                      None)
-        return (
-            _from_signatures(
+        constraints_nodes = ast_node.args[1:]
+        if maybe_bound_type_node is not None:
+            return _from_expression_node(maybe_bound_type_node, callable_,
+                                         module_path, parent_path)
+        elif constraints_nodes:
+            return _from_signatures(
                     *[_from_expression_node(argument, callable_, module_path,
                                             parent_path)
-                      for argument in ast_node.args[1:]]
+                      for argument in constraints_nodes]
             )
-            if maybe_bound_type_node is None
-            else _from_expression_node(maybe_bound_type_node, callable_,
-                                       module_path, parent_path)
-        )
     raise _SignatureNotFound
 
 
-- 
2.43.0


From 39d989d17a0557ce3028d1b8d9554b42dd04c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:32 +0000
Subject: [PATCH 28/35] fix: resolve names packages import from themselves

---
 paradigm/_core/scoping.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b007fd3..a20a5a0 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -55,7 +55,8 @@ def resolve_object_path(
         modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
         *visited_modules_paths: catalog.Path,
         _builtins_module_path: catalog.Path
-        = catalog.module_path_from_module(builtins)
+        = catalog.module_path_from_module(builtins),
+        _followed_references: t.FrozenSet[catalog.QualifiedPath] = frozenset()
 ) -> catalog.QualifiedPath:
     try:
         module_definitions = modules_definitions[module_path]
@@ -69,7 +70,8 @@ def resolve_object_path(
         return resolve_object_path(
                 module_path, (), parent_path + object_path,
                 modules_definitions, modules_references, modules_submodules,
-                modules_superclasses, *visited_modules_paths
+                modules_superclasses, *visited_modules_paths,
+                _followed_references=_followed_references
         )
     elif object_path[0] in module_definitions:
         module_superclasses, scope = (
@@ -97,7 +99,8 @@ def resolve_object_path(
                                     + object_path[index:],
                                     modules_definitions, modules_references,
                                     modules_submodules, modules_superclasses,
-                                    *visited_modules_paths, module_path
+                                    *visited_modules_paths, module_path,
+                                    _followed_references=_followed_references
                             )
                         except ObjectNotFound:
                             continue
@@ -107,7 +110,8 @@ def resolve_object_path(
                             (object.__name__,) + object_path[index:],
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
-                            *visited_modules_paths
+                            *visited_modules_paths,
+                            _followed_references=_followed_references
                     )
                 else:
                     raise ObjectNotFound((module_path, object_path))
@@ -120,7 +124,8 @@ def resolve_object_path(
                             sub_module_path, (), object_path,
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
-                            *visited_modules_paths, module_path
+                            *visited_modules_paths, module_path,
+                            _followed_references=_followed_references
                     )
                 except ObjectNotFound:
                     continue
@@ -134,13 +139,18 @@ def resolve_object_path(
             except KeyError:
                 continue
             else:
+                reference = (module_path, sub_object_path)
+                if reference in _followed_references:
+                    raise ObjectNotFound((module_path, object_path))
                 try:
                     referent_module_path, referent_object_path = (
                         resolve_object_path(
                                 referent_module_path, (), referent_object_path,
                                 modules_definitions, modules_references,
                                 modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
+                                *visited_modules_paths, module_path,
+                                _followed_references=(_followed_references
+                                                      | {reference})
                         )
                     )
                 except ObjectNotFound:
@@ -157,7 +167,8 @@ def resolve_object_path(
                         + object_path[len(object_path) - offset:],
                         modules_definitions, modules_references,
                         modules_submodules, modules_superclasses,
-                        *visited_modules_paths, module_path
+                        *visited_modules_paths, module_path,
+                        _followed_references=_followed_references
                 )
         if scope_contains_path(modules_definitions[_builtins_module_path],
                                object_path):
-- 
2.43.0


From 2aae27fcc68e52e4f4d7e056ff615994e502864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:27 +0000
Subject: [PATCH 29/35] fix: specialise generic classes which use names of
 their own

---
 paradigm/_core/stubs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index ab6f228..3a52f4c 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -923,6 +923,7 @@ if _reload_cache:
                      for child in _recursively_iterate_children(ast_node)
                      if _is_dependency_name(child)}
                     - specialization_definitions_names
+                    - (generic_scope.keys() - args_modules_paths.keys())
             ):
                 dependency_path = (dependency_name,)
                 dependency_module_path, dependency_object_path = (
-- 
2.43.0


From 289f2fb79798dbb45c73145243c69be2555b388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:26 +0000
Subject: [PATCH 30/35] fix: evaluate classes which have classes in them

---
 paradigm/_core/arboreal/evaluation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index cc32ddc..4a318b7 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -356,7 +356,12 @@ def evaluate_qualified_path(
         class_namespace: namespacing.Namespace = {'__module__': __name__}
         module_namespace: namespacing.Namespace = {'__name__': __name__}
         annotations_nodes = {}
+        nested_classes_names = []
         for name in scope.keys():
+            if (stubs.nodes_kinds[module_path][(*object_path, name)]
+                    is NodeKind.CLASS):
+                nested_classes_names.append(name)
+                continue
             raw_ast_nodes = module_raw_ast_nodes[(*object_path, name)]
             ast_nodes = [construction.from_raw(raw_ast_node)
                          for raw_ast_node in raw_ast_nodes]
@@ -419,6 +424,10 @@ def evaluate_qualified_path(
                         class_namespace
                 )
         )
+        for name in nested_classes_names:
+            setattr(result, name,
+                    evaluate_qualified_path(module_path, (*object_path, name),
+                                            module_namespace))
         if annotations_nodes:
             result.__annotations__.update({
                 name: evaluate_expression_node(annotation_node,
-- 
2.43.0


From b070369091d9c6a1067b783577f7acd65eb4b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:07 +0000
Subject: [PATCH 31/35] fix: evaluate classes with attributes annotated with
 these classes

---
 paradigm/_core/arboreal/evaluation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 4a318b7..ef420c9 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -133,6 +133,11 @@ def _(ast_node: ast.Call,
 
 
 class _LazyEvaluator(ast.NodeTransformer):
+    def visit_AnnAssign(self, node: ast.AnnAssign) -> ast.AnnAssign:
+        node.annotation = ast.Str(conversion.to_str(node.annotation))
+        self.generic_visit(node)
+        return node
+
     def visit_AsyncFunctionDef(
             self, node: ast.AsyncFunctionDef
     ) -> ast.AsyncFunctionDef:
-- 
2.43.0


From 42e12c3178ffbea844536cbce609db754133c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:53 +0000
Subject: [PATCH 32/35] fix: keep dependencies of attributes out of evaluated
 classes

---
 paradigm/_core/arboreal/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index ef420c9..6169d8b 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -405,7 +405,7 @@ def evaluate_qualified_path(
                         )
                 value = evaluate_statement_node(
                         definition_node, module_path, object_path,
-                        ChainMap(class_namespace, module_namespace)
+                        ChainMap({}, class_namespace, module_namespace)
                 )
             if definitions_nodes:
                 class_namespace[name] = value
-- 
2.43.0


From 74b83046788bcc9bcf22f4368308a72e9e6e1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:38 +0000
Subject: [PATCH 33/35] fix: forget aliases which are failed to be evaluated

---
 paradigm/_core/arboreal/evaluation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 6169d8b..5e30581 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -240,8 +240,13 @@ def _(ast_node: ast.Assign,
         else:
             break
     else:
-        result = evaluate_expression_node(ast_node.value, module_path,
-                                          parent_path, parent_namespace)
+        try:
+            result = evaluate_expression_node(ast_node.value, module_path,
+                                              parent_path, parent_namespace)
+        except BaseException:
+            for target_path in targets_paths:
+                del cache[target_path]
+            raise
     for target_path in targets_paths:
         cache[target_path] = result
     return result
-- 
2.43.0


From d7bb0048d73c58e7f394b3be3c5187efbcd84256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:40 +0000
Subject: [PATCH 34/35] fix: evaluate classes derived from the ones referring
 to them once

---
 paradigm/_core/arboreal/evaluation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 5e30581..1a45173 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -424,6 +424,14 @@ def evaluate_qualified_path(
                         object_path, []
                 )
         )
+        try:
+            # might have been evaluated along with its bases & dependencies
+            result = objects_cache[(module_path, object_path)]
+        except KeyError:
+            pass
+        else:
+            parent_namespace[object_path[-1]] = result
+            return result
         if annotations_nodes:
             class_namespace['__annotations__'] = {}
         result = parent_namespace[object_path[-1]] = objects_cache[
-- 
2.43.0


From 13b2d1b7c8c6b9a6e22622556a3beddc07aeb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:01 +0000
Subject: [PATCH 35/35] fix: tell specializations of generics with alike
 arguments from each other

---
 paradigm/_core/arboreal/conversion.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index 1680a14..1000371 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -48,9 +48,10 @@ def to_identifier(ast_node: ast.AST) -> str:
 @to_identifier.register(ast.Subscript)
 def _(ast_node: ast.Subscript) -> str:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
+    # separators may not be parts of names,
+    # so different expressions are never identified by the same string
     return (to_identifier(ast_node.value)
-            + '_getitem_'
-            + to_identifier(ast_node.slice))
+            + '[' + to_identifier(ast_node.slice) + ']')
 
 
 @to_identifier.register(ast.Ellipsis)
@@ -81,15 +82,17 @@ def _(ast_node: ast.BitXor) -> str:
 
 @to_identifier.register(ast.BinOp)
 def _(ast_node: ast.BinOp) -> str:
-    return (to_identifier(ast_node.left)
-            + '_' + to_identifier(ast_node.op) + '_'
-            + to_identifier(ast_node.right))
+    return ('(' + to_identifier(ast_node.left)
+            + ' ' + to_identifier(ast_node.op) + ' '
+            + to_identifier(ast_node.right) + ')')
 
 
 @to_identifier.register(ast.Tuple)
 def _(ast_node: ast.Tuple) -> str:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
-    return '_'.join(to_identifier(element) for element in ast_node.elts)
+    return ('('
+            + ', '.join(to_identifier(element) for element in ast_node.elts)
+            + ')')
 
 
 @to_identifier.register(ast.Name)
@@ -101,7 +104,7 @@ def _(ast_node: ast.Name) -> str:
 @to_identifier.register(ast.Attribute)
 def _(ast_node: ast.Attribute) -> str:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
-    return to_identifier(ast_node.value) + '_' + ast_node.attr
+    return to_identifier(ast_node.value) + '.' + ast_node.attr
 
 
 if sys.version_info < (3, 9):
-- 
2.43.0

