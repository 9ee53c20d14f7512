From a55f71c5313eeebfe925670dafe5883de6527d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 01/40] fix: restore sys.tracebacklimit exactly after every
 parse

---
 pddl/parser/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a2be041..d3b021f 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -58,12 +58,14 @@ class BaseParser(Transformer[Any, T], ABC):
         :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
+        had_tracebacklimit = hasattr(sys, "tracebacklimit")
         old_tracebacklimit = getattr(sys, "tracebacklimit", None)
         try:
             sys.tracebacklimit = 0  # noqa
             result = cast(T, parser.parse(text))
-            sys.tracebacklimit = None  # type: ignore
         finally:
-            if old_tracebacklimit is not None:
-                sys.tracebacklimit = old_tracebacklimit
+            if had_tracebacklimit:
+                sys.tracebacklimit = old_tracebacklimit  # type: ignore
+            else:
+                del sys.tracebacklimit
         return result
-- 
2.43.0


From cf305448af70247adff50fcde30f8bb2768ade4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 02/40] fix: do not carry declarations over from previously
 parsed texts

---
 pddl/parser/base.py    | 2 ++
 pddl/parser/domain.py  | 3 +++
 pddl/parser/plan.py    | 3 +++
 pddl/parser/problem.py | 5 +++++
 4 files changed, 13 insertions(+)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index d3b021f..796ba60 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -43,6 +43,8 @@ class BaseParser(Transformer[Any, T], ABC):
 
     def __call__(self, text: str) -> T:
         """Call."""
+        # forget whatever was collected while parsing previous texts
+        self._transformer.reset()  # type: ignore
         return self._call_parser(text, self._parser)
 
     @classmethod
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ffaca9f..fcf509e 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -66,7 +66,10 @@ class DomainTransformer(Transformer[Any, Domain]):
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the domain transformer."""
         super().__init__(*args, **kwargs)
+        self.reset()
 
+    def reset(self) -> None:
+        """Forget the state collected during a previous parsing."""
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
diff --git a/pddl/parser/plan.py b/pddl/parser/plan.py
index 2da1d83..ec2a097 100644
--- a/pddl/parser/plan.py
+++ b/pddl/parser/plan.py
@@ -28,6 +28,9 @@ class PlanTransformer(Transformer[Any, Plan]):
         """Initialize the plan transformer."""
         super().__init__()
 
+    def reset(self) -> None:
+        """Forget the state collected during a previous parsing (nothing)."""
+
     def ground_action(self, args):
         """Process the 'ground_action' rule."""
         action_name = args[1]
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d8dca2d..d60e673 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -48,6 +48,11 @@ class ProblemTransformer(Transformer[Any, Problem]):
         self._domain_transformer = DomainTransformer()
         self._objects_by_name: Dict[str, Constant] = {}
 
+    def reset(self) -> None:
+        """Forget the state collected during a previous parsing."""
+        self._domain_transformer.reset()
+        self._objects_by_name = {}
+
     def start(self, args):
         """Process the rule 'start'."""
         return args[0]
-- 
2.43.0


From 3b28a386c459079eea8cc5a08bef9251d78fdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 03/40] fix: do not leak action parameters into later derived
 predicates

---
 pddl/parser/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index fcf509e..54372a3 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -165,6 +165,8 @@ class DomainTransformer(Transformer[Any, Domain]):
         action_body = {
             _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
         }
+        # the parameters are not visible outside this action
+        self._current_parameters_by_name = {}
         return Action(action_name, variables, **action_body)
 
     def derived_predicates(self, args):
-- 
2.43.0


From 83794d2e7ca8b36cc735571d9b50a78024ddf534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 04/40] fix: give variables bound by a quantifier the types of
 their binder

---
 pddl/parser/_update_type_tags.py | 275 +++++++++++++++++--------------
 pddl/parser/domain.py            |   5 +-
 2 files changed, 151 insertions(+), 129 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index ea422f5..451e9bd 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,127 +1,148 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when_effect(
+    effect: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_condition = _update_type_tags(effect.condition, var_to_types)
+    new_effect = _update_type_tags(effect.effect, var_to_types)
+    return When(new_condition, new_effect)
+
+
+@_update_type_tags.register
+def _update_type_tags_forall_effect(
+    effect: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in effect.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(effect.effect, new_var_to_types)
+    return Forall(new_effect, list(effect.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 54372a3..1c8fdcf 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -292,7 +292,7 @@ class DomainTransformer(Transformer[Any, Domain]):
         ):
             raise PDDLMissingRequirementError(req)
         variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-        condition = args[5]
+        condition = update_type_tags(args[5], {v.name: v.type_tags for v in variables})
         return cond_class(cond=condition, variables=variables)
 
     def gd_comparison(self, args):
@@ -357,7 +357,8 @@ class DomainTransformer(Transformer[Any, Domain]):
             return args[0]
         if args[1] == Symbols.FORALL.value:
             variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-            return Forall(effect=args[-2], variables=variables)
+            effect = update_type_tags(args[-2], {v.name: v.type_tags for v in variables})
+            return Forall(effect=effect, variables=variables)
         if args[1] == Symbols.WHEN.value:
             return When(args[2], args[3])
         if args[1] == Symbols.ONEOF.value:
-- 
2.43.0


From b94982e0903fbe296a6a8d4173d726a86651af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 05/40] fix: do not replace bound variables when instantiating
 quantified conditions

---
 pddl/logic/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a69ef43..60b021b 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -212,7 +212,10 @@ class QuantifiedCondition(Formula):
 
     def instantiate(self, mapping: Mapping[Variable, Term]) -> "Formula":
         """Instantiate the formula with a mapping from variables to terms."""
-        return type(self)(self.condition.instantiate(mapping), self.variables)
+        # the variables bound by this quantifier must not be replaced
+        bound = {v.name for v in self.variables}
+        free_mapping = {v: t for v, t in mapping.items() if v.name not in bound}
+        return type(self)(self.condition.instantiate(free_mapping), self.variables)
 
     def __str__(self) -> str:
         """Get the string representation."""
-- 
2.43.0


From c2ffc719e303a0d1ed27df75d0dbaa90fa25910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 06/40] fix: support instantiation of conditional and universal
 effects

---
 pddl/logic/effects.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 8fe9929..5bb5e0e 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -13,12 +13,13 @@
 """This modules implements PDDL effects."""
 
 import functools
-from typing import AbstractSet, Collection, Optional, Union
+from typing import AbstractSet, Collection, Mapping, Optional, Union
 
 from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
+from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 
 
@@ -47,6 +48,12 @@ class When:
         """Get the effect."""
         return self._effect
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "When":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return When(
+            self.condition.instantiate(mapping), self.effect.instantiate(mapping)
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.WHEN.value} {self._condition} {self.effect})"
@@ -96,6 +103,13 @@ class Forall:
         """Get the variables."""
         return self._variables
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "Forall":
+        """Instantiate the effect with a mapping from variables to terms."""
+        # the variables bound by this quantifier must not be replaced
+        bound = {v.name for v in self.variables}
+        free_mapping = {v: t for v, t in mapping.items() if v.name not in bound}
+        return Forall(self.effect.instantiate(free_mapping), self.variables)
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
-- 
2.43.0


From e6b05ca683518c4f0718c6a19fa98394d4cfc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 07/40] fix: print alternative types of parameters with either

---
 pddl/helpers/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index d69b7b3..f444a70 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -124,6 +124,15 @@ def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
     return next((i for i, x in enumerate(seq) if condition(x)), -1)
 
 
+def _print_type_annotation(type_tags: Collection[str]) -> str:
+    """Print the type annotation of a term (empty string if it has no type)."""
+    if len(type_tags) == 0:
+        return ""
+    if len(type_tags) == 1:
+        return f" - {next(iter(type_tags))}"
+    return f" - (either {' '.join(sorted(map(str, type_tags)))})"
+
+
 def _typed_parameters(parameters) -> str:
     """Return a list of parameters along with types if available."""
     result = ""
@@ -131,7 +140,7 @@ def _typed_parameters(parameters) -> str:
         if i > 0:
             result += " "
         if p.type_tags:
-            result += f"?{p.name} - {' '.join(map(str, p.type_tags))}"
+            result += f"?{p.name}{_print_type_annotation(p.type_tags)}"
         else:
             result += str(p)
     return result.strip()
-- 
2.43.0


From b7ca93721709a1ebad6b286e0624effefd5eb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 08/40] fix: print quantified variables in a fixed order and
 their alternative types with either

---
 pddl/logic/base.py    | 10 ++--------
 pddl/logic/effects.py |  2 +-
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 60b021b..1844906 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import ensure_set
+from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -219,13 +219,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-
-        def build_tags(tags):
-            if len(tags) == 0:
-                return ""
-            return f" - {' '.join(tags)}"
-
-        var_block = " ".join([f"{v}{build_tags(v.type_tags)}" for v in self.variables])
+        var_block = _typed_parameters(sorted(self.variables))
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 5bb5e0e..d04dfa8 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -112,7 +112,7 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
+        return f"({Symbols.FORALL.value} ({_typed_parameters(sorted(self.variables))}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From 488dc0fda8771e90703a2b887511daa0cde3592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 09/40] fix: print all the alternative types of function
 arguments

---
 pddl/formatter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 007311f..4d983f4 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,6 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
+from pddl.helpers.base import _print_type_annotation
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -113,11 +114,7 @@ def print_function_skeleton(function: NumericFunction) -> str:
     else:
         result += f"({function.name}"
         for t in function.terms:
-            result += (
-                f" ?{t.name} - {sorted(t.type_tags)[0]}"
-                if t.type_tags
-                else f" ?{t.name}"
-            )
+            result += f" ?{t.name}{_print_type_annotation(t.type_tags)}"
         result += ")"
     return result
 
-- 
2.43.0


From 94dfb4fd26b136f6d8616564da4d728a04a3a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 10/40] fix: do not print typed constants as variables in
 ground actions

---
 pddl/helpers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index f444a70..5c04ea0 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -140,7 +140,7 @@ def _typed_parameters(parameters) -> str:
         if i > 0:
             result += " "
         if p.type_tags:
-            result += f"?{p.name}{_print_type_annotation(p.type_tags)}"
+            result += f"{p}{_print_type_annotation(p.type_tags)}"
         else:
             result += str(p)
     return result.strip()
-- 
2.43.0


From 3cdbd268ee5e663cf52c930e14081ef1a72ce62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:16 +0000
Subject: [PATCH 11/40] fix: accept the predefined type object for constants
 and variables

---
 pddl/_validation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 041ca7f..f666573 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -37,6 +37,10 @@ from pddl.parser.symbols import Symbols
 from pddl.requirements import Requirements, _extend_domain_requirements
 
 
+# the root of every type hierarchy, which is always available
+_OBJECT = name_type(Symbols.OBJECT.value)
+
+
 def validate(condition: bool, message: str = "") -> None:
     """
     Validate a condition regarding PDDL.
@@ -60,7 +64,7 @@ def _find_inconsistencies_in_typed_terms(
         return None
     for term in terms:
         for type_tag in sorted(term.type_tags):
-            if type_tag is not None and type_tag not in all_types:
+            if type_tag not in (None, _OBJECT) and type_tag not in all_types:
                 return term, type_tag
     return None
 
@@ -214,7 +218,7 @@ class TypeChecker:
         self, type_tags: Collection[name_type], what: str
     ) -> None:
         """Check that the types are available in the domain."""
-        if not self._types.all_types.issuperset(type_tags):
+        if not self._types.all_types.issuperset(set(type_tags) - {_OBJECT}):
             raise PDDLValidationError(
                 f"types {sorted(type_tags)} of {what} are not in available types {self._types.all_types}"
             )
-- 
2.43.0


From 1da9f63744eebf5bd159f4049a0f6e07b69610b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 12/40] fix: do not print untyped terms so that they take the
 type of those that follow

---
 pddl/formatter.py     | 17 +++++------------
 pddl/helpers/base.py  | 26 +++++++++++++++++++++-----
 pddl/logic/base.py    |  4 ++--
 pddl/logic/effects.py |  4 ++--
 4 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 4d983f4..1a183a7 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,7 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
-from pddl.helpers.base import _print_type_annotation
+from pddl.helpers.base import _type_annotations
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -92,15 +92,8 @@ def print_predicates_with_types(predicates: Collection):
             result += f"({p.name})"
         else:
             result += f"({p.name}"
-            for t in p.terms:
-                if len(t.type_tags) > 1:
-                    result += f" ?{t.name} - (either {' '.join(sorted(t.type_tags))})"
-                else:
-                    result += (
-                        f" ?{t.name} - {sorted(t.type_tags)[0]}"
-                        if t.type_tags
-                        else f" ?{t.name}"
-                    )
+            for t, annotation in zip(p.terms, _type_annotations(p.terms)):
+                result += f" ?{t.name}{annotation}"
             result += ") "
         result += " "
     return result.strip()
@@ -113,8 +106,8 @@ def print_function_skeleton(function: NumericFunction) -> str:
         result += f"({function.name})"
     else:
         result += f"({function.name}"
-        for t in function.terms:
-            result += f" ?{t.name}{_print_type_annotation(t.type_tags)}"
+        for t, annotation in zip(function.terms, _type_annotations(function.terms)):
+            result += f" ?{t.name}{annotation}"
         result += ")"
     return result
 
diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index 5c04ea0..3ab605b 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -133,19 +133,35 @@ def _print_type_annotation(type_tags: Collection[str]) -> str:
     return f" - (either {' '.join(sorted(map(str, type_tags)))})"
 
 
+def _type_annotations(terms: Collection) -> List[str]:
+    """
+    Get the type annotations to print after each of the terms of a list.
+
+    A term with no type that comes before a typed one is annotated with 'object', because
+    otherwise it would be read as having the type of the latter.
+    """
+    last_typed = max((i for i, t in enumerate(terms) if t.type_tags), default=-1)
+    return [
+        _print_type_annotation(t.type_tags or (["object"] if i < last_typed else []))
+        for i, t in enumerate(terms)
+    ]
+
+
 def _typed_parameters(parameters) -> str:
     """Return a list of parameters along with types if available."""
     result = ""
-    for i, p in enumerate(parameters):
+    for i, (p, annotation) in enumerate(zip(parameters, _type_annotations(parameters))):
         if i > 0:
             result += " "
-        if p.type_tags:
-            result += f"{p}{_print_type_annotation(p.type_tags)}"
-        else:
-            result += str(p)
+        result += f"{p}{annotation}"
     return result.strip()
 
 
+def _typed_variables(variables) -> str:
+    """Return the variables of a quantifier in a fixed order; those with no type come last."""
+    return _typed_parameters(sorted(variables, key=lambda v: (not v.type_tags, v)))
+
+
 class RegexConstrainedString(str):
     """
     A string that is constrained by a regex.
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 1844906..9c8cc48 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _typed_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -219,7 +219,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        var_block = _typed_parameters(sorted(self.variables))
+        var_block = _typed_variables(self.variables)
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index d04dfa8..b741776 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -15,7 +15,7 @@
 import functools
 from typing import AbstractSet, Collection, Mapping, Optional, Union
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _typed_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
@@ -112,7 +112,7 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(sorted(self.variables))}) {self.effect})"
+        return f"({Symbols.FORALL.value} ({_typed_variables(self.variables)}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From ae7568ca0ede1cbfd6c5584ae2fb95b7a1b9eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 13/40] fix: accept type hierarchies under the adl requirement

---
 pddl/_validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index f666573..350e5a5 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -162,7 +162,8 @@ class Types:
 
         # check typing requirement
         supertypes = {t for t in type_dict.values() if t is not None}
-        if len(supertypes) > 0 and Requirements.TYPING not in requirements:
+        extended_requirements = _extend_domain_requirements(requirements)
+        if len(supertypes) > 0 and Requirements.TYPING not in extended_requirements:
             raise PDDLValidationError(
                 "typing requirement is not specified, but types are used: '"
                 + "', '".join(map(str, sorted(supertypes)))
-- 
2.43.0


From 04c6b568d384b3cd0130e1104244b532e0b3276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 14/40] fix: print flat lists of types so that they can be
 parsed back

---
 pddl/formatter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 1a183a7..1a2947d 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -138,11 +138,10 @@ def print_typed_lists(
         no_parents.discard(None)
         no_parents.discard("object")
 
-        result += (
-            "\n    "
-            + " ".join(sorted(to_string(n) for n in no_parents))
-            + " - object\n"
-        )
+        result += "\n    " + " ".join(sorted(to_string(n) for n in no_parents))
+        # a flat list of types must stay so: it is legal also without the typing requirement
+        is_flat = set(super_to_subs) == {None}
+        result += "\n" if is_flat or len(no_parents) == 0 else " - object\n"
 
         # sort the rest of the parent types based on (1) if their subtypes are already defined and (2) their name
         remaining = sorted(str(k) for k in super_to_subs if k not in ("object", None))
-- 
2.43.0


From ee28d610994dc2ed71fd1f9fbaf17dca855deb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 15/40] fix: read empty preconditions and effects as no
 condition and no change

---
 pddl/parser/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 1c8fdcf..b834941 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -234,7 +234,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_pregd(self, args):
         """Process the 'emptyor_pregd' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             assert_(len(args) == 1)
             return args[0]
@@ -339,7 +339,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             return args[0]
 
-- 
2.43.0


From 452253e7ce26c9e96c89fd062b26462d8b7f7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 16/40] fix: accept actions with no precondition or no effect

---
 pddl/_validation.py   | 6 ++++--
 pddl/parser/domain.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 350e5a5..691b0a0 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -310,8 +310,10 @@ class TypeChecker:
     def _(self, action: Action) -> None:
         """Check types annotations of a PDDL term."""
         self.check_type(action.parameters)
-        self.check_type(action.precondition)
-        self.check_type(action.effect)
+        if action.precondition is not None:
+            self.check_type(action.precondition)
+        if action.effect is not None:
+            self.check_type(action.effect)
 
 
 class Functions:
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index b834941..54ecb8d 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -163,7 +163,9 @@ class DomainTransformer(Transformer[Any, Domain]):
         # process action body
         _children = args[5].children
         action_body = {
-            _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
+            _children[i][1:]: _children[i + 1]
+            for i in range(0, len(_children), 2)
+            if _children[i] is not None
         }
         # the parameters are not visible outside this action
         self._current_parameters_by_name = {}
-- 
2.43.0


From 6992b1392548ecb946b72efee6f9690f36655ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 17/40] fix: keep repeated operands of sums, products and
 numeric equalities

---
 pddl/logic/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 9c8cc48..461f0e3 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -302,7 +302,7 @@ def _simplify_monotone_op_operands(cls, *operands, idempotency: bool = False):
     while len(stack) > 0:
         element = stack.pop()
         if not isinstance(element, cls):
-            if element not in seen:
+            if not idempotency or element not in seen:
                 seen.add(element)
                 new_operands.append(element)
             continue
-- 
2.43.0


From 8f0778ed8cf545987e109046e3c0854e0fc41520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 18/40] fix: do not flatten nested differences, quotients and
 numeric equalities

---
 pddl/logic/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index a54362c..779950c 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -249,7 +249,7 @@ class Metric(Atomic):
         return hash((self.expression, self.optimization))
 
 
-class EqualTo(BinaryFunction, metaclass=BinaryOpMetaclass):
+class EqualTo(BinaryFunction):
     """Equal to operator."""
 
     SYMBOL = Symbols.EQUAL
@@ -349,7 +349,7 @@ class Decrease(BinaryFunction):
         super().__init__(*operands)
 
 
-class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Minus(BinaryFunction):
     """Minus operator."""
 
     SYMBOL = Symbols.MINUS
@@ -391,7 +391,7 @@ class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Divide(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Divide(BinaryFunction):
     """Divide operator."""
 
     SYMBOL = Symbols.DIVIDE
-- 
2.43.0


From 5accdc7c5651aca39cb3f4a8a99b71047cd13973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 19/40] fix: parse binary differences

---
 pddl/parser/grammar.lark | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 8c12e03..fba473c 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -67,17 +67,14 @@ constant: NAME
             | GREATER_EQUAL_OP
             | LESSER_EQUAL_OP
 
-?binary_op: multi_op
-          | MINUS
-          | DIVIDE
-
 ?multi_op: TIMES
          | PLUS
 
 num_literal: NUMBER
 
 f_exp:      num_literal
-      |     LPAR binary_op f_exp f_exp RPAR
+      |     LPAR MINUS f_exp f_exp RPAR
+      |     LPAR DIVIDE f_exp f_exp RPAR
       |     LPAR multi_op f_exp f_exp+ RPAR
       |     LPAR MINUS f_exp RPAR
       |     f_head
@@ -130,7 +127,8 @@ metric_spec: LPAR METRIC optimization metric_f_exp RPAR
 ?optimization: MAXIMIZE
              | MINIMIZE
 
-metric_f_exp: LPAR binary_op metric_f_exp metric_f_exp RPAR
+metric_f_exp: LPAR MINUS metric_f_exp metric_f_exp RPAR
+            | LPAR DIVIDE metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
             | LPAR MINUS metric_f_exp RPAR
             | basic_function_term
-- 
2.43.0


From 431ad0fb8c73c6a75d54fd0ebcb76a69b32ab896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 20/40] fix: never print numbers in scientific notation

---
 pddl/logic/functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index 779950c..cf6ba78 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -15,6 +15,7 @@
 import functools
 from abc import abstractmethod
 from collections.abc import Mapping
+from decimal import Decimal
 from typing import Sequence, cast
 
 from pddl.custom_types import namelike, parse_function
@@ -145,7 +146,12 @@ class NumericValue(FunctionExpression):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return str(self._value)
+        result = str(self._value)
+        if isinstance(self._value, float) and "e" in result:
+            # PDDL has no scientific notation
+            result = format(Decimal(result), "f")
+            result = result if "." in result else f"{result}.0"
+        return result
 
 
 class BinaryFunction(FunctionExpression):
-- 
2.43.0


From 106f1daa1ec2c804a0a556637b577a974eb273f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 21/40] fix: store the constants of a metric as numbers

---
 pddl/parser/grammar.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index fba473c..4ae745a 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -132,7 +132,7 @@ metric_f_exp: LPAR MINUS metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
             | LPAR MINUS metric_f_exp RPAR
             | basic_function_term
-            | NUMBER
+            | num_literal
 
 DOMAIN_P: ":domain"
 PROBLEM: "problem"
-- 
2.43.0


From e6a87ee883c0a3ff71cf9eed980cb3d90049ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 22/40] fix: follow the whole type hierarchy when typing
 derived predicates

---
 pddl/parser/domain.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 54ecb8d..dda0e25 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -547,12 +547,16 @@ class DomainTransformer(Transformer[Any, Domain]):
 
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
-            current_type = left_type
-            parent_type: Optional[name] = left_type
-            while parent_type is not None and parent_type not in type_tags_right:
-                parent_type = self.types_hierarchy.get(current_type, None)
-
-            if parent_type is None:
+            current_type: Optional[name] = left_type
+            visited: Set[name] = set()
+            while current_type is not None and current_type not in type_tags_right:
+                visited.add(current_type)
+                current_type = self.types_hierarchy.get(current_type, None)
+                if current_type in visited:
+                    # cyclic hierarchy: give up
+                    current_type = None
+
+            if current_type is None:
                 raise PDDLParsingError(
                     f"Type '{left_type}' not found in types: '{type_tags_right}'."
                 )
-- 
2.43.0


From 57ee8b244fbe70462d324a912c847d64069ad7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 23/40] fix: let arguments declared as objects take any type in
 derived predicates

---
 pddl/parser/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index dda0e25..1b15f20 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -541,7 +541,7 @@ class DomainTransformer(Transformer[Any, Domain]):
         self, type_tags_left: AbstractSet[name], type_tags_right: AbstractSet[name]
     ):
         """Check that each type tag in the left set is a subtype of (one of) the type tags of the right."""
-        if len(type_tags_right) == 0:
+        if len(type_tags_right) == 0 or Symbols.OBJECT.value in type_tags_right:
             # 'object' type includes everything
             return
 
-- 
2.43.0


From 3bf87e2ec7f5f6f34a5b2db40da33d67bc08c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 24/40] fix: reject typed derived predicates cleanly when no
 types are declared

---
 pddl/parser/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 1b15f20..d0f020f 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -545,13 +545,16 @@ class DomainTransformer(Transformer[Any, Domain]):
             # 'object' type includes everything
             return
 
+        # without a (:types ...) section, the hierarchy is empty
+        types_hierarchy = {} if self._types is None else self.types_hierarchy
+
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
             current_type: Optional[name] = left_type
             visited: Set[name] = set()
             while current_type is not None and current_type not in type_tags_right:
                 visited.add(current_type)
-                current_type = self.types_hierarchy.get(current_type, None)
+                current_type = types_hierarchy.get(current_type, None)
                 if current_type in visited:
                     # cyclic hierarchy: give up
                     current_type = None
-- 
2.43.0


From de1cd3ff15ade30231d71e7a15e1888b9cdbbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 25/40] fix: accept all the forms of conditions in the goal of
 a problem

---
 pddl/parser/problem.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d60e673..059cb3b 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -47,10 +47,13 @@ class ProblemTransformer(Transformer[Any, Problem]):
 
         self._domain_transformer = DomainTransformer()
         self._objects_by_name: Dict[str, Constant] = {}
+        self.reset()
 
     def reset(self) -> None:
         """Forget the state collected during a previous parsing."""
         self._domain_transformer.reset()
+        # the requirements that allow the constructs of the goal are those of the domain, unknown here
+        self._domain_transformer._extended_requirements = set(Requirements)
         self._objects_by_name = {}
 
     def start(self, args):
@@ -97,6 +100,14 @@ class ProblemTransformer(Transformer[Any, Problem]):
         """
         return self._domain_transformer.typed_list_name(args)
 
+    def typed_list_variable(self, args):
+        """Process the 'typed_list_variable' rule."""
+        return self._domain_transformer.typed_list_variable(args)
+
+    def type_def(self, args):
+        """Process the 'type_def' rule."""
+        return self._domain_transformer.type_def(args)
+
     def domain__type_def(self, names):
         """Process a domain type def."""
         assert_(len(names) == 1)
-- 
2.43.0


From 0838b0a895bee488270d3d0316276ad31b9fbcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 26/40] fix: do not confuse variables with constants of the
 same name

---
 pddl/logic/predicates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index bdc562e..40d33a6 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -27,10 +27,13 @@ def _check_terms_consistency(terms: Sequence[Term]):
     """
     Check that the term sequence have consistent type tags.
 
-    In particular, terms with the same name must have the same type tags.
+    In particular, variables with the same name must have the same type tags.
+    Constants are not considered: they are identified by their name alone.
     """
     seen: Dict[name, Set[name]] = {}
     for term in terms:
+        if not isinstance(term, Variable):
+            continue
         if term.name not in seen:
             seen[term.name] = set(term.type_tags)
         else:
-- 
2.43.0


From 38ee6741f1aa366b96a57fb1fd0083a1a0e05d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 27/40] fix: make the order of requirements strict

---
 pddl/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/requirements.py b/pddl/requirements.py
index f6fc2f8..a4df5b0 100644
--- a/pddl/requirements.py
+++ b/pddl/requirements.py
@@ -79,7 +79,7 @@ class Requirements(Enum):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Requirements):
-            return self.value <= other.value
+            return self.value < other.value
         else:
             return super().__lt__(other)
 
-- 
2.43.0


From a843181d2e86d93647d260f63eb72bffdd7095e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 28/40] fix: check the types of the arguments of functions

---
 pddl/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pddl/core.py b/pddl/core.py
index 25ac328..b03a268 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -91,6 +91,7 @@ class Domain:
         type_checker = TypeChecker(self._types, self.requirements)
         type_checker.check_type(self._constants)
         type_checker.check_type(self._predicates)
+        type_checker.check_type(self.functions)
         type_checker.check_type(self._actions)
         _check_types_in_has_terms_objects(self._actions, self._types.all_types)  # type: ignore
         self._check_types_in_derived_predicates()
-- 
2.43.0


From 78f43fb05b9a01554d0ae1d1f47fe319ebb53aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 29/40] fix: check the types in the conditions of derived
 predicates

---
 pddl/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pddl/core.py b/pddl/core.py
index b03a268..87fb7ef 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -95,6 +95,7 @@ class Domain:
         type_checker.check_type(self._actions)
         _check_types_in_has_terms_objects(self._actions, self._types.all_types)  # type: ignore
         self._check_types_in_derived_predicates()
+        type_checker.check_type(self._derived_predicates)
 
     def _check_types_in_derived_predicates(self) -> None:
         """Check types in derived predicates."""
-- 
2.43.0


From 8fd023cfd9eeb176743cf84531e9a5d47def3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 30/40] fix: copy the collections passed to functions and plans

---
 pddl/_validation.py | 2 +-
 pddl/core.py        | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 691b0a0..3c8e6d5 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -326,7 +326,7 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = ensure(functions, dict())
+        self._functions = dict(ensure(functions, dict()))
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
diff --git a/pddl/core.py b/pddl/core.py
index 87fb7ef..d92bbdd 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -403,7 +403,9 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: list[Tuple[namelike, List["Constant"]]] = actions
+        self._actions: list[Tuple[namelike, List["Constant"]]] = [
+            (action_name, list(parameters)) for action_name, parameters in actions
+        ]
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0


From ac68f25db7c2d7d674795ba1470f26c34102b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:02 +0000
Subject: [PATCH 31/40] fix: print flat type lists alike with and without the
 explicit supertype object

---
 pddl/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 1a2947d..b303521 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -140,7 +140,7 @@ def print_typed_lists(
 
         result += "\n    " + " ".join(sorted(to_string(n) for n in no_parents))
         # a flat list of types must stay so: it is legal also without the typing requirement
-        is_flat = set(super_to_subs) == {None}
+        is_flat = set(super_to_subs) <= {None, "object"}
         result += "\n" if is_flat or len(no_parents) == 0 else " - object\n"
 
         # sort the rest of the parent types based on (1) if their subtypes are already defined and (2) their name
-- 
2.43.0


From ed2df2d5f51cb1421476616e995ac6063b4614f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 32/40] fix: report functions declared twice as a parsing error

---
 pddl/parser/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index d0f020f..3c581ec 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -513,7 +513,8 @@ class DomainTransformer(Transformer[Any, Domain]):
 
     def _raise_typed_list_parsing_error(self, args, exception) -> PDDLParsingError:
         string_list = [
-            str(arg) if isinstance(arg, str) else list(map(str, arg)) for arg in args
+            list(map(str, arg)) if isinstance(arg, (list, tuple)) else str(arg)
+            for arg in args
         ]
         return PDDLParsingError(
             f"error while parsing tokens {string_list}: {str(exception)}"
-- 
2.43.0


From 88e2a6339b955e274a037943d2db5fe9882d9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:03 +0000
Subject: [PATCH 33/40] fix: restore the line endings of _update_type_tags.py

---
 pddl/parser/_update_type_tags.py | 296 +++++++++++++++----------------
 1 file changed, 148 insertions(+), 148 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index 451e9bd..d5f91c9 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,148 +1,148 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.effects import Forall, When
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_when_effect(
-    effect: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_condition = _update_type_tags(effect.condition, var_to_types)
-    new_effect = _update_type_tags(effect.effect, var_to_types)
-    return When(new_condition, new_effect)
-
-
-@_update_type_tags.register
-def _update_type_tags_forall_effect(
-    effect: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in effect.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_effect = _update_type_tags(effect.effect, new_var_to_types)
-    return Forall(new_effect, list(effect.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when_effect(
+    effect: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_condition = _update_type_tags(effect.condition, var_to_types)
+    new_effect = _update_type_tags(effect.effect, var_to_types)
+    return When(new_condition, new_effect)
+
+
+@_update_type_tags.register
+def _update_type_tags_forall_effect(
+    effect: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in effect.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(effect.effect, new_var_to_types)
+    return Forall(new_effect, list(effect.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
-- 
2.43.0


From 703e0dd6556dff6cd2d81e0f2f4a6c34ff90ead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:41 +0000
Subject: [PATCH 34/40] fix: do not split a word into a keyword or a number and
 a name

---
 pddl/parser/grammar.lark | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 4ae745a..54b104f 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -134,9 +134,9 @@ metric_f_exp: LPAR MINUS metric_f_exp metric_f_exp RPAR
             | basic_function_term
             | num_literal
 
-DOMAIN_P: ":domain"
-PROBLEM: "problem"
-OBJECTS: ":objects"
+DOMAIN_P: /:domain(?![a-zA-Z0-9_-])/
+PROBLEM: /problem(?![a-zA-Z0-9_-])/
+OBJECTS: /:objects(?![a-zA-Z0-9_-])/
 INIT: ":init"
 GOAL: ":goal"
 
@@ -172,13 +172,13 @@ NAME: /[a-zA-Z][a-zA-Z0-9-_]*/
 COMMENT: /;[^\n]*/
 
 DEFINE: "define"
-DOMAIN: "domain"
+DOMAIN: /domain(?![a-zA-Z0-9_-])/
 REQUIREMENTS: ":requirements"
-TYPES: ":types"
-CONSTANTS: ":constants"
+TYPES: /:types(?![a-zA-Z0-9_-])/
+CONSTANTS: /:constants(?![a-zA-Z0-9_-])/
 PREDICATES: ":predicates"
 FUNCTIONS: ":functions"
-ACTION: ":action"
+ACTION: /:action(?![a-zA-Z0-9_-])/
 PARAMETERS: ":parameters"
 PRECONDITION: ":precondition"
 EFFECT: ":effect"
@@ -191,7 +191,7 @@ AND: "and"
 OR: "or"
 NOT: "not"
 IMPLY: "imply"
-EITHER: "either"
+EITHER: /either(?![a-zA-Z0-9_-])/
 ONEOF: "oneof"
 EQUAL_OP: "="
 GREATER_EQUAL_OP: ">="
@@ -202,16 +202,16 @@ MINUS: "-"
 PLUS: "+"
 TIMES: "*"
 DIVIDE: "/"
-METRIC: ":metric"
+METRIC: /:metric(?![a-zA-Z0-9_-])/
 ASSIGN: "assign"
 SCALE_UP: "scale-up"
 SCALE_DOWN: "scale-down"
 INCREASE: "increase"
 DECREASE: "decrease"
-MAXIMIZE: "maximize"
-MINIMIZE: "minimize"
+MAXIMIZE: /maximize(?![a-zA-Z0-9_-])/
+MINIMIZE: /minimize(?![a-zA-Z0-9_-])/
 TOTAL_COST: "total-cost"
-NUMBER: /[0-9]+(\.[0-9]+)*/
+NUMBER: /[0-9]+(\.[0-9]+)*(?![a-zA-Z0-9_-])/
 
 // available requirements
 STRIPS: ":strips"
-- 
2.43.0


From be805e43b89a89783a81217bc85b13186db31ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:55 +0000
Subject: [PATCH 35/40] fix: do not keep a domain that the problem does not fit

---
 pddl/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index d92bbdd..9512ab2 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -321,9 +321,15 @@ class Problem:
     @domain.setter
     def domain(self, domain: Domain) -> None:
         """Set the domain."""
+        previous = self._domain_name, self._domain
         self._domain_name = domain.name
         self._domain = domain
-        self._check_consistency()
+        try:
+            self._check_consistency()
+        except Exception:
+            # a domain that does not fit is not kept
+            self._domain_name, self._domain = previous
+            raise
 
     @property
     def domain_name(self) -> name_type:
-- 
2.43.0


From 9b81e959f6aa37180e8c424e157a494260fb69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:57 +0000
Subject: [PATCH 36/40] fix: do not take an empty supertype for none

---
 pddl/custom_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/custom_types.py b/pddl/custom_types.py
index 1c9e8cf..ab2cdac 100644
--- a/pddl/custom_types.py
+++ b/pddl/custom_types.py
@@ -109,7 +109,7 @@ def to_type(names: Collection[namelike]) -> List[name]:
 def to_types(names: Dict[namelike, Optional[namelike]]) -> Dict[name, Optional[name]]:
     """From name-like dictionary to name dictionary."""
     return {
-        parse_type(type_): parse_type(ancestor) if ancestor else None
+        parse_type(type_): parse_type(ancestor) if ancestor is not None else None
         for type_, ancestor in names.items()
     }
 
-- 
2.43.0


From 739f680a48e80dea590f9da8c78b426ab97cfd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:57 +0000
Subject: [PATCH 37/40] fix: name only the types of the cycle in the error
 about it

---
 pddl/helpers/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index 3ab605b..6401699 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -207,7 +207,8 @@ def find_cycle(graph: Dict[str, Optional[AbstractSet[str]]]) -> Optional[Sequenc
             while stack:
                 current, path = stack.pop()
                 if current in path:
-                    return path
+                    # leave out the nodes that only lead to the cycle
+                    return path[path.index(current) :]
 
                 visited.add(current)
                 neighbors = graph.get(current)
-- 
2.43.0


From 10b18c72243a9c93d7755cbbc13c180eb1eb6f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:01 +0000
Subject: [PATCH 38/40] fix: let several threads parse at the same time

---
 pddl/parser/base.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index 796ba60..76a0164 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -13,7 +13,9 @@
 """Base classes for PDDL parsers."""
 
 import sys
+import threading
 from abc import ABC
+from contextlib import contextmanager
 from typing import Any, Type, TypeVar, cast
 
 from lark import Lark, Transformer
@@ -22,6 +24,32 @@ from pddl.parser import GRAMMAR_FILE, PARSERS_DIRECTORY
 
 T = TypeVar("T")
 
+# the limit is global to the interpreter: several threads might be parsing at the same time
+_tracebacklimit_lock = threading.Lock()
+_tracebacklimit_users = 0
+_old_tracebacklimit: Any = None
+
+
+@contextmanager
+def _no_traceback():
+    """Set sys.tracebacklimit to 0 until the last of the overlapping uses of this function ends."""
+    global _tracebacklimit_users, _old_tracebacklimit
+    with _tracebacklimit_lock:
+        if _tracebacklimit_users == 0:
+            _old_tracebacklimit = vars(sys).get("tracebacklimit", _no_traceback)
+            sys.tracebacklimit = 0  # noqa
+        _tracebacklimit_users += 1
+    try:
+        yield
+    finally:
+        with _tracebacklimit_lock:
+            _tracebacklimit_users -= 1
+            if _tracebacklimit_users == 0:
+                if _old_tracebacklimit is _no_traceback:
+                    vars(sys).pop("tracebacklimit", None)
+                else:
+                    sys.tracebacklimit = _old_tracebacklimit
+
 
 class BaseParser(Transformer[Any, T], ABC):
     """Base class for PDDL parsers."""
@@ -60,14 +88,6 @@ class BaseParser(Transformer[Any, T], ABC):
         :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
-        had_tracebacklimit = hasattr(sys, "tracebacklimit")
-        old_tracebacklimit = getattr(sys, "tracebacklimit", None)
-        try:
-            sys.tracebacklimit = 0  # noqa
+        with _no_traceback():
             result = cast(T, parser.parse(text))
-        finally:
-            if had_tracebacklimit:
-                sys.tracebacklimit = old_tracebacklimit  # type: ignore
-            else:
-                del sys.tracebacklimit
         return result
-- 
2.43.0


From 6a8adbd2dd8e784353bdfe313a1bffbe50129877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 39/40] fix: refuse a decimal number that is out of range

---
 pddl/parser/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 3c581ec..c2402b0 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -12,6 +12,7 @@
 
 """Implementation of the PDDL domain parser."""
 
+import math
 from typing import (
     AbstractSet,
     Any,
@@ -336,6 +337,8 @@ class DomainTransformer(Transformer[Any, Domain]):
     def num_literal(self, args):
         """Process the 'num_literal' rule."""
         n = args[0]
+        if "." in n and math.isinf(float(n)):
+            raise PDDLParsingError(f"number out of range: '{n}'")
         return float(n) if "." in n else int(n)
 
     def emptyor_effect(self, args):
-- 
2.43.0


From df8feacb4940fa3267cc2b1e4ddda89a75352214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:54 +0000
Subject: [PATCH 40/40] fix: a derived predicate goes with the declaration that
 fits it

---
 pddl/parser/domain.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index c2402b0..787ef99 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -72,7 +72,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def reset(self) -> None:
         """Forget the state collected during a previous parsing."""
         self._constants_by_name: Dict[str, Constant] = {}
-        self._predicates_by_name: Dict[str, Predicate] = {}
+        self._predicates_by_name: Dict[str, List[Predicate]] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
         self._current_parameters_by_name: Dict[str, Variable] = {}
         self._requirements: Set[Requirements] = set()
@@ -147,7 +147,9 @@ class DomainTransformer(Transformer[Any, Domain]):
     def predicates(self, args):
         """Process the 'predicates' rule."""
         predicates = args[2:-1]
-        self._predicates_by_name = {p.name: p for p in predicates}
+        self._predicates_by_name = {}
+        for p in predicates:
+            self._predicates_by_name.setdefault(p.name, []).append(p)
         return dict(predicates=predicates)
 
     def functions(self, args):
@@ -182,7 +184,7 @@ class DomainTransformer(Transformer[Any, Domain]):
         # to do so, we read the type tags of the predicate arguments from the predicate definition in (:predicates ...)
         if dp_predicate.name not in self._predicates_by_name:
             raise ParseError(f"Predicate '{dp_predicate.name}' not defined.")
-        predicate_def = self._predicates_by_name[dp_predicate.name]
+        predicate_def = self._find_definition(dp_predicate)
         if len(predicate_def.terms) != len(dp_predicate.terms):
             raise ParseError(
                 f"Derived predicate '{dp_predicate.name}' has {len(dp_predicate.terms)} arguments, "
@@ -227,6 +229,33 @@ class DomainTransformer(Transformer[Any, Domain]):
         new_condition = update_type_tags(dp_condition, current_var_to_types)
         return DerivedPredicate(new_predicate, new_condition)
 
+    def _find_definition(self, predicate: Predicate) -> Predicate:
+        """
+        Find the definition of a derived predicate.
+
+        When a name has several definitions, the one that fits and adds the fewest type tags is taken;
+        so the result does not depend on the order of the definitions once the type tags are explicit.
+        """
+        definitions = self._predicates_by_name[predicate.name]
+        best, fewest = definitions[-1], None
+        for definition in definitions:
+            if len(definition.terms) != len(predicate.terms):
+                continue
+            added = 0
+            try:
+                for term, defined in zip(predicate.terms, definition.terms):
+                    if len(term.type_tags) == 0:
+                        added += len(defined.type_tags) != 0
+                    else:
+                        self._check_subtypes(term.type_tags, defined.type_tags)
+            except PDDLParsingError:
+                if fewest is None:
+                    best = definition
+                continue
+            if fewest is None or added <= fewest:
+                best, fewest = definition, added
+        return best
+
     def action_parameters(self, args):
         """Process the 'action_parameters' rule."""
         self._current_parameters_by_name = {
-- 
2.43.0

