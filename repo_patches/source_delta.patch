From fe9cb4a6d9e38bdd9e510e0255511013d1650139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 01/30] fix: membership and lookup of unknown labels and
 foreign keys in ClassDB

Looking up a label that was never given raised IndexError instead of the
KeyError of _get_info, negative labels were read from the end of the list and
`in` raised for unknown labels and for keys that are neither class nor label.
---
 comb_spec_searcher/class_db.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 022775a..7ba7871 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -44,10 +44,9 @@ class LabelToInfo(MutableMapping[int, Optional[Info]]):
         self.empty_list = empty_list
 
     def __getitem__(self, label: int) -> Optional[Info]:
-        try:
-            return Info(self.comb_class_list[label], label, self.empty_list[label])
-        except KeyError:
+        if not 0 <= label < len(self.comb_class_list):
             return None
+        return Info(self.comb_class_list[label], label, self.empty_list[label])
 
     def __setitem__(self, key: int, value: Optional[Info]) -> None:
         raise NotImplementedError
@@ -159,7 +158,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         elif isinstance(key, int):
             info = self.label_to_info.get(key)
         else:
-            raise ValueError("Invalid key")
+            return False
         return info is not None
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 82b4a198c566bdf655757b224de6e10103abc8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 02/30] fix: RuleDBBase.contains never found a stored rule

The keys of the stores are pairs of an int and a tuple, so that looking up
(start, sorted list) raised TypeError (unhashable) or never matched.
---
 comb_spec_searcher/rule_db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index b646340..96ed6f0 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -157,7 +157,7 @@ class RuleDBBase(RuleDBAbstract):
 
     def contains(self, start: int, ends: Tuple[int, ...]) -> bool:
         """Return true if the rule start -> ends is in the database."""
-        key = (start, sorted(ends))
+        key = (start, tuple(sorted(ends)))
         return key in self.rule_to_strategy or key in self.eqv_rule_to_strategy
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 7ebfffd0e9edbdc9dc3c60f1fceca4fa607e5c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 03/30] fix: recomputing a forgotten rule must not change or
 disagree with the search

RecomputingDict.__getitem__ labelled the children of every rule it tried, and
dropped empty children of rules that are not possibly empty, so that a stored
key was not found (KeyError) and the class database got new labels.
---
 comb_spec_searcher/rule_db/forget.py | 29 ++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index bbbe9aa..18a00e3 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -9,6 +9,7 @@ from typing import (
     TYPE_CHECKING,
     Iterable,
     Iterator,
+    List,
     MutableMapping,
     Optional,
     Set,
@@ -100,14 +101,7 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                 else:
                     rule = x
                 try:
-                    start_label = self.classdb.get_label(rule.comb_class)
-                    nonempty_children = tuple(
-                        c for c in rule.children if not self.classdb.is_empty(c)
-                    )
-                    end_labels = tuple(
-                        sorted(map(self.classdb.get_label, nonempty_children))
-                    )
-                    if (start_label, end_labels) == key:
+                    if self._rule_key(rule) == key:
                         if self.only_equiv and not rule.is_two_way():
                             continue
                         return rule.strategy
@@ -122,6 +116,25 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
             err_message += str(self.classdb.get_class(label)) + "\n"
         raise RuntimeError(err_message)
 
+    def _rule_key(self, rule: AbstractRule) -> Optional[RuleKey]:
+        """
+        Return the key under which the rule is stored.
+
+        Return None if the rule involves a class that the search never labelled, as
+        such a rule can't have been stored.
+        """
+        if rule.comb_class not in self.classdb:
+            return None
+        end_labels: List[int] = []
+        for comb_class in rule.children:
+            if comb_class not in self.classdb:
+                return None
+            label = self.classdb.get_label(comb_class)
+            if rule.possibly_empty and self.classdb.is_empty(comb_class, label):
+                continue
+            end_labels.append(label)
+        return self.classdb.get_label(rule.comb_class), tuple(sorted(end_labels))
+
     def __setitem__(self, key: RuleKey, value: AbstractStrategy) -> None:
         assert not self.only_equiv or len(key[1]) == 1
         self.rules.add(self._flatten(key))
-- 
2.43.0


From e565c0a1c4b35eb197ec7bd761afe05a8075aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 04/30] fix: iterative pruning must allow recursion to the
 root's equivalence class

The rules given to iterative_prune are between equivalence representatives, so
the root must be the representative of the root label.
---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index 96ed6f0..fd84c4f 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -70,7 +70,9 @@ class RuleDBBase(RuleDBAbstract):
         if self._pruned_dict is None:
             rules_dict = self.rules_up_to_equivalence()
             if self.iterative:
-                rules_dict = iterative_prune(rules_dict, root=self.root_label)
+                rules_dict = iterative_prune(
+                    rules_dict, root=self.equivdb[self.root_label]
+                )
             else:
                 prune(rules_dict)
             self._pruned_dict = rules_dict
-- 
2.43.0


From b7b4c6cd03e2b857b68db60af4b1aec61881135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 05/30] fix: iterative_proof_tree_bfs could run forever

Always taking the first rule of a label is not well-founded.
---
 comb_spec_searcher/tree_searcher.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index cd8ee67..2f467c4 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -143,16 +143,9 @@ def all_proof_trees_dfs(
 def iterative_proof_tree_bfs(rules_dict: RulesDict, root: int) -> Node:
     """Takes in a iterative pruned rules_dict and returns iterative proof
     tree."""
-    root_node = Node(root)
-    queue = deque([root_node])
-    while queue:
-        v = queue.popleft()
-        rule = sorted(rules_dict[v.label])[0]
-        if not rule == ():
-            children = [Node(i) for i in rule]
-            queue.extend([child for child in children if not child.label == root])
-            v.children = children
-    return root_node
+    # Only rules that are derivable from the ones picked before can be used, as
+    # otherwise the tree could be infinite.
+    return iterative_proof_tree_finder(rules_dict, root)
 
 
 def random_proof_tree(rules_dict: RulesDict, root: int) -> Node:
-- 
2.43.0


From 36bb3dc26d2affa1d3a0a63e756571c42b241cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 06/30] fix: proof_tree_generator_bfs gave a label different
 rules in sibling branches

---
 comb_spec_searcher/tree_searcher.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index 2f467c4..e520714 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -189,6 +189,16 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
     N.B. The rules_dict is assumed to be pruned.
     """
 
+    def _one_rule_per_label(tree: Node) -> bool:
+        """Different branches are built independently of each other."""
+        rules: Dict[int, Tuple[int, ...]] = {}
+        return all(
+            rules.setdefault(node.label, rule) == rule
+            for node in tree.nodes()
+            for rule in [tuple(child.label for child in node.children)]
+            if rule
+        )
+
     def _bfs_helper(root_label: int, seen: FrozenSet[int]):
         if root_label in seen:
             yield Node(root_label)
@@ -207,7 +217,7 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
     }
 
     if root in sorted_rules_dict:
-        yield from _bfs_helper(root, frozenset())
+        yield from filter(_one_rule_per_label, _bfs_helper(root, frozenset()))
 
 
 def proof_tree_generator_dfs(
-- 
2.43.0


From 6d35eeeffbf560badc17daf3b140290612bc6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 07/30] fix: has_specification used the representative of the
 root from before merging cycles

The first call after closing a cycle of one-way rules could answer False
although the root survives the pruning.
---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index fd84c4f..2daa87a 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -222,7 +222,9 @@ class RuleDBBase(RuleDBAbstract):
 
     def has_specification(self) -> bool:
         """Return True if a specification has been found, false otherwise."""
-        return self.equivdb[self.root_label] in self.pruned_dict
+        # Computing the pruned dict can change the representative of the root.
+        pruned_dict = self.pruned_dict
+        return self.equivdb[self.root_label] in pruned_dict
 
     def rule_from_equivalence_rule(
         self, eqv_start: int, eqv_ends: Iterable[int]
-- 
2.43.0


From a5ccf1031638b14dff18a9958d8e6177f03f1507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 08/30] fix: quotient of a one-child product divides by the
 empty product

---
 comb_spec_searcher/strategies/constructor/cartesian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index b259bf0..89f668d 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -509,6 +509,9 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         Dict representing the polynomial that multiply the polynomial of the
         flipped child for length n.
         """
+        if self.number_of_children == 1:
+            # the empty product
+            return Counter({(0,) * self._num_parent_params: 1})
         min_sizes = self._min_sizes[: self.idx] + self._min_sizes[self.idx + 1 :]
         max_sizes = self._max_sizes[: self.idx] + self._max_sizes[self.idx + 1 :]
         possible_sizes = utils.compositions(
-- 
2.43.0


From d6065b887d8912e6228124e487fa4fc422c66114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 09/30] fix: equivalence rules and paths count one-child
 products and quotients

---
 .../strategies/constructor/cartesian.py       |  6 +++++
 comb_spec_searcher/strategies/rule.py         | 23 ++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index 89f668d..09b1aa7 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -406,6 +406,12 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         self._parent_shift = sum(self._min_sizes) - self._min_sizes[self.idx]
         self._num_parent_params = len(parent.extra_parameters)
 
+    def can_be_equivalent(self) -> bool:
+        return all(
+            len(params.values()) == len(set(params.values()))
+            for params in self.extra_parameters
+        )
+
     @staticmethod
     def param_map(
         child_pos_to_parent_pos: Tuple[Tuple[int, ...], ...],
diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 7195b81..4ee2d70 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -43,7 +43,13 @@ from comb_spec_searcher.typing import (
 from ..combinatorial_class import CombinatorialClassType, CombinatorialObjectType
 from ..exception import SanityCheckFailure, SpecificationNotFound, StrategyDoesNotApply
 from ..utils import TermsCache, equal_counters
-from .constructor import Complement, Constructor, DisjointUnion
+from .constructor import (
+    CartesianProduct,
+    Complement,
+    Constructor,
+    DisjointUnion,
+    Quotient,
+)
 
 if TYPE_CHECKING:
     from .strategy import AbstractStrategy, Strategy, VerificationStrategy
@@ -748,20 +754,22 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     def constructor(self) -> Union[DisjointUnion, Complement]:
         if self._constructor is None:
             original_constructor = self.original_rule.constructor
-            if isinstance(original_constructor, DisjointUnion):
+            if isinstance(original_constructor, (DisjointUnion, CartesianProduct)):
                 self._constructor = DisjointUnion(
                     self.comb_class,
                     self.children,
                     (original_constructor.extra_parameters[self.child_idx],),
                 )
-            elif isinstance(original_constructor, Complement):
+            elif isinstance(original_constructor, (Complement, Quotient)):
                 assert isinstance(self.original_rule, ReverseRule)
                 original_original_rule = self.original_rule.original_rule
                 original_original_child_idx = (
                     original_original_rule.to_equivalence_rule().child_idx
                 )
                 original_original_constructor = original_original_rule.constructor
-                assert isinstance(original_original_constructor, DisjointUnion)
+                assert isinstance(
+                    original_original_constructor, (DisjointUnion, CartesianProduct)
+                )
                 self._constructor = Complement(
                     self.children[0],
                     (self.comb_class,),
@@ -856,9 +864,12 @@ class EquivalencePathRule(Rule[CombinatorialClassType, CombinatorialObjectType])
             }
             for rule in self.rules:
                 original_constructor = rule.constructor
-                assert isinstance(original_constructor, (DisjointUnion, Complement))
+                assert isinstance(
+                    original_constructor,
+                    (DisjointUnion, CartesianProduct, Complement, Quotient),
+                )
                 rules_parameters = original_constructor.extra_parameters[0]
-                if isinstance(original_constructor, Complement):
+                if isinstance(original_constructor, (Complement, Quotient)):
                     if len(set(rules_parameters.values())) != len(
                         rules_parameters.values()
                     ):
-- 
2.43.0


From 12ab4008755acfede65f4218515bfce5d6ea6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 10/30] fix: complement subtracts in the parameters of the
 parent

---
 .../strategies/constructor/disjoint.py        | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index b2c4686..fbd05f5 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -360,21 +360,20 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     def get_terms(
         self, parent_terms: Callable[[int], Terms], subterms: SubTerms, n: int
     ) -> Terms:
-        parent_terms_mapped: Terms = Counter()
-        for param, value in subterms[0](n).items():
-            if value:
-                parent_terms_mapped[self._parent_param_map(param)] += value
-        children_terms = subterms[1:]
-        for child_terms, param_map in zip(children_terms, self._children_param_maps):
+        # The subtraction is done with the parameters of the parent, as an object of
+        # another child needs not have valid parameters on the flipped child.
+        remaining_terms: Terms = Counter(subterms[0](n))
+        for child_terms, param_map in zip(subterms[1:], self._children_param_maps):
             # we subtract from total
             for param, value in child_terms(n).items():
-                mapped_param = self._parent_param_map(param_map(param))
-                parent_terms_mapped[mapped_param] -= value
-                assert parent_terms_mapped[mapped_param] >= 0
-                if parent_terms_mapped[mapped_param] == 0:
-                    parent_terms_mapped.pop(mapped_param)
-
-        return parent_terms_mapped
+                mapped_param = param_map(param)
+                remaining_terms[mapped_param] -= value
+                assert remaining_terms[mapped_param] >= 0
+        new_terms: Terms = Counter()
+        for param, value in remaining_terms.items():
+            if value:
+                new_terms[self._parent_param_map(param)] += value
+        return new_terms
 
     def get_sub_objects(
         self, subobjs: SubObjects, n: int
-- 
2.43.0


From cc08b30c7f34268c50f4f2202a89c153dc2b0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 11/30] fix: equivalence rules and paths keep the fixed values
 of their unions

---
 comb_spec_searcher/strategies/rule.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 4ee2d70..df627c6 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -755,10 +755,14 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
         if self._constructor is None:
             original_constructor = self.original_rule.constructor
             if isinstance(original_constructor, (DisjointUnion, CartesianProduct)):
+                fixed_values: Optional[Tuple[Dict[str, int], ...]] = None
+                if isinstance(original_constructor, DisjointUnion):
+                    fixed_values = (original_constructor.fixed_values[self.child_idx],)
                 self._constructor = DisjointUnion(
                     self.comb_class,
                     self.children,
                     (original_constructor.extra_parameters[self.child_idx],),
+                    fixed_values,
                 )
             elif isinstance(original_constructor, (Complement, Quotient)):
                 assert isinstance(self.original_rule, ReverseRule)
@@ -862,6 +866,8 @@ class EquivalencePathRule(Rule[CombinatorialClassType, CombinatorialObjectType])
             extra_parameters: Dict[str, str] = {
                 k: k for k in self.comb_class.extra_parameters
             }
+            # the parameters that are not mapped to and known to take a fixed value
+            fixed_values: Dict[str, int] = {}
             for rule in self.rules:
                 original_constructor = rule.constructor
                 assert isinstance(
@@ -883,11 +889,16 @@ class EquivalencePathRule(Rule[CombinatorialClassType, CombinatorialObjectType])
                     for parent_var, child_var in extra_parameters.items()
                     if child_var in rules_parameters
                 }
-            fixed_values = {
-                k: 0
-                for k in self.children[0].extra_parameters
-                if k not in extra_parameters.values()
-            }
+                fixed_values = {
+                    rules_parameters[k]: value
+                    for k, value in fixed_values.items()
+                    if k in rules_parameters
+                }
+                if isinstance(original_constructor, DisjointUnion):
+                    fixed_values.update(original_constructor.fixed_values[0])
+            for k in self.children[0].extra_parameters:
+                if k not in extra_parameters.values():
+                    fixed_values.setdefault(k, 0)
             self._constructor = DisjointUnion(
                 self.comb_class, self.children, (extra_parameters,), (fixed_values,)
             )
-- 
2.43.0


From bea9246187fd58cfb416552ce59f43a20517eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 12/30] fix: union equations drop the child parameters the
 parent does not track

---
 comb_spec_searcher/strategies/constructor/disjoint.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index fbd05f5..660b27b 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -94,8 +94,15 @@ class DisjointUnion(Constructor[CombinatorialClassType, CombinatorialObjectType]
         self, lhs_func: sympy.Function, rhs_funcs: Tuple[sympy.Function, ...]
     ) -> sympy.Eq:
         res = 0
-        for rhs_func, extra_parameters in zip(rhs_funcs, self.extra_parameters):
-            subs: Dict[str, sympy.Expr] = {}
+        for rhs_func, extra_parameters, fixed_values in zip(
+            rhs_funcs, self.extra_parameters, self.fixed_values
+        ):
+            # the parameters of the child that the parent does not track
+            subs: Dict[str, sympy.Expr] = {
+                child: sympy.Number(1)
+                for child in fixed_values
+                if child not in extra_parameters.values()
+            }
             for parent, child in extra_parameters.items():
                 if child in subs:
                     subs[child] *= sympy.var(parent)
-- 
2.43.0


From 4636ad15562ff93cf6fdc4139984c02648d9ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 13/30] fix: product equations keep all parameters mapped to
 one child parameter

---
 comb_spec_searcher/strategies/constructor/cartesian.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index 09b1aa7..8197ef2 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -145,8 +145,14 @@ class CartesianProduct(Constructor[CombinatorialClassType, CombinatorialObjectTy
     ) -> sympy.Eq:
         res = 1
         for extra_parameters, rhs_func in zip(self.extra_parameters, rhs_funcs):
+            subs: Dict[str, sympy.Expr] = {}
+            for parent, child in extra_parameters.items():
+                if child in subs:
+                    subs[child] *= sympy.var(parent)
+                else:
+                    subs[child] = sympy.var(parent)
             res *= rhs_func.subs(
-                {child: parent for parent, child in extra_parameters.items()},
+                subs,
                 simultaneous=True,
             )
         return sympy.Eq(lhs_func, res)
-- 
2.43.0


From 76f83834bccc5f306d573df0ff0817e64cea5a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 14/30] fix: forest lookup skips factory rules that do not
 apply

---
 comb_spec_searcher/rule_db/forest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 9c7b487..5eb6f73 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -568,6 +568,10 @@ class ForestRuleExtractor:
             self._rules_for_class(c) for c in all_classes
         )
         for normal_rule in all_normal_rules:
+            try:
+                normal_rule.children
+            except StrategyDoesNotApply:
+                continue
             potential_rules = [normal_rule]
             if normal_rule.is_reversible():
                 assert isinstance(normal_rule, Rule)
-- 
2.43.0


From c2afe75231c56917efc1385bc54bdb1f58ed0b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:20 +0000
Subject: [PATCH 15/30] fix: extraction of rules with one non-empty child that
 are one-way or not equivalences

---
 comb_spec_searcher/specification_extrator.py | 30 +++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/comb_spec_searcher/specification_extrator.py b/comb_spec_searcher/specification_extrator.py
index b8dec2a..2d911e0 100644
--- a/comb_spec_searcher/specification_extrator.py
+++ b/comb_spec_searcher/specification_extrator.py
@@ -86,7 +86,9 @@ class SpecificationRuleExtractor:
             if len(children) != 1:
                 raise self._missing_rule_error(parent, children) from e
         else:
-            return strategy(self.classdb.get_class(parent))
+            return self._without_empty_children(
+                strategy(self.classdb.get_class(parent))
+            )
         # From now on we are looking for a two way strategy
         assert len(children) == 1
         try:
@@ -94,21 +96,35 @@ class SpecificationRuleExtractor:
         except KeyError:
             pass
         else:
-            rule = strategy(self.classdb.get_class(parent))
-            assert isinstance(rule, Rule)
-            return rule if len(rule.children) == 1 else rule.to_equivalence_rule()
+            return self._without_empty_children(
+                strategy(self.classdb.get_class(parent))
+            )
         # Now trying a reverse rule
         try:
             strategy = self.ruledb.eqv_rule_to_strategy[(children[0], (parent,))]
         except KeyError:
             pass
         else:
-            rule = strategy(self.classdb.get_class(children[0]))
+            rule = self._without_empty_children(
+                strategy(self.classdb.get_class(children[0]))
+            )
             assert isinstance(rule, Rule)
-            rule = rule if len(rule.children) == 1 else rule.to_equivalence_rule()
-            return rule.to_reverse_rule(0)
+            return rule.to_reverse_rule(
+                rule.children.index(self.classdb.get_class(parent))
+            )
         raise self._missing_rule_error(parent, children)
 
+    @staticmethod
+    def _without_empty_children(rule: AbstractRule) -> AbstractRule:
+        """
+        Return the equivalence rule if the rule is an equivalence once the empty
+        children are removed, and the rule itself otherwise.
+        """
+        if len(rule.children) > 1 and rule.is_equivalence():
+            assert isinstance(rule, Rule)
+            return rule.to_equivalence_rule()
+        return rule
+
     def _missing_rule_error(self, parent: int, children: Tuple[int, ...]) -> ValueError:
         """
         Return a ValueError saying the rule was not found.
-- 
2.43.0


From a2f253f44f425e239490250756596d638be20510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 16/30] fix: reverse of an equivalence rule whose parameter map
 is not injective

---
 comb_spec_searcher/strategies/rule.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index df627c6..bb55334 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -793,9 +793,12 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     ) -> bool:
         return True
 
-    def to_reverse_rule(self, idx: int) -> "EquivalenceRule":
+    def to_reverse_rule(self, idx: int) -> Rule:
         assert idx == 0
-        return self.original_rule.to_reverse_rule(self.child_idx).to_equivalence_rule()
+        rule = self.original_rule.to_reverse_rule(self.child_idx)
+        # the reverse is not an equivalence if several parameters of the parent are
+        # mapped to the same parameter of the child
+        return rule.to_equivalence_rule() if rule.is_equivalence() else rule
 
     def to_equivalence_rule(self) -> "EquivalenceRule":
         raise NotImplementedError("You don't want to do that! I promise")
-- 
2.43.0


From bfd655f64bc8dd173aaf49b1b3a782149cd6c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:33 +0000
Subject: [PATCH 17/30] fix: generating function selection when several
 solutions match the first terms

With only 'check' initial terms compared, a wrong branch was returned for
classes whose first nonzero term comes later. Look at more terms until a
single solution remains.
---
 comb_spec_searcher/specification.py | 32 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index ae50999..d23b38f 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -411,15 +411,29 @@ class CombinatorialSpecification(
             quartics=False,
             quintics=False,
         )
-        for solution in solutions:
-            genf = solution[root_func]
-            logger.info("Checking initial conditions for: %s", genf)
-            try:
-                expansion = taylor_expand(genf, check)
-            except TaylorExpansionError:
-                continue
-            if expansion == initial_conditions:
-                return sympy.simplify(genf)
+        candidates = list(
+            dict.fromkeys(sol[root_func] for sol in solutions if root_func in sol)
+        )
+        while check < 200:
+            matching: List[Expr] = []
+            for genf in candidates:
+                logger.info("Checking initial conditions for: %s", genf)
+                try:
+                    expansion = taylor_expand(genf, check)
+                except TaylorExpansionError:
+                    continue
+                if expansion == initial_conditions:
+                    genf = sympy.simplify(genf)
+                    if not any((genf - other).equals(0) for other in matching):
+                        matching.append(genf)
+            if len(matching) == 1:
+                return matching[0]
+            if not matching:
+                break
+            # several solutions agree on all the terms looked at: look at more
+            candidates = matching
+            check = 2 * check + 1
+            initial_conditions = self.get_initial_conditions(check)
         raise IncorrectGeneratingFunctionError(
             "Failed to compute the generating function for the specification."
         )
-- 
2.43.0


From c6f56e1ac06421924dc53dc14739c6f224fe9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 18/30] fix: bijections between an atom and a class equivalent
 to an atom

---
 comb_spec_searcher/isomorphism.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 99a5bf2..e3c2da6 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -348,9 +348,18 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if not rule1.children:
             return ParseTreeMap._min_object(rule2)
 
-        assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
+        assert isinstance(rule1, Rule)
         mapped_obj, idx = rule1.indexed_forward_map(obj)
 
+        if rule1.is_equivalence() and not rule2.is_equivalence():
+            # If only domain's rule is eq-rule then we don't backward map for the
+            # spec2's rule here but move along with the mapped object and next rule
+            # and return the outcome directly.
+            return self.map_rec(
+                mapped_obj[0], self.domain.rules_dict[rule1.children[0]], rule2
+            )
+
+        assert isinstance(rule2, Rule)
         if rule2.is_equivalence():
             if not rule1.is_equivalence():
                 # Backward map the outcome of a recursion when
@@ -366,13 +375,6 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                 return val
             # When both are eq-rules, we treat them normally and set matching order
             order: List[int] = [0]
-        elif rule1.is_equivalence():
-            # If only domain's rule is eq-rule then we don't backward map for the
-            # spec2's rule here but move along with the mapped object and next rule
-            # and return the outcome directly.
-            return self.map_rec(
-                mapped_obj[0], self.domain.rules_dict[rule1.children[0]], rule2
-            )
         else:
             # Fetch the matching order to know what parts to recurse together.
             order = self.get_order[(rule1.comb_class, rule2.comb_class)]
-- 
2.43.0


From 953e0c0dd6afb3a8b4aaebcda3e2cda135a72d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 19/30] fix: forget matches that relied on a match that failed

---
 comb_spec_searcher/isomorphism.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index e3c2da6..bd678cd 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -117,6 +117,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         # Update ancestors for recursion
         self._ancestors.update(product(eq_path1, eq_path2))
 
+        # The number of matches made before the descendants are checked
+        n_matched = len(self._order_map)
+
         # The number of nonempty children
         n = len(non_empty_ind1)
 
@@ -175,9 +178,14 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
 
         # If stack has been exhausted we have failed to match the ids. We remove them
         # from the ancestors set, memorize the failure and remove any data gathered.
+        # The descendants that were matched may have relied on the current ids being
+        # matched, so they are forgotten (the dictionary keeps the insertion order).
         self._ancestors.difference_update(product(eq_path1, eq_path2))
         self._failed.add((curr1, curr2))
         self._index_data.pop((curr1, curr2), None)
+        while len(self._order_map) > n_matched:
+            matched, _ = self._order_map.popitem()
+            self._index_data.pop(matched, None)
         return False
 
     def _get_eq_descendant(
-- 
2.43.0


From 7080cff89cd024dc308c859f38bf6695c78cf9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 20/30] fix: no bijection through complement and quotient rules

---
 comb_spec_searcher/isomorphism.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index bd678cd..abfe929 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -13,7 +13,7 @@ from typing import (
 )
 
 from .combinatorial_class import CombinatorialClass
-from .strategies.rule import AbstractRule, Rule
+from .strategies.rule import AbstractRule, ReverseRule, Rule
 
 if TYPE_CHECKING:
     from .combinatorial_class import CombinatorialObject
@@ -431,6 +431,14 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         iso = Isomorphism[ClassType1, ObjType1, ClassType2, ObjType2](spec, other)
         if not iso.are_isomorphic():
             return None
+        # Objects can not be mapped through rules like A = B - C and A = B / C
+        if any(
+            isinstance(rule, ReverseRule)
+            and len(rule.original_rule.non_empty_children()) > 1
+            for c1, c2 in iso.get_order()
+            for rule in (spec.rules_dict[c1], other.rules_dict[c2])
+        ):
+            return None
         return cls(spec, other, iso.get_order(), iso.get_order_data())
 
     def __init__(
-- 
2.43.0


From 5b3542eafdcc97335d150b231ad93f5d51c3d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 21/30] fix: isomorphism follows chains of equivalence rules to
 the end

---
 comb_spec_searcher/isomorphism.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index abfe929..b798460 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -147,8 +147,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             self._path_tracker_push(
                 non_empty_ind1[i1],
                 non_empty_ind2[i2],
-                len(eq_path1) > 1,
-                len(eq_path2) > 1,
+                len(eq_path1) - 1,
+                len(eq_path2) - 1,
             )
 
             # Call _are_isomorphic recursively for current pair
@@ -192,12 +192,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         self, node1: ClassType1, node2: ClassType2
     ) -> Tuple[List[ClassType1], List[ClassType2]]:
         """Get path to nodes that are not on the LHS of equivalence rules."""
-        rule1, rule2 = self._rules1[node1], self._rules2[node2]
         nodes1, nodes2 = [node1], [node2]
-        if rule1.is_equivalence():
-            nodes1.append(rule1.children[0])
-        if rule2.is_equivalence():
-            nodes2.append(rule2.children[0])
+        while self._rules1[nodes1[-1]].is_equivalence():
+            nodes1.append(self._rules1[nodes1[-1]].children[0])
+        while self._rules2[nodes2[-1]].is_equivalence():
+            nodes2.append(self._rules2[nodes2[-1]].children[0])
         return nodes1, nodes2
 
     def _base_cases(
@@ -243,11 +242,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         return Isomorphism._UNKNOWN
 
     def _path_tracker_push(
-        self, c1: int, c2: int, eq_path1: bool, eq_path2: bool
+        self, c1: int, c2: int, eq_steps1: int, eq_steps2: int
     ) -> None:
         """Store the path being taken."""
-        t1 = (0, c1) if eq_path1 else (c1,)
-        t2 = (0, c2) if eq_path2 else (c2,)
+        t1 = (0,) * eq_steps1 + (c1,)
+        t2 = (0,) * eq_steps2 + (c2,)
         self._path_tracker.append((t1, t2))
 
     def _path_tracker_pop(self) -> None:
-- 
2.43.0


From 8b4c9cc44116dceb45a1bb00c5603eed36e4b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 22/30] fix: parallel finder for start classes that are not the
 representative of their equivalence class

---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 283a5a8..d24c782 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -533,7 +533,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
     @staticmethod
     def _create_spec(d: SpecMap, pi: ParallelInfo) -> CombinatorialSpecification:
         rules = SpecificationRuleExtractor(
-            pi.root_eq_label,
+            pi.searcher.start_label,
             ParallelSpecFinder._create_tree(d, pi.root_eq_label),
             pi.ruledb,
             pi.searcher.classdb,
-- 
2.43.0


From 8b53bbe2bc4927fc0ff9ccbbf156b53bb7cd3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 23/30] fix: parallel finder finds nothing in searchers without
 specifications and with verified classes that are no atoms

---
 comb_spec_searcher/bijection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index d24c782..5c3eafc 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -95,8 +95,8 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
         self.eq_label_rules = self._construct_eq_label_rules()
 
     def _expand(self, additional_levels: int) -> None:
-        """Expand until at least one spec exists and after that some
-        additional expansions can be done (optionally)."""
+        """Expand until at least one spec exists (or nothing is left to expand) and
+        after that some additional expansions can be done (optionally)."""
         self._expand_until_spec()
         self._additional_expands(additional_levels)
 
@@ -104,9 +104,9 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
         try:
             while not self.searcher.has_specification():
                 self.searcher.do_level()
-        except NoMoreClassesToExpandError as ex:
-            if not self.searcher.has_specification():
-                raise ValueError("No specifications were found") from ex
+        except NoMoreClassesToExpandError:
+            # There might be no specification, in which case nothing will be matched.
+            pass
 
     def _additional_expands(self, additional_levels: int) -> None:
         try:
@@ -132,15 +132,15 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
 
         for eq_par, eq_chi in lis:
             parent, rule = self._get_class_and_rule(eq_par, eq_chi, rule_dict)
-            assert not parent.is_empty()
+            if not isinstance(rule, Rule) and not parent.is_atom():
+                # Only atoms can be matched as leaves.
+                continue
             if parent.is_atom():
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
                 ).size()
                 self.atom_map[eq_par] = (sz, rule.get_terms(sz))
             else:
-                if not isinstance(rule, Rule):
-                    raise ValueError("Only atoms can be verified.")
                 assert len(eq_chi) > 0
             eq_label_rules[eq_par][len(eq_chi)].append((eq_chi, rule))
         return eq_label_rules
-- 
2.43.0


From 00911cb96d39b5a4528636e425795a126c7e4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 24/30] fix: parallel finder matched equivalence rules with
 rules that are not

---
 comb_spec_searcher/bijection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 5c3eafc..d8780eb 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -325,6 +325,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             return not isinstance(rule2, Rule)
         if not isinstance(rule2, Rule):
             return False
+        if rule1.is_equivalence() != rule2.is_equivalence():
+            # The isomorphism check skips the equivalence.
+            return False
         return rule1.constructor.equiv(rule2.constructor)[0]
 
     def _potential_children(
-- 
2.43.0


From f737cc58afb5c79e3d91af1cd8ea524833ee3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 25/30] fix: parallel finder compares the paths to atoms and to
 each child

---
 comb_spec_searcher/bijection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index d8780eb..04d61ee 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -60,8 +60,8 @@ RuleClassification = DefaultDict[
 EqPathTracker = DefaultDict[
     Tuple[int, int],
     DefaultDict[
-        Tuple[int, int],
-        Dict[Tuple[Tuple[int, ...], Tuple[int, ...]], bool],
+        Tuple[int, int, int, int],
+        Dict[Tuple[Optional[Tuple[int, ...]], ...], bool],
     ],
 ]
 
@@ -687,6 +687,11 @@ class EqPathParallelSpecFinder(
             if not self._atom_path_match(id1, id2, sp1, sp2):
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
+            # The path to an atom may require rules as any other path.
+            if not self._eq_path_matches(
+                id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
+            ):
+                return EqPathParallelSpecFinder._INVALID
             return EqPathParallelSpecFinder._VALID
         # If both ids are set we still need to check if they are valid in terms
         # of eq paths since we may have arrived from different parents.
@@ -764,8 +769,8 @@ class EqPathParallelSpecFinder(
         if the actual rules required (disregarding actual equivalence rules) to traverse
         this path match.
         """
-        children = (sp1[id1], sp2[id2])
-        children_cache = cache[(id1, id2)][(pid1, pid2)]
+        children = (sp1[id1], sp2[id2], sp1.get(pid1), sp2.get(pid2))
+        children_cache = cache[(id1, id2)][(pid1, pid2, idx1, idx2)]
         if children not in children_cache:
             path1 = EquivalenceRuleExtractor(
                 self._pi1.root_eq_label,
-- 
2.43.0


From 791bdd10ad7ab60346061584c0231bae4393cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 26/30] fix: parallel finder accepted pairs whose chosen
 children do not match

---
 comb_spec_searcher/bijection.py | 43 ++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 04d61ee..93db2ab 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -390,6 +390,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             sp2,
         ) = ParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs whose choice of children is checked, or being checked.
+        checked: Dict[Tuple[int, int], None] = {}
+
         # Recursive helper function that tries to populate the spec maps in a way
         # that no label appears on the LHS more than one time.
         def _rec(
@@ -399,13 +402,21 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         ) -> bool:
             # Check base cases (invalid = -1, valid = 1)
             bc = ParallelSpecFinder._search_matching_info_recursion_base_cases(
-                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
+                id1,
+                id2,
+                matching_info,
+                matching_info1,
+                matching_info2,
+                sp1,
+                sp2,
+                checked,
             )
             if bc:
                 return bool(bc + 1)
 
             # If ids have appeared before, we don't want to clean them when done
             rec1, rec2 = id1 in sp1, id2 in sp2
+            n_checked = len(checked)
 
             # For all children that matches for given parent pair where they are either
             # not in spec maps or they are mapped to the children we are looking at.
@@ -416,6 +427,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             ):
                 # Add rule for spec to (id -> children) for both specs
                 sp1[id1], sp2[id2] = children1, children2
+                checked[(id1, id2)] = None
 
                 # Construct cleaning sets that are passed down the recursion
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
@@ -440,6 +452,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                 ParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
+                # The pairs checked since then may rely on the failed one.
+                while len(checked) > n_checked:
+                    checked.popitem()
             return False
 
         if _rec(
@@ -474,6 +489,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        checked: Dict[Tuple[int, int], None],
     ) -> int:
         if ParallelSpecFinder._inconsistent_with_matching_info(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
@@ -483,8 +499,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if ((), ()) in matching_info[(id1, id2)]:
             sp1[id1], sp2[id2] = (), ()
             return ParallelSpecFinder._VALID
-        # If both are assigned, we are done
-        if id1 in sp1 and id2 in sp2:
+        # If both are assigned and their children match, we are done
+        if (id1, id2) in checked:
             return ParallelSpecFinder._VALID
         return ParallelSpecFinder._UNKNOWN
 
@@ -505,6 +521,11 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             (id1, id2) not in matching_info
             or (id1 in sp1 and sp1[id1] not in matching_info1[id1][id2])
             or (id2 in sp2 and sp2[id2] not in matching_info2[id2][id1])
+            or (
+                id1 in sp1
+                and id2 in sp2
+                and (sp1[id1], sp2[id2]) not in matching_info[(id1, id2)]
+            )
         )
 
     @staticmethod
@@ -592,6 +613,9 @@ class EqPathParallelSpecFinder(
             sp2,
         ) = EqPathParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs whose choice of children is checked, or being checked.
+        checked: Dict[Tuple[int, int], None] = {}
+
         # For storing results of eq path checking.
         eq_path_tracker: EqPathTracker = defaultdict(lambda: defaultdict(dict))
 
@@ -610,16 +634,19 @@ class EqPathParallelSpecFinder(
                 sp2,
                 self._path[-1],
                 eq_path_tracker,
+                checked,
             )
             if bc:
                 return bool(bc + 1)
             rec1, rec2 = id1 in sp1, id2 in sp2
+            n_checked = len(checked)
             for children1, children2 in filter(
                 lambda c: (id1 not in sp1 or c[0] == sp1[id1])
                 and (id2 not in sp2 or c[1] == sp2[id2]),
                 matching_info[(id1, id2)],
             ):
                 sp1[id1], sp2[id2] = children1, children2
+                checked[(id1, id2)] = None
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
 
                 # Check if the path required for the eq labels actually matches
@@ -654,6 +681,9 @@ class EqPathParallelSpecFinder(
                 EqPathParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
+                # The pairs checked since then may rely on the failed one.
+                while len(checked) > n_checked:
+                    checked.popitem()
             return False
 
         if _rec(
@@ -675,6 +705,7 @@ class EqPathParallelSpecFinder(
         sp2: SpecMap,
         relations: Tuple[int, int, int, int],
         eq_path_tracker: EqPathTracker,
+        checked: Dict[Tuple[int, int], None],
     ) -> int:
         pid1, pid2, idx1, idx2 = relations
         if EqPathParallelSpecFinder._inconsistent_with_matching_info(
@@ -699,6 +730,9 @@ class EqPathParallelSpecFinder(
             if self._eq_path_matches(
                 id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
             ):
+                # The children chosen may not have been matched with each other
+                if (id1, id2) not in checked:
+                    return EqPathParallelSpecFinder._UNKNOWN
                 # If we have already matched id1 and id2 but in a different path, they
                 # can still be incompatible due to this current path's atom labels.
                 should_check = (id1, id2) not in self._path_ancestors
@@ -728,6 +762,9 @@ class EqPathParallelSpecFinder(
             return True
         if children1 == () == children2:
             return self._atom_path_match(id1, id2, sp1, sp2)
+        if (children1, children2) not in matching_info.get((id1, id2), {}):
+            # The children chosen for other pairs do not match with each other
+            return False
         mem.add((id1, id2))
         for j2, ((j1, child1), child2) in enumerate(
             zip(
-- 
2.43.0


From a9fd00c166f1cacd2ab0cc1335fb886d557d4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 27/30] fix: equality of strategies ignores how the instance
 was created

---
 comb_spec_searcher/strategies/strategy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/strategy.py b/comb_spec_searcher/strategies/strategy.py
index 03ec634..c8525e6 100644
--- a/comb_spec_searcher/strategies/strategy.py
+++ b/comb_spec_searcher/strategies/strategy.py
@@ -114,6 +114,14 @@ def strategy_from_dict(d) -> CSSstrategy:
     return StratClass.from_dict(d)
 
 
+def _settings(strategy: object) -> Dict[str, Any]:
+    """
+    Return the settings of the strategy. The type arguments, that are recorded when
+    an instance of a generic class is created by subscription, are not among them.
+    """
+    return {k: v for k, v in strategy.__dict__.items() if k != "__orig_class__"}
+
+
 class AbstractStrategy(
     abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectType]
 ):
@@ -247,7 +255,7 @@ class AbstractStrategy(
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractStrategy):
             return NotImplemented
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __repr__(self):
         return (
@@ -947,7 +955,7 @@ class StrategyFactory(abc.ABC, Generic[CombinatorialClassType]):
         pass
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __hash__(self) -> int:
         """
-- 
2.43.0


From 59ef8383c1774617af8f43edaf437385f5870947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 28/30] fix: expanded specifications shared the inner rules of
 the original

---
 comb_spec_searcher/strategies/rule.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index bb55334..c936ea3 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -9,6 +9,7 @@ calling the Strategy class and storing its results.
 import abc
 import random
 from collections import defaultdict
+from copy import copy
 from importlib import import_module
 from itertools import chain, product
 from typing import (
@@ -735,6 +736,9 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
         self.original_rule = rule
         self._constructor: Optional[Union[DisjointUnion, Complement]] = None
 
+    def __copy__(self) -> "EquivalenceRule":
+        return self.__class__(copy(self.original_rule))
+
     def to_jsonable(self) -> dict:
         d = super().to_jsonable()
         d.pop("comb_class")
@@ -1005,6 +1009,9 @@ class ReverseRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
         self.idx = idx  # the idx of the child to be counted.
         self._constructor: Optional[Constructor] = None
 
+    def __copy__(self) -> "ReverseRule":
+        return self.__class__(copy(self.original_rule), self.idx)
+
     def to_jsonable(self) -> dict:
         d = super().to_jsonable()
         d.pop("comb_class")
-- 
2.43.0


From 3993e57ade768c423071e86f3931d3b2076d60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 29/30] fix: compare the contents of forest rule databases

A searcher with a RuleDBForest compared its database by identity, so a
searcher restored from a pickle never equalled the original.
---
 comb_spec_searcher/rule_db/forest.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 5eb6f73..903f372 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -56,6 +56,11 @@ class DefaultList(Generic[T]):
         self._default_factory = default_factory
         self._list: List[T] = []
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, DefaultList):
+            return NotImplemented
+        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+
     def _increase_list_len(self, key: int) -> None:
         """
         Increase the length of the list so that the given is valid.
@@ -95,6 +100,11 @@ class Function:
         self._preimage_count: DefaultList[int] = DefaultList(int)
         self._infinity_count: int = 0
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Function):
+            return NotImplemented
+        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+
     @property
     def preimage_count(self) -> List[int]:
         """
@@ -202,6 +212,11 @@ class TableMethod:
         self._current_gap: Tuple[int, int] = (1, 1)
         self._rule_holding_extra_terms: Set[int] = set()
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, TableMethod):
+            return NotImplemented
+        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+
     @property
     def function(self) -> Dict[int, Optional[int]]:
         """
@@ -637,6 +652,17 @@ class RuleDBForest(RuleDBAbstract):
         self._already_empty: Set[int] = set()
         self._rule_cache = tuple(rule_cache)
 
+    def __eq__(self, other: object) -> bool:
+        """Check if all stored information is the same."""
+        if not isinstance(other, self.__class__):
+            return NotImplemented
+        return (
+            self.reverse == other.reverse
+            and self.table_method == other.table_method
+            and self._already_empty == other._already_empty
+            and self._rule_cache == other._rule_cache
+        )
+
     # Implementation of RuleDBAbstract
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From b710c0b286c8db70302c9e25832887255d94e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:19 +0000
Subject: [PATCH 30/30] fix: expand the symmetries of the class whose
 verification is expanded

---
 comb_spec_searcher/specification.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index d23b38f..f4063e8 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -239,9 +239,11 @@ class CombinatorialSpecification(
         label_to_expand = css.classdb.get_label(comb_class)
         css.classqueue.add(label_to_expand)
         css.try_verify(comb_class, label_to_expand)
+        # pylint: disable=protected-access
+        if css.symmetries and label_to_expand not in css.symmetry_expanded:
+            css._symmetry_expand(comb_class, label_to_expand)
         # logger.info(CSS.run_information())
         try:
-            # pylint: disable=protected-access
             spec_rule = css._auto_search_rules(max_expansion_time=max_expansion_time)
         except SpecificationNotFound as e:
             raise SpecificationNotFound("Expansion unsuccessful") from e
-- 
2.43.0

