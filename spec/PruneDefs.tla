---------------------------- MODULE PruneDefs ------------------------------
(* What pruning and proof trees mean (C05).  R: function label -> set of     *)
(* rules, a rule being a sequence of labels.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
\* greatest fixed point: the labels that have a rule inside the set
RECURSIVE GFPFix(_, _)
GFPFix(R, S) == LET T == { x \in S : \E r \in R[x] : ToSet(r) \subseteq S }
                IN IF T = S THEN S ELSE GFPFix(R, T)
GFP(R) == GFPFix(R, DOMAIN R)
\* what pruning leaves
Pruned(R) == [x \in GFP(R) |-> { r \in R[x] : ToSet(r) \subseteq GFP(R) }]
\* least fixed point, the root given
RECURSIVE LFPFix(_, _)
LFPFix(R, S) == LET T == S \cup { x \in DOMAIN R : \E r \in R[x] : ToSet(r) \subseteq S }
                IN IF T = S THEN S ELSE LFPFix(R, T)
IterRules(R, root) == LET S == LFPFix(R, {root}) IN
                      [x \in { y \in DOMAIN R : \E r \in R[y] : ToSet(r) \subseteq S } |->
                            { r \in R[x] : ToSet(r) \subseteq S }]
IterOK(R, root) == root \in DOMAIN IterRules(R, root)
Srt(sq) == SortSeq(sq, LAMBDA a, b : a < b)
\* A tree is the sequence of its nodes in preorder, a node being
\* <<label, <<labels of its children>> >>.
TreeBad(R, root, t) ==
  LET lab == { t[i][1] : i \in 1..Len(t) }
      inner(x) == { t[i][2] : i \in { j \in 1..Len(t) : t[j][1] = x /\ t[j][2] # <<>> } }
      used(x) == { Srt(c) : c \in inner(x) }
  IN (IF t = <<>> \/ t[1][1] # root THEN {"tree_not_rooted_at_the_start"} ELSE {})
     \cup (IF \E x \in lab : x \notin DOMAIN R \/ ~(used(x) \subseteq { Srt(r) : r \in R[x] })
           THEN {"tree_uses_an_unrecorded_rule"} ELSE {})
     \cup (IF \E x \in lab : Cardinality(used(x)) > 1 THEN {"label_with_two_rules"} ELSE {})
     \cup (IF \E x \in lab : used(x) = {} /\ (x \notin DOMAIN R \/ <<>> \notin R[x])
           THEN {"label_without_rule"} ELSE {})
     \cup (IF Len(t) # 1 + FoldLeft(LAMBDA a, n : a + Len(n[2]), 0, t) THEN {"malformed_tree"} ELSE {})
\* without its edges to the root the tree's rules have no cycle
Acyclic(root, t) ==
  LET E == UNION { { <<t[i][1], t[i][2][j]>> : j \in 1..Len(t[i][2]) } : i \in 1..Len(t) }
      V == { t[i][1] : i \in 1..Len(t) } \cup {root}
      RECURSIVE Elim(_)
      Elim(D) == LET N == D \cup { x \in V : \A e \in E : e[1] = x => e[2] \in D \cup {root} }
                 IN IF N = D THEN D ELSE Elim(N)
  IN V \subseteq Elim({})
\* minimum number of nodes of a proof tree: one node for the root and one for
\* every child of a rule of a chosen label
RECURSIVE MinCost(_, _, _)
MinCost(R, todo, done) ==
  IF todo = {} THEN 0
  ELSE LET x == Min(todo)
       IN Min({ Len(r) + MinCost(R, (todo \cup ToSet(r)) \ (done \cup {x}), done \cup {x}) : r \in R[x] })
MinSize(R, root) == 1 + MinCost(Pruned(R), {root}, {})
=============================================================================
