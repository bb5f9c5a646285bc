---------------------------- MODULE EquivDefs ------------------------------
(* What equivalence, verification and explanation mean (C06).                *)
(* one, two: sets of recorded one-way / two-way edges <<x, y>>.              *)
EXTENDS Naturals, Sequences, FiniteSets
Sym(two) == two \cup { <<e[2], e[1]>> : e \in two }
Edges(one, two) == one \cup Sym(two)
RECURSIVE ReachFix(_, _, _)
ReachFix(E, S, k) == LET T == S \cup { e[2] : e \in { f \in E : f[1] \in S } }
                     IN IF T = S \/ k = 0 THEN T ELSE ReachFix(E, T, k - 1)
Reach(E, x) == ReachFix(E, {x}, Cardinality(E) + 1)
\* x and y each reach the other
Equivalent(E, x, y) == y \in Reach(E, x) /\ x \in Reach(E, y)
\* the strongly connected component of every label of L
SCCs(E, L) == LET R == [x \in L |-> Reach(E, x)]
              IN  [x \in L |-> { y \in L : y \in R[x] /\ x \in R[y] }]
IsPath(E, p, x, y) == /\ Len(p) >= 1 /\ p[1] = x /\ p[Len(p)] = y
                      /\ \A i \in 1..(Len(p) - 1) : <<p[i], p[i + 1]>> \in E
=============================================================================
