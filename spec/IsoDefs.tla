------------------------------ MODULE IsoDefs ------------------------------
(* When two specifications are isomorphic: equivalence rules are skipped,    *)
(* empty children are ignored, and the pairs of classes are in the largest   *)
(* relation in which related classes have the same kind of rule and some     *)
(* permutation relates their children (atoms: the same size).                *)
(* Constructors are compared by their kind alone, so this is implied by      *)
(* isomorphism in the sense of the library.                                  *)
EXTENDS SpecDefs
RECURSIVE Perms(_)
Perms(n) == IF n = 0 THEN {<<>>}
            ELSE { SubSeq(p, 1, i - 1) \o <<n>> \o SubSeq(p, i, n - 1) : p \in Perms(n - 1), i \in 1..n }
AlivesOf(emp, s) == SelectSeq(s, LAMBDA x : ~emp[x])
FactOf(case, x) == case.facts[CHOOSE j \in FactsOf(case, x) : TRUE]
IsEq(case, emp, r) ==
  \/ Len(r.steps) > 1
  \/ r.steps[1].f \in {"eq", "eqrev"}
  \/ /\ r.steps[1].f \in {"plain", "rev"}
     /\ Len(AlivesOf(emp, r.r)) = 1
     /\ FactOf(case, r.steps[1]).eqv
KindOf(case, x) == IF x.f = "none" THEN <<"empty">> ELSE <<x.f, FactOf(case, x).con>>
RECURSIVE EndOf(_, _, _, _, _)
EndOf(case, emp, rules, c, fuel) ==
  LET js == { j \in 1..Len(rules) : rules[j].l = c } IN
  IF js = {} \/ fuel = 0 THEN 0
  ELSE LET j == CHOOSE k \in js : TRUE
       IN IF IsEq(case, emp, rules[j]) THEN EndOf(case, emp, rules, AlivesOf(emp, rules[j].r)[1], fuel - 1)
          ELSE j
\* the nodes of a specification: [kind, children (indices of nodes), size of an atom]
Nodes(case, emp, rules) ==
  TLCEval([j \in 1..Len(rules) |->
    [kind |-> KindOf(case, rules[j].steps[1]),
     kids |-> LET al == AlivesOf(emp, rules[j].r)
              IN [i \in 1..Len(al) |-> EndOf(case, emp, rules, al[i], Len(rules))],
     leaf |-> rules[j].r = <<>>,
     size |-> IF rules[j].r = <<>> THEN MinOf(case.cls[rules[j].l]) ELSE 0]])
Compatible(x, y) ==
  /\ Len(x.kids) = Len(y.kids)
  /\ x.leaf = y.leaf
  /\ IF x.leaf THEN x.size = y.size ELSE x.kind = y.kind
Keeps(x, y, R) == \E p \in Perms(Len(x.kids)) : \A i \in 1..Len(x.kids) : <<x.kids[i], y.kids[p[i]]>> \in R
RECURSIVE Largest(_, _, _)
Largest(A, B, R) == LET S == { z \in R : Keeps(A[z[1]], B[z[2]], R) }
                    IN IF S = R THEN R ELSE Largest(A, B, TLCEval(S))
Isomorphic(case, r1, root1, r2, root2) ==
  LET ids == {root1, root2} \cup UNION { {r[j].l} \cup ToSet(r[j].r) : <<r, j>> \in
               ({r1} \X (1..Len(r1))) \cup ({r2} \X (1..Len(r2))) }
      emp == TLCEval([x \in ids |-> IF case.cls[x].w THEN MinOf(case.cls[x]) = -1 ELSE case.cls[x].e])
      A == Nodes(case, emp, r1)
      B == Nodes(case, emp, r2)
      R == TLCEval({ z \in (1..Len(r1)) \X (1..Len(r2)) : Compatible(A[z[1]], B[z[2]]) })
  IN <<EndOf(case, emp, r1, root1, Len(r1)), EndOf(case, emp, r2, root2, Len(r2))>> \in Largest(A, B, R)
=============================================================================
