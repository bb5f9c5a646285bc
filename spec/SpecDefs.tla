------------------------------ MODULE SpecDefs -----------------------------
(* Specifications: sets of rules over the classes of a universe.             *)
(* A case has                                                                *)
(*   cls   : classes, [w |-> TRUE, a, pre, pats, must, st] (words) or        *)
(*           [w |-> FALSE, e |-> empty, m |-> smallest size] (table)         *)
(*   facts : what the strategies do: [k |-> strategy, p, c, kind |->         *)
(*           union | product | ver | table, s |-> shifts (table), rev, eqv]; *)
(*           found by applying the strategies themselves                     *)
(*   root                                                                    *)
(* and a specification is a sequence of rules [l, r, s, steps]: classes,     *)
(* announced shifts, and how the rule came about: steps is a sequence of     *)
(* [f |-> plain | rev | eq | eqrev | none, k, p, c, i]; a rule of several    *)
(* steps is an equivalence path.                                             *)
EXTENDS Classes, ForestDefs
MinOf(x) == IF x.w THEN SmallestOf(x) ELSE x.m
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
SLhs(x) == IF x.f \in {"rev", "eqrev"} THEN x.c[x.i] ELSE x.p
SRhs(x) == CASE x.f = "plain" -> x.c
             [] x.f = "rev" -> <<x.p>> \o Without(x.c, x.i)
             [] x.f = "eq" -> <<x.c[x.i]>>
             [] x.f = "eqrev" -> <<x.p>>
             [] OTHER -> <<>>
FactsOf(case, x) == { j \in 1..Len(case.facts) :
                      /\ case.facts[j].k = x.k /\ case.facts[j].p = x.p /\ case.facts[j].c = x.c }
\* shifts of the steps from first principles; mins[i] is the smallest size of class i
Shifts(case, mins, x) ==
  IF x.f \in {"none", "eq", "eqrev"} THEN [i \in 1..Len(SRhs(x)) |-> 0]
  ELSE LET f == case.facts[CHOOSE j \in FactsOf(case, x) : TRUE]
           base == CASE f.kind = "union" -> [i \in 1..Len(f.c) |-> 0]
                     [] f.kind = "product" ->
                          [i \in 1..Len(f.c) |-> SumSeq([j \in 1..Len(f.c) |-> mins[f.c[j]]]) - mins[f.c[i]]]
                     [] f.kind = "table" -> f.s
                     [] OTHER -> <<>>
       IN IF x.f = "rev"
          THEN << - base[x.i] >> \o [j \in 1..(Len(base) - 1) |-> Without(base, x.i)[j] - base[x.i]]
          ELSE base
StepBad(case, emp, x) ==
  IF x.f = "none" THEN {}
  ELSE IF FactsOf(case, x) = {} THEN {"not_a_rule_of_the_strategies"}
  ELSE LET f == case.facts[CHOOSE j \in FactsOf(case, x) : TRUE] IN
       (IF x.f \in {"rev", "eqrev"} /\ ~f.rev THEN {"reverse_of_an_irreversible_rule"} ELSE {})
       \cup (IF x.f \in {"rev", "eqrev", "eq"} /\ x.i \notin 1..Len(x.c) THEN {"no_such_child"} ELSE {})
       \cup (IF x.f \in {"eq", "eqrev"} /\ ~f.eqv THEN {"equivalence_of_a_rule_that_is_none"} ELSE {})
       \cup (IF x.f \in {"eq", "eqrev"} /\ x.i \in 1..Len(x.c)
                /\ (emp[x.c[x.i]] \/ \E j \in 1..Len(x.c) : j # x.i /\ ~emp[x.c[j]])
             THEN {"equivalence_with_other_children"} ELSE {})
\* every rule is what it claims to be
RuleBad(case, emp, r) ==
  UNION { StepBad(case, emp, r.steps[j]) : j \in 1..Len(r.steps) }
  \cup (IF r.steps = <<>> THEN {"no_steps"}
        ELSE IF \E j \in 1..Len(r.steps) : r.steps[j].f = "none"
        THEN (IF Len(r.steps) # 1 \/ r.r # <<>> THEN {"empty_rule_with_children"} ELSE {})
             \cup (IF ~emp[r.l] THEN {"empty_rule_for_a_nonempty_class"} ELSE {})
             \cup (IF r.steps[1].p # r.l THEN {"rule_is_not_its_steps"} ELSE {})
        ELSE (IF \/ SLhs(r.steps[1]) # r.l
                 \/ SRhs(r.steps[Len(r.steps)]) # r.r
                 \/ \E j \in 1..(Len(r.steps) - 1) : SRhs(r.steps[j]) # <<SLhs(r.steps[j + 1])>>
              THEN {"rule_is_not_its_steps"} ELSE {})
             \cup (IF Len(r.steps) > 1 /\ \E j \in 1..Len(r.steps) :
                        Len(SRhs(r.steps[j])) # 1 THEN {"path_through_a_branching_rule"} ELSE {}))
\* the single steps of all rules
StepsOf(rules) == UNION { ToSet(rules[j].steps) : j \in 1..Len(rules) }
ClosedBad(case, emp, rules) ==
  LET lhs == { rules[j].l : j \in 1..Len(rules) } IN
  (IF case.root \notin lhs THEN {"no_rule_for_the_start_class"} ELSE {})
  \cup (IF \E j \in 1..Len(rules) : \E i \in 1..Len(rules[j].r) :
             ~emp[rules[j].r[i]] /\ rules[j].r[i] \notin lhs THEN {"class_without_rule"} ELSE {})
  \cup (IF Cardinality(lhs) # Len(rules) THEN {"two_rules_for_a_class"} ELSE {})
  \cup (IF \E x, y \in { z \in StepsOf(rules) : z.f # "none" } : x # y /\ SLhs(x) = SLhs(y)
        THEN {"two_rules_for_a_class"} ELSE {})
ForestOf(case, mins, r, own) ==
  [p |-> r.l, c |-> r.r, s |-> IF own THEN (IF Len(r.steps) = 1 THEN Shifts(case, mins, r.steps[1])
                                            ELSE [i \in 1..Len(r.r) |-> 0]) ELSE r.s]
ProductiveBad(case, emp, mins, rules, own) ==
  LET lhs == { rules[j].l : j \in 1..Len(rules) }
      L == lhs \cup UNION { ToSet(rules[j].r) : j \in 1..Len(rules) }
      fr == [j \in 1..Len(rules) |-> ForestOf(case, mins, rules[j], own)]
            \o SetToSeq({ [p |-> x, c |-> <<>>, s |-> <<>>] : x \in { y \in L \ lhs : emp[y] } })
      f == LFP(L, TLCEval(fr), Cap(Cardinality(L), ToSet(fr)))
  IN IF \E x \in L : f[x] # INF THEN {IF own THEN "not_productive" ELSE "not_productive_as_announced"} ELSE {}
SpecBad(case, rules, announced) ==
  LET ids == {case.root} \cup { rules[j].l : j \in 1..Len(rules) }
             \cup UNION { ToSet(rules[j].r) : j \in 1..Len(rules) }
             \cup UNION { {x.p} \cup ToSet(x.c) : x \in StepsOf(rules) }
      mins == TLCEval([x \in ids |-> MinOf(case.cls[x])])
      emp == TLCEval([x \in ids |-> IF case.cls[x].w THEN mins[x] = -1 ELSE case.cls[x].e])
      b == UNION { RuleBad(case, emp, rules[j]) : j \in 1..Len(rules) }
           \cup ClosedBad(case, emp, rules)
           \cup (IF announced /\ \E j \in 1..Len(rules) : Len(rules[j].s) # Len(rules[j].r)
                 THEN {"wrong_number_of_shifts"} ELSE {})
  IN IF b # {} THEN b
     ELSE ProductiveBad(case, emp, mins, rules, TRUE)
          \cup (IF announced /\ \E j \in 1..Len(rules) :
                     ForestOf(case, mins, rules[j], TRUE).s # rules[j].s THEN ProductiveBad(case, emp, mins, rules, FALSE) ELSE {})
=============================================================================
