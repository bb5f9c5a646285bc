-------------------------- MODULE RealExtractTrace --------------------------
(* Extraction in real searches (C11).  A case is as in SpecDefs; case.ins    *)
(* are the rules the search inserted, as <<fact, 0>> or <<0, class>> for the *)
(* empty rule of a class, case.rev says whether their reverses count as      *)
(* inserted too.  An extract event has the keys needed [p, c, s] and the     *)
(* concrete rules they were turned into, as in SpecDefs.                     *)
(* Keys are computed here from the facts: shifts from the smallest sizes,    *)
(* equivalences from the emptiness of the classes.                           *)
EXTENDS SpecDefs, Json, IOUtils, TLCExt
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
Bad(c, name) == IF c THEN {name} ELSE {}
InitSt(case) ==
  LET ids == 1..Len(case.cls)
      sizes == TLCEval([x \in ids |-> IF case.mins THEN MinOf(case.cls[x]) ELSE 0])
      emp == TLCEval([x \in ids |-> IF case.cls[x].w THEN sizes[x] = -1 ELSE case.cls[x].e])
  IN [mins |-> sizes, emp |-> emp]
StepOf(f, form, i) == [f |-> form, k |-> f.k, p |-> f.p, c |-> f.c, i |-> i]
KeyOf(case, mins, f, form, i) ==
  LET x == StepOf(f, form, i) IN [p |-> SLhs(x), c |-> SRhs(x), s |-> Shifts(case, mins, x)]
IsEquivalence(emp, f) == f.eqv /\ Cardinality({ j \in 1..Len(f.c) : ~emp[f.c[j]] }) = 1
\* the keys inserted that are no reverse rules, and those that are
Straight(case, t) ==
  UNION { LET x == case.ins[j] IN
          IF x[1] = 0 THEN { [p |-> x[2], c |-> <<>>, s |-> <<>>] }
          ELSE LET f == case.facts[x[1]] IN
               {KeyOf(case, t.mins, f, "plain", 0)}
               \cup (IF case.rev /\ f.rev /\ IsEquivalence(t.emp, f)
                     THEN { KeyOf(case, t.mins, f, "rev", i) : i \in { k \in 1..Len(f.c) : ~t.emp[f.c[k]] } }
                     ELSE {})
          : j \in 1..Len(case.ins) }
Reversed(case, t) ==
  UNION { LET x == case.ins[j] IN
          IF x[1] = 0 \/ ~case.rev THEN {}
          ELSE LET f == case.facts[x[1]] IN
               IF ~f.rev THEN {} ELSE { KeyOf(case, t.mins, f, "rev", i) : i \in 1..Len(f.c) }
          : j \in 1..Len(case.ins) }
\* the key of a concrete rule, the empty children of equivalences put back
RuleKey(case, t, r) ==
  LET x == r.steps[1]
      f == case.facts[CHOOSE j \in FactsOf(case, x) : TRUE] IN
  IF x.f \in {"eq", "plain"} THEN KeyOf(case, t.mins, f, "plain", 0) ELSE KeyOf(case, t.mins, f, "rev", x.i)
Real(case, t, e) ==
  LET N == e.needed
      S == TLCEval(Straight(case, t))
      V == TLCEval(Reversed(case, t))
      keys == { [p |-> N[i].p, c |-> N[i].c, s |-> N[i].s] : i \in 1..Len(N) }
      L == 1..Len(case.cls)
      cap == Cap(Len(case.cls), S \cup V)
      mentioned == {case.root} \cup Ment(keys)
      lhs(x) == { i \in 1..Len(N) : N[i].p = x }
      drop(i) == SubSeq(N, 1, i - 1) \o SubSeq(N, i + 1, Len(N))
      \* classes whose key is no empty rule, in order
      conc == SelectSeq(N, LAMBDA k : ~(k.c = <<>> /\ <<0, k.p>> \in ToSet(case.ins)))
  IN IF e.exc # "" THEN {"extraction_failed"}
     ELSE Bad(~(keys \subseteq S \cup V), "rule_not_inserted")
          \cup Bad(~Pumps(L, N, cap, case.root), "not_productive")
          \cup Bad(\E x \in mentioned : lhs(x) = {}, "class_without_rule")
          \cup Bad(\E x \in L : Cardinality(lhs(x)) > 1, "two_rules_for_a_class")
          \cup Bad(\E i \in 1..Len(N) : Pumps(L, drop(i), cap, case.root), "not_minimal")
          \cup Bad(~(keys \subseteq S) /\ keys \subseteq S \cup V /\ Pumps(L, SetToSeq(S), cap, case.root),
                   "needless_reverse_rule")
          \cup (IF Len(e.rules) # Len(conc) THEN {"number_of_rules"}
                ELSE UNION { LET r == e.rules[i] IN
                       IF Len(r.steps) # 1 \/ r.steps[1].f = "none" THEN {"not_a_rule_of_the_pack"}
                       ELSE IF StepBad(case, t.emp, r.steps[1]) # {} THEN StepBad(case, t.emp, r.steps[1])
                       ELSE LET k == RuleKey(case, t, r) IN
                            Bad(k # [p |-> conc[i].p, c |-> conc[i].c, s |-> conc[i].s], "rule_with_another_key")
                            \cup Bad(r.l # SLhs(r.steps[1]) \/ r.r # SRhs(r.steps[1]), "rule_is_not_its_steps")
                     : i \in 1..Len(conc) })
Step(case, t, e) == [st |-> t, bad |-> Real(case, t, e)]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
