---------------------------- MODULE RuleDBTrace ----------------------------
(* The default and the memory-saving rule databases fed with the same rules  *)
(* (C14).  Every observation is a pair: first the default one, second the    *)
(* memory-saving one; they must agree after every insertion, membership must *)
(* mean being stored, and a strategy handed back for a stored rule of a      *)
(* non-empty class must reproduce the rule.                                  *)
EXTENDS UniverseDefs, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
InitSt(case) == [lab |-> <<>>]
Agree(p) == p[1] = p[2]
Lab(s, c) == (CHOOSE i \in 1..Len(s.lab) : s.lab[i] = c) - 1
\* the keys a rule can be stored under
KeysOf(case, s, k, parent, children) ==
  LET D == IF Strat(case.u, k).pe THEN { i \in 1..Len(children) : children[i] \in Empty(case.u) } ELSE {}
      kept == Keep(children, (1..Len(children)) \ D)
  IN IF \E i \in 1..Len(kept) : kept[i] \notin ToSet(s.lab) THEN {}
     ELSE { <<Lab(s, parent), Sorted([i \in 1..Len(kept) |-> Lab(s, kept[i])])>> }
\* handed back: <<start, ends, strategy, from the equivalence store>>
StratBad(case, s, h) ==
  LET c == s.lab[h[1] + 1] IN
  IF c \in Empty(case.u) THEN {}
  ELSE IF h[3] < 0 THEN {"no_strategy_for_stored_rule"}
  ELSE (IF Applied(case.u, h[3], c) = <<>> \/ <<h[1], h[2]>> \notin KeysOf(case, s, h[3], c, Applied(case.u, h[3], c)[1])
        THEN {"strategy_does_not_reproduce_the_rule"} ELSE {})
       \cup (IF h[4] /\ ~Strat(case.u, h[3]).two THEN {"equivalence_strategy_not_two_way"} ELSE {})
Member(keys, pr) == <<pr[1], Sorted(pr[2])>> \in ToSet(keys)
Step(case, s, e) ==
  IF e.op \notin {"add", "end"} THEN [st |-> s, bad |-> {"insertion_failed"}]
  ELSE LET s1 == [s EXCEPT !.lab = @ \o e.labels] IN
  [st |-> s1,
   bad |-> (IF ~Agree(e.stored) THEN {"stored_rules_differ"} ELSE {})
      \cup (IF ~Agree(e.ver) THEN {"verified_labels_differ"} ELSE {})
      \cup (IF ~Agree(e.spec) THEN {"has_specification_differs"} ELSE {})
      \cup (IF ~Agree(e.has) THEN {"membership_differs"} ELSE {})
      \cup (IF \E d \in {1, 2} : \E i \in 1..Len(e.probes) :
                 e.has[d][i] # Member(e.stored[d], e.probes[i])
            THEN {"membership_wrong"} ELSE {})
      \cup UNION { UNION { StratBad(case, s1, e.strat[d][i]) : i \in 1..Len(e.strat[d]) } : d \in {1, 2} }]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
