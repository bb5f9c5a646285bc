---------------------------- MODULE ExtractTrace ---------------------------
(* Forest extraction (C11).  A case is a universe of rules with buckets, a   *)
(* root and the rules the extractor needed.                                  *)
EXTENDS ForestDefs, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
InitSt(case) == 0
Without(sq, i) == [j \in 1..(Len(sq) - 1) |-> IF j < i THEN sq[j] ELSE sq[j + 1]]
Step(case, s, e) ==
  LET L == 0..(case.n - 1)
      U == case.rules
      N == e.needed
      cap == Cap(case.n, ToSet(U))
      full == Pumps(L, U, cap, case.root)
      mentioned == {case.root} \cup Ment(ToSet(N))
      lhs(x) == { i \in 1..Len(N) : N[i].p = x }
  IN [st |-> s, bad |->
      IF ~full THEN (IF e.exc = "" THEN {"extracted_although_not_pumping"} ELSE {})
      ELSE IF e.exc # "" THEN {"extraction_failed"}
      ELSE (IF ~(ToSet(N) \subseteq ToSet(U)) THEN {"rule_not_inserted"} ELSE {})
           \cup (IF ~Pumps(L, N, cap, case.root) THEN {"not_productive"} ELSE {})
           \cup (IF \E x \in mentioned : lhs(x) = {} THEN {"class_without_rule"} ELSE {})
           \cup (IF \E x \in L : Cardinality(lhs(x)) > 1 THEN {"two_rules_for_a_class"} ELSE {})
           \cup (IF \E i \in 1..Len(N) : Pumps(L, Without(N, i), cap, case.root) THEN {"not_minimal"} ELSE {})
           \cup (IF (\E i \in 1..Len(N) : N[i].b = "reverse")
                    /\ Pumps(L, SelectSeq(U, LAMBDA r : r.b # "reverse"), cap, case.root)
                 THEN {"needless_reverse_rule"} ELSE {})]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
