---------------------------- MODULE ForestTrace ----------------------------
(* Histories of insertions into the real table method (C03): after every     *)
(* insertion the reported values must be the least fixed point.              *)
EXTENDS ForestDefs, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
Labels(case) == 0..(case.n - 1)
RulesOf(case) == { case.ev[i].r : i \in { j \in 1..Len(case.ev) : case.ev[j].op = "add" } }
InitSt(case) == [f |-> Zero(Labels(case)), rules |-> <<>>]
\* e.fn: reported function as pairs <<class, value>>; e.pump: classes reported pumping
Judge(case, f, e) ==
  LET L == Labels(case)
      R(x) == LET h == { i \in 1..Len(e.fn) : e.fn[i][1] = x } IN
              IF h = {} THEN 0 ELSE e.fn[CHOOSE i \in h : TRUE][2]
      pump == { e.pump[i] : i \in 1..Len(e.pump) }
      allp == \A x \in L : f[x] = INF
  IN (IF e.exc # "" THEN {"insertion_failed"} ELSE {})
     \cup (IF e.exc = "" /\ \E x \in L : f[x] # INF /\ R(x) = INF THEN {"infinite_but_finite_fixed_point"} ELSE {})
     \cup (IF e.exc = "" /\ \E x \in L : f[x] = INF /\ R(x) # INF THEN {"finite_but_infinite_fixed_point"} ELSE {})
     \cup (IF e.exc = "" /\ \E x \in L : f[x] # INF /\ R(x) # INF /\ f[x] # R(x) THEN {"number_of_terms"} ELSE {})
     \cup (IF e.exc = "" /\ pump # { x \in L : f[x] = INF } THEN {"is_pumping"} ELSE {})
Step(case, s, e) ==
  CASE e.op = "add" ->
         LET rs == Append(s.rules, e.r)
             f == LFPFrom(s.f, rs, Cap(case.n, RulesOf(case)))
         IN [st |-> [f |-> f, rules |-> rs], bad |-> IF e.look THEN Judge(case, f, e)
                                                     ELSE IF e.exc # "" THEN {"insertion_failed"} ELSE {}]
    [] e.op = "sub" ->  \* pumping_subuniverse: exactly the rules all of whose classes pump
         [st |-> s, bad |->
           LET want == SelectSeq(s.rules, LAMBDA r : s.f[r.p] = INF /\ \A i \in 1..Len(r.c) : s.f[r.c[i]] = INF)
           IN IF e.exc # "" \/ ToSet(e.rules) # ToSet(want) \/ Len(e.rules) # Len(want)
              THEN {"pumping_subuniverse"} ELSE {}]
    [] OTHER -> [st |-> s, bad |-> {"unknown_event"}]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
