---------------------------- MODULE EquivTrace -----------------------------
(* Histories of the real EquivalenceDB judged against EquivDefs.             *)
(* Events: two/one/ver/connect are state changes; "query" records, for all   *)
(* labels, the reported classes, verified flags and explanation paths.       *)
EXTENDS EquivDefs, Integers, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
Labels(case) == 0..(case.n - 1)
InitSt(case) == [one |-> {}, two |-> {}, marked |-> {}, clean |-> TRUE,
                 scc |-> [x \in Labels(case) |-> {x}], base |-> {}]
AddE(s, x, y) == IF x = y THEN s ELSE s \cup {<<x, y>>}
Recomp(case, s) == [s EXCEPT !.scc = SCCs(Edges(s.one, s.two), Labels(case))]
Query(case, s, e) ==
  LET L == Labels(case)
      \* reported class of x
      cls == [x \in L |-> { y \in L : e.eq[x + 1][y + 1] }]
      E == Edges(s.one, s.two)
  IN (IF \E x \in L : ~(cls[x] \subseteq s.scc[x]) THEN {"equivalent_but_not_mutually_reachable"} ELSE {})
     \cup (IF s.clean /\ \E x \in L : ~(s.scc[x] \subseteq cls[x]) THEN {"mutually_reachable_but_not_equivalent"} ELSE {})
     \cup (IF \E x, y \in L : <<x, y>> \in s.base /\ y \notin cls[x] THEN {"equivalence_forgotten"} ELSE {})
     \cup (IF \E x \in L : x \notin cls[x] \/ \E y \in cls[x] : cls[y] # cls[x] THEN {"not_an_equivalence_relation"} ELSE {})
     \cup (IF \E x, y \in L : (y \in cls[x]) # (e.rep[x + 1] = e.rep[y + 1]) THEN {"representative"} ELSE {})
     \cup (IF \E x \in L : e.rep[x + 1] \notin cls[x] THEN {"representative_outside_class"} ELSE {})
     \cup (IF \E x \in L : e.ver[x + 1] # (cls[x] \cap s.marked # {}) THEN {"verified"} ELSE {})
     \cup (IF \E i \in 1..Len(e.paths) :
                 LET p == e.paths[i] IN ~IsPath(E, p.p, p.x, p.y)
           THEN {"explanation_path"} ELSE {})
     \cup (IF e.exc # "" THEN {"query_failed"} ELSE {})
Step(case, s, e) ==
  LET s1 == CASE e.op = "two" ->
                   Recomp(case, [s EXCEPT !.two = AddE(@, e.x, e.y), !.base = @ \cup {<<e.x, e.y>>, <<e.y, e.x>>},
                                 !.clean = @ /\ e.y \in s.scc[e.x]])
              [] e.op = "one" ->
                   Recomp(case, [s EXCEPT !.one = AddE(@, e.x, e.y),
                                 !.clean = @ /\ e.y \in s.scc[e.x]])
              [] e.op = "ver" -> [s EXCEPT !.marked = @ \cup {e.x}]
              [] e.op = "connect" -> [s EXCEPT !.clean = TRUE,
                                      !.base = @ \cup UNION { { <<x, y>> : y \in s.scc[x] } : x \in Labels(case) }]
              [] OTHER -> s
  IN [st |-> s1, bad |-> CASE e.op = "query" -> Query(case, s, e)
                           [] OTHER -> IF e.exc # "" THEN {"operation_failed"} ELSE {}]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
