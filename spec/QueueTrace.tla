---------------------------- MODULE QueueTrace -----------------------------
(* Validates recorded histories of the real queue with QueueMonitor.         *)
EXTENDS Integers, QueueMonitor, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
\* st: the monitor m and the level at which the open level iteration started
InitSt(case) == [m |-> MInit, g |-> -1]
Same(s, e) == IF e.lv1 = e.lv0 THEN {} ELSE {"level_changed_by_mark"}
Step(case, s, e) ==
  LET p == case.pack
      m == s.m
      g == IF s.g = -1 THEN e.lv0 ELSE s.g
  IN
  CASE e.op = "add" -> [st |-> [s EXCEPT !.m = MAdd(p, m, e.a, e.lv0)],
                        bad |-> Same(s, e) \cup IF e.out = "ok" THEN {} ELSE {"mark_failed"}]
    [] e.op \in {"stop", "verified"} ->
                       [st |-> [s EXCEPT !.m = MStop(p, m, e.a)],
                        bad |-> Same(s, e) \cup IF e.out = "ok" THEN {} ELSE {"mark_failed"}]
    [] e.op = "notinf" -> [st |-> [s EXCEPT !.m = MNotInf(p, m, e.a, e.lv0)],
                        bad |-> Same(s, e) \cup IF e.out = "ok" THEN {} ELSE {"mark_failed"}]
    [] e.op = "next" /\ e.out = "packet" ->
         [st |-> [s EXCEPT !.m = MPacket(p, m, e.pk, e.lv1)],
          bad |-> BadPacket(p, m, e.pk, e.lv0, e.lv1)]
    [] e.op = "next" /\ e.out = "StopIteration" ->
         [st |-> [s EXCEPT !.m.dry = TRUE], bad |-> BadDry(p, m)]
    [] e.op = "lnext" /\ e.out = "packet" ->
         [st |-> [g |-> g, m |-> MPacket(p, m, e.pk, e.lv1)],
          bad |-> BadPacket(p, m, e.pk, e.lv0, e.lv1)
                  \cup IF e.lv0 # g THEN {"level_iteration_went_past_its_level"} ELSE {}]
    [] e.op = "lnext" /\ e.out = "end" ->
         [st |-> [s EXCEPT !.g = -1, !.m.dry = IF e.lv0 = g THEN TRUE ELSE @],
          bad |-> (IF e.lv1 = g THEN {"level_iteration_ended_early"} ELSE {})
                  \cup (IF e.lv0 = g THEN BadDry(p, m) ELSE {})]
    [] e.op = "lnext" /\ e.out = "NoMoreClassesToExpandError" ->
         [st |-> [s EXCEPT !.g = -1, !.m.dry = TRUE],
          bad |-> (IF e.lv1 # g THEN {"error_although_level_advanced"} ELSE {}) \cup BadDry(p, m)]
    [] OTHER -> [st |-> s, bad |-> {"unexpected_outcome"}]

T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
