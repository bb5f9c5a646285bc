---------------------------- MODULE ResumeTrace ----------------------------
(* Searches stopped after any number of packets, saved with pickle and       *)
(* continued (C17).  A case is one search, stopped after some packets,       *)
(* saved, and continued both by the original (branch 1) and by the restored  *)
(* searcher (branch 2).  case.ref is the history of the same search left     *)
(* alone: one entry <<packet, rules added, classes labelled>> per packet.    *)
(* The state of a branch is the number of packets done, the classes labelled *)
(* and the packets handed out.                                               *)
(*   step   : one packet is handed out, and what is done with it             *)
(*   paused : the call ended (time limit, or stopped between two packets)    *)
(*   save   : branch 2 starts as a copy of branch 1                          *)
(*   end    : the last call returned; answers and universe                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
None == [n |-> 0, lab |-> {}, pk |-> {}]
Start(case) == [n |-> 0, lab |-> { case.lab0[i][2] : i \in 1..Len(case.lab0) }, pk |-> {}]
\* own: what branch 1 did since it was saved, for searches continued by other calls
InitSt(case) == [br |-> <<Start(case), None>>, at |-> 0, own |-> <<>>, fin |-> <<>>]
Bad(c, name) == IF c THEN {name} ELSE {}
Entry(e) == <<e.pkt, e.adds, e.cls>>
\* the history branch b must follow at its n-th packet: that of the search left
\* alone, or, once other calls are made, that of the original
Follows(case, s, b) == IF case.script = 0 THEN "ref" ELSE IF b = 1 /\ s.at > 0 THEN "free"
                       ELSE IF b = 2 THEN "own" ELSE "ref"
StepBad(case, s, e) ==
  LET b == s.br[e.b]
      n == b.n + 1
      f == Follows(case, s, e.b)
      hist == IF f = "ref" THEN case.ref ELSE s.own
      k == IF f = "ref" THEN n ELSE n - (s.at - 1)
      done == { <<e.adds[i][3], e.adds[i][4], e.adds[i][5]>> : i \in 1..Len(e.adds) }
  IN Bad(f # "free" /\ k > Len(hist), "more_work_than_uninterrupted")
     \cup Bad(f # "free" /\ k <= Len(hist) /\ hist[k] # Entry(e), "different_work")
     \cup Bad(\E i \in 1..Len(e.need) : e.need[i] \notin done, "work_not_done")
     \cup Bad(e.pkt \in b.pk, "work_repeated")
     \cup Bad(\E i \in 1..Len(e.cls) : e.cls[i][2] \in b.lab, "labelled_again")
StepStep(case, s, e) ==
  [st |-> [s EXCEPT !.br[e.b] = [n |-> @.n + 1, lab |-> @.lab \cup { e.cls[i][2] : i \in 1..Len(e.cls) },
                                 pk |-> IF case.repeats = 0 THEN @.pk \cup {e.pkt} ELSE {}],
                    !.own = IF e.b = 1 /\ s.at > 0 THEN Append(@, Entry(e)) ELSE @],
   bad |-> StepBad(case, s, e)]
SaveStep(case, s, e) ==
  [st |-> [s EXCEPT !.br[2] = s.br[1], !.at = s.br[1].n + 1],
   bad |-> IF e.exc # "" THEN {"cannot_be_saved_and_restored"}
           ELSE Bad(\E i \in 1..Len(e.eq) : e.eq[i] = 0, "restored_differs")]
EndBad(case, s, e) ==
  LET b == s.br[e.b]
      last == e.ans[Len(e.ans)]
  IN IF case.script = 0
     THEN Bad(b.n # Len(case.ref), "less_work_than_uninterrupted")
          \cup Bad(last # case.refans[1], "different_answer")
          \cup Bad(e.snap # case.refsnap, "different_universe")
     ELSE IF e.b = 1 THEN {}
     ELSE Bad(b.n - (s.at - 1) # Len(s.own), "less_work_than_the_original")
          \cup Bad(e.ans # s.fin[1], "different_answers")
          \cup Bad(e.snap # s.fin[2], "different_universe")
EndStep(case, s, e) ==
  [st |-> IF e.b = 1 THEN [s EXCEPT !.fin = <<e.ans, e.snap>>] ELSE s, bad |-> EndBad(case, s, e)]
Step(case, s, e) ==
  CASE e.op = "step" -> StepStep(case, s, e)
    [] e.op = "paused" -> [st |-> s, bad |-> Bad(e.bad # 0, "not_left_consistent")]
    [] e.op = "save" -> SaveStep(case, s, e)
    [] e.op = "end" -> EndStep(case, s, e)
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
