----------------------------- MODULE TraceBase -----------------------------
(* Generic trace validator.  A *case* is one recorded execution of the real  *)
(* code: a record with a field ev, the sequence of recorded steps.           *)
(* InitSt(case) is the abstract state before the first step and              *)
(* Step(case, st, e) explains the recorded step e: it returns a record       *)
(* [st |-> next abstract state, bad |-> set of names of violated clauses].   *)
(* The verdict is total: every step of every case is either explained        *)
(* (bad = {}) or rejected with the clauses it violates.                      *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils, SequencesExt
CONSTANTS Cases, InitSt(_), Step(_, _, _)
VARIABLES cs, l, st, bad

tvars == <<cs, l, st, bad>>

TInit == /\ cs \in 1..Len(Cases)
         /\ l = 1
         /\ st = InitSt(Cases[cs])
         /\ bad = {}

TNext == /\ bad = {}
         /\ l <= Len(Cases[cs].ev)
         /\ LET r == Step(Cases[cs], st, Cases[cs].ev[l])
            IN  st' = r.st /\ bad' = r.bad
         /\ l' = l + 1
         /\ cs' = cs

TSpec == TInit /\ [][TNext]_tvars

Report == bad = {} \/ PrintT("FAIL@" \o ToJson(<<cs, l - 1, bad>>))

SumLens == FoldLeft(LAMBDA a, c : a + Len(c.ev) + 1, 0, Cases)
\* total acceptance: every recorded step of every case has been consumed
Accepted == \/ TLCGet("stats").distinct = SumLens
            \/ PrintT("NOTACCEPTED")
=============================================================================
