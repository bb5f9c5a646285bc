----------------------------- MODULE ResumeMC ------------------------------
(* Design of interruptible searches (C17): a searcher is its queue and its   *)
(* universe (the labels seen, and the rules as pairs <<label, item>>);       *)
(* expanding a packet is atomic, the clock is looked at between packets      *)
(* only, so a search can stop there (Pause), be saved (Save) and a restored  *)
(* copy can take over (Restore) at any time.  Checked: the packets handed    *)
(* out are a prefix of those of the search left alone, nothing is lost or    *)
(* done twice, and the universe depends only on the number of packets.       *)
EXTENDS Queue, Json, IOUtils
MCLabels == 0..3
MCPack == CASE IOEnv.PACK = "a" -> [inf |-> 1, init |-> 1, exp |-> <<1>>]
            [] IOEnv.PACK = "b" -> [inf |-> 0, init |-> 1, exp |-> <<1, 1>>]
            [] IOEnv.PACK = "c" -> [inf |-> 1, init |-> 0, exp |-> <<2>>]
VARIABLES s, saved, running, seen
rvars == <<s, saved, running, seen>>
\* a universe: every label has two children, and verifying one label stops it
Universes == [Labels -> { <<a, b>> : a, b \in Labels }] 
Fresh == [q |-> QAdd(NoQ, 0), lab |-> {0}, rules |-> {}, pks |-> <<>>, dry |-> FALSE]
Child(u, x, pk) == IF pk.inf THEN {u[x][1]} ELSE {u[x][1], u[x][2]}
RECURSIVE AddAll(_, _)
AddAll(q0, S) == IF S = {} THEN q0
                 ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                      IN AddAll(QAdd(q0, x), S \ {x})
\* one packet
Work(u, t) ==
  LET r == QNext(t.q)
      x == r.out.label
      new == Child(u, x, r.out)
      q1 == AddAll(r.q, new)
      q2 == IF r.out.inf THEN QNotInf(q1, x) ELSE q1
      q3 == IF u[x][1] = u[x][2] /\ ~r.out.inf THEN QStop(q2, x) ELSE q2
  IN IF r.dry THEN [t EXCEPT !.dry = TRUE, !.q = r.q]
     ELSE [q |-> q3, lab |-> t.lab \cup new, dry |-> FALSE,
           rules |-> t.rules \cup { <<x, r.out.items[1], c>> : c \in new },
           pks |-> Append(t.pks, <<x, r.out.items[1]>>)]
RECURSIVE RefAt(_, _)
RefAt(u, n) == IF n = 0 THEN Fresh ELSE Work(u, RefAt(u, n - 1))
VARIABLE u
RInit == /\ u \in { f \in Universes : f[0][1] = 1 /\ f[0][2] \in {1, 2} /\ f[3] = <<0, 3>> /\ f[2][1] # 0 }
         /\ s = Fresh /\ saved = <<>> /\ running = TRUE /\ seen = 0
         /\ q = NoQ /\ m = MInit /\ bad = {} /\ nops = 0 /\ hist = <<>>
Frame == UNCHANGED <<u, q, m, bad, nops, hist>>
DoWork == /\ running /\ Len(s.pks) < MaxOps /\ ~s.dry /\ s' = Work(u, s)
          /\ seen' = IF Len(s.pks) + 1 > seen THEN Len(s.pks) + 1 ELSE seen
          /\ UNCHANGED <<saved, running>>
Pause == running /\ running' = FALSE /\ UNCHANGED <<s, saved, seen>>
Call == ~running /\ running' = TRUE /\ UNCHANGED <<s, saved, seen>>
Save == ~running /\ saved' = <<s>> /\ UNCHANGED <<s, running, seen>>
Restore == saved # <<>> /\ s' = saved[1] /\ running' = FALSE /\ UNCHANGED <<saved, seen>>
RNext == Frame /\ (DoWork \/ Pause \/ Call \/ Save \/ Restore)
RSpec == RInit /\ [][RNext]_<<rvars, u>>
Faithful == s = RefAt(u, Len(s.pks)) \/ s.dry
NoRepeats == \A i, j \in 1..Len(s.pks) : i # j => s.pks[i] # s.pks[j]
\* whatever was interrupted, exhaustion means the same universe
SameEnd == s.dry => /\ Work(u, RefAt(u, Len(s.pks))).dry
                    /\ s.lab = RefAt(u, Len(s.pks)).lab /\ s.rules = RefAt(u, Len(s.pks)).rules
RView == <<s, saved, running, u>>
=============================================================================
