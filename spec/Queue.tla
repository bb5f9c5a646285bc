------------------------------- MODULE Queue -------------------------------
(* The work queue (comb_spec_searcher.class_queue.DefaultQueue): a working   *)
(* queue of new labels, one deque per expansion set for the current level,   *)
(* a counted next level, staged packets and a set of ignored labels.         *)
EXTENDS QueueMonitor, Integers, TLC, SequencesExt
CONSTANTS Labels, Pack, MaxOps
VARIABLES q, m, bad, nops, hist
NSets == Len(Pack.exp)
NoQ == [working |-> <<>>, next |-> [x \in Labels |-> 0], nextord |-> <<>>,
        curr |-> [k \in 1..(NSets + 1) |-> <<>>], infx |-> {}, initx |-> {},
        ignore |-> {}, levels |-> 0, staging |-> <<>>]
CanInf(s, x) == Pack.inf > 0 /\ x \notin s.infx
CanInit(s, x) == Pack.init > 0 /\ x \notin s.initx
Bump(s, x) == [s EXCEPT !.next[x] = @ + 1,
                        !.nextord = IF s.next[x] = 0 THEN Append(@, x) ELSE @]
QAdd(s, x) == IF CanInf(s, x) \/ CanInit(s, x) THEN [s EXCEPT !.working = Append(@, x)]
              ELSE IF x \notin s.ignore THEN Bump(s, x) ELSE s
QStop(s, x) == [s EXCEPT !.ignore = @ \cup {x}, !.infx = @ \ {x}, !.initx = @ \ {x},
                         !.next[x] = 0, !.nextord = SelectSeq(@, LAMBDA y : y # x)]
QNotInf(s, x) == IF x \in s.ignore THEN s ELSE [s EXCEPT !.infx = @ \cup {x}]
InfPk(x) == [label |-> x, inf |-> TRUE, items |-> [i \in 1..Pack.inf |-> <<"infs", i>>]]
InitPks(x) == [i \in 1..Pack.init |-> [label |-> x, inf |-> FALSE, items |-> <<<<"init", i>>>>]]
ExpPks(x, k) == [i \in 1..Pack.exp[k] |-> [label |-> x, inf |-> FALSE, items |-> <<<<"exp", k, i>>>>]]

StageWorking(s) ==
  LET x == Head(s.working)
      s1 == [s EXCEPT !.working = Tail(@)]
      s2 == IF CanInf(s1, x) THEN [s1 EXCEPT !.staging = Append(@, InfPk(x)),
                                             !.infx = IF x \in s1.ignore THEN @ ELSE @ \cup {x}] ELSE s1
      s3 == IF CanInit(s2, x) THEN [s2 EXCEPT !.staging = @ \o InitPks(x),
                                              !.initx = IF x \in s2.ignore THEN @ ELSE @ \cup {x}] ELSE s2
  IN  Bump(s3, x)
CurrEmpty(s) == \A k \in 1..(NSets + 1) : s.curr[k] = <<>>
\* stable sort of the next level by decreasing count
ByCount(s) == SortSeq([i \in 1..Len(s.nextord) |-> <<s.nextord[i], i>>],
                LAMBDA a, b : \/ s.next[a[1]] > s.next[b[1]]
                              \/ s.next[a[1]] = s.next[b[1]] /\ a[2] < b[2])
ChangeLevel(s) == [s EXCEPT !.curr[1] = [i \in 1..Len(s.nextord) |-> ByCount(s)[i][1]],
                            !.levels = @ + 1, !.next = [x \in Labels |-> 0], !.nextord = <<>>]
StageCurr(s) ==
  LET k == CHOOSE j \in 1..(NSets + 1) : s.curr[j] # <<>> /\ \A i \in 1..(j - 1) : s.curr[i] = <<>>
      x == Head(s.curr[k])
      s1 == [s EXCEPT !.curr[k] = Tail(@)]
  IN IF k = NSets + 1 THEN QStop(s1, x)
     ELSE [s1 EXCEPT !.staging = @ \o ExpPks(x, k), !.curr[k + 1] = Append(@, x)]
RECURSIVE QNext(_)
QNext(s) ==
  IF s.staging # <<>>
    THEN IF Head(s.staging).label \notin s.ignore
           THEN [q |-> [s EXCEPT !.staging = Tail(@)], out |-> Head(s.staging), dry |-> FALSE]
           ELSE QNext([s EXCEPT !.staging = Tail(@)])
  ELSE IF s.working # <<>> THEN QNext(StageWorking(s))
  ELSE IF CurrEmpty(s)
    THEN IF s.nextord = <<>> THEN [q |-> s, out |-> 0, dry |-> TRUE]
         ELSE QNext(StageCurr(ChangeLevel(s)))
  ELSE QNext(StageCurr(s))

vars == <<q, m, bad, nops, hist>>
Init == q = NoQ /\ m = MInit /\ bad = {} /\ nops = 0 /\ hist = <<>>
Op(name, x) == nops < MaxOps /\ nops' = nops + 1 /\ hist' = Append(hist, <<name, x>>)
DoAdd(x) == Op("add", x) /\ q' = QAdd(q, x) /\ m' = MAdd(Pack, m, x, q.levels) /\ UNCHANGED bad
DoStop(x) == Op("stop", x) /\ q' = QStop(q, x) /\ m' = MStop(Pack, m, x) /\ UNCHANGED bad
DoNotInf(x) == Op("notinf", x) /\ q' = QNotInf(q, x) /\ m' = MNotInf(Pack, m, x, q.levels) /\ UNCHANGED bad
DoNext ==
  /\ Op("next", 0)
  /\ LET r == QNext(q) IN
     /\ q' = r.q
     /\ IF r.dry THEN /\ bad' = bad \cup BadDry(Pack, m)
                      /\ m' = [m EXCEPT !.dry = TRUE]
        ELSE /\ bad' = bad \cup BadPacket(Pack, m, r.out, q.levels, r.q.levels)
             /\ m' = MPacket(Pack, m, r.out, r.q.levels)
Next == \/ \E x \in Labels : DoAdd(x) \/ DoStop(x) \/ DoNotInf(x)
        \/ DoNext
Spec == Init /\ [][Next]_vars
View == <<q, m, bad, nops>>
NothingBad == bad = {}
\* if all marks cease the queue drains: from every state finitely many next's
RECURSIVE DrainLen(_, _)
DrainLen(s, k) == IF k = 0 THEN FALSE ELSE LET r == QNext(s) IN IF r.dry THEN TRUE ELSE DrainLen(r.q, k - 1)
Drains == DrainLen(q, 2 + Cardinality(Labels) * (1 + Pack.init + Cardinality(AllExp(Pack))))
=============================================================================
