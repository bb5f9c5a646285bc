--------------------------- MODULE QueueMonitor ----------------------------
(* C16 as a monitor over the visible operations of a work queue.             *)
(* A pack is [inf |-> number of inferral strategies, init |-> number of      *)
(* initial strategies, exp |-> sequence of sizes of the expansion sets].     *)
(* A work item is <<"inf">>, <<"init", i>> or <<"exp", set, i>>.             *)
EXTENDS Naturals, Sequences, FiniteSets

AllInit(p) == { <<"init", i>> : i \in 1..p.init }
ExpSet(p, k) == { <<"exp", k, i>> : i \in 1..p.exp[k] }
ExpUpTo(p, k) == UNION { ExpSet(p, j) : j \in 1..k }
AllExp(p) == ExpUpTo(p, Len(p.exp))

MInit == [added |-> {}, stopped |-> {}, notinf |-> {}, done |-> {}, ready |-> {}, dry |-> FALSE]
\* done: set of <<label, item>>; ready: set of <<label, level>>
Done(m, x) == { d[2] : d \in { e \in m.done : e[1] = x } }
NeedInf(p, m, x) == p.inf > 0 /\ x \notin m.notinf
InfOK(p, m, x) == ~NeedInf(p, m, x) \/ <<"inf">> \in Done(m, x)
PrepDone(p, m, x) == InfOK(p, m, x) /\ AllInit(p) \subseteq Done(m, x)
Complete(p, m, x) == PrepDone(p, m, x) /\ AllExp(p) \subseteq Done(m, x)
Live(m) == m.added \ m.stopped
IsReady(m, x) == \E r \in m.ready : r[1] = x
ReadyAt(m, x) == (CHOOSE r \in m.ready : r[1] = x)[2]
UpdReady(p, m, lv) ==
  [m EXCEPT !.ready = @ \cup { <<x, lv>> : x \in { y \in Live(m) : PrepDone(p, m, y) /\ ~IsReady(m, y) } }]

MAdd(p, m, x, lv) == UpdReady(p, [m EXCEPT !.added = @ \cup {x}, !.dry = FALSE], lv)
MStop(p, m, x) == [m EXCEPT !.stopped = @ \cup {x}]
MNotInf(p, m, x, lv) ==
  UpdReady(p, [m EXCEPT !.notinf = IF x \in m.stopped \/ <<"inf">> \in Done(m, x) THEN @ ELSE @ \cup {x}], lv)

Items(p, pk) == IF pk.inf THEN {<<"inf">>} ELSE { pk.items[i] : i \in 1..Len(pk.items) }

\* clauses violated when the packet pk is handed out while the level counter
\* went from lv0 to lv1
BadPacket(p, m, pk, lv0, lv1) ==
  LET x == pk.label
      its == Items(p, pk)
      adv == lv1 > lv0
  IN (IF x \in m.stopped THEN {"work_for_stopped_label"} ELSE {})
     \cup (IF x \notin m.added THEN {"work_for_unknown_label"} ELSE {})
     \cup (IF its \cap Done(m, x) # {} THEN {"same_work_twice"} ELSE {})
     \cup (IF its = {} \/ ~(its \subseteq ({<<"inf">>} \cup AllInit(p) \cup AllExp(p))) THEN {"not_work_of_the_pack"} ELSE {})
     \cup (IF pk.inf /\ (x \in m.notinf \/ p.inf = 0) THEN {"inferral_of_not_inferrable"} ELSE {})
     \cup (IF pk.inf /\ pk.items # [i \in 1..p.inf |-> <<"infs", i>>] THEN {"inferral_strategies"} ELSE {})
     \cup (IF its \cap AllInit(p) # {} /\ ~InfOK(p, m, x) THEN {"initial_before_inferral"} ELSE {})
     \cup (IF \E k \in 1..Len(p.exp) : its \cap ExpSet(p, k) # {} /\
               ~(PrepDone(p, m, x) /\ ExpUpTo(p, k - 1) \subseteq Done(m, x))
           THEN {"expansion_out_of_order"} ELSE {})
     \cup (IF adv /\ \E y \in Live(m) : \/ ~PrepDone(p, m, y)
                                        \/ (IsReady(m, y) /\ ReadyAt(m, y) < lv0 /\ ~Complete(p, m, y))
           THEN {"level_advanced_too_early"} ELSE {})
     \cup (IF its \cap AllExp(p) # {} /\ IsReady(m, x) /\ ~(ReadyAt(m, x) < lv1)
           THEN {"expanded_in_its_own_level"} ELSE {})
     \cup (IF m.dry THEN {"work_after_exhaustion"} ELSE {})

MPacket(p, m, pk, lv1) ==
  UpdReady(p, [m EXCEPT !.done = @ \cup { <<pk.label, it>> : it \in Items(p, pk) }], lv1)

\* clauses violated when exhaustion is signalled
BadDry(p, m) == IF \E x \in Live(m) : ~Complete(p, m, x) THEN {"drained_incomplete"} ELSE {}
=============================================================================
