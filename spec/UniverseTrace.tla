-------------------------- MODULE UniverseTrace ----------------------------
(* Runs of the real searcher over table universes (C04): every rule          *)
(* insertion along the run must be a faithful application of a strategy.     *)
(* The abstract state is the label -> class map and the stored keys.         *)
EXTENDS UniverseDefs, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
InitSt(case) == [lab |-> <<>>, all |-> AllRules(case.u), keys |-> {}]
\* new labels: <<label, class>> pairs, in order of appearance
Known(s, x) == x >= 0 /\ x < Len(s.lab)
Cls(s, x) == s.lab[x + 1]
AddLabels(s, new) == [s EXCEPT !.lab = @ \o new]
LabelsBad(s) == IF Cardinality(ToSet(s.lab)) # Len(s.lab) THEN {"two_labels_for_a_class"} ELSE {}
Rule(e) == <<e.k, e.parent, e.children>>
\* the child labels may be dropped only for empty classes of a possibly-empty rule
Droppable(case, e) == IF case.u.strats[e.k + 1].pe
                      THEN { i \in 1..Len(e.children) : e.children[i] \in Empty(case.u) } ELSE {}
KeysOK(case, e) == { <<e.start, Sorted(Keep(e.ends, (1..Len(e.ends)) \ D))>> : D \in SUBSET Droppable(case, e) }
EmptyRule(case, s, e) == e.k = -1 /\ e.children = <<>> /\ e.parent \in Empty(case.u)
AddBad(case, s, e) ==
     (IF ~Known(s, e.start) \/ \E i \in 1..Len(e.ends) : ~Known(s, e.ends[i])
      THEN {"unknown_label"}
      ELSE (IF Cls(s, e.start) # e.parent THEN {"start_label_is_not_the_parent"} ELSE {})
           \cup (IF Len(e.ends) # Len(e.children)
                    \/ \E i \in 1..Len(e.ends) : i <= Len(e.children) /\ Cls(s, e.ends[i]) # e.children[i]
                 THEN {"labels_are_not_the_children"} ELSE {}))
     \cup (IF EmptyRule(case, s, e) THEN {}
           ELSE IF e.k = -1 THEN {"empty_rule_for_nonempty_class"}
           ELSE (IF Rule(e) \notin s.all THEN {"not_a_rule_of_the_pack"} ELSE {})
                \cup (IF case.db # "forest" /\ \E key \in ToSet(e.new) : key \notin KeysOK(case, e)
                      THEN {"stored_key_is_not_the_rule"} ELSE {})
                \cup (IF case.db # "forest" /\ \A key \in KeysOK(case, e) : key \notin s.keys \cup ToSet(e.new)
                         /\ e.stored = FALSE
                         /\ ~(Len(key[2]) = 1 /\ key[2][1] = key[1])
                      THEN {"rule_not_stored"} ELSE {}))
     \cup (IF case.db = "forest" /\ \E i \in 1..Len(e.fkeys) :
                LET k == e.fkeys[i] IN
                ~( \/ (k[1] = e.start /\ k[2] = e.ends)
                   \/ \E j \in 1..Len(e.ends) :
                        k[1] = e.ends[j] /\ k[2] = <<e.start>> \o Keep(e.ends, (1..Len(e.ends)) \ {j}) )
           THEN {"forest_key_is_not_the_rule"} ELSE {})
     \cup (IF case.db = "forest" /\ ~\E i \in 1..Len(e.fkeys) : e.fkeys[i] = <<e.start, e.ends>>
           THEN {"rule_not_stored"} ELSE {})
Step(case, s, e) ==
  LET s1 == AddLabels(s, e.labels)
  IN CASE e.op = "add" -> [st |-> [s1 EXCEPT !.keys = @ \cup ToSet(e.new)],
                           bad |-> LabelsBad(s1) \cup AddBad(case, s1, e)]
       [] e.op = "end" ->
            [st |-> s1,
             bad |-> LabelsBad(s1)
               \cup (IF e.lookup # s1.lab THEN {"label_does_not_return_its_class"} ELSE {})
               \cup (IF \E i \in 1..Len(e.emp) : e.emp[i] # (Cls(s1, i - 1) \in Empty(case.u))
                     THEN {"emptiness"} ELSE {})
               \cup (IF case.db # "forest" /\ ~(ToSet(e.stored) \subseteq s1.keys) THEN {"unexplained_stored_rule"} ELSE {})]
       [] OTHER -> [st |-> s1, bad |-> {"search_failed"}]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
