--------------------------- MODULE ClassDBTrace ----------------------------
(* Validates recorded histories of the real ClassDB against ClassDB.tla.     *)
(* e = [op, a, r, n]: operation, argument, reply, number of labels after.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)

InCache(s, c) == \E i \in 1..Len(s) : s[i] = c
LabelOf(s, c) == (CHOOSE i \in 1..Len(s) : s[i] = c) - 1
AddTo(s, c) == IF InCache(s, c) THEN s ELSE Append(s, c)
Truth(case, c) == \E i \in 1..Len(case.empties) : case.empties[i] = c
InitSt(case) == <<>>
Refused(r) == r[1] = "exc" /\ r[2] # "hang"
Valid(s, lab) == lab >= 0 /\ lab < Len(s)

Step(case, s, e) ==
  CASE e.op = "label" ->
         LET s2 == AddTo(s, e.a) IN
         [st |-> s2, bad |->
            (IF e.r # <<"label", LabelOf(s2, e.a)>> THEN {"label_stable_dense"} ELSE {})
            \cup (IF e.n # Len(s2) THEN {"label_count"} ELSE {})]
    [] e.op = "class" ->
         [st |-> s, bad |->
            (IF Valid(s, e.a)
               THEN IF e.r # <<"class", <<s[e.a + 1]>>>> THEN {"class_of_label"} ELSE {}
               ELSE IF ~Refused(e.r) THEN {"class_of_unknown_label"} ELSE {})
            \cup (IF e.n # Len(s) THEN {"label_count"} ELSE {})]
    [] e.op = "labell" ->
         [st |-> s, bad |->
            (IF Valid(s, e.a)
               THEN IF e.r # <<"label", e.a>> THEN {"label_of_label"} ELSE {}
               ELSE IF ~Refused(e.r) THEN {"label_of_unknown_label"} ELSE {})
            \cup (IF e.n # Len(s) THEN {"label_count"} ELSE {})]
    [] e.op = "inc" ->
         [st |-> s, bad |->
            (IF e.r # <<"bool", InCache(s, e.a)>> THEN {"contains_class"} ELSE {})
            \cup (IF e.n # Len(s) THEN {"label_count"} ELSE {})]
    [] e.op = "inl" ->
         [st |-> s, bad |->
            (IF e.r # <<"bool", Valid(s, e.a)>> THEN {"contains_label"} ELSE {})
            \cup (IF e.n # Len(s) THEN {"label_count"} ELSE {})]
    [] e.op = "ino" ->
         [st |-> s, bad |->
            (IF e.r # <<"bool", FALSE>> THEN {"contains_other"} ELSE {})
            \cup (IF e.n # Len(s) THEN {"label_count"} ELSE {})]
    [] e.op = "iter" ->
         [st |-> s, bad |->
            IF e.r # <<"labels", [i \in 1..Len(s) |-> i - 1]>> THEN {"iteration"} ELSE {}]
    [] e.op \in {"empty", "emptyl"} ->
         \* asking may or may not make the class appear; the count tells which
         LET s2 == IF e.n = Len(s) THEN s ELSE AddTo(s, e.a) IN
         [st |-> s2, bad |->
            (IF e.r # <<"bool", Truth(case, e.a)>>
                /\ ~(Refused(e.r) /\ ~InCache(s, e.a))  \* never labelled: may refuse
               THEN {"emptiness"} ELSE {})
            \cup (IF e.n # Len(s2) THEN {"label_count"} ELSE {})]
    [] OTHER -> [st |-> s, bad |-> {"unknown_event"}]

T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
