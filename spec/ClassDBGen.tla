---------------------------- MODULE ClassDBGen -----------------------------
(* Behaviours of ClassDB as operation sequences, printed for replay.         *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS NC, NL, Depth
VARIABLES order, cache, reply, hist
Db == INSTANCE ClassDB WITH Classes <- 0..(NC - 1), EmptyClasses <- { c \in 0..(NC - 1) : c % 2 = 1 }
GInit == Db!CInit /\ hist = <<>>
Rec(op, a) == hist' = Append(hist, <<op, a>>)
GNext == /\ Len(hist) < Depth
         /\ \/ \E c \in 0..(NC - 1) : \/ Db!GetLabel(c) /\ Rec("label", c)
                                      \/ Db!ContainsClass(c) /\ Rec("inc", c)
                                      \/ Db!IsEmpty(c) /\ Rec("empty", c)
            \/ \E l \in -1..NL : \/ Db!GetClassByLabel(l) /\ Rec("class", l)
                                 \/ Db!ContainsLabel(l) /\ Rec("inl", l)
            \/ Db!ContainsOther /\ Rec("ino", 0)
GSpec == GInit /\ [][GNext]_<<order, cache, reply, hist>>
Emit == Len(hist) < Depth \/ PrintT("GEN@" \o ToJson(hist))
=============================================================================
