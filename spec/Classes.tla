------------------------------- MODULE Classes -----------------------------
(* Classes of all universes whose objects the specification can enumerate.   *)
EXTENDS Words, Grammar
IsG(c) == "g" \in DOMAIN c
TableOf(c, top) == IF IsG(c) THEN GTable(c, top) ELSE Table(c, top)
SmallestOf(c) == IF IsG(c) THEN GSmallest(c) ELSE Smallest(c)
\* the objects up to a size: <<code, size, statistics>>
ObjsOf(c, top) ==
  IF IsG(c) THEN { <<x.d, x.v[1], Tail(x.v)>> : x \in GObjs(c, top) }
  ELSE LET ws == WordsOf(c, top) IN
       UNION { { <<w, i - 1, Par(c, w)>> : w \in ws[i] } : i \in 1..(top + 1) }
=============================================================================
