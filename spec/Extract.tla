------------------------------ MODULE Extract ------------------------------
(* Design of the forest extraction (C11): from the rules among productive    *)
(* classes, drop rules bucket by bucket - the reverse ones first - as long   *)
(* as the root stays productive; in which order is left open.  Whatever the  *)
(* order, what is left is productive, minimal, closed, has one rule per      *)
(* class and reverse rules only if nothing is productive without them.       *)
EXTENDS ForestDefs, TLC, Json
CONSTANTS Labels, Shifts, MaxArity, MaxRules, Root, Buckets
VARIABLES univ, kept, phase
vars == <<univ, kept, phase>>
Order == <<"reverse", "normal", "equivalence", "verification">>
SortedPairs(k) == { t \in [1..k -> Labels \X Shifts] :
                      \A i \in 1..(k - 1) : \/ t[i][1] < t[i + 1][1]
                                            \/ t[i][1] = t[i + 1][1] /\ t[i][2] <= t[i + 1][2] }
AllRules == TLCEval(
  UNION { { [p |-> x, c |-> [i \in 1..k |-> t[i][1]], s |-> [i \in 1..k |-> t[i][2]], b |-> b]
            : x \in Labels, t \in SortedPairs(k), b \in Buckets } : k \in 0..MaxArity })
Can(R) == Pumps(Labels, SetToSeq(R), Cap(Cardinality(Labels), R), Root)
Stable(R) == LET f == LFP(Labels, SetToSeq(R), Cap(Cardinality(Labels), R)) IN
             { r \in R : f[r.p] = INF /\ \A i \in 1..Len(r.c) : f[r.c[i]] = INF }
Init == univ = {} /\ kept = {} /\ phase = 0
Insert == /\ phase = 0 /\ Cardinality(univ) < MaxRules
          /\ \E r \in AllRules \ univ : univ' = univ \cup {r}
          /\ UNCHANGED <<kept, phase>>
Start == /\ phase = 0 /\ Can(univ) /\ kept' = Stable(univ) /\ phase' = 1 /\ UNCHANGED univ
Droppable(r) == r.b = Order[phase] /\ Can(kept \ {r})
Drop == /\ phase \in 1..4
        /\ \E r \in kept : Droppable(r) /\ kept' = kept \ {r}
        /\ UNCHANGED <<univ, phase>>
Turn == /\ phase \in 1..4 /\ \A r \in kept : ~Droppable(r)
        /\ phase' = phase + 1 /\ UNCHANGED <<univ, kept>>
Next == Insert \/ Start \/ Drop \/ Turn
Spec == Init /\ [][Next]_vars
Lhs(x) == { r \in kept : r.p = x }
AlwaysProductive == phase > 0 => Can(kept)
Result == phase = 5 =>
  /\ kept \subseteq univ
  /\ \A x \in {Root} \cup Ment(kept) : Cardinality(Lhs(x)) = 1
  /\ \A r \in kept : ~Can(kept \ {r})
  /\ (\E r \in kept : r.b = "reverse") => ~Can({ r \in univ : r.b # "reverse" })
Emit == phase # 1 \/ kept # Stable(univ) \/ PrintT("GEN@" \o ToJson(SetToSeq(univ)))
GenNext == Insert \/ Start
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
