------------------------------ MODULE ClassDB ------------------------------
(* The class database: an append-only bijection between classes and the      *)
(* labels 0, 1, 2, ... in order of first appearance, plus a cache of each    *)
(* class's own answer to "are you empty?".  Classes are abstract identities. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Classes,        \* identities of (pairwise different) classes
          EmptyClasses    \* those that are empty
VARIABLES order,          \* classes in order of first appearance
          cache,          \* label+1 -> "unknown" | "empty" | "nonempty"
          reply           \* answer of the last call

cvars == <<order, cache, reply>>

Range(s) == { s[i] : i \in 1..Len(s) }
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Known(ord, c) == c \in Range(ord)
LabelIn(ord, c) == IF Known(ord, c) THEN IndexOf(ord, c) - 1 ELSE Len(ord)
AddTo(ord, c) == IF Known(ord, c) THEN ord ELSE Append(ord, c)
Truth(c) == IF c \in EmptyClasses THEN "empty" ELSE "nonempty"

CInit == order = <<>> /\ cache = <<>> /\ reply = <<"none">>

Grow(c) == /\ order' = AddTo(order, c)

GetLabel(c) ==
  /\ order' = AddTo(order, c)
  /\ cache' = IF Known(order, c) THEN cache ELSE Append(cache, "unknown")
  /\ reply' = <<"label", LabelIn(order, c)>>

GetClassByLabel(l) ==
  /\ reply' = IF l \in 0..(Len(order) - 1) THEN <<"class", order[l + 1]>> ELSE <<"KeyError">>
  /\ UNCHANGED <<order, cache>>

GetLabelByLabel(l) ==
  /\ reply' = IF l \in 0..(Len(order) - 1) THEN <<"label", l>> ELSE <<"KeyError">>
  /\ UNCHANGED <<order, cache>>

ContainsClass(c) == reply' = <<"bool", Known(order, c)>> /\ UNCHANGED <<order, cache>>
ContainsLabel(l) == reply' = <<"bool", l \in 0..(Len(order) - 1)>> /\ UNCHANGED <<order, cache>>
ContainsOther == reply' = <<"bool", FALSE>> /\ UNCHANGED <<order, cache>>

IsEmpty(c) ==
  /\ order' = AddTo(order, c)
  /\ LET base == IF Known(order, c) THEN cache ELSE Append(cache, "unknown")
         i == LabelIn(order, c) + 1
     IN  /\ cache' = IF base[i] = "unknown" THEN [base EXCEPT ![i] = Truth(c)] ELSE base
         /\ reply' = <<"bool", cache'[i] = "empty">>

CNext == \/ \E c \in Classes : GetLabel(c) \/ ContainsClass(c) \/ IsEmpty(c)
         \/ \E l \in -1..Cardinality(Classes) :
               GetClassByLabel(l) \/ ContainsLabel(l) \/ GetLabelByLabel(l)
         \/ ContainsOther

CSpec == CInit /\ [][CNext]_cvars

------------------------------------------------------------------------------
\* C15
Injective == \A i, j \in 1..Len(order) : order[i] = order[j] => i = j
CacheTruthful == \A i \in 1..Len(order) : cache[i] \in {"unknown", Truth(order[i])}
Aligned == Len(cache) = Len(order)
Stable == [][ /\ Len(order') >= Len(order)
              /\ \A i \in 1..Len(order) : order'[i] = order[i] ]_cvars
DenseFirst == [][ Len(order') <= Len(order) + 1 ]_cvars
=============================================================================
