------------------------------- MODULE Equiv -------------------------------
(* The equivalence database: union of two-way edges at once, cycles through  *)
(* one-way edges found by an explicit depth first search over the current    *)
(* components, in any order of neighbours (equiv_db.connect_cycles).         *)
EXTENDS EquivDefs, Integers, TLC, SequencesExt, Json
CONSTANTS Labels, MaxOps
VARIABLES one, two, rep, ow, marked, verif, pc, stack, visited, clean, hist
vars == <<one, two, rep, ow, marked, verif, pc, stack, visited, clean, hist>>
view == <<one, two, rep, ow, marked, verif, pc, stack, visited, clean, Len(hist)>>
Class(r, x) == { y \in Labels : r[y] = r[x] }
\* the surviving root may be either of the two (weights decide in the code)
Merge(r, x, y, root) == [z \in Labels |-> IF r[z] \in {r[x], r[y]} THEN root ELSE r[z]]
MergeV(r, v, x, y, root) == IF r[x] \in v \/ r[y] \in v THEN v \cup {root} ELSE v

Init == /\ one = {} /\ two = {} /\ rep = [x \in Labels |-> x] /\ ow = {} /\ marked = {}
        /\ verif = {} /\ pc = "idle" /\ stack = <<>> /\ visited = {} /\ clean = TRUE /\ hist = <<>>
Log(op, x, y) == Len(hist) < MaxOps /\ hist' = Append(hist, <<op, x, y>>)
AddTwo(x, y) == /\ pc = "idle" /\ Log("two", x, y)
                /\ two' = IF x = y THEN two ELSE two \cup {<<x, y>>}
                /\ \E root \in {rep[x], rep[y]} : rep' = Merge(rep, x, y, root) /\ verif' = MergeV(rep, verif, x, y, root)
                /\ clean' = (clean /\ Equivalent(Edges(one, two), x, y))
                /\ UNCHANGED <<one, ow, marked, pc, stack, visited>>
AddOne(x, y) == /\ pc = "idle" /\ Log("one", x, y)
                /\ one' = IF x = y THEN one ELSE one \cup {<<x, y>>}
                /\ ow' = ow \cup {<<rep[x], rep[y]>>}
                /\ clean' = (clean /\ Equivalent(Edges(one, two), x, y))
                /\ UNCHANGED <<two, rep, marked, verif, pc, stack, visited>>
Mark(x) == /\ pc = "idle" /\ Log("ver", x, x)
           /\ marked' = marked \cup {x} /\ verif' = verif \cup {rep[x]}
           /\ UNCHANGED <<one, two, rep, ow, pc, stack, visited, clean>>
Connect == /\ pc = "idle" /\ Log("connect", 0, 0)
           /\ LET e == { f \in { <<rep[g[1]], rep[g[2]]>> : g \in ow } : f[1] # f[2] }
                  keys == { f[1] : f \in e }
              IN /\ ow' = e
                 /\ \E p \in SetToSeqs(keys) : stack' = [i \in 1..Len(p) |-> <<p[i]>>]
           /\ visited' = {} /\ pc' = "dfs"
           /\ UNCHANGED <<one, two, rep, marked, verif, clean>>
\* pop one path, look at all its continuations (in some order)
RECURSIVE Ends(_, _, _, _)
Ends(r, path, order, pushed) ==
  IF order = <<>> THEN [r |-> r, push |-> pushed]
  ELSE LET n == Head(order)
           hits == { i \in 1..(Len(path) - 1) : r[path[i]] = r[n] }
           i0 == CHOOSE i \in hits : \A j \in hits : i <= j
           grp == { path[k] : k \in (i0)..Len(path) } \cup {n}
           r2 == IF hits = {} THEN r
                 ELSE [z \in Labels |-> IF \E g \in grp : r[g] = r[z] THEN r[n] ELSE r[z]]
       IN Ends(r2, path, Tail(order),
               IF n \notin { path[k] : k \in 1..Len(path) } THEN Append(pushed, Append(path, n)) ELSE pushed)
Dfs == /\ pc = "dfs"
       /\ IF stack = <<>> THEN /\ pc' = "idle" /\ clean' = TRUE
                               /\ UNCHANGED <<rep, verif, stack, visited>>
          ELSE LET path == stack[Len(stack)]
                   rest == SubSeq(stack, 1, Len(stack) - 1)
                   end == path[Len(path)]
               IN /\ UNCHANGED <<pc, clean>>
                  /\ IF end \in visited THEN stack' = rest /\ UNCHANGED <<rep, verif, visited>>
                     ELSE /\ visited' = visited \cup {end}
                          /\ \E order \in SetToSeqs({ f[2] : f \in { g \in ow : g[1] = end } }) :
                               LET res == Ends(rep, path, order, <<>>)
                               IN /\ rep' = res.r
                                  /\ verif' = verif \cup { res.r[v] : v \in verif }
                                  /\ stack' = rest \o res.push
       /\ UNCHANGED <<one, two, ow, marked, hist>>
Next == \/ \E x, y \in Labels : (x < y /\ AddTwo(x, y)) \/ (x # y /\ AddOne(x, y))
        \/ \E x \in Labels : Mark(x)
        \/ Connect \/ Dfs
Spec == Init /\ [][Next]_vars

\* every one-way graph at once (up to renaming, label 1 or 2 is the source of
\* the first edge), followed by cycle detections
InitG == /\ one \in SUBSET { e \in Labels \X Labels : e[1] # e[2] } /\ ow = one
         /\ two = {} /\ rep = [x \in Labels |-> x] /\ marked \in {{}, {1}}
         /\ verif = marked /\ pc = "idle" /\ stack = <<>> /\ visited = {} /\ clean = (one = {}) /\ hist = <<>>
SpecG == InitG /\ [][Connect \/ Dfs]_vars
\* C06
Sound == \A x \in Labels : Class(rep, x) \subseteq SCCs(Edges(one, two), Labels)[x]
Exact == clean /\ pc = "idle" =>
           \A x \in Labels : Class(rep, x) = SCCs(Edges(one, two), Labels)[x]
Verified == \A x \in Labels : (rep[x] \in verif) <=> (Class(rep, x) \cap marked # {})
Emit == Len(hist) < MaxOps \/ pc # "idle" \/ PrintT("GEN@" \o ToJson(hist))
=============================================================================
