-------------------------------- MODULE Iso --------------------------------
(* Design of the isomorphism test (C12, C13): the recursion over pairs of    *)
(* nodes with the pairs in progress taken as matched, the memory of matched  *)
(* and failed pairs, the search for a permutation of the children and the    *)
(* withdrawal of what was matched below a pair that fails.  It answers       *)
(* whether the roots are in the largest relation, it is symmetric and        *)
(* reflexive, and the orders it leaves behind are closed below the roots.    *)
(* A specification is a sequence of nodes; node 1 is the root.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N1, N2, Kinds, Sizes, MaxKids
VARIABLES one, two, ph
vars == <<one, two, ph>>
Tuples(n) == UNION { [1..k -> 1..n] : k \in 1..MaxKids }
Node(n) == { [k |-> "leaf", s |-> z, c |-> <<>>] : z \in Sizes }
           \cup { [k |-> z, s |-> 0, c |-> t] : z \in Kinds, t \in Tuples(n) }
           \cup { [k |-> "eq", s |-> 0, c |-> <<x>>] : x \in 1..n }
RECURSIVE Path(_, _, _)
Path(A, x, fuel) == IF fuel = 0 \/ A[x].k # "eq" THEN <<x>> ELSE <<x>> \o Path(A, A[x].c[1], fuel - 1)
P(A, x) == Path(A, x, Len(A))
End(A, x) == Last(P(A, x))
RECURSIVE Reach(_, _)
Reach(A, S) == LET T == S \cup UNION { ToSet(A[x].c) : x \in S } IN IF T = S THEN S ELSE Reach(A, T)
\* every equivalence ends; all the rest may be recursive
Specification(A) == Reach(A, {1}) = 1..Len(A) /\ \A x \in 1..Len(A) : A[End(A, x)].k # "eq"
Specs(n) == { A \in [1..n -> Node(n)] : Specification(A) }
----------------------------------------------------------------------------
\* the largest relation between nodes that are no equivalences
RECURSIVE PermsOf(_)
PermsOf(n) == IF n = 0 THEN {<<>>}
              ELSE { SubSeq(p, 1, i - 1) \o <<n>> \o SubSeq(p, i, n - 1) : p \in PermsOf(n - 1), i \in 1..n }
Alike(x, y) == x.k = y.k /\ x.s = y.s /\ Len(x.c) = Len(y.c)
RECURSIVE Shrink(_, _, _)
Shrink(A, B, R) ==
  LET S == { z \in R : \E p \in PermsOf(Len(A[z[1]].c)) : \A i \in 1..Len(p) :
                 <<End(A, A[z[1]].c[i]), End(B, B[z[2]].c[p[i]])>> \in R }
  IN IF S = R THEN R ELSE Shrink(A, B, S)
Largest(A, B) == Shrink(A, B, { z \in (1..Len(A)) \X (1..Len(B)) :
                                  A[z[1]].k # "eq" /\ Alike(A[z[1]], B[z[2]]) })
----------------------------------------------------------------------------
\* the algorithm; m: order (sequence of <<pair, order>>), failed and ancestors (sets of pairs)
Matched(m, z) == \E i \in 1..Len(m.order) : m.order[i][1] = z
Prod(p, q) == { <<p[i], q[j]>> : i \in 1..Len(p), j \in 1..Len(q) }
\* what is put on the stack after matching child i: lowest choice on top
More(i, n, used) == [k \in 1..(n - Cardinality(used)) |->
   LET j == SetToSortSeq((1..n) \ used, LAMBDA a, b : a > b)[k] IN <<i + 1, j, used \cup {j}>>]
RECURSIVE Match(_, _, _, _, _), Try(_, _, _, _, _, _, _, _)
Match(A, B, x, y, m) ==
  LET p == P(A, x)
      q == P(B, y)
      z == <<Last(p), Last(q)>>
      a == A[z[1]]
      b == B[z[2]]
  IN CASE Matched(m, z) -> [ok |-> TRUE, m |-> m]
       [] ~Matched(m, z) /\ (z \in m.failed \/ Len(a.c) # Len(b.c)) -> [ok |-> FALSE, m |-> m]
       [] ~Matched(m, z) /\ z \notin m.failed /\ Len(a.c) = 0 /\ Len(b.c) = 0 -> [ok |-> a.s = b.s, m |-> m]
       [] OTHER ->
          IF a.k # b.k THEN [ok |-> FALSE, m |-> m]
          ELSE IF Prod(p, q) \cap m.anc # {} THEN [ok |-> TRUE, m |-> m]
          ELSE Try(A, B, z, Prod(p, q), Len(m.order), <<More(0, Len(a.c), {}), {}, [k \in 1..Len(a.c) |-> 0]>>,
                   [m EXCEPT !.anc = @ \cup Prod(p, q)], Len(a.c))
\* t: <<stack, pairs of children known to fail, order so far>>
Try(A, B, z, mine, before, t, m, n) ==
  IF t[1] = <<>>
  THEN [ok |-> FALSE, m |-> [order |-> SubSeq(m.order, 1, before),
                             failed |-> m.failed \cup {z}, anc |-> m.anc \ mine]]
  ELSE LET top == Last(t[1])
           rest == Front(t[1])
       IN IF <<top[1], top[2]>> \in t[2]
          THEN Try(A, B, z, mine, before, <<rest, t[2], t[3]>>, m, n)
          ELSE LET r == TLCEval(Match(A, B, A[z[1]].c[top[1]], B[z[2]].c[top[2]], m))
                   o == [t[3] EXCEPT ![top[2]] = top[1]]
               IN IF ~r.ok THEN Try(A, B, z, mine, before, <<rest, t[2] \cup {<<top[1], top[2]>>}, t[3]>>, r.m, n)
                  ELSE IF top[1] = n
                  THEN [ok |-> TRUE, m |-> [r.m EXCEPT !.order = Append(@, <<z, o>>), !.anc = @ \ mine]]
                  ELSE Try(A, B, z, mine, before, <<rest \o More(top[1], n, top[3]), t[2], o>>, r.m, n)
Run(A, B) == Match(A, B, 1, 1, [order |-> <<>>, failed |-> {}, anc |-> {}])
----------------------------------------------------------------------------
Init == /\ one \in Specs(N1) /\ two \in Specs(N2) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<one, two>>
Spec == Init /\ [][Next]_vars
\* the orders below a pair z all map children to matched children
Closed(A, B, m) ==
  \A i \in 1..Len(m.order) :
    LET z == m.order[i][1]
        o == m.order[i][2]
        n == Len(A[z[1]].c)
    IN /\ Len(B[z[2]].c) = n /\ A[z[1]].k = B[z[2]].k
       /\ ToSet(o) = 1..n
       /\ \A j \in 1..n : LET u == <<End(A, A[z[1]].c[o[j]]), End(B, B[z[2]].c[j])>>
                          IN \/ Matched(m, u)
                             \/ A[u[1]].c = <<>> /\ B[u[2]].c = <<>> /\ A[u[1]].s = B[u[2]].s
Correct == ph = 1 =>
  LET r == TLCEval(Run(one, two)) IN
  /\ r.ok <=> <<End(one, 1), End(two, 1)>> \in Largest(one, two)
  /\ r.ok => Closed(one, two, r.m)
  /\ r.ok <=> Run(two, one).ok
  /\ r.m.anc = {}
Reflexive == ph = 1 => Run(one, one).ok
Emit == ph = 1 \/ PrintT("GEN@" \o ToJson(<<one, two, Run(one, two).ok>>))
=============================================================================
