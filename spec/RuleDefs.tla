------------------------------ MODULE RuleDefs -----------------------------
(* The numeric meaning of rules.  A table is a sequence of entries           *)
(* <<size, parameters, count>>; a rule [kind, p, c, maps] says how the table *)
(* of its parent follows from the tables of its children: maps[i][j] is the  *)
(* position of the variable of child i that variable j of the parent is      *)
(* mapped to, 0 when it is not mapped (and then it is 0 on that child).      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
At(tab, n) == SelectSeq(tab, LAMBDA e : e[1] = n)
Keys(tab) == { tab[i][2] : i \in 1..Len(tab) }
Coef(tab, p) == FoldLeft(LAMBDA a, e : IF e[2] = p THEN a + e[3] ELSE a, 0, tab)
\* equality of two sequences of entries as formal sums at one size
SameTerms(a, b) == \A p \in Keys(a) \cup Keys(b) : Coef(a, p) = Coef(b, p)
Lift(m, p) == [j \in 1..Len(m) |-> IF m[j] = 0 THEN 0 ELSE p[m[j]]]
Plus(p, q) == [j \in 1..Len(p) |-> p[j] + q[j]]
Zeros(k) == [j \in 1..k |-> 0]
MinSize(tab) == FoldLeft(LAMBDA a, e : IF a = -1 \/ e[1] < a THEN e[1] ELSE a, -1, tab)
UnionTerms(tabs, maps, n) ==
  FoldLeft(LAMBDA a, i : a \o [j \in 1..Len(At(tabs[i], n)) |->
               LET e == At(tabs[i], n)[j] IN <<n, Lift(maps[i], e[2]), e[3]>>],
           <<>>, [i \in 1..Len(tabs) |-> i])
Conv(acc, tab, m, top) ==
  FoldLeft(LAMBDA a, x : FoldLeft(LAMBDA b, y :
               IF x[1] + y[1] > top THEN b
               ELSE Append(b, <<x[1] + y[1], Plus(x[2], Lift(m, y[2])), x[3] * y[3]>>),
               a, tab), <<>>, acc)
ProductUpTo(tabs, maps, nv, top) ==
  FoldLeft(LAMBDA a, i : Conv(a, tabs[i], maps[i], top), << <<0, Zeros(nv), 1>> >>,
           [i \in 1..Len(tabs) |-> i])
\* every object of the child stands for m[1] + m[2] n objects of size n, d larger
BlowTerms(tab, map, m, d, n) ==
  LET t == At(tab, n - d) IN
  [j \in 1..Len(t) |-> <<n, Lift(map, t[j][2]), t[j][3] * (m[1] + m[2] * n)>>]
\* does the table of the parent follow from those of the children up to size top
Genuine(cl, r, top) ==
  LET tabs == [i \in 1..Len(r.c) |-> cl[r.c[i]].tab]
      prod == IF r.kind = "product" THEN ProductUpTo(tabs, r.maps, cl[r.p].nv, top) ELSE <<>>
  IN \A n \in 0..top :
       SameTerms(At(cl[r.p].tab, n),
                 CASE r.kind = "union" -> UnionTerms(tabs, r.maps, n)
                   [] r.kind = "blow" -> BlowTerms(tabs[1], r.maps[1], r.m, r.d, n)
                   [] r.kind = "product" -> At(prod, n))
\* classes of a form: <<"plain", r>>, <<"rev", r, i>>, <<"eq", r, i>>, <<"eqrev", r, i>>
Lhs(rs, f) == CASE f[1] = "plain" -> rs[f[2]].p
                [] f[1] = "rev" -> rs[f[2]].c[f[3]]
                [] f[1] = "eq" -> rs[f[2]].p
                [] f[1] = "eqrev" -> rs[f[2]].c[f[3]]
Rhs(rs, f) == CASE f[1] = "plain" -> rs[f[2]].c
                [] f[1] = "rev" -> <<rs[f[2]].p>> \o SubSeq(rs[f[2]].c, 1, f[3] - 1)
                                    \o SubSeq(rs[f[2]].c, f[3] + 1, Len(rs[f[2]].c))
                [] f[1] = "eq" -> <<rs[f[2]].c[f[3]]>>
                [] f[1] = "eqrev" -> <<rs[f[2]].p>>
\* a form of a sequence of steps (a single step, or an equivalence path)
FLhs(rs, fs) == Lhs(rs, fs[1])
FRhs(rs, fs) == Rhs(rs, fs[Len(fs)])
=============================================================================
