------------------------------- MODULE Series ------------------------------
(* Polynomial identities between generating series, truncated in x.  An      *)
(* equation is a sequence of terms [c |-> integer, x |-> power of x,         *)
(* k |-> powers of the other variables, f |-> sequence of factors]; a factor *)
(* [g |-> class, e |-> power, a |-> arguments] is the series of the class    *)
(* with its size and each of its statistics marked by a monomial             *)
(* [c |-> coefficient, x |-> power, k |-> powers].                           *)
(* Identities are decided modulo a prime, so that nothing overflows.         *)
EXTENDS RuleDefs
Prime == 46337
Pow(b, e) == IF e = 0 THEN 1 ELSE FoldLeft(LAMBDA a, i : (a * (b % Prime)) % Prime, 1, [i \in 1..e |-> i])
\* the series of a table with its marks replaced by the monomials a
Marked(tab, a, K, top) ==
  FoldLeft(LAMBDA acc, e :
     LET vals == <<e[1]>> \o e[2]
         n == FoldLeft(LAMBDA s, j : s + a[j].x * vals[j], 0, [j \in 1..Len(a) |-> j])
         p == [i \in 1..K |-> FoldLeft(LAMBDA s, j : s + a[j].k[i] * vals[j], 0, [j \in 1..Len(a) |-> j])]
         c == FoldLeft(LAMBDA s, j : (s * Pow(a[j].c, vals[j])) % Prime, e[3] % Prime, [j \in 1..Len(a) |-> j])
     IN IF n > top \/ c = 0 THEN acc ELSE Append(acc, <<n, p, c>>), <<>>, tab)
Mul(s, t, top) ==
  FoldLeft(LAMBDA a, x : FoldLeft(LAMBDA b, y :
      IF x[1] + y[1] > top THEN b ELSE Append(b, <<x[1] + y[1], Plus(x[2], y[2]), (x[3] * y[3]) % Prime>>), a, t), <<>>, s)
\* merge equal monomials
Compact(s) ==
  LET ks == { <<s[i][1], s[i][2]>> : i \in 1..Len(s) }
  IN SetToSeq({ <<k[1], k[2], FoldLeft(LAMBDA a, e : IF e[1] = k[1] /\ e[2] = k[2] THEN (a + e[3]) % Prime ELSE a, 0, s)>> : k \in ks })
TermSeries(cl, t, K, top) ==
  FoldLeft(LAMBDA acc, f :
      LET m == Marked(cl[f.g].tab, f.a, K, top) IN
      FoldLeft(LAMBDA a, i : Compact(Mul(a, m, top)), acc, [i \in 1..f.e |-> i]),
      IF t.x > top THEN <<>> ELSE << <<t.x, t.k, t.c % Prime>> >>, t.f)
EqHolds(cl, eq, K, top) ==
  LET all == FoldLeft(LAMBDA a, t : a \o TermSeries(cl, t, K, top), <<>>, eq)
  IN \A i \in 1..Len(Compact(all)) : Compact(all)[i][3] = 0
=============================================================================
