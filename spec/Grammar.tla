------------------------------- MODULE Grammar -----------------------------
(* The classes of the grammar universes, from their definition.  A class is  *)
(* [g, form, st]: g[i] are the productions of nonterminal i, sequences of    *)
(* symbols (i > 0 a nonterminal, -k the k-th letter); the objects are the    *)
(* leftmost derivations of form, given by the productions used, in order;    *)
(* the size is the number of letters, st the letter sets that are counted.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
GMark(st, s) == <<1>> \o [j \in 1..Len(st) |-> IF -s \in ToSet(st[j]) THEN 1 ELSE 0]
GZero(st) == <<0>> \o [j \in 1..Len(st) |-> 0]
GPlus(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
GMinus(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
\* --- numbers of objects: <<size, statistics>> -> number -----------------------
GMul(f, h, top) ==
  LET D == { GPlus(x[1], x[2]) : x \in { y \in (DOMAIN f) \X (DOMAIN h) : y[1][1] + y[2][1] <= top } }
  IN TLCEval([d \in D |-> FoldSet(LAMBDA x, a : LET r == GMinus(d, x) IN
                             IF r \in DOMAIN h THEN a + f[x] * h[r] ELSE a, 0, DOMAIN f)])
GAdd(f, h) ==
  TLCEval([d \in (DOMAIN f) \cup (DOMAIN h) |->
     (IF d \in DOMAIN f THEN f[d] ELSE 0) + (IF d \in DOMAIN h THEN h[d] ELSE 0)])
GNone == [d \in {} |-> 0]
GForm(st, T, form, top) ==
  FoldLeft(LAMBDA f, s : IF DOMAIN f = {} THEN f
                         ELSE IF s < 0 THEN GMul(f, GMark(st, s) :> 1, top) ELSE GMul(f, T[s], top),
           GZero(st) :> 1, form)
GStep(g, st, T, top) ==
  TLCEval([i \in 1..Len(g) |-> FoldLeft(LAMBDA f, p : GAdd(f, GForm(st, T, p, top)), GNone, g[i])])
RECURSIVE GFix(_, _, _, _)
GFix(g, st, T, top) == LET U == GStep(g, st, T, top) IN IF U = T THEN T ELSE GFix(g, st, U, top)
GCounts(g, st, top) == GFix(g, st, [i \in 1..Len(g) |-> GNone], top)
GTableOf(c, T, top) ==
  LET f == GForm(c.st, T, c.form, top)
  IN SetToSeq({ <<d[1], Tail(d), f[d]>> : d \in DOMAIN f })
GTable(c, top) == GTableOf(c, GCounts(c.g, c.st, top), top)
\* --- the objects: [v |-> <<size, statistics>>, d |-> productions] ---------------
GCat(X, Y, top) ==
  { [v |-> GPlus(z[1].v, z[2].v), d |-> z[1].d \o z[2].d] :
      z \in { y \in X \X Y : y[1].v[1] + y[2].v[1] <= top } }
GFormObjs(st, T, form, top) ==
  FoldLeft(LAMBDA X, s : IF s < 0 THEN GCat(X, {[v |-> GMark(st, s), d |-> <<>>]}, top)
                                  ELSE GCat(X, T[s], top),
           {[v |-> GZero(st), d |-> <<>>]}, form)
GObjStep(g, st, T, top) ==
  TLCEval([i \in 1..Len(g) |->
     UNION { { [v |-> x.v, d |-> <<j>> \o x.d] : x \in GFormObjs(st, T, g[i][j], top) } : j \in 1..Len(g[i]) }])
RECURSIVE GObjFix(_, _, _, _)
GObjFix(g, st, T, top) == LET U == GObjStep(g, st, T, top) IN IF U = T THEN T ELSE GObjFix(g, st, U, top)
GObjs(c, top) == GFormObjs(c.st, GObjFix(c.g, c.st, [i \in 1..Len(c.g) |-> {}], top), c.form, top)
\* --- size of the smallest object, -1 if there is none ---------------------------
GBig == 1000000
GSum(v, p) == FoldLeft(LAMBDA a, s : IF s < 0 THEN a + 1 ELSE IF v[s] = GBig \/ a = GBig THEN GBig ELSE a + v[s], 0, p)
GSmaller(g, v) == TLCEval([i \in 1..Len(g) |->
   FoldLeft(LAMBDA a, p : LET s == GSum(v, p) IN IF s < a THEN s ELSE a, GBig, g[i])])
RECURSIVE GMinFix(_, _)
GMinFix(g, v) == LET u == GSmaller(g, v) IN IF u = v THEN v ELSE GMinFix(g, u)
GSmallest(c) == LET s == GSum(GMinFix(c.g, [i \in 1..Len(c.g) |-> GBig]), c.form) IN IF s >= GBig THEN -1 ELSE s
=============================================================================
