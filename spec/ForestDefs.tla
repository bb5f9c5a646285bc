---------------------------- MODULE ForestDefs -----------------------------
(* The 'terms computable' operator over forest rules and its least fixed     *)
(* point.  A rule is [p |-> parent, c |-> children, s |-> shifts, b |->      *)
(* bucket].  A rule gives the parent one more term than v when every child   *)
(* knows more than v - s terms.  INF is the value of a class all of whose    *)
(* terms are computable.                                                     *)
(*                                                                           *)
(* Bound: with n classes and M the largest |shift| (at least 1) no finite    *)
(* value of the least fixed point exceeds n * M: if no class has a value in  *)
(* k..k+M-1 then the classes above have, in the chain that builds the fixed  *)
(* point, only justifications among themselves and those can be replayed one *)
(* term higher for ever.  Hence a value beyond n * M means INF.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
INF == -1
Abs(x) == IF x < 0 THEN -x ELSE x
MaxShift(rules) == FoldSet(LAMBDA r, a : FoldLeft(LAMBDA m, x : IF Abs(x) > m THEN Abs(x) ELSE m, a, r.s), 1, rules)
Cap(n, rules) == n * MaxShift(rules)
\* the number of terms the rule makes available, INF when unlimited
Gives(f, r) ==
  FoldLeft(LAMBDA a, i : IF f[r.c[i]] = INF THEN a
                         ELSE IF a = INF \/ f[r.c[i]] + r.s[i] < a
                              THEN (IF f[r.c[i]] + r.s[i] < 0 THEN 0 ELSE f[r.c[i]] + r.s[i]) ELSE a,
           INF, [i \in 1..Len(r.c) |-> i])
Better(f, r, cap) ==
  IF f[r.p] = INF THEN f
  ELSE LET g == Gives(f, r) IN
       IF g = INF \/ g > cap THEN [f EXCEPT ![r.p] = INF]
       ELSE IF g > f[r.p] THEN [f EXCEPT ![r.p] = g] ELSE f
Sweep(f, rseq, cap) == TLCEval(FoldLeft(LAMBDA g, r : TLCEval(Better(g, r, cap)), f, rseq))
RECURSIVE Iterate(_, _, _)
Iterate(f, rseq, cap) == LET g == Sweep(f, rseq, cap) IN IF g = f THEN f ELSE Iterate(g, rseq, cap)
Zero(L) == TLCEval([x \in L |-> 0])
\* the least fixed point above f0 (f0 = a fixed point of fewer rules, or 0)
LFPFrom(f0, rseq, cap) == Iterate(f0, rseq, cap)
LFP(L, rseq, cap) == Iterate(Zero(L), rseq, cap)
Pumps(L, rseq, cap, x) == LFP(L, rseq, cap)[x] = INF
Ment(rules) == UNION { {r.p} \cup { r.c[i] : i \in 1..Len(r.c) } : r \in rules }
=============================================================================
