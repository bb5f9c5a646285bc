-------------------------------- MODULE Words ------------------------------
(* The classes of the word universes, from their definition.  A class is     *)
(* [a, pre, pats, must, st]: the words that start with pre, continue with    *)
(* letters of a, contain no factor of pats and (if must # 0) the letter      *)
(* must; st are the sets of letters whose occurrences are counted.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Ends(w, p) == Len(p) <= Len(w) /\ SubSeq(w, Len(w) - Len(p) + 1, Len(w)) = p
Has(w, p) == \E i \in 1..(Len(w) - Len(p) + 1) : SubSeq(w, i, i + Len(p) - 1) = p
Cnt(w, S) == Cardinality({ i \in 1..Len(w) : w[i] \in S })
Par(c, w) == [j \in 1..Len(c.st) |-> Cnt(w, ToSet(c.st[j]))]
\* the definition
In(c, w) == /\ Len(w) >= Len(c.pre)
            /\ SubSeq(w, 1, Len(c.pre)) = c.pre
            /\ \A i \in (Len(c.pre) + 1)..Len(w) : w[i] \in ToSet(c.a)
            /\ \A j \in 1..Len(c.pats) : ~Has(w, c.pats[j])
            /\ c.must = 0 \/ c.must \in ToSet(w)
Dead(c) == \E j \in 1..Len(c.pats) : Has(c.pre, c.pats[j])
Step1(c, w, a) == \A j \in 1..Len(c.pats) : ~Ends(Append(w, a), c.pats[j])
\* all words of size n, level by level: <<words of size 0, ..., of size top>>
\* (before the letter must is asked for)
Levels(c, top) ==
  FoldLeft(LAMBDA acc, n :
     Append(acc,
       IF n < Len(c.pre) \/ Dead(c) THEN {}
       ELSE IF n = Len(c.pre) THEN {c.pre}
       ELSE { Append(x[1], x[2]) : x \in { y \in acc[Len(acc)] \X ToSet(c.a) : Step1(c, y[1], y[2]) } }),
     <<>>, [i \in 1..(top + 1) |-> i - 1])
WordsOf(c, top) ==
  LET lv == Levels(c, top)
  IN [i \in 1..(top + 1) |-> IF c.must = 0 THEN lv[i] ELSE { w \in lv[i] : c.must \in ToSet(w) }]
\* counting without listing: <<tail, must still missing, parameters>> -> number
Keep1(c) == LET m == FoldLeft(LAMBDA a, p : IF Len(p) > a THEN Len(p) ELSE a, 1, c.pats) IN m - 1
Tail1(w, m) == IF Len(w) > m THEN SubSeq(w, Len(w) - m + 1, Len(w)) ELSE w
Key0(c) == <<Tail1(c.pre, Keep1(c)), c.must # 0 /\ c.must \notin ToSet(c.pre), Par(c, c.pre)>>
NextKey(c, k, a) ==
  <<Tail1(Append(k[1], a), Keep1(c)), k[2] /\ a # c.must,
    [j \in 1..Len(c.st) |-> k[3][j] + (IF a \in ToSet(c.st[j]) THEN 1 ELSE 0)]>>
Advance(c, f) ==
  LET S == { x \in (DOMAIN f) \X ToSet(c.a) : Step1(c, x[1][1], x[2]) }
      nx == TLCEval([x \in S |-> NextKey(c, x[1], x[2])])
  IN FoldSet(LAMBDA x, g : [g EXCEPT ![nx[x]] = @ + f[x[1]]], TLCEval([d \in { nx[x] : x \in S } |-> 0]), S)
Entries(f, n) ==
  LET D == { k \in DOMAIN f : ~k[2] }
      ps == { k[3] : k \in D }
  IN SetToSeq({ <<n, p, FoldSet(LAMBDA k, a : IF k[3] = p THEN a + f[k] ELSE a, 0, D)>> : p \in ps })
Table(c, top) ==
  IF Dead(c) \/ Len(c.pre) > top THEN <<>>
  ELSE FoldLeft(LAMBDA acc, n : LET f == IF n = Len(c.pre) THEN acc[2] ELSE Advance(c, acc[2])
                                IN << acc[1] \o Entries(f, n), f >>,
                << <<>>, Key0(c) :> 1 >>,
                [i \in 1..(top + 1 - Len(c.pre)) |-> Len(c.pre) + i - 1])[1]
\* size of the smallest word, -1 if there is none
RECURSIVE Bfs(_, _, _, _)
Bfs(c, front, seen, n) ==
  IF \E k \in front : ~k[2] THEN n
  ELSE LET nx == { NextKey(c, x[1], x[2]) : x \in { y \in front \X ToSet(c.a) : Step1(c, y[1][1], y[2]) } } \ seen
       IN IF nx = {} THEN -1 ELSE Bfs(c, nx, seen \cup nx, n + 1)
Smallest(c) == LET d == [c EXCEPT !.st = <<>>] IN
               IF Dead(c) THEN -1 ELSE Bfs(d, {Key0(d)}, {Key0(d)}, Len(c.pre))
=============================================================================
