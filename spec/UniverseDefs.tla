--------------------------- MODULE UniverseDefs ----------------------------
(* Table universes: what strategies do to classes, as data.                  *)
(* u.strats: sequence of [kind, pe, two, ver, map, yields]; strategy k of    *)
(* the harness is u.strats[k + 1].  map is a sequence of <<class, children>>;*)
(* a factory has yields instead: <<class, << <<"s"|"r"|"l", k, parent>> >> >>*)
(* u.pack: the strategies in the pack; u.empty: the truly empty classes.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Strat(u, k) == u.strats[k + 1]
\* << >> or <<children>>
Applied(u, k, c) == LET m == SelectSeq(Strat(u, k).map, LAMBDA e : e[1] = c)
                    IN IF m = <<>> THEN <<>> ELSE <<m[1][2]>>
Empty(u) == ToSet(u.empty)
InPack(u, k) == k \in ToSet(u.pack)
\* all rules <<k, parent, children>> the pack can produce when applied to class c
RulesAt(u, c) ==
  UNION { LET S == Strat(u, k) IN
          IF S.kind = "fac"
          THEN UNION { UNION { IF Applied(u, y[2], y[3]) = <<>> THEN {}
                               ELSE { <<y[2], y[3], Applied(u, y[2], y[3])[1]>> }
                               : y \in ToSet(e[2]) }
                       : e \in { f \in ToSet(S.yields) : f[1] = c } }
          ELSE IF Applied(u, k, c) = <<>> THEN {} ELSE { <<k, c, Applied(u, k, c)[1]>> }
          : k \in ToSet(u.pack) }
Classes(u) == 0..(u.n - 1)
AllRules(u) == UNION { RulesAt(u, c) : c \in Classes(u) }
Sorted(sq) == SortSeq(sq, LAMBDA a, b : a < b)
Pos(sq) == [i \in 1..Len(sq) |-> i]
\* all ways of dropping some of the positions in D
Keep(sq, K) == FoldLeft(LAMBDA a, i : IF i \in K THEN Append(a, sq[i]) ELSE a, <<>>, Pos(sq))
=============================================================================
