------------------------------ MODULE WordsMC ------------------------------
(* The three views of a word class (definition, level sets, counting         *)
(* automaton) agree on every small class.                                    *)
EXTENDS Words, TLC
CONSTANTS A, MaxPat, Top
VARIABLE c
Seqs(n) == UNION { [1..k -> 1..A] : k \in 0..n }
Pats == { p \in Seqs(MaxPat) : p # <<>> }
Init == c \in { [a |-> SetToSeq(aa), pre |-> pre, pats |-> SetToSeq(ps), must |-> m, st |-> s] :
                aa \in SUBSET (1..A), pre \in Seqs(2), ps \in { X \in SUBSET Pats : Cardinality(X) <= 2 },
                m \in 0..A, s \in { <<>>, << <<1>> >>, << <<2>>, <<1, 2>> >> } }
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Brute(n) == { w \in [1..n -> 1..A] : In(c, w) }
CountsOf(S) == { <<p, Cardinality({ w \in S : Par(c, w) = p })>> : p \in { Par(c, w) : w \in S } }
Agree ==
  LET ws == WordsOf(c, Top)
      tab == Table(c, Top)
  IN /\ \A n \in 0..Top :
          /\ ws[n + 1] = Brute(n)
          /\ { <<tab[i][2], tab[i][3]>> : i \in { j \in 1..Len(tab) : tab[j][1] = n } } = CountsOf(Brute(n))
     /\ LET s == Smallest(c) IN
          /\ s # -1 => Brute(IF s > Top THEN Top ELSE s) # {} \/ s > Top
          /\ \A n \in 0..Top : Brute(n) # {} => s # -1 /\ s <= n
=============================================================================
