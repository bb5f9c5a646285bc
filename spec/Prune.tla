------------------------------- MODULE Prune -------------------------------
(* Design of the pruning based search: rules with an unknown child are       *)
(* removed in any order until nothing changes; then a proof tree is grown    *)
(* breadth first, every label choosing a remaining rule when it is met for   *)
(* the first time; separately labels are derived bottom up with the root     *)
(* given.  Checked for every rule set over Labels with at most MaxRules      *)
(* rules per label.                                                          *)
EXTENDS PruneDefs, TLC
CONSTANTS Labels, MaxArity, MaxRules, Root
VARIABLES orig, R, phase, tree, queue, derived
vars == <<orig, R, phase, tree, queue, derived>>
SortedSeqs(n) == { s \in [1..n -> Labels] : \A i \in 1..(n - 1) : s[i] <= s[i + 1] }
RuleSet == UNION { SortedSeqs(n) : n \in 0..MaxArity }
Init == /\ orig \in UNION { [D -> { X \in SUBSET RuleSet : Cardinality(X) \in 1..MaxRules }] : D \in SUBSET Labels }
        /\ R = orig /\ phase = "prune" /\ tree = <<>> /\ queue = <<>> /\ derived = {Root}
\* remove one rule with an unknown child, and the label if it was its last one
Without(F, x) == [y \in DOMAIN F \ {x} |-> F[y]]
PruneRule(x, r) ==
                /\ ~(ToSet(r) \subseteq DOMAIN R)
                /\ R' = IF R[x] = {r} THEN Without(R, x) ELSE [R EXCEPT ![x] = @ \ {r}]
                /\ UNCHANGED <<orig, phase, tree, queue, derived>>
Stable == \A x \in DOMAIN R : \A r \in R[x] : ToSet(r) \subseteq DOMAIN R
Done == /\ phase = "prune" /\ Stable /\ Root \in DOMAIN R
        /\ phase' = "tree" /\ queue' = <<Root>>
        /\ UNCHANGED <<orig, R, tree, derived>>
Seen(x) == \E i \in 1..Len(tree) : tree[i][1] = x
\* a label met again is a leaf
Grow == /\ phase = "tree" /\ queue # <<>>
        /\ LET x == Head(queue) IN
           \E r \in (IF Seen(x) THEN {<<>>} ELSE R[x]) :
              /\ tree' = Append(tree, <<x, r>>)
              /\ queue' = Tail(queue) \o r
        /\ UNCHANGED <<orig, R, phase, derived>>
Derive == /\ phase = "prune"
          /\ \E x \in DOMAIN orig : \E r \in orig[x] :
                 ToSet(r) \subseteq derived /\ x \notin derived /\ derived' = derived \cup {x}
          /\ UNCHANGED <<orig, R, phase, tree, queue>>
Next == (phase = "prune" /\ \E x \in DOMAIN R : \E r \in R[x] : PruneRule(x, r)) \/ Done \/ Grow
NextD == Next \/ Derive
Spec == Init /\ [][Next]_vars
SpecD == Init /\ [][NextD]_vars
\* nothing of the greatest fixed point is ever removed, and nothing else stays
PruneSound == GFP(orig) \subseteq DOMAIN R
PruneExact == Stable => R = Pruned(orig)
TreeValid == phase = "tree" /\ queue = <<>> => TreeBad(Pruned(orig), Root, tree) = {}
TreeBounded == phase = "tree" => Len(tree) + Len(queue) <= 1 + Cardinality(Labels) * MaxArity
\* no tree is smaller than the minimum, and ...
MinIsMin == phase = "tree" /\ queue = <<>> => Len(tree) >= MinSize(orig, Root)
DeriveSound == derived \subseteq LFPFix(orig, {Root})
=============================================================================
