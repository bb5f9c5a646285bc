---------------------------- MODULE PruneTrace -----------------------------
(* Calls of the pruning functions and tree finders on rule dictionaries, and *)
(* runs of the pruning based rule databases over table universes (C05).      *)
EXTENDS PruneDefs, TLC, TLCExt, Json, IOUtils
E == INSTANCE EquivDefs
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
\* [[label, [rules]], ...] as a function
Dict(d) == [x \in { d[i][1] : i \in 1..Len(d) } |->
              ToSet((CHOOSE e \in ToSet(d) : e[1] = x)[2])]
IsDict(d) == Cardinality({ d[i][1] : i \in 1..Len(d) }) = Len(d)
Tree(R, root, t, e) == TreeBad(R, root, t)
                       \cup (IF e.iter /\ ~Acyclic(root, t) THEN {"iterative_tree_is_circular"} ELSE {})
TooBig(e, t) == e.maximum # 0 /\ Len(t) > e.maximum
DictStep(case, e) ==
  LET R == Dict(case.R)
      P == Pruned(R)
  IN CASE e.op = "prune" -> IF ~IsDict(e.out) \/ Dict(e.out) # P THEN {"pruning_is_not_the_greatest_fixed_point"} ELSE {}
       [] e.op = "iter" -> IF ~IsDict(e.out) \/ Dict(e.out) # IterRules(R, e.root)
                           THEN {"iterative_pruning_is_not_the_least_fixed_point"} ELSE {}
       [] e.op = "tree" -> IF ~e.found THEN {"no_tree_although_one_exists"}
                           ELSE Tree(IF e.iter THEN IterRules(R, e.root) ELSE P, e.root, e.t, e)
                                \cup (IF e.smallest /\ Len(e.t) # MinSize(R, e.root) THEN {"tree_is_not_the_smallest"} ELSE {})
       [] e.op = "gen" -> UNION { Tree(P, e.root, e.trees[i], e)
                                  \cup (IF TooBig(e, e.trees[i]) THEN {"tree_too_big"} ELSE {}) : i \in 1..Len(e.trees) }
                          \cup (IF e.trees = <<>> /\ (e.maximum = 0 \/ MinSize(R, e.root) <= e.maximum)
                                THEN {"no_tree_although_one_exists"} ELSE {})
                          \cup (IF e.all /\ e.finder = "gen_dfs" /\ e.maximum = 0 /\ ~\E i \in 1..Len(e.trees) : Len(e.trees[i]) = MinSize(R, e.root)
                                THEN {"a_smallest_tree_is_never_generated"} ELSE {})
       [] OTHER -> {"call_failed"}
\* ------------------------------------------------------------- databases
Reps(s) == LET C == E!SCCs(E!Edges(s.one, s.two), s.labels)
           IN [x \in s.labels |-> Min(C[x])]
Collapsed(s) ==
  LET rep == Reps(s)
      K == { k \in s.rules : ~(Len(k[2]) = 1 /\ rep[k[1]] = rep[k[2][1]]) }
      kk == { << rep[k[1]], Srt([i \in 1..Len(k[2]) |-> rep[k[2][i]]]) >> : k \in K }
  IN [x \in { q[1] : q \in kk } |-> { q[2] : q \in { p \in kk : p[1] = x } }]
Kept(e) == FoldLeft(LAMBDA a, i : IF e.drop[i] THEN a ELSE Append(a, e.ends[i]), <<>>, [i \in 1..Len(e.ends) |-> i])
AddRule(s, e) ==
  LET k == Kept(e)
      s1 == [s EXCEPT !.labels = @ \cup {e.start} \cup ToSet(e.ends),
                      !.ver = IF e.ver THEN @ \cup {e.start} ELSE @]
  IN IF Len(k) = 1 /\ e.two THEN [s1 EXCEPT !.two = @ \cup { <<e.start, k[1]>> }]
     ELSE [s1 EXCEPT !.rules = @ \cup { <<e.start, k>> },
                     !.one = IF Len(k) = 1 THEN @ \cup { <<e.start, k[1]>> } ELSE @]
Look(case, s, e) ==
  LET R == Collapsed(s)
      rep == Reps(s)
      root == rep[e.root]
      V == IF case.iterative THEN DOMAIN IterRules(R, root) ELSE GFP(R)
      has == root \in V
      ver == { x \in s.labels : rep[x] \in V \/ \E y \in s.ver : rep[y] = rep[x] }
      mapt(t) == [i \in 1..Len(t) |-> <<rep[t[i][1]], [j \in 1..Len(t[i][2]) |-> rep[t[i][2][j]]]>>]
  IN (IF e.has # has THEN {"specification_reported_wrongly"} ELSE {})
     \cup (IF e.verified /\ IF case.iterative THEN ~({ x \in s.labels : rep[x] \in V } \subseteq ToSet(e.verl))
                                                 ELSE ToSet(e.verl) # ver THEN {"verified_labels"} ELSE {})
     \cup (IF e.t = <<>> \/ ~has THEN {}
           ELSE IF \E i \in 1..Len(e.t) : e.t[i][1] \notin s.labels THEN {"tree_uses_an_unrecorded_rule"}
           ELSE TreeBad(IF case.iterative THEN IterRules(R, root) ELSE Pruned(R), root, mapt(e.t))
                \cup (IF case.iterative /\ ~Acyclic(root, mapt(e.t)) THEN {"iterative_tree_is_circular"} ELSE {})
                \cup (IF e.smallest /\ Len(e.t) # MinSize(R, root) THEN {"tree_is_not_the_smallest"} ELSE {}))
InitSt(case) == [labels |-> {}, rules |-> {}, one |-> {}, two |-> {}, ver |-> {}]
Step(case, s, e) ==
  IF case.kind = "dict" THEN [st |-> s, bad |-> DictStep(case, e)]
  ELSE CASE e.op = "add" -> [st |-> AddRule(s, e), bad |-> {}]
         [] e.op = "look" -> LET s1 == [s EXCEPT !.labels = @ \cup {e.root} \cup (0..(e.n - 1))]
                             IN [st |-> s1, bad |-> Look(case, s1, e)]
         [] OTHER -> [st |-> s, bad |-> {"call_failed"}]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
