------------------------------- MODULE Forest ------------------------------
(* The incremental table method (rule_db.forest.TableMethod): values,        *)
(* processing queue, gap, rules held back above the gap and declared         *)
(* infinite when nothing else can move.  The processing queue is a set here: *)
(* every order of processing is explored.                                    *)
EXTENDS ForestDefs, TLC, Json
CONSTANTS Labels, Shifts, MaxArity, MaxRules
VARIABLES rules, f, queue, held, gap, gapsize, hist
vars == <<rules, f, queue, held, gap, gapsize, hist>>
view == <<rules, f, queue, held, gap, gapsize>>
SortedPairs(k) == { t \in [1..k -> Labels \X Shifts] :
                      \A i \in 1..(k - 1) : \/ t[i][1] < t[i + 1][1]
                                            \/ t[i][1] = t[i + 1][1] /\ t[i][2] <= t[i + 1][2] }
AllRules == UNION { { [p |-> x, c |-> [i \in 1..k |-> t[i][1]], s |-> [i \in 1..k |-> t[i][2]]]
                      : x \in Labels, t \in SortedPairs(k) } : k \in 0..MaxArity }
Val(g, x) == g[x]
CanGive(g, r) == g[r.p] # INF /\ \A i \in 1..Len(r.c) : g[r.c[i]] = INF \/ g[r.c[i]] + r.s[i] - g[r.p] > 0
Used(g) == { g[x] : x \in Labels } \ {INF}
\* smallest k with no class in k .. k+len-1
GapStart(g, len) == CHOOSE k \in 0..(1 + Cardinality(Labels) * (1 + len) * 40) :
                      /\ \A v \in k..(k + len - 1) : v \notin Used(g)
                      /\ \A j \in 0..(k - 1) : \E v \in j..(j + len - 1) : v \in Used(g)
Init == /\ rules = {} /\ f = Zero(Labels) /\ queue = {} /\ held = {}
        /\ gapsize = 1 /\ gap = <<1, 1>> /\ hist = <<>>
Idle == queue = {} /\ held = {}
\* the gap after a change: when its right end grows the held rules are queued again
NewGap(g, len) == <<GapStart(g, len), GapStart(g, len) + len - 1>>
Add(r) ==
  /\ Idle /\ Cardinality(rules) < MaxRules /\ r \notin rules
  /\ rules' = rules \cup {r}
  /\ hist' = Append(hist, r)
  /\ LET m == MaxShift({r}) IN
       IF m > gapsize THEN gapsize' = m /\ gap' = NewGap(f, m) ELSE UNCHANGED <<gapsize, gap>>
  /\ queue' = IF f[r.p] # INF THEN {r} ELSE {}
  /\ UNCHANGED <<f, held>>
Process(r) ==
  /\ r \in queue
  /\ UNCHANGED <<rules, gapsize, hist>>
  /\ IF ~CanGive(f, r) THEN queue' = queue \ {r} /\ UNCHANGED <<f, held, gap>>
     ELSE IF f[r.p] > gap[2] THEN queue' = queue \ {r} /\ held' = held \cup {r} /\ UNCHANGED <<f, gap>>
     ELSE LET g == [f EXCEPT ![r.p] = @ + 1]
              ng == NewGap(g, gapsize)
              rel == ng[2] > gap[2]
          IN /\ f' = g /\ gap' = ng
             /\ held' = IF rel THEN {} ELSE held
             /\ queue' = (queue \ {r}) \cup (IF rel THEN held ELSE {})
                         \cup { q \in rules : (q.p = r.p \/ \E i \in 1..Len(q.c) : q.c[i] = r.p) /\ CanGive(g, q) }
SetInf(r) ==
  /\ queue = {} /\ r \in held
  /\ held' = held \ {r}
  /\ f' = [f EXCEPT ![r.p] = INF]
  /\ queue' = { q \in rules : (\E i \in 1..Len(q.c) : q.c[i] = r.p) /\ CanGive(f', q) }
  /\ UNCHANGED <<rules, gap, gapsize, hist>>
Next == (\E r \in AllRules : Add(r)) \/ (\E r \in queue : Process(r)) \/ (\E r \in held : SetInf(r))
Spec == Init /\ [][Next]_vars
\* C03
TheLFP == LFP(Labels, SetToSeq(rules), Cap(Cardinality(Labels), rules))
Below == \A x \in Labels : TheLFP[x] = INF \/ (f[x] # INF /\ f[x] <= TheLFP[x])
Exact == Idle => f = TheLFP
HeldAbove == \A r \in held : f[r.p] = INF \/ f[r.p] > gap[2]
Emit == Cardinality(rules) < MaxRules \/ ~Idle \/ PrintT("GEN@" \o ToJson(hist))
=============================================================================
