------------------------------ MODULE SpecTrace ----------------------------
(* Specifications found by real searches, and what is computed from them.    *)
(*   search : how the search ended                                           *)
(*   spec   : the rules (C02)                                                *)
(*   tables : truth tables of some classes become known (nothing judged)     *)
(*   expand : its verified classes are expanded (C19); offers, left: those   *)
(*            that offer a pack before and after                             *)
(*   counts : all terms of a class up to a size (C01)                        *)
(*   objects, map (C07), sample (C08), equation, genf (C20)                  *)
EXTENDS SpecDefs, Series, Json, IOUtils, TLCExt
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
InitSt(case) == [tab |-> <<>>, ix |-> <<>>]
Bad(c, name) == IF c THEN {name} ELSE {}
W(case, i) == case.cls[i]
\* the event tables makes [tab, nv] available as entry j for class ix[j]
Tables(case, e) == [j \in 1..Len(e.c) |->
   [tab |-> TLCEval(TableOf(W(case, e.c[j]), e.top)), nv |-> Len(W(case, e.c[j]).st)]]
SameTable(a, b) ==
  LET ks == { <<a[i][1], a[i][2]>> : i \in 1..Len(a) } \cup { <<b[i][1], b[i][2]>> : i \in 1..Len(b) }
      sum(t, k) == FoldLeft(LAMBDA x, y : IF y[1] = k[1] /\ y[2] = k[2] THEN x + y[3] ELSE x, 0, t)
  IN \A k \in ks : sum(a, k) = sum(b, k)
UpTo(t, n) == SelectSeq(t, LAMBDA y : y[1] <= n)
\* number of objects of size n whatever the parameters
Totals(t) == FoldLeft(LAMBDA a, y : Append(a, <<y[1], <<>>, y[3]>>), <<>>, t)
SearchStep(case, s, e) ==
  [st |-> s, bad |-> Bad(e.exc # "", "search_failed")]
SpecStep(case, s, e) ==
  [st |-> s, bad |-> IF e.exc # "" THEN {"no_specification_object"} ELSE SpecBad(case, e.rules, e.announced)]
\* must: a pack was offered for every class that could be expanded, and finds a specification
ExpandStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc # "" THEN {"expansion_failed"}
    ELSE Bad(~e.found /\ e.must, "expansion_gave_up")
         \cup Bad(e.found /\ e.how = "all" /\ e.left # <<>>, "expandable_class_left")
         \cup Bad(e.found /\ e.offers # <<>> /\ e.shared # 0, "shared_rules")
         \cup Bad(~e.unchanged, "original_changed")]
CountsStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc # "" THEN {"counting_failed"}
    ELSE LET t == TableOf(W(case, e.c), e.top) IN
         Bad(~SameTable(e.got, t), "wrong_counts")
         \cup Bad(~SameTable(e.totals, Totals(UpTo(t, e.ttop))), "wrong_totals")]
\* objects: got is a sequence of <<code, parameters it is filed under, size asked for>>
ObjectsStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc # "" THEN {"generation_failed"}
    ELSE LET all == TLCEval(ObjsOf(W(case, e.c), e.top))
             gen == { <<e.got[i][1], e.got[i][3], e.got[i][2]>> : i \in 1..Len(e.got) }
         IN Bad({ x[1] : x \in gen } # { x[1] : x \in all }, "wrong_objects")
            \cup Bad(Len(e.got) # Cardinality({ x[1] : x \in gen }), "repeated_objects")
            \cup Bad(gen # all /\ { x[1] : x \in gen } = { x[1] : x \in all }, "filed_wrongly")
            \cup Bad(\E i \in 1..Len(e.num) :
                       e.num[i][3] # Cardinality({ x \in all : x[2] = e.num[i][1] /\ x[3] = e.num[i][2] }),
                     "count_differs_from_objects")]
\* maps of one rule: obj -> parts -> back; <<0>> stands for no object, else <<1>> \o code
MapsStep(case, s, e) ==
  LET all == { x[1] : x \in ObjsOf(W(case, e.l), e.top) }
      codes == TLCEval([i \in 1..Len(e.r) |->
                  IF IsG(W(case, e.r[i])) THEN { x[1] : x \in ObjsOf(W(case, e.r[i]), e.top) } ELSE {}])
      in(i, x) == IF IsG(W(case, e.r[i])) THEN Tail(x) \in codes[i] ELSE In(W(case, e.r[i]), Tail(x))
  IN [st |-> s, bad |->
    IF e.exc # "" THEN {"mapping_failed"}
    ELSE Bad({ e.maps[i].o : i \in 1..Len(e.maps) } # all, "machinery_not_all_objects_mapped")
         \cup Bad(\E i \in 1..Len(e.maps) : Len(e.maps[i].parts) # Len(e.r), "wrong_number_of_parts")
         \cup Bad(\E i \in 1..Len(e.maps) : \E j \in 1..Len(e.maps[i].parts) :
                     e.maps[i].parts[j][1] = 1 /\ j <= Len(e.r) /\ ~in(j, e.maps[i].parts[j]), "part_not_in_child")
         \cup Bad(\E i \in 1..Len(e.maps) : \A j \in 1..Len(e.maps[i].parts) : e.maps[i].parts[j][1] = 0, "no_parts")
         \cup Bad(\E i \in 1..Len(e.maps) : e.maps[i].back # << <<1>> \o e.maps[i].o >>, "not_mapped_back")]
\* dist: <<object, numerator, denominator>>, the exact distribution of the sampler at (n, p)
SampleStep(case, s, e) ==
  LET ws == TLCEval({ x[1] : x \in { y \in ObjsOf(W(case, e.c), e.n) :
                                       y[2] = e.n /\ (e.par = <<>> \/ y[3] = e.par) } })
  IN [st |-> s, bad |->
       IF ws = {} THEN Bad(e.exc # "refused", "empty_size_not_refused")
       ELSE IF e.exc # "" THEN {"sampling_failed"}
       ELSE Bad({ e.dist[i][1] : i \in 1..Len(e.dist) } # ws, "wrong_support")
            \cup Bad(\E i \in 1..Len(e.dist) : e.dist[i][2] * Cardinality(ws) # e.dist[i][3], "not_uniform")]
EquationStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc = "refused" THEN {}
    ELSE IF e.exc # "" THEN {"equation_failed"}
    ELSE Bad(\E i \in 1..Len(e.eq) : \E j \in 1..Len(e.eq[i].f) :
                Len(e.eq[i].f[j].a) # s.tab[e.eq[i].f[j].g].nv + 1, "wrong_arguments")
         \cup Bad(~EqHolds(s.tab, e.eq, e.nk, e.top), "equation_not_satisfied")]
\* Taylor coefficients of a generating function in closed form
GenfStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc = "refused" THEN {}
    ELSE IF e.exc # "" THEN {"generating_function_failed"}
    ELSE Bad(~SameTable(e.got, TableOf(W(case, e.c), e.top)), "wrong_generating_function")]
\* what a rule of a specification read while it computed its terms of size n, all
\* smaller sizes (and the classes it relies on) being computed before or on demand
ReadsStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc # "" THEN {"counting_failed"}
    ELSE Bad(\E i \in 1..Len(e.reads) : e.reads[i][2] > e.n - e.s[e.reads[i][1]], "reads_beyond_shift")
         \cup Bad(\E i \in 1..Len(e.own) : e.own[i] >= e.n, "reads_own_term_too_late")]
Step(case, s, e) ==
  CASE e.op = "search" -> SearchStep(case, s, e)
    [] e.op = "spec" -> SpecStep(case, s, e)
    [] e.op = "tables" -> [st |-> [tab |-> Tables(case, e), ix |-> e.c], bad |-> {}]
    [] e.op = "expand" -> ExpandStep(case, s, e)
    [] e.op = "counts" -> CountsStep(case, s, e)
    [] e.op = "objects" -> ObjectsStep(case, s, e)
    [] e.op = "maps" -> MapsStep(case, s, e)
    [] e.op = "sample" -> SampleStep(case, s, e)
    [] e.op = "equation" -> EquationStep(case, s, e)
    [] e.op = "reads" -> ReadsStep(case, s, e)
    [] e.op = "genf" -> GenfStep(case, s, e)
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
