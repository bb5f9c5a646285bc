------------------------------ MODULE RuleTrace ----------------------------
(* Rule forms judged against the tables of their classes.  A case is a small *)
(* universe (classes with their tables, basic rules) and one form derived    *)
(* from it; the events are what the real rule object did.                    *)
(*   form    : the classes and shifts it announces                           *)
(*   terms   : the terms it computed at size n, and what it read to do so    *)
(*   objects : the objects it generated at size n                            *)
(*   map     : object -> parts -> object                                     *)
(*   equation: the equation it emits, as a polynomial identity               *)
(*   sample  : exact distribution of its sampler at (n, p), as num/den       *)
EXTENDS Series, TLC, TLCExt, Json, IOUtils
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
InitSt(case) == [shifts |-> <<>>, lhs |-> 0, rhs |-> <<>>]
Bad(c, name) == IF c THEN {name} ELSE {}
Tab(case, c) == case.cl[c].tab
\* objects are <<class, size, parameters, rank>>; <<>> stands for no object
Is(case, o, c) == /\ o # <<>> /\ o[1] = c
                  /\ \E i \in 1..Len(Tab(case, c)) :
                       LET e == Tab(case, c)[i] IN e[1] = o[2] /\ e[2] = o[3] /\ o[4] < e[3]
Objects(case, c, n, p) ==
  { <<c, n, p, k>> : k \in 0..(Coef(At(Tab(case, c), n), p) - 1) }
FormStep(case, s, e) ==
  [st |-> [shifts |-> e.shifts, lhs |-> e.lhs, rhs |-> e.rhs],
   bad |-> Bad(\E i \in 1..Len(case.rs) : ~Genuine(case.cl, case.rs[i], case.top), "machinery_rule_not_genuine")
           \cup Bad(e.lhs # FLhs(case.rs, case.form) \/ e.rhs # FRhs(case.rs, case.form), "wrong_classes")
           \cup Bad(Len(e.shifts) # Len(e.rhs), "wrong_number_of_shifts")
           \cup Bad(e.fk # <<e.lhs, e.rhs, e.shifts>>, "forest_key_differs")]
TermsStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc # "" THEN {"counting_failed"}
    ELSE Bad(~SameTerms(e.got, At(Tab(case, s.lhs), e.n)), "wrong_terms")]
ReadsStep(case, s, e) ==
  [st |-> s, bad |->
    Bad(\E i \in 1..Len(e.reads) : e.reads[i][2] > e.n - s.shifts[e.reads[i][1]], "reads_beyond_shift")
    \cup Bad(\E i \in 1..Len(e.own) : e.own[i] >= e.n, "reads_own_term_too_late")]
ObjectsStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc # "" THEN {"generation_failed"}
    ELSE LET all == UNION { Objects(case, s.lhs, e.n, p) : p \in Keys(At(Tab(case, s.lhs), e.n)) }
             gen == { e.got[i] : i \in 1..Len(e.got) } IN
         Bad(\E i \in 1..Len(e.got) : e.got[i][5] # e.got[i][3], "filed_under_wrong_parameters")
         \cup Bad({ SubSeq(o, 1, 4) : o \in gen } # all, "wrong_objects")
         \cup Bad(Len(e.got) # Cardinality(all), "repeated_objects")]
MapStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc # "" THEN {"mapping_failed"}
    ELSE Bad(Len(e.parts) # Len(s.rhs), "wrong_number_of_parts")
         \cup Bad(\E i \in 1..Len(e.parts) : i <= Len(s.rhs) /\ e.parts[i] # <<>> /\ ~Is(case, e.parts[i], s.rhs[i]),
                  "part_not_in_child")
         \cup Bad(IF \E i \in 1..Len(case.rs) : case.rs[i].kind = "blow"
                  THEN \* several objects share their parts: all of them, each once
                       \/ e.obj \notin ToSet(e.back) \/ ~IsInjective(e.back)
                       \/ \E i \in 1..Len(e.back) : ~Is(case, e.back[i], s.lhs)
                       \/ Len(e.back) # case.rs[1].m[1] + case.rs[1].m[2] * e.obj[2]
                  ELSE e.back # << e.obj >>, "not_mapped_back")]
SampleStep(case, s, e) ==
  LET objs == Objects(case, s.lhs, e.n, e.p)
  IN [st |-> s, bad |->
       IF e.exc # "" THEN {"sampling_failed"}
       ELSE Bad({ e.dist[i][1] : i \in 1..Len(e.dist) } # objs, "wrong_support")
            \cup Bad(\E i \in 1..Len(e.dist) : e.dist[i][2] * Cardinality(objs) # e.dist[i][3], "not_uniform")]
EquationStep(case, s, e) ==
  [st |-> s, bad |->
    IF e.exc = "refused" THEN {}
    ELSE IF e.exc # "" THEN {"equation_failed"}
    ELSE Bad(\E i \in 1..Len(e.eq) : \E j \in 1..Len(e.eq[i].f) :
                Len(e.eq[i].f[j].a) # case.cl[e.eq[i].f[j].g].nv + 1, "wrong_arguments")
         \cup Bad(~EqHolds(case.cl, e.eq, e.nk, e.top), "equation_not_satisfied")]
Step(case, s, e) ==
  CASE e.op = "equation" -> EquationStep(case, s, e)
    [] e.op = "form" -> FormStep(case, s, e)
    [] e.op = "terms" -> TermsStep(case, s, e)
    [] e.op = "reads" -> ReadsStep(case, s, e)
    [] e.op = "objects" -> ObjectsStep(case, s, e)
    [] e.op = "map" -> MapStep(case, s, e)
    [] e.op = "sample" -> SampleStep(case, s, e)
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
