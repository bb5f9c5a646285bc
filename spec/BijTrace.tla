------------------------------ MODULE BijTrace -----------------------------
(* Isomorphisms of and bijections between specifications.                    *)
(*   iso  : the isomorphism test on (a, b), (b, a), (a, a), (b, b); r1, r2:  *)
(*          all verified classes are atoms                                   *)
(*   tiso : the same, with the rules of both (table universes)               *)
(*   bij  : map and inverse map on all objects up to a size; there[i] is     *)
(*          <<object of the first class, its image, the image mapped back>>, *)
(*          back[i] the same for the objects of the second class             *)
(*   found: the pair of specifications a parallel finder returns (C13)       *)
EXTENDS IsoDefs, Json, IOUtils, TLCExt
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
InitSt(case) == 0
Bad(c, name) == IF c THEN {name} ELSE {}
W(case, i) == case.cls[i]
IsoStep(case, e) ==
  IF e.exc # "" THEN {"isomorphism_test_failed"}
  ELSE Bad(e.ab # e.ba, "isomorphism_test_not_symmetric")
       \cup Bad((e.r1 /\ ~e.aa) \/ (e.r2 /\ ~e.bb), "isomorphism_test_not_reflexive")
TIsoStep(case, e) ==
  IF e.exc # "" \/ e.one.rules.exc # "" \/ e.two.rules.exc # "" THEN {"isomorphism_test_failed"}
  ELSE IsoStep(case, e)
       \cup Bad(e.ab /\ ~Isomorphic(case, e.one.rules.rules, e.one.want, e.two.rules.rules, e.two.want),
                "no_isomorphism_exists")
Codes(c, top) == { <<x[1], x[2]>> : x \in ObjsOf(c, top) }
OneWay(m, A, B, name) ==
  Bad({ <<m[i][1], m[i][4]>> : i \in 1..Len(m) } # A, "machinery_not_all_objects_mapped")
  \cup Bad(Cardinality({ m[i][2] : i \in 1..Len(m) }) # Len(m), name \o "_not_one_to_one")
  \cup Bad({ <<m[i][2], m[i][4]>> : i \in 1..Len(m) } # B, name \o "_not_onto_the_objects_of_the_size")
  \cup Bad(\E i \in 1..Len(m) : m[i][3] # m[i][1], name \o "_not_undone")
BijStep(case, e) ==
  IF e.exc # "" THEN {"mapping_failed"}
  ELSE LET A == TLCEval(Codes(W(case, e.a), e.top))
           B == TLCEval(Codes(W(case, e.b), e.top))
       IN OneWay(e.there, A, B, "map") \cup OneWay(e.back, B, A, "inverse_map")
\* a specification found for a class
CountBad(case, e) ==
  IF e.exc # "" THEN {"counting_failed"}
  ELSE LET t == TableOf(W(case, e.c), e.top)
           ks == { <<e.got[i][1], e.got[i][2]>> : i \in 1..Len(e.got) }
                 \cup { <<t[i][1], t[i][2]>> : i \in 1..Len(t) }
           sum(x, k) == FoldLeft(LAMBDA a, y : IF y[1] = k[1] /\ y[2] = k[2] THEN a + y[3] ELSE a, 0, x)
       IN Bad(\E k \in ks : sum(e.got, k) # sum(t, k), "wrong_counts")
SideBad(case, s) ==
  Bad(s.root # s.want, "specification_of_another_class")
  \cup (IF s.rules.exc # "" THEN {"no_specification_object"}
        ELSE SpecBad([cls |-> case.cls, facts |-> case.facts, root |-> s.want], s.rules.rules, s.rules.announced))
  \cup (IF W(case, s.want).w THEN CountBad(case, s.counts) ELSE {})
FoundStep(case, e) ==
  IF e.exc # "" THEN {"finder_failed"}
  ELSE IF ~e.found THEN {}
  ELSE LET b == SideBad(case, e.one) \cup SideBad(case, e.two)
                \cup Bad(~e.iso, "specifications_not_isomorphic")
       IN IF b # {} THEN b
          ELSE Bad(~Isomorphic(case, e.one.rules.rules, e.one.want, e.two.rules.rules, e.two.want),
                   "no_isomorphism_exists")
Step(case, s, e) ==
  [st |-> s, bad |-> CASE e.op = "iso" -> IsoStep(case, e)
                       [] e.op = "tiso" -> TIsoStep(case, e)
                       [] e.op = "bij" -> BijStep(case, e)
                       [] e.op = "found" -> FoundStep(case, e)]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
