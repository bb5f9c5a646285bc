----------------------------- MODULE JsonTrace -----------------------------
(* JSON round trips: x is dumped, the text loaded, the result compared.      *)
(*   rt   : a and b are what x and the loaded x consist of (strategies,      *)
(*          packs, rules, specifications), eq / qe their equality both ways  *)
(*   spec : in addition everything computed from the two specifications      *)
(*   same : instances that were created in different ways; key[i] numbers    *)
(*          the kind and settings of the i-th, eq the matrix of equality     *)
(*   maps : a map and its inverse on all objects up to a size, before (a)    *)
(*          and after (b)                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, TLCExt, SequencesExt
VARIABLES cs, l, st, bad
Cases == JsonDeserialize(IOEnv.CASES)
InitSt(case) == 0
Bad(c, name) == IF c THEN {name} ELSE {}
Range_(s) == { s[i] : i \in 1..Len(s) }
\* the rule of every class, whatever their order
Rules(x) == Range_(x.rules)
RtBad(e) ==
  IF e.exc # "" THEN {"not_dumped_and_loaded"}
  ELSE Bad(Len(e.a.rules) # Len(e.b.rules) \/ Rules(e.a) # Rules(e.b), "other_rules")
       \cup Bad(e.a.root # e.b.root, "other_root")
       \cup Bad(e.a.parts # e.b.parts, "other_content")
       \cup Bad(~(e.eq /\ e.qe), "not_equal")
       \cup Bad(e.ne \/ e.en, "unequal")
SpecBad_(e) ==
  RtBad(e) \cup (IF e.exc # "" THEN {} ELSE
    UNION { Bad(e.a.comp[k] # e.b.comp[k], "other_" \o k) : k \in DOMAIN e.a.comp \cap DOMAIN e.b.comp })
SameBad(e) ==
  IF e.exc # "" THEN {"not_comparable"}
  ELSE LET n == 1..Len(e.key) IN
       Bad(\E i \in n : \E j \in n : e.key[i] = e.key[j] /\ ~e.eq[i][j], "equal_settings_not_equal")
       \cup Bad(\E i \in n : \E j \in n : e.key[i] # e.key[j] /\ e.eq[i][j], "different_settings_equal")
       \cup Bad(\E i \in n : \E j \in n : e.eq[i][j] = e.ne[i][j], "equality_and_inequality")
MapsBad(e) ==
  IF e.exc # "" THEN {"not_dumped_and_loaded"}
  ELSE Bad(e.a.there # e.b.there, "other_map") \cup Bad(e.a.back # e.b.back, "other_inverse_map")
       \cup Bad(~e.same, "other_specifications")
Step(case, s, e) ==
  [st |-> s, bad |-> CASE e.op = "rt" -> RtBad(e)
                       [] e.op = "spec" -> SpecBad_(e)
                       [] e.op = "same" -> SameBad(e)
                       [] e.op = "maps" -> MapsBad(e)]
T == INSTANCE TraceBase
TSpec == T!TSpec
Report == T!Report
Accepted == T!Accepted
=============================================================================
