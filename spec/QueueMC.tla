------------------------------ MODULE QueueMC ------------------------------
EXTENDS Queue, Json, IOUtils
NatEnv(s) == CHOOSE n \in 0..9 : ToString(n) = s
MCLabels == 0..1
MCPack == CASE IOEnv.PACK = "111" -> [inf |-> 1, init |-> 1, exp |-> <<1>>]
            [] IOEnv.PACK = "0021" -> [inf |-> 0, init |-> 0, exp |-> <<2, 1>>]
            [] IOEnv.PACK = "120" -> [inf |-> 1, init |-> 2, exp |-> <<>>]
            [] IOEnv.PACK = "1011" -> [inf |-> 1, init |-> 0, exp |-> <<1, 1>>]
            [] IOEnv.PACK = "011" -> [inf |-> 0, init |-> 1, exp |-> <<1>>]
Emit == nops < MaxOps \/ PrintT("GEN@" \o ToJson(hist))
=============================================================================
