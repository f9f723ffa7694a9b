--------------------------- MODULE BitInstrTrace ---------------------------
(***************************************************************************)
(* Checks recorded calls of the real word instructions against BitInstr:   *)
(* limbs are bytes; e.w and e.k are what the call gave, e.x what no        *)
(* specification allows.                                                   *)
(***************************************************************************)
EXTENDS TLC, Json, IOUtils, Integers, Sequences

VARIABLE l

INSTANCE BitInstr WITH LimbBits <- 8

Trace == ndJsonDeserialize(IOEnv.TRACE)
Wanted(e) == "falsified" \notin DOMAIN e

Init == l = 1

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN /\ Assert(LegalI(e), <<"harness: call is not legal", l, e.o>>)
          /\ (LET g == GivesI(e) IN e.x = "" /\ e.w = g.w /\ e.k = g.k) = Wanted(e)
    /\ l' = l + 1

Spec == Init /\ [][Step]_l

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
