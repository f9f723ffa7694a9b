--------------------------- MODULE BitWindowTrace ---------------------------
(***************************************************************************)
(* Checks recorded calls of the pieces algorithms are made of against      *)
(* BitWindow: limbs are bytes; e.x is what no specification allows.        *)
(***************************************************************************)
EXTENDS TLC, Json, IOUtils, Integers, Sequences

VARIABLE l

INSTANCE BitWindow WITH LimbBits <- 8

Trace == ndJsonDeserialize(IOEnv.TRACE)
Wanted(e) == "falsified" \notin DOMAIN e

Init == l = 1

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN /\ Assert(LegalW(e), <<"harness: call is not legal", l, e.o>>)
          /\ (e.x = "" /\ MeetsW(e)) = Wanted(e)
    /\ l' = l + 1

Spec == Init /\ [][Step]_l

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
