---------------------------- MODULE BitTextTrace ----------------------------
(***************************************************************************)
(* Checks recorded uses of real streams and strings against BitText.  e.v  *)
(* is what can be observed after the call, e.r the text it returned or     *)
(* wrote, e.h whether it threw, e.x what no specification allows.          *)
(***************************************************************************)
EXTENDS BitText, TLC, Json, IOUtils

VARIABLES l, st
vars == <<l, st>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Wanted(e) == "falsified" \notin DOMAIN e

Init == l = 1 /\ st = << >>

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
           s == IF e.i = 1 THEN Start ELSE st
           fit == {o \in Outcomes(e, s) : Shown(o[1]) = e.v /\ o[2] = e.r /\ o[3] = e.h}
       IN /\ Assert(LegalT(e, s), <<"harness: call is not legal", l, e.o>>)
          /\ (e.x = "" /\ fit # {}) = Wanted(e)
          /\ st' = IF fit # {} THEN (CHOOSE o \in fit : TRUE)[1] ELSE s
    /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
