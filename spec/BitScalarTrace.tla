--------------------------- MODULE BitScalarTrace ---------------------------
(***************************************************************************)
(* Checks recorded uses of real bit references and bit values against      *)
(* BitScalar.  e.m, e.f, e.u are the storage, the references and the       *)
(* values after the call, e.r what it returned, e.x what no specification  *)
(* allows.  A history begins with an event that says how things are.       *)
(*                                                                         *)
(* The storage: four words each of 8, 16, 32 and 64 bits.                  *)
(***************************************************************************)
EXTENDS TLC, Json, IOUtils, Integers, Sequences

VARIABLES l, st
vars == <<l, st>>

INSTANCE BitScalar WITH LimbBits <- 16, MutableRefs <- 7, Refs <- 10, Vals <- 3

Place(g) == \* width of the word bit g lies in, the word's number, the position in it
    CASE g < 32 -> <<8, g \div 8, g % 8>>
      [] g < 96 -> <<16, (g - 32) \div 16, (g - 32) % 16>>
      [] g < 224 -> <<32, (g - 96) \div 32, (g - 96) % 32>>
      [] OTHER -> <<64, (g - 224) \div 64, (g - 224) % 64>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Wanted(e) == "falsified" \notin DOMAIN e

Init == l = 1 /\ st = << >>

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN IF e.o = "start" THEN st' = [m |-> e.m, ref |-> e.f, val |-> e.u]
          ELSE LET n == AfterB(e, st)
               IN /\ Assert(LegalB(e, st), <<"harness: call is not legal", l, e.o>>)
                  /\ (e.x = "" /\ e.m = n.m /\ e.f = n.ref /\ e.u = n.val /\ e.r = ReturnB(e, st, Place)) = Wanted(e)
                  /\ st' = n
    /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
