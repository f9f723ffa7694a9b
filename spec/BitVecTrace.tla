----------------------------- MODULE BitVecTrace -----------------------------
(***************************************************************************)
(* Checks recorded histories of real bit vectors against BitVec.           *)
(*                                                                         *)
(* An event is one call: e.o, e.s, e.a, e.g as in BitVec; e.r what it      *)
(* returned or threw; e.al and e.f how many allocations it made, and how   *)
(* many were refused; e.lb the blocks in use afterwards; e.v all slots     *)
(* afterwards; e.x what went wrong in ways that no specification allows    *)
(* (memory faults, disagreement between ways to read the same bit).        *)
(* e.i = 1 starts a new history, with no vectors.                          *)
(***************************************************************************)
EXTENDS BitVec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* The checks falsify recordings and mark the falsified event: the machine has to
\* refuse exactly the marked events.
Wanted(e) == "falsified" \notin DOMAIN e

VARIABLES l, vec
vars == <<l, vec>>

Init == l = 1 /\ vec = << >>

Start(e) == [s \in 1..Len(e.v) |-> None]

Sound(e, v) ==
    /\ Assert(LegalV(e, v), <<"harness: call is not legal", l, e.o, e.s, e.a>>)
    /\ Assert(\A s \in 1..Len(e.v) : WellFormed(e.v[s].c), <<"harness: contents are no rope", l>>)

Fine(e, v) ==
    /\ e.x = ""
    /\ Allowed_(e, v, e.v, e.r, e.al, e.f)
    /\ ((\A s \in DOMAIN e.v : e.v[s].l = 0) => e.lb = 0)   \* no vectors, no memory

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
           v == IF e.i = 1 THEN Start(e) ELSE vec
       IN /\ (Sound(e, v) /\ Fine(e, v)) = Wanted(e)
          /\ vec' = IF Wanted(e) THEN After(e, v, e.v, e.r) ELSE e.v
    /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
