--------------------------- MODULE BitCursorTrace ---------------------------
(***************************************************************************)
(* Checks recorded uses of real iterators and pointers against BitCursor.  *)
(* e.v gives what every register looks like after the call: <<kind, word,  *)
(* position>>; e.r what the call returned; e.x what no specification       *)
(* allows.  Some iterators address a ring of e.q words (0: no ring), so    *)
(* that the word seen through a reference is the true one modulo e.q.      *)
(***************************************************************************)
EXTENDS Sequences, TLC, Json, IOUtils

VARIABLES l, v
vars == <<l, v>>

INSTANCE BitCursor WITH Base <- 1073741824

Trace == ndJsonDeserialize(IOEnv.TRACE)
Wanted(e) == "falsified" \notin DOMAIN e

Init == l = 1 /\ v = << >>
Fresh == [s \in 1..Registers |-> Unset]

Seen(r, c, d) == \* the register as recorded shows the cursor c
    /\ r[1] = c.k
    /\ c.k = 2 => <<r[2], r[3]>> = Loc(c.p, d)

ThroughReference == {"deref", "index", "ref", "rev", "arrow", "addr"}
Returned(e, u) ==
    LET r == ReturnC(e, u)
    IN IF e.q > 0 /\ e.o \in ThroughReference THEN <<Of(WMod(r[1], e.q)), r[2]>> ELSE r

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
           u == IF e.i = 1 THEN Fresh ELSE v
           w == AfterC(e, u)
       IN /\ Assert(LegalC(e, u), <<"harness: call is not legal", l, e.o>>)
          /\ (e.x = "" /\ e.r = Returned(e, u) /\ \A s \in 1..Registers : Seen(e.v[s], w[s], e.d)) = Wanted(e)
          /\ v' = w
    /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
