----------------------------- MODULE BitMemTrace -----------------------------
(***************************************************************************)
(* The storage as a state machine, driven by a trace recorded from the     *)
(* real library.  The state is the storage mem (a rope).  Every event of   *)
(* the trace is one call; it either starts from a fresh storage e.i or     *)
(* continues on the storage the previous call left.  The machine takes the *)
(* step only if the call is legal there and the recorded outcome (e.r,     *)
(* e.p) is one that the specification allows; a call during which the      *)
(* library touched memory it was not given, or aborted, has e.x # "" and   *)
(* no transition.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILt(a, b) == a < b
INSTANCE BitOps WITH Plus <- IPlus, Minus <- IMinus, Lt <- ILt, Zero <- 0, One <- 1

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* With EXPECT=reject in the environment the machine accepts exactly the events
\* it would otherwise refuse: the checks feed it falsified recordings to show
\* that it refuses every one of them.
Wanted == ~("EXPECT" \in DOMAIN IOEnv /\ IOEnv.EXPECT = "reject")

VARIABLES l, mem
vars == <<l, mem>>

Init == l = 1 /\ mem = << >>

\* What the recording must satisfy whatever the library does.  A failure here
\* is a fault of the harness, not of the library, and stops TLC with an error.
Sound(e, pre) ==
    /\ Assert(WellFormed(pre), <<"harness: storage is no rope", l>>)
    /\ Assert(Legal(e.o, e.a, Length(pre)), <<"harness: call is not legal", l, e.o, e.a>>)
    /\ Assert(e.o \notin NeedsValues \/ Concrete(Reads(e.o, e.a, pre)), <<"harness: call needs values", l>>)

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
           pre == IF "i" \in DOMAIN e THEN e.i ELSE mem
       IN \* "= TRUE": one value, not one successor per disjunct
          /\ (Sound(e, pre) /\ e.x = "" /\ Allowed(e.o, e.a, pre, e.r, e.p)) = Wanted
          /\ mem' = e.p
    /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
