---------------------------- MODULE BitHugeTrace ----------------------------
(***************************************************************************)
(* Checks recorded calls on storages and vectors of more than 2^32 bits    *)
(* against BitHuge over pairs of TLC integers (Wide).  The state is the    *)
(* storage m, or the contents of the vector.  An event gives the contents  *)
(* after the call (e.p), what it returned (e.r), the vector's capacity     *)
(* (e.c), and in e.x what no specification allows.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

W == INSTANCE Wide WITH Base <- 1073741824
WPlus(a, b) == W!WPlus(a, b)
WMinus(a, b) == W!WMinus(a, b)
WLt(a, b) == W!WLt(a, b)
B == INSTANCE BitHuge WITH Plus <- WPlus, Minus <- WMinus, Lt <- WLt, Zero <- <<0, 0>>, One <- <<0, 1>>

VARIABLES l, m
vars == <<l, m>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Wanted(e) == "falsified" \notin DOMAIN e

Starts == {"start", "v_start"}

Defined(e) == \/ e.o \in Starts
              \/ e.o \in B!VectorOps /\ B!VLegal(e.o, e.a, m)
              \/ e.o \notin B!VectorOps /\ B!Legal(e.o, e.a, B!Length(m))
Good(e) ==
    /\ e.x = ""
    /\ \/ e.o \in Starts
       \/ e.o \in B!VectorOps /\ e.r = B!VReturn(e.o, e.a, m) /\ B!Same(e.p, B!VContents(e.o, e.a, m))
                              /\ B!VCapacity(e.o, e.a, e.p, e.c, W!Of(e.d))
       \/ e.o \notin B!VectorOps \cup Starts /\ B!Allowed(e.o, e.a, m, e.r, e.p)

Init == l = 1 /\ m = << >>

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN /\ Assert(Defined(e), <<"harness: call is not legal", l, e.o>>)
          /\ Good(e) = Wanted(e)
          /\ m' = e.p
    /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
