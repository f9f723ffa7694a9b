--------------------------- MODULE BitShareTrace ---------------------------
(***************************************************************************)
(* Threads that read the same constant bits k while each of them changes   *)
(* its own words of one storage, or a vector of its own.  A recording      *)
(* holds the calls of one thread after another: what a thread does, and    *)
(* what it sees, must be explained by its own calls alone, whatever the    *)
(* others did meanwhile (MCBitShare shows that for a design that writes no *)
(* word outside the range).  Positions below Length(k) are in the constant *)
(* bits, those from there on in the words m of this thread.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILt(a, b) == a < b
B == INSTANCE BitHuge WITH Plus <- IPlus, Minus <- IMinus, Lt <- ILt, Zero <- 0, One <- 1

VARIABLES l, k, m
vars == <<l, k, m>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Wanted(e) == "falsified" \notin DOMAIN e

Starts == {"start", "v_start", "end"}
Shared == {"v_from", "v_copy_shared", "v_insert_from", "v_equal", "v_shared", "v_get"}

SLegal(op, a, n) ==
    LET c == B!Length(k)
    IN CASE op = "v_from" -> a[1] <= a[2] /\ a[2] <= c
         [] op = "v_insert_from" -> a[1] <= n /\ a[2] <= a[3] /\ a[3] <= c
         [] op = "v_equal" -> a[1] <= a[2] /\ a[2] <= c /\ a[3] + (a[2] - a[1]) <= n
         [] op = "v_shared" -> a[1] < c
         [] op = "v_get" -> a[1] < n
         [] OTHER -> op = "v_copy_shared"
SContents(op, a) ==
    CASE op = "v_from" -> B!Slice(k, a[1], a[2])
      [] op = "v_copy_shared" -> k
      [] op = "v_insert_from" -> B!Added(m, a[1], B!Slice(k, a[2], a[3]))
      [] OTHER -> m
Bool(x) == IF x THEN 1 ELSE 0
SReturn(op, a) ==
    CASE op = "v_insert_from" -> a[1]
      [] op = "v_equal" -> Bool(B!Same(B!Slice(k, a[1], a[2]), B!Slice(m, a[3], a[3] + (a[2] - a[1]))))
      [] op = "v_shared" -> Bool(B!At(k, a[1])[1][2] = B!Con1)
      [] op = "v_get" -> Bool(B!At(m, a[1])[1][2] = B!Con1)
      [] OTHER -> B!NoRet

\* An algorithm must leave the constant bits alone and is given only words of its own to change.
Changed(op, a) ==
    CASE op \in B!CopyLike \cup B!UnaryOps -> a[3]
      [] op \in B!BinaryOps -> a[4]
      [] op \in {"find", "count", "equal", "bit_get"} -> B!Length(k)
      [] OTHER -> a[1]
Defined(e) == \/ e.o \in Starts
              \/ e.o \in Shared /\ SLegal(e.o, e.a, B!Length(m))
              \/ e.o \in B!VectorOps /\ B!VLegal(e.o, e.a, m)
              \/ /\ e.o \notin Shared \cup B!VectorOps \cup Starts
                 /\ B!Legal(e.o, e.a, B!Length(k) + B!Length(m))
                 /\ Changed(e.o, e.a) >= B!Length(k)
Good(e) ==
    /\ e.x = ""
    /\ \/ e.o \in Starts
       \/ e.o \in Shared /\ e.r = SReturn(e.o, e.a) /\ B!Same(e.p, SContents(e.o, e.a))
       \/ e.o \in B!VectorOps /\ e.r = B!VReturn(e.o, e.a, m) /\ B!Same(e.p, B!VContents(e.o, e.a, m))
       \/ /\ e.o \notin Shared \cup B!VectorOps \cup Starts
          /\ B!Allowed(e.o, e.a, k \o m, e.r, k \o e.p)

Init == l = 1 /\ k = << >> /\ m = << >>

Step ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN /\ Assert(Defined(e), <<"harness: call is not legal", l, e.o, e.a>>)
          /\ Good(e) = Wanted(e)
          /\ k' = IF e.o \in Starts THEN e.k ELSE k
          /\ m' = e.p
    /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN \/ d = Len(Trace)
       \/ PrintT(<<"REJECTED", d + 1, ToJson(Trace[d + 1])>>) /\ FALSE
=============================================================================
