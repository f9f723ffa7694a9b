------------------------------ MODULE MCBitHuge ------------------------------
(***************************************************************************)
(* BitHuge over Wide numbers (of a small base, so that carries occur)      *)
(* means the same as over TLC's integers, for all calls on all storages    *)
(* of at most Size bits; its calls on vectors are those of BitVec.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Size, SmallBase

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILt(a, b) == a < b
I == INSTANCE BitHuge WITH Plus <- IPlus, Minus <- IMinus, Lt <- ILt, Zero <- 0, One <- 1
V == INSTANCE BitVec
N == INSTANCE Wide WITH Base <- SmallBase
WPlus(a, b) == N!WPlus(a, b)
WMinus(a, b) == N!WMinus(a, b)
WLt(a, b) == N!WLt(a, b)
W == INSTANCE BitHuge WITH Plus <- WPlus, Minus <- WMinus, Lt <- WLt, Zero <- <<0, 0>>, One <- <<0, 1>>

VARIABLES op, a, m, called
vars == <<op, a, m, called>>

Storages == UNION {[1..n -> {<<1, 2, 0, 0>>, <<1, 3, 0, 0>>}] : n \in 0..Size} \cup {<<<<Size, 2, 0, 0>>>>, <<<<2, 3, 0, 0>>, <<Size - 2, 2, 0, 0>>>>}
Numbers == {"copy", "move", "copy_backward", "shift_left", "shift_right", "rotate", "reverse", "swap_ranges", "equal", "not", "and", "xor", "v_erase_n", "v_assign", "v_reserve"}
Last == {"fill", "find", "count", "bit_set", "v_make", "v_push", "v_insert", "v_insert_n", "v_resize"}   \* the last argument is a bit
Ops == Numbers \cup Last \cup {"bit_flip", "bit_get", "v_pop", "v_erase", "v_shrink", "v_clear", "v_copy", "v_move", "v_size"}
Args(o) == LET P == 0..(Size + 1) IN
    CASE o \in {"copy", "move", "copy_backward", "shift_left", "shift_right", "rotate", "swap_ranges", "equal", "not"} -> P \X P \X P
      [] o \in {"and", "xor"} -> P \X P \X P \X P
      [] o \in {"reverse", "v_erase_n", "v_assign"} -> P \X P
      [] o \in {"fill", "find", "count", "v_insert_n"} -> P \X P \X {0, 1}
      [] o \in {"bit_set", "v_make", "v_insert", "v_resize"} -> P \X {0, 1}
      [] o \in {"bit_flip", "bit_get", "v_erase", "v_reserve"} -> {<<i>> : i \in P}
      [] o = "v_push" -> {<<0>>, <<1>>}
      [] OTHER -> {<< >>}
Defined(o, x, s) == IF o \in I!VectorOps THEN I!VLegal(o, x, s) ELSE I!Legal(o, x, I!Length(s))

Wided(o, x) == [i \in 1..Len(x) |-> IF o \in Last /\ i = Len(x) THEN x[i] ELSE N!Of(x[i])]
WRope(r) == [i \in 1..Len(r) |-> <<N!Of(r[i][1]), r[i][2], N!Of(r[i][3]), r[i][4]>>]
Void == {"fill", "reverse", "bit_set", "bit_flip", "v_make", "v_push", "v_pop", "v_resize", "v_reserve", "v_shrink", "v_clear", "v_copy", "v_move", "v_assign"}
WRet(o, r) == IF o \in Void THEN r ELSE IF o \in {"equal", "bit_get"} THEN r ELSE N!Of(r)

Init == op \in Ops /\ m \in Storages /\ a = << >> /\ called = FALSE
Next == ~called /\ called' = TRUE /\ a' \in {x \in Args(op) : Defined(op, x, m)} /\ UNCHANGED <<op, m>>
Spec == Init /\ [][Next]_vars

Agree == ~called \/
    LET x == Wided(op, a)
        s == WRope(m)
    IN IF op \in I!VectorOps
       THEN /\ W!VLegal(op, x, s)
            /\ W!Same(W!VContents(op, x, s), WRope(I!VContents(op, a, m)))
            /\ W!VReturn(op, x, s) = WRet(op, I!VReturn(op, a, m))
            /\ \A c \in 0..(2 * Size + 8), d \in {1, 2} :
                  W!VCapacity(op, x, WRope(I!VContents(op, a, m)), N!Of(c), N!Of(d)) <=> I!VCapacity(op, a, I!VContents(op, a, m), c, d)
       ELSE /\ W!Legal(op, x, N!Of(I!Length(m)))
            /\ LET p == W!Result(op, x, s)
                   q == I!Result(op, a, m)
               IN /\ W!Same(p.mem, WRope(q.mem)) /\ p.lo = N!Of(q.lo) /\ p.hi = N!Of(q.hi) /\ p.ret = WRet(op, q.ret)
                  /\ W!Allowed(op, x, s, p.ret, WRope(q.mem))

\* the vector calls are BitVec's
VName == [v_make |-> "new_nv", v_push |-> "push", v_pop |-> "pop", v_insert |-> "insert", v_insert_n |-> "insert_n", v_erase |-> "erase",
          v_erase_n |-> "erase_r", v_resize |-> "resize_v", v_reserve |-> "reserve", v_shrink |-> "shrink", v_clear |-> "clear"]
VArgs == IF op = "v_push" THEN <<-1 - a[1]>> ELSE IF op \in Last THEN [a EXCEPT ![Len(a)] = -1 - @] ELSE a
AsVector == (~called \/ op \notin DOMAIN VName) \/
    LET old == [l |-> IF op = "v_make" THEN 0 ELSE 1, c |-> m, k |-> 0, b |-> 0, z |-> 0, g |-> 0]
        e == [o |-> VName[op], s |-> 1, a |-> VArgs, g |-> 0]
        v == <<old>>
    IN /\ V!LegalV(e, v)
       /\ V!Same(V!Contents(e, v)[1].c, I!VContents(op, a, m))
       /\ LET r == V!ReturnV(e, v) IN I!VReturn(op, a, m) = IF r = V!NoValue THEN << >> ELSE r
=============================================================================
