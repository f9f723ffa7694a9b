------------------------------ MODULE MCBitOps ------------------------------
(***************************************************************************)
(* TLC checks that BitOps (ropes) and BitSeq (bit by bit) define the same  *)
(* relation: for every storage in a set of ropes of Size bits that uses    *)
(* all kinds and steps, every legal call, and every storage that differs   *)
(* from the result in at most one bit, Allowed holds exactly when BitSeq   *)
(* allows it.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Size, OpSet

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILt(a, b) == a < b
R == INSTANCE BitOps WITH Plus <- IPlus, Minus <- IMinus, Lt <- ILt, Zero <- 0, One <- 1
S == INSTANCE BitSeq

\* the symbolic bits a rope denotes
RunBit(r, k) == <<r[2], IF r[4] = 0 THEN r[3] ELSE r[3] + r[4] * k>>
Expand(x) ==
    LET Start(j) == R!Length(SubSeq(x, 1, j - 1))
    IN [i \in 0..(R!Length(x) - 1) |->
            LET j == CHOOSE j \in 1..Len(x) : Start(j) <= i /\ i < Start(j) + x[j][1]
            IN RunBit(x[j], i - Start(j))]

Unit(x, n) == [i \in 1..n |-> x]
\* ropes of Size bits: tokens; every mixture of constants; tokens with every other
\* kind and step spliced in
Consts == [1..Size -> {<<1, 2, 0, 0>>, <<1, 3, 0, 0>>}]
Mixed == LET id == R!Tokens(0, Size) IN
    {id, R!Rev(id), R!Invert(id), << <<Size, 0, 3, 0>> >>, << <<Size, 4, 0, 0>> >>,
     R!Splice(id, 1, << <<2, 3, 0, 0>> >>), R!Splice(id, 0, R!Invert(R!Rev(R!Tokens(0, 3)))),
     R!Splice(R!Splice(id, 1, << <<1, 4, 0, 0>> >>), 2, R!Tokens(0, 1)),
     R!Splice(R!Const(0, Size), 1, R!Tokens(1, 2))}

Args(op) ==
    LET P == 0..Size
    IN CASE op \in {"fill", "find", "count"} -> P \X P \X {0, 1}
         [] op \in {"reverse", "sort"} -> P \X P
         [] op \in R!BinaryOps \cup {"rotate_copy"} -> P \X P \X P \X P
         [] op \in {"bit_set", "bit_and", "bit_or", "bit_xor"} -> P \X {0, 1}
         [] op \in {"bit_flip", "bit_get"} -> {<<i>> : i \in P}
         [] op \in {"bit_copy", "bit_swap"} -> P \X P
         [] OTHER -> P \X P \X (0..(Size + 2))

VARIABLES op, a, m
vars == <<op, a, m>>

Init == /\ op \in OpSet
        /\ m \in (IF op \in R!NeedsValues THEN Consts ELSE Mixed)
        /\ a = << >>
Next == /\ a = << >>
        /\ a' \in {x \in Args(op) : R!Legal(op, x, Size)}
        /\ UNCHANGED <<op, m>>
Spec == Init /\ [][Next]_vars

Res == R!Result(op, a, m)
Ref == S!SMem(op, a, Expand(m))
Uns == S!SUnspec(op, a)

Agree == a = << >> \/
    /\ R!WellFormed(m) /\ R!WellFormed(Res.mem)
    /\ R!Length(Res.mem) = Size
    /\ \A i \in 0..(Size - 1) : i \notin Uns => Expand(Res.mem)[i] = Ref[i]
    /\ Uns = {i \in 0..(Size - 1) : Res.lo <= i /\ i < Res.hi}
    /\ LET sr == S!SRet(op, a, Expand(m)) IN Res.ret = sr

\* Same and Allowed tell apart storages that differ in one specified bit
Bits(k) == {<<1, 0, k, 1>>, <<1, 0, k + 1, 0>>, <<1, 1, k, 0>>, <<1, 2, 0, 0>>, <<1, 3, 0, 0>>, <<1, 4, 0, 0>>}
Discerns == a = << >> \/
    \A i \in 0..(Size - 1) : \A b \in Bits(i) :
        LET post == R!Splice(Res.mem, i, << b >>)
        IN R!Allowed(op, a, m, Res.ret, post)
           <=> (i \in Uns \/ Expand(<< b >>)[0] = Ref[i])

\* the rope a storage denotes does not depend on how it is cut into runs
Cut(x) == [i \in 1..Size |-> R!At(x, i - 1)[1]]
Canonical == a = << >> \/
    /\ R!Same(Cut(m), m) /\ R!Same(m, Cut(m))
    /\ R!Allowed(op, a, Cut(m), Res.ret, Cut(Res.mem))
=============================================================================
