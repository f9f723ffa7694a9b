------------------------------- MODULE BitVec -------------------------------
(***************************************************************************)
(* Bit vectors as a state machine.                                         *)
(*                                                                         *)
(* The state vec maps a few slots, each of which holds a vector or none,   *)
(* to records                                                              *)
(*     l    1 if the slot holds a vector                                   *)
(*     c    its contents, a rope (Rope.tla) over an inexhaustible input of *)
(*          tokens: token t is bit t of the input                          *)
(*     k    its capacity in bits                                           *)
(*     b    the block of memory it owns, 0 if none                         *)
(*     z    the size of that block in bits                                 *)
(*     g    the allocator it was given                                     *)
(*                                                                         *)
(* A call is a record e: operation e.o on slot e.s with arguments e.a.     *)
(* Contents(e, v) says what the call makes of the contents, and Capacity   *)
(* which capacities, blocks and numbers of allocations it may lead to.     *)
(* Both are used twice: by MCBitVec, where TLC explores all histories of   *)
(* small vectors, and by BitVecTrace, which checks recorded histories.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILt(a, b) == a < b
INSTANCE BitOps WITH Plus <- IPlus, Minus <- IMinus, Lt <- ILt, Zero <- 0, One <- 1

None == [l |-> 0, c |-> << >>, k |-> 0, b |-> 0, z |-> 0, g |-> 0]
Size(r) == Length(r.c)

\* n bits taken from the input at t; t = -1 stands for zeros, -2 for ones
Input(t, n) == IF t >= 0 THEN Tokens(t, n) ELSE Const(-1 - t, n)
\* n copies of one bit
Repeat(t, n) == IF n = 0 THEN << >> ELSE IF t >= 0 THEN << <<n, Tok, t, 0>> >> ELSE Const(-1 - t, n)

\* What calls throw, as a return value
OutOfRange == -1
BadAlloc == -2
LengthError == -3
NoValue == -100     \* nothing returned

Constructors == {"new", "new_n", "new_nv", "new_bits", "new_bools", "new_words", "new_values", "new_boollist",
                 "new_wordlist", "new_str", "new_slice", "new_copy", "new_copy_alloc", "new_move", "new_move_alloc",
                 "new_n_huge", "new_nv_huge"}
InPlace == {"push", "push_ref", "pop", "insert", "insert_n", "insert_r", "erase", "erase_r", "resize", "resize_v", "clear",
            "reserve", "shrink", "set", "at_set", "at_get", "data_set", "front_set", "back_set", "flip",
            "reserve_huge", "resize_huge", "insert_huge"}
Algorithms == {"reverse", "rotate", "fill", "shift_left", "shift_right", "copy", "copy_backward", "swap_ranges", "not"}
Setters == {"set", "at_set", "at_get", "data_set", "front_set", "back_set", "flip"}
Assignments == {"copy_assign", "move_assign", "swap", "destroy", "copy_bits"}

\* Calls the standard (for the corresponding member of std::vector) defines
LegalV(e, v) ==
    LET s == e.s
        a == e.a
        n == Size(v[s])
    IN CASE e.o \in {"new", "new_n_huge", "new_nv_huge"} -> v[s].l = 0
         [] e.o = "new_n" -> v[s].l = 0 /\ a[1] >= 0
         [] e.o = "new_nv" -> v[s].l = 0 /\ a[1] >= 0
         [] e.o \in {"new_bits", "new_bools", "new_words", "new_values", "new_boollist", "new_wordlist", "new_str"} ->
               v[s].l = 0 /\ a[2] >= 0
         [] e.o = "new_slice" -> v[s].l = 0 /\ a[1] # s /\ v[a[1]].l = 1 /\ 0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= Size(v[a[1]])
         [] e.o \in {"new_copy", "new_copy_alloc", "new_move", "new_move_alloc"} -> v[s].l = 0 /\ a[1] # s /\ v[a[1]].l = 1
         [] e.o \in {"push", "clear", "reserve", "shrink", "resize", "resize_v", "destroy", "at_set", "at_get",
                     "reserve_huge", "resize_huge"} -> v[s].l = 1
         [] e.o \in {"pop", "front_set", "back_set"} -> v[s].l = 1 /\ n > 0
         [] e.o \in {"insert", "insert_n"} -> v[s].l = 1 /\ 0 <= a[1] /\ a[1] <= n
         [] e.o = "insert_huge" -> v[s].l = 1 /\ 0 <= a[1] /\ a[1] <= n
         [] e.o = "insert_r" -> /\ v[s].l = 1 /\ 0 <= a[1] /\ a[1] <= n
                                /\ a[2] # s /\ v[a[2]].l = 1 /\ 0 <= a[3] /\ a[3] <= a[4] /\ a[4] <= Size(v[a[2]])
         [] e.o \in {"erase", "set", "data_set", "flip", "push_ref"} -> v[s].l = 1 /\ 0 <= a[1] /\ a[1] < n
         [] e.o = "erase_r" -> v[s].l = 1 /\ 0 <= a[1] /\ a[1] <= a[2] /\ a[2] <= n
         [] e.o \in {"copy_assign"} -> v[s].l = 1 /\ v[a[1]].l = 1
         [] e.o = "move_assign" -> v[s].l = 1 /\ v[a[1]].l = 1 /\ a[1] # s
         [] e.o = "swap" -> v[s].l = 1 /\ v[a[1]].l = 1 /\ a[1] # s /\ v[s].g = v[a[1]].g
         [] e.o = "copy_bits" -> /\ v[s].l = 1 /\ v[a[1]].l = 1 /\ a[1] # s
                                 /\ 0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= Size(v[a[1]])
                                 /\ 0 <= a[4] /\ a[4] + (a[3] - a[2]) <= n
         [] e.o \in Algorithms -> v[s].l = 1 /\ \A i \in 1..Len(a) : a[i] >= 0 /\ Legal(e.o, a, n)
         [] OTHER -> FALSE

With(r, c) == [r EXCEPT !.c = c]
New(c, g) == [l |-> 1, c |-> c, k |-> 0, b |-> 0, g |-> g]

\* Contents after a call that succeeds, and the allocators; k and b are left to Capacity.
Contents(e, v) ==
    LET s == e.s
        a == e.a
        c == v[s].c
        n == Length(c)
        Put(x) == [v EXCEPT ![s] = With(@, x)]
        Make(x) == [v EXCEPT ![s] = New(x, e.g)]
    IN CASE e.o = "new" -> Make(<< >>)
         [] e.o = "new_n" -> Make(Const(0, a[1]))
         [] e.o = "new_nv" -> Make(Repeat(a[2], a[1]))
         [] e.o \in {"new_bits", "new_bools", "new_words", "new_values", "new_boollist", "new_wordlist", "new_str"} ->
               Make(Input(a[1], a[2]))
         [] e.o = "new_slice" -> Make(Slice(v[a[1]].c, a[2], a[3]))
         [] e.o = "new_copy" -> [v EXCEPT ![s] = New(v[a[1]].c, v[a[1]].g)]
         [] e.o = "new_copy_alloc" -> Make(v[a[1]].c)
         [] e.o = "new_move" -> [v EXCEPT ![s] = New(v[a[1]].c, v[a[1]].g), ![a[1]] = With(@, << >>)]
         [] e.o = "new_move_alloc" -> [v EXCEPT ![s] = New(v[a[1]].c, e.g), ![a[1]] = With(@, << >>)]
         [] e.o = "destroy" -> [v EXCEPT ![s] = None]
         [] e.o = "push" -> Put(c \o Input(a[1], 1))
         [] e.o = "push_ref" -> Put(c \o At(c, a[1]))
         [] e.o = "pop" -> Put(Take(c, n - 1))
         [] e.o = "insert" -> Put(Take(c, a[1]) \o Input(a[2], 1) \o Drop(c, a[1]))
         [] e.o = "insert_n" -> Put(Take(c, a[1]) \o Repeat(a[3], a[2]) \o Drop(c, a[1]))
         [] e.o = "insert_r" -> Put(Take(c, a[1]) \o Slice(v[a[2]].c, a[3], a[4]) \o Drop(c, a[1]))
         [] e.o = "erase" -> Put(Take(c, a[1]) \o Drop(c, a[1] + 1))
         [] e.o = "erase_r" -> Put(Take(c, a[1]) \o Drop(c, a[2]))
         [] e.o = "resize" -> Put(IF a[1] <= n THEN Take(c, a[1]) ELSE c \o Const(0, a[1] - n))
         [] e.o = "resize_v" -> Put(IF a[1] <= n THEN Take(c, a[1]) ELSE c \o Repeat(a[2], a[1] - n))
         [] e.o = "clear" -> Put(<< >>)
         [] e.o \in {"set", "at_set", "data_set"} -> Put(IF a[1] < n THEN Splice(c, a[1], Input(a[2], 1)) ELSE c)
         [] e.o = "front_set" -> Put(Splice(c, 0, Input(a[1], 1)))
         [] e.o = "back_set" -> Put(Splice(c, n - 1, Input(a[1], 1)))
         [] e.o = "flip" -> Put(Splice(c, a[1], Invert(At(c, a[1]))))
         [] e.o = "copy_assign" -> Put(v[a[1]].c)
         [] e.o = "move_assign" -> [v EXCEPT ![s] = With(@, v[a[1]].c), ![a[1]] = With(@, << >>)]
         [] e.o = "swap" -> [v EXCEPT ![s] = With(@, v[a[1]].c), ![a[1]] = With(@, v[s].c)]
         [] e.o = "copy_bits" -> Put(Splice(c, a[4], Slice(v[a[1]].c, a[2], a[3])))
         [] e.o \in Algorithms -> Put(Result(e.o, a, c).mem)
         [] OTHER -> v   \* reserve, shrink, calls that throw

\* slots whose contents after the call the standard leaves open
Open(e, v) == CASE e.o = "move_assign" -> {e.a[1]}
                [] e.o = "new_move_alloc" /\ v[e.a[1]].g # e.g -> {e.a[1]}
                [] OTHER -> {}
\* bits of slot e.s whose value is left open (what a shift vacates)
OpenBits(e, v) == IF e.o \in {"shift_left", "shift_right"}
                  THEN LET r == Result(e.o, e.a, v[e.s].c) IN <<r.lo, r.hi>> ELSE <<0, 0>>

\* slots a call may touch at all; the others keep everything, capacity and block included
Touched(e) == {e.s} \cup (IF e.o \in {"new_move", "new_move_alloc", "move_assign", "swap"} THEN {e.a[1]} ELSE {})

ReturnV(e, v) ==
    LET n == Size(v[e.s]) IN
    CASE e.o \in {"insert", "insert_n", "insert_r", "erase", "erase_r"} -> e.a[1]
      [] e.o \in {"at_set", "at_get"} -> IF e.a[1] < n THEN NoValue ELSE OutOfRange
      [] e.o \in {"reverse", "fill"} -> NoValue
         [] e.o \in Algorithms -> Result(e.o, e.a, v[e.s].c).ret
      [] e.o = "copy_bits" -> e.a[4] + (e.a[3] - e.a[2])
      [] OTHER -> NoValue

Huge == {"reserve_huge", "resize_huge", "insert_huge", "new_n_huge", "new_nv_huge"} \* sizes no memory can hold

Kept(x, y) == x.k = y.k /\ x.b = y.b

\* How capacities and blocks may change from v to w in a call that made al allocations
Capacity(e, v, w, al) ==
    LET s == e.s
        x == v[s]
        y == w[s]
        n == Size(y)
        o == e.o
    IN CASE o \in {"push", "push_ref", "insert"} ->
               IF n <= x.k THEN Kept(x, y) /\ (o # "insert" => al = 0)
               ELSE y.b # x.b /\ 4 * y.k >= 5 * x.k     \* geometric growth
         [] o \in {"insert_n", "insert_r", "resize", "resize_v"} ->
               IF n <= x.k THEN Kept(x, y) /\ (o \in {"resize", "resize_v"} => al = 0) ELSE y.b # x.b
         [] o \in Setters \cup {"pop", "clear"} ->
               Kept(x, y) /\ (ReturnV(e, v) # OutOfRange => al = 0)
         [] o \in {"erase", "erase_r"} -> Kept(x, y)
         [] o \in Algorithms \cup {"copy_bits"} -> Kept(x, y)
         [] o = "reserve" -> IF e.a[1] <= x.k THEN Kept(x, y) /\ al = 0 ELSE y.k >= e.a[1] /\ y.b # x.b
         [] o = "shrink" -> y.k <= x.k
         [] o \in {"new_move", "move_assign", "swap"} ->
               LET t == e.a[1] IN
               IF o # "new_move" /\ v[s].g # v[t].g THEN TRUE
               ELSE /\ al = 0                            \* the block changes hands
                    /\ Kept(v[t], y)
                    /\ (o = "swap" => Kept(x, w[t]))
         [] o = "new_move_alloc" ->
               v[e.a[1]].g = e.g => al = 0 /\ Kept(v[e.a[1]], y)
         [] o = "destroy" -> al = 0
         [] o \in Constructors -> y.k <= 2 * n + 128      \* no more than twice the words, of up to 64 bits, that the bits need
         [] OTHER -> TRUE

\* What holds between calls
Separate(v) == \A s, t \in DOMAIN v : s # t /\ v[s].b # 0 => v[s].b # v[t].b
Fits(v) == \A s \in DOMAIN v : /\ Size(v[s]) <= v[s].k
                               /\ v[s].k <= v[s].z
                               /\ (v[s].k > 0 => v[s].b # 0)
                               /\ (v[s].l = 0 => v[s] = None)
Blocks(v) == Cardinality({s \in DOMAIN v : v[s].b # 0})

EqualButOpen(x, y, lo, hi) ==
    IF lo = hi THEN Same(x, y)
    ELSE Length(x) = Length(y) /\ Same(Take(x, lo), Take(y, lo)) /\ Same(Drop(x, hi), Drop(y, hi))

\* May call e take v to w, returning r, with al allocations?
Succeeds(e, v, w, r, al) ==
    /\ e.o \notin Huge
    /\ LET want == Contents(e, v)
           ob == OpenBits(e, v)
       IN /\ \A s \in DOMAIN v :
              /\ w[s].l = want[s].l
              /\ w[s].b # 0 => w[s].g = want[s].g           \* the block comes from the vector's allocator
              /\ s \notin Open(e, v) =>
                    IF s = e.s THEN EqualButOpen(w[s].c, want[s].c, ob[1], ob[2]) ELSE Same(w[s].c, want[s].c)
              /\ s \notin Touched(e) => Kept(v[s], w[s])
          /\ r = ReturnV(e, v)
          /\ Capacity(e, v, w, al)

Unchanged(v, w, S) == \A s \in S : w[s].l = v[s].l /\ Same(w[s].c, v[s].c) /\ Kept(v[s], w[s])

\* A call that cannot get memory throws and changes nothing; a copy assignment
\* only promises that its target stays a vector.
Fails(e, v, w, r) ==
    /\ e.o \in Huge \/ r = BadAlloc
    /\ IF e.o = "copy_assign"
       THEN Unchanged(v, w, DOMAIN v \ {e.s}) /\ w[e.s].l = 1
       ELSE Unchanged(v, w, DOMAIN v)

\* failed: how many requests for memory were refused during the call
Allowed_(e, v, w, r, al, failed) ==
    /\ IF r \in {BadAlloc, LengthError} THEN (failed > 0 \/ e.o \in Huge) /\ Fails(e, v, w, r) ELSE Succeeds(e, v, w, r, al)
    /\ Fits(w)
    /\ Separate(w)

\* The state after a call that was seen to lead to w.  (Which allocator a vector
\* without memory uses cannot be seen.)
After(e, v, w, r) ==
    IF r \in {BadAlloc, LengthError} \/ e.o \in Huge THEN [s \in DOMAIN v |-> [w[s] EXCEPT !.g = v[s].g]]
    ELSE LET want == Contents(e, v) IN [s \in DOMAIN v |-> [w[s] EXCEPT !.g = want[s].g]]
=============================================================================
