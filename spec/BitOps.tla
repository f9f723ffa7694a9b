------------------------------- MODULE BitOps -------------------------------
(***************************************************************************)
(* What every bit algorithm does to a storage of symbolic bits, over ropes.*)
(*                                                                         *)
(* A call is a name op and a sequence of arguments a; all positions are    *)
(* bit indices into one storage m.  Result gives                           *)
(*     mem     the storage after the call,                                 *)
(*     lo, hi  the bits lo..hi-1 of it that the C++ standard leaves        *)
(*             unspecified (what shifting vacates), none if lo = hi,       *)
(*     ret     what the call returns: an iterator as its bit index, a      *)
(*             count, or a truth value as 0 or 1; NoRet for void.          *)
(* Legal says which calls the standard defines for n bits of storage.      *)
(* BitSeq.tla says the same thing bit by bit; MCBitOps.tla has TLC check   *)
(* the two against each other.                                             *)
(***************************************************************************)
EXTENDS Rope

NoRet == <<>>

Out(mem, ret) == [mem |-> mem, lo |-> Zero, hi |-> Zero, ret |-> ret]

Disjoint(a, b, n) == \* [a, a+n) and [b, b+n)
    \/ n = Zero \/ Le(Plus(a, n), b) \/ Le(Plus(b, n), a)

TT(op) == CASE op = "and" -> <<0, 0, 0, 1>>
            [] op = "or" -> <<0, 1, 1, 1>>
            [] op = "xor" -> <<0, 1, 1, 0>>
            [] op = "andnot" -> <<0, 0, 1, 0>>
            [] op = "nand" -> <<1, 1, 1, 0>>
            [] op = "nor" -> <<1, 0, 0, 0>>
            [] op = "xnor" -> <<1, 0, 0, 1>>
            [] op = "ornot" -> <<1, 0, 1, 1>>
            [] op = "first" -> <<0, 0, 1, 1>>
            [] op = "second" -> <<0, 1, 0, 1>>

UnaryOps == {"not", "id", "zeros", "ones"}
BinaryOps == {"and", "or", "xor", "andnot", "nand", "nor", "xnor", "ornot", "first", "second"}

Unary(op, x) == CASE op = "not" -> Invert(x)
                  [] op = "id" -> x
                  [] op = "zeros" -> Const(0, Length(x))
                  [] op = "ones" -> Const(1, Length(x))

CopyLike == {"copy", "move"}

Legal(op, a, n) ==
    CASE op \in CopyLike ->
            /\ Le(a[1], a[2]) /\ Le(a[2], n) /\ Le(Plus(a[3], Minus(a[2], a[1])), n)
            /\ (a[1] = a[2] \/ Lt(a[3], a[1]) \/ Le(a[2], a[3]))
      [] op = "copy_backward" ->
            /\ Le(a[1], a[2]) /\ Le(a[2], n) /\ Le(a[3], n) /\ Le(Minus(a[2], a[1]), a[3])
            /\ (a[1] = a[2] \/ Le(a[3], a[1]) \/ Lt(a[2], a[3]))
      [] op \in {"fill", "find", "count"} ->
            Le(a[1], a[2]) /\ Le(a[2], n) /\ a[3] \in {0, 1}
      [] op \in {"shift_left", "shift_right"} ->
            Le(a[1], a[2]) /\ Le(a[2], n) /\ Le(Zero, a[3])
      [] op = "rotate" -> Le(a[1], a[2]) /\ Le(a[2], a[3]) /\ Le(a[3], n)
      [] op \in {"reverse", "sort"} -> Le(a[1], a[2]) /\ Le(a[2], n)
      [] op = "swap_ranges" ->
            /\ Le(a[1], a[2]) /\ Le(a[2], n) /\ Le(Plus(a[3], Minus(a[2], a[1])), n)
            /\ Disjoint(a[1], a[3], Minus(a[2], a[1]))
      [] op \in {"equal"} ->
            Le(a[1], a[2]) /\ Le(a[2], n) /\ Le(Plus(a[3], Minus(a[2], a[1])), n)
      [] op \in UnaryOps ->
            /\ Le(a[1], a[2]) /\ Le(a[2], n) /\ Le(Plus(a[3], Minus(a[2], a[1])), n)
            /\ (a[3] = a[1] \/ Disjoint(a[1], a[3], Minus(a[2], a[1])))
      [] op \in BinaryOps ->
            LET k == Minus(a[2], a[1]) IN
            /\ Le(a[1], a[2]) /\ Le(a[2], n) /\ Le(Plus(a[3], k), n) /\ Le(Plus(a[4], k), n)
            /\ (a[4] = a[1] \/ Disjoint(a[1], a[4], k))
            /\ (a[4] = a[3] \/ Disjoint(a[3], a[4], k))
      [] op = "reverse_copy" ->
            /\ Le(a[1], a[2]) /\ Le(a[2], n) /\ Le(Plus(a[3], Minus(a[2], a[1])), n)
            /\ Disjoint(a[1], a[3], Minus(a[2], a[1]))
      [] op = "rotate_copy" ->
            /\ Le(a[1], a[2]) /\ Le(a[2], a[3]) /\ Le(a[3], n)
            /\ Le(Plus(a[4], Minus(a[3], a[1])), n)
            /\ Disjoint(a[1], a[4], Minus(a[3], a[1]))
      [] op \in {"bit_set", "bit_and", "bit_or", "bit_xor"} -> Lt(a[1], n) /\ a[2] \in {0, 1}
      [] op \in {"bit_flip", "bit_get"} -> Lt(a[1], n)
      [] op \in {"bit_copy", "bit_swap"} -> Lt(a[1], n) /\ Lt(a[2], n)
      \* a word of w bits: read k bits at a[1], or write k bits taken from a[2]
      [] op = "word_move" -> /\ Le(Plus(a[1], a[3]), n) /\ Le(Plus(a[2], a[3]), n)
                             /\ Lt(Zero, a[3])
      [] OTHER -> FALSE

\* Algorithms that look at values need a storage where they are known.
NeedsValues == {"find", "count", "equal", "sort", "bit_get"}
Reads(op, a, m) == \* the bits whose values the call depends on
    CASE op \in {"find", "count", "sort"} -> Slice(m, a[1], a[2])
      [] op = "equal" -> Slice(m, a[1], a[2]) \o Slice(m, a[3], Plus(a[3], Minus(a[2], a[1])))
      [] op = "bit_get" -> At(m, a[1])

Result(op, a, m) ==
    CASE op \in CopyLike ->
            Out(Splice(m, a[3], Slice(m, a[1], a[2])), Plus(a[3], Minus(a[2], a[1])))
      [] op = "copy_backward" ->
            LET d == Minus(a[3], Minus(a[2], a[1]))
            IN Out(Splice(m, d, Slice(m, a[1], a[2])), d)
      [] op = "fill" -> Out(Splice(m, a[1], Const(a[3], Minus(a[2], a[1]))), NoRet)
      [] op = "shift_left" ->
            LET d == Minus(a[2], a[1]) IN
            IF a[3] = Zero THEN Out(m, a[2])
            ELSE IF Le(d, a[3]) THEN Out(m, a[1])
            ELSE [mem |-> Splice(m, a[1], Slice(m, Plus(a[1], a[3]), a[2])),
                  lo |-> Minus(a[2], a[3]), hi |-> a[2], ret |-> Minus(a[2], a[3])]
      [] op = "shift_right" ->
            LET d == Minus(a[2], a[1]) IN
            IF a[3] = Zero THEN Out(m, a[1])
            ELSE IF Le(d, a[3]) THEN Out(m, a[2])
            ELSE [mem |-> Splice(m, Plus(a[1], a[3]), Slice(m, a[1], Minus(a[2], a[3]))),
                  lo |-> a[1], hi |-> Plus(a[1], a[3]), ret |-> Plus(a[1], a[3])]
      [] op = "rotate" ->
            Out(Splice(m, a[1], Slice(m, a[2], a[3]) \o Slice(m, a[1], a[2])),
                Plus(a[1], Minus(a[3], a[2])))
      [] op = "reverse" -> Out(Splice(m, a[1], Rev(Slice(m, a[1], a[2]))), NoRet)
      [] op = "swap_ranges" ->
            LET k == Minus(a[2], a[1])
                x == Slice(m, a[1], a[2])
                y == Slice(m, a[3], Plus(a[3], k))
            IN Out(Splice(Splice(m, a[1], y), a[3], x), Plus(a[3], k))
      [] op \in UnaryOps ->
            Out(Splice(m, a[3], Unary(op, Slice(m, a[1], a[2]))), Plus(a[3], Minus(a[2], a[1])))
      [] op \in BinaryOps ->
            LET k == Minus(a[2], a[1]) IN
            Out(Splice(m, a[4], Combine(TT(op), Slice(m, a[1], a[2]), Slice(m, a[3], Plus(a[3], k)))),
                Plus(a[4], k))
      [] op = "find" -> Out(m, Plus(a[1], Find(Slice(m, a[1], a[2]), a[3])))
      [] op = "count" -> Out(m, Count(Slice(m, a[1], a[2]), a[3]))
      [] op = "equal" ->
            Out(m, IF Same(Slice(m, a[1], a[2]), Slice(m, a[3], Plus(a[3], Minus(a[2], a[1]))))
                   THEN 1 ELSE 0)
      [] op = "sort" ->
            LET s == Slice(m, a[1], a[2])
            IN Out(Splice(m, a[1], Const(0, Count(s, 0)) \o Const(1, Count(s, 1))), NoRet)
      [] op = "reverse_copy" ->
            Out(Splice(m, a[3], Rev(Slice(m, a[1], a[2]))), Plus(a[3], Minus(a[2], a[1])))
      [] op = "rotate_copy" ->
            Out(Splice(m, a[4], Slice(m, a[2], a[3]) \o Slice(m, a[1], a[2])),
                Plus(a[4], Minus(a[3], a[1])))
      [] op = "bit_set" -> Out(Splice(m, a[1], Const(a[2], One)), NoRet)
      [] op = "bit_flip" -> Out(Splice(m, a[1], Invert(At(m, a[1]))), NoRet)
      [] op = "bit_copy" -> Out(Splice(m, a[1], At(m, a[2])), NoRet)
      [] op = "bit_swap" ->
            Out(Splice(Splice(m, a[1], At(m, a[2])), a[2], At(m, a[1])), NoRet)
      [] op = "bit_and" -> Out(IF a[2] = 0 THEN Splice(m, a[1], Const(0, One)) ELSE m, NoRet)
      [] op = "bit_or" -> Out(IF a[2] = 1 THEN Splice(m, a[1], Const(1, One)) ELSE m, NoRet)
      [] op = "bit_xor" ->
            Out(IF a[2] = 1 THEN Splice(m, a[1], Invert(At(m, a[1]))) ELSE m, NoRet)
      [] op = "bit_get" -> Out(m, IF At(m, a[1])[1][2] = Con1 THEN 1 ELSE 0)
      [] op = "word_move" -> Out(Splice(m, a[2], Slice(m, a[1], Plus(a[1], a[3]))), NoRet)

\* Is (ret, post) an outcome the specification allows for this call on m?
Allowed(op, a, m, ret, post) ==
    LET res == Result(op, a, m) IN
    /\ ret = res.ret
    /\ IF res.lo = res.hi THEN Same(post, res.mem)
       ELSE /\ Same(Take(post, res.lo), Take(res.mem, res.lo))
            /\ Same(Drop(post, res.hi), Drop(res.mem, res.hi))
            /\ Length(post) = Length(res.mem)
=============================================================================
