------------------------------- MODULE BitHuge -------------------------------
(***************************************************************************)
(* Storages and vectors of any size: BitOps for calls of algorithms on a   *)
(* storage, and here the calls on one vector, both over the number system  *)
(* BitOps is given.  MCBitHuge checks this against BitVec and, with Wide   *)
(* numbers, against BitOps over TLC's integers.                            *)
(***************************************************************************)
EXTENDS BitOps

Bit(v) == Const(v, One)
VectorOps == {"v_make", "v_push", "v_pop", "v_insert", "v_insert_n", "v_erase", "v_erase_n", "v_resize", "v_reserve", "v_shrink", "v_clear",
              "v_copy", "v_move", "v_assign", "v_size"}

VLegal(op, a, m) ==
    LET n == Length(m)
    IN CASE op \in {"v_insert", "v_insert_n"} -> Le(a[1], n)
         [] op = "v_erase" -> Lt(a[1], n)
         [] op \in {"v_erase_n", "v_assign"} -> Le(a[1], a[2]) /\ Le(a[2], n)
         [] op = "v_pop" -> n # Zero
         [] OTHER -> op \in VectorOps

\* contents after the call
Removed(m, f, t) == Take(m, f) \o Drop(m, t)
Added(m, f, r) == Take(m, f) \o r \o Drop(m, f)
VContents(op, a, m) ==
    LET n == Length(m)
    IN CASE op = "v_make" -> Const(a[2], a[1])
         [] op = "v_push" -> m \o Bit(a[1])
         [] op = "v_pop" -> Take(m, Minus(n, One))
         [] op = "v_insert" -> Added(m, a[1], Bit(a[2]))
         [] op = "v_insert_n" -> Added(m, a[1], Const(a[3], a[2]))
         [] op = "v_erase" -> Removed(m, a[1], Plus(a[1], One))
         [] op = "v_erase_n" -> Removed(m, a[1], a[2])
         [] op = "v_resize" -> IF Le(a[1], n) THEN Take(m, a[1]) ELSE m \o Const(a[2], Minus(a[1], n))
         [] op = "v_clear" -> << >>
         [] op = "v_assign" -> Slice(m, a[1], a[2])
         [] OTHER -> m        \* reserve, shrink, copy, move, size
VReturn(op, a, m) == CASE op \in {"v_insert", "v_insert_n", "v_erase", "v_erase_n"} -> a[1]
                       [] op = "v_size" -> Length(m)
                       [] OTHER -> NoRet

\* cap bits of capacity: they cover the contents p and what was reserved, and a vector just made has
\* no more than twice what it needs (d is the number of bits in a word)
Fresh == {"v_make", "v_copy", "v_assign"}
VCapacity(op, a, p, cap, d) ==
    LET n == Length(p) IN
    /\ Le(n, cap)
    /\ op = "v_reserve" => Le(a[1], cap)
    /\ op \in Fresh => Le(cap, Plus(Plus(n, n), Plus(d, d)))
=============================================================================
