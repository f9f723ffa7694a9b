------------------------------- MODULE BitSeq -------------------------------
(***************************************************************************)
(* The same algorithms bit by bit: a storage is a function from 0..n-1 to  *)
(* symbolic bits <<kind, origin>>, and each definition is the effect the   *)
(* C++ standard gives for the std:: algorithm of that name, element by     *)
(* element.  This is the reference the rope definitions are checked        *)
(* against; it is meant to be obviously right rather than fast.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

B0 == <<2, 0>>
B1 == <<3, 0>>
BV(v) == IF v = 0 THEN B0 ELSE B1
BG == <<4, 0>>
BInv(b) == CASE b[1] = 0 -> <<1, b[2]>> [] b[1] = 1 -> <<0, b[2]>>
             [] b[1] = 2 -> B1 [] b[1] = 3 -> B0 [] OTHER -> BG
BVal(b) == b[1] - 2   \* value of a constant bit

N(m) == Cardinality(DOMAIN m)
In(i, f, l) == f <= i /\ i < l

BUn(op, b) == CASE op = "not" -> BInv(b) [] op = "id" -> b [] op = "zeros" -> B0 [] op = "ones" -> B1

BF(op, x, y) == \* value of the bit operation on values x, y
    CASE op = "and" -> x * y
      [] op = "or" -> IF x + y > 0 THEN 1 ELSE 0
      [] op = "xor" -> (x + y) % 2
      [] op = "andnot" -> x * (1 - y)
      [] op = "nand" -> 1 - x * y
      [] op = "nor" -> IF x + y > 0 THEN 0 ELSE 1
      [] op = "xnor" -> (x + y + 1) % 2
      [] op = "ornot" -> IF x + (1 - y) > 0 THEN 1 ELSE 0
      [] op = "first" -> x
      [] op = "second" -> y
\* the symbolic bit that is a function g of b
BOf(b, g0, g1) == CASE g0 = g1 -> BV(g0)
                    [] b[1] \in {2, 3} -> BV(IF BVal(b) = 0 THEN g0 ELSE g1)
                    [] g0 = 0 -> b
                    [] OTHER -> BInv(b)
BBin(op, b, c) ==
    CASE c[1] \in {2, 3} -> BOf(b, BF(op, 0, BVal(c)), BF(op, 1, BVal(c)))
      [] b[1] \in {2, 3} -> BOf(c, BF(op, BVal(b), 0), BF(op, BVal(b), 1))
      [] b = c /\ b # BG -> BOf(b, BF(op, 0, 0), BF(op, 1, 1))
      [] OTHER -> BG

SMem(op, a, m) ==
    CASE op \in {"copy", "move"} ->
            [i \in DOMAIN m |-> IF In(i, a[3], a[3] + a[2] - a[1]) THEN m[a[1] + i - a[3]] ELSE m[i]]
      [] op = "copy_backward" ->
            [i \in DOMAIN m |-> IF In(i, a[3] - (a[2] - a[1]), a[3]) THEN m[a[2] - (a[3] - i)] ELSE m[i]]
      [] op = "fill" -> [i \in DOMAIN m |-> IF In(i, a[1], a[2]) THEN BV(a[3]) ELSE m[i]]
      [] op = "shift_left" ->
            IF a[3] = 0 \/ a[3] >= a[2] - a[1] THEN m
            ELSE [i \in DOMAIN m |-> IF In(i, a[1], a[2] - a[3]) THEN m[i + a[3]] ELSE m[i]]
      [] op = "shift_right" ->
            IF a[3] = 0 \/ a[3] >= a[2] - a[1] THEN m
            ELSE [i \in DOMAIN m |-> IF In(i, a[1] + a[3], a[2]) THEN m[i - a[3]] ELSE m[i]]
      [] op = "rotate" ->
            [i \in DOMAIN m |->
                IF In(i, a[1], a[3]) THEN m[a[1] + (((i - a[1]) + (a[2] - a[1])) % (a[3] - a[1]))] ELSE m[i]]
      [] op = "reverse" ->
            [i \in DOMAIN m |-> IF In(i, a[1], a[2]) THEN m[a[1] + (a[2] - 1 - i)] ELSE m[i]]
      [] op = "swap_ranges" ->
            [i \in DOMAIN m |->
                CASE In(i, a[1], a[2]) -> m[a[3] + i - a[1]]
                  [] In(i, a[3], a[3] + a[2] - a[1]) -> m[a[1] + i - a[3]]
                  [] OTHER -> m[i]]
      [] op \in {"not", "id", "zeros", "ones"} ->
            [i \in DOMAIN m |->
                IF In(i, a[3], a[3] + a[2] - a[1]) THEN BUn(op, m[a[1] + i - a[3]]) ELSE m[i]]
      [] op \in {"and", "or", "xor", "andnot", "nand", "nor", "xnor", "ornot", "first", "second"} ->
            [i \in DOMAIN m |->
                IF In(i, a[4], a[4] + a[2] - a[1])
                THEN BBin(op, m[a[1] + i - a[4]], m[a[3] + i - a[4]]) ELSE m[i]]
      [] op \in {"find", "count", "equal", "bit_get"} -> m
      [] op = "sort" ->
            LET z == Cardinality({j \in DOMAIN m : In(j, a[1], a[2]) /\ m[j] = B0})
            IN [i \in DOMAIN m |-> IF In(i, a[1], a[2]) THEN (IF i < a[1] + z THEN B0 ELSE B1) ELSE m[i]]
      [] op = "reverse_copy" ->
            [i \in DOMAIN m |->
                IF In(i, a[3], a[3] + a[2] - a[1]) THEN m[a[2] - 1 - (i - a[3])] ELSE m[i]]
      [] op = "rotate_copy" ->
            [i \in DOMAIN m |->
                IF In(i, a[4], a[4] + a[3] - a[1])
                THEN m[a[1] + (((i - a[4]) + (a[2] - a[1])) % (a[3] - a[1]))] ELSE m[i]]
      [] op = "bit_set" -> [m EXCEPT ![a[1]] = BV(a[2])]
      [] op = "bit_flip" -> [m EXCEPT ![a[1]] = BInv(m[a[1]])]
      [] op = "bit_copy" -> [m EXCEPT ![a[1]] = m[a[2]]]
      [] op = "bit_swap" -> [m EXCEPT ![a[1]] = m[a[2]], ![a[2]] = m[a[1]]]
      [] op \in {"bit_and", "bit_or", "bit_xor"} ->
            [m EXCEPT ![a[1]] = BBin(CASE op = "bit_and" -> "and" [] op = "bit_or" -> "or" [] OTHER -> "xor",
                                     m[a[1]], BV(a[2]))]
      [] op = "word_move" ->
            [i \in DOMAIN m |-> IF In(i, a[2], a[2] + a[3]) THEN m[a[1] + i - a[2]] ELSE m[i]]

\* the bits whose value after the call is unspecified
SUnspec(op, a) ==
    CASE op = "shift_left" /\ a[3] > 0 /\ a[3] < a[2] - a[1] -> (a[2] - a[3])..(a[2] - 1)
      [] op = "shift_right" /\ a[3] > 0 /\ a[3] < a[2] - a[1] -> a[1]..(a[1] + a[3] - 1)
      [] OTHER -> {}

SRet(op, a, m) ==
    CASE op \in {"copy", "move", "swap_ranges", "not", "id", "zeros", "ones", "reverse_copy"} ->
            a[3] + (a[2] - a[1])
      [] op = "copy_backward" -> a[3] - (a[2] - a[1])
      [] op \in {"and", "or", "xor", "andnot", "nand", "nor", "xnor", "ornot", "first", "second"} ->
            a[4] + (a[2] - a[1])
      [] op = "rotate_copy" -> a[4] + (a[3] - a[1])
      [] op = "shift_left" ->
            IF a[3] = 0 THEN a[2] ELSE IF a[3] < a[2] - a[1] THEN a[2] - a[3] ELSE a[1]
      [] op = "shift_right" ->
            IF a[3] = 0 THEN a[1] ELSE IF a[3] < a[2] - a[1] THEN a[1] + a[3] ELSE a[2]
      [] op = "rotate" -> a[1] + (a[3] - a[2])
      [] op = "find" ->
            LET hits == {i \in DOMAIN m : In(i, a[1], a[2]) /\ m[i] = BV(a[3])}
            IN IF hits = {} THEN a[2] ELSE CHOOSE i \in hits : \A j \in hits : i <= j
      [] op = "count" -> Cardinality({i \in DOMAIN m : In(i, a[1], a[2]) /\ m[i] = BV(a[3])})
      [] op = "equal" -> IF \A i \in 0..(a[2] - a[1] - 1) : m[a[1] + i] = m[a[3] + i] THEN 1 ELSE 0
      [] op = "bit_get" -> BVal(m[a[1]])
      [] OTHER -> <<>>
=============================================================================
