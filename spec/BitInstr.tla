------------------------------ MODULE BitInstr ------------------------------
(***************************************************************************)
(* Instructions on words.                                                  *)
(*                                                                         *)
(* A word is a sequence of limbs of LimbBits bits each, the least          *)
(* significant first, so that words of 64 bits can be told with numbers    *)
(* TLC has.  A call e of an instruction e.o has operands e.a, e.b (words), *)
(* e.m (a mask), e.n (counts and positions) and e.c (a carry); it gives    *)
(* a record of                                                             *)
(*   w   the words it gives, in order (result; high half; both exchanged)  *)
(*   k   the number it gives (a count, a carry, a width), or -1            *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT LimbBits

Pow2 == [i \in 0..LimbBits |-> 2^i]
Base == Pow2[LimbBits]
Digits(w) == Len(w) * LimbBits
T(p) == IF p THEN 1 ELSE 0
Least(a, b) == IF a < b THEN a ELSE b

BitOf(w, i) == (w[(i \div LimbBits) + 1] \div Pow2[i % LimbBits]) % 2
RECURSIVE SumTo(_, _)
SumTo(f, j) == IF j < 0 THEN 0 ELSE f[j] * Pow2[j] + SumTo(f, j - 1)
\* the word of as many limbs as w whose bit i is b[i]
Pack(w, b) == [k \in 1..Len(w) |-> SumTo([j \in 0..LimbBits - 1 |-> b[(k - 1) * LimbBits + j]], LimbBits - 1)]
At(w) == 0..Digits(w) - 1
Bits(w) == [i \in At(w) |-> BitOf(w, i)]
Zero(w) == [k \in 1..Len(w) |-> 0]

\* ---- selecting bits
RECURSIVE Ones(_, _)          \* positions of the ones of b below i, ascending
Ones(b, i) == IF i = 0 THEN << >> ELSE IF b[i - 1] = 1 THEN Append(Ones(b, i - 1), i - 1) ELSE Ones(b, i - 1)
OnesOf(w) == Ones(Bits(w), Digits(w))
Count(w) == Len(OnesOf(w))
Leading(w) == LET p == OnesOf(w) IN IF p = << >> THEN Digits(w) ELSE Digits(w) - 1 - p[Len(p)]
Trailing(w) == LET p == OnesOf(w) IN IF p = << >> THEN Digits(w) ELSE p[1]
Field(w, s, n) == Pack(w, [i \in At(w) |-> IF i < n /\ s < Digits(w) /\ s + i < Digits(w) THEN BitOf(w, s + i) ELSE 0])
Gather(w, m) == LET p == OnesOf(m) IN Pack(w, [i \in At(w) |-> IF i < Len(p) THEN BitOf(w, p[i + 1]) ELSE 0])
Scatter(w, m) ==
    LET p == OnesOf(m)
        k == [i \in At(w) |-> IF BitOf(m, i) = 1 THEN CHOOSE j \in 1..Len(p) : p[j] = i ELSE 0]
    IN Pack(w, [i \in At(w) |-> IF k[i] = 0 THEN 0 ELSE BitOf(w, k[i] - 1)])
Blend(a, b, m) == Pack(a, [i \in At(a) |-> IF BitOf(m, i) = 1 THEN BitOf(b, i) ELSE BitOf(a, i)])
\* a with n bits from s on replaced by those of b from t on
Patch(a, s, b, t, n) == Pack(a, [i \in At(a) |-> IF i >= s /\ i - s < n THEN BitOf(b, t + (i - s)) ELSE BitOf(a, i)])
Mirror(w) == Pack(w, [i \in At(w) |-> BitOf(w, Digits(w) - 1 - i)])
\* LimbBits of the trace are those of a byte
Bytes(w) == [k \in 1..Len(w) |-> w[Len(w) + 1 - k]]
\* the high word of the pair <<high, low>> moved up by n, and the low one of <<high, low>> moved down by n
Pair(hi, lo, i) == IF i < 0 \/ i >= 2 * Digits(lo) THEN 0 ELSE IF i < Digits(lo) THEN BitOf(lo, i) ELSE BitOf(hi, i - Digits(lo))
Up(hi, lo, n) == Pack(hi, [i \in At(hi) |-> Pair(hi, lo, Digits(hi) + i - n)])
Down(hi, lo, n) == Pack(lo, [i \in At(lo) |-> Pair(hi, lo, i + n)])

\* ---- arithmetic
RECURSIVE Sum(_, _, _, _), Less(_, _, _, _), Times(_, _, _, _)
Sum(a, b, c, k) == \* <<limbs k.. of a + b + c, carry>>
    IF k > Len(a) THEN <<<< >>, c>>
    ELSE LET s == a[k] + b[k] + c
             r == Sum(a, b, s \div Base, k + 1)
         IN <<<<s % Base>> \o r[1], r[2]>>
Less(a, b, c, k) == \* <<limbs k.. of a - b - c, borrow>>
    IF k > Len(a) THEN <<<< >>, c>>
    ELSE LET s == a[k] - b[k] - c
             r == Less(a, b, T(s < 0), k + 1)
         IN <<<<s % Base>> \o r[1], r[2]>>
Column(a, b, k) == \* sum of products of limbs that meet in limb k of the product
    LET f[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF k + 1 - i \in 1..Len(b) THEN a[i] * b[k + 1 - i] ELSE 0)
    IN f[Len(a)]
Times(a, b, c, k) == \* limbs k.. of a * b, c carried
    IF k > Len(a) + Len(b) THEN << >>
    ELSE LET s == Column(a, b, k) + c IN <<s % Base>> \o Times(a, b, s \div Base, k + 1)

\* ---- what calls must keep to, and give
Instructions == {"popcnt", "lzcnt", "tzcnt", "bextr", "pdep", "pext", "byteswap", "bitswap", "blend_mask", "blend", "exch_mask", "exch", "exch2",
                 "shld", "shrd", "addcarry", "subborrow", "mulx"}
LegalI(e) ==
    CASE e.o = "exch" -> e.n[1] + e.n[2] <= Digits(e.a)
      [] e.o = "exch2" -> e.n[1] + e.n[3] <= Digits(e.a) /\ e.n[2] + e.n[3] <= Digits(e.a)
      [] e.o \in {"narrowest", "widest"} -> e.n # << >>
      [] e.o \in {"digits", "narrower", "wider"} -> Len(e.n) = 1
      [] OTHER -> e.o \in Instructions

Widths == {8, 16, 32, 64}      \* of the unsigned types
Best(s, F(_, _)) == CHOOSE x \in s : \A y \in s : F(x, y)
Asc(x, y) == x <= y
Desc(x, y) == x >= y
Elems(s) == {s[i] : i \in 1..Len(s)}

Words(w) == [w |-> w, k |-> -1]
Number(k) == [w |-> << >>, k |-> k]
GivesI(e) ==
    CASE e.o = "popcnt" -> Number(Count(e.a))
      [] e.o = "lzcnt" -> Number(Leading(e.a))
      [] e.o = "tzcnt" -> Number(Trailing(e.a))
      [] e.o = "bextr" -> Words(<<Field(e.a, e.n[1], e.n[2])>>)
      [] e.o = "pdep" -> Words(<<Scatter(e.a, e.m)>>)
      [] e.o = "pext" -> Words(<<Gather(e.a, e.m)>>)
      [] e.o = "byteswap" -> Words(<<Bytes(e.a)>>)
      [] e.o = "bitswap" -> Words(<<Mirror(e.a)>>)
      [] e.o = "blend_mask" -> Words(<<Blend(e.a, e.b, e.m)>>)
      [] e.o = "blend" -> Words(<<Patch(e.a, e.n[1], e.b, e.n[1], e.n[2])>>)
      [] e.o = "exch_mask" -> Words(<<Blend(e.a, e.b, e.m), Blend(e.b, e.a, e.m)>>)
      [] e.o = "exch" -> Words(<<Patch(e.a, e.n[1], e.b, e.n[1], e.n[2]), Patch(e.b, e.n[1], e.a, e.n[1], e.n[2])>>)
      [] e.o = "exch2" -> Words(<<Patch(e.a, e.n[1], e.b, e.n[2], e.n[3]), Patch(e.b, e.n[2], e.a, e.n[1], e.n[3])>>)
      [] e.o = "shld" -> Words(<<Up(e.a, e.b, e.n[1])>>)
      [] e.o = "shrd" -> Words(<<Down(e.b, e.a, e.n[1])>>)
      [] e.o = "addcarry" -> LET s == Sum(e.a, e.b, T(e.c > 0), 1) IN [w |-> <<s[1]>>, k |-> s[2]]
      [] e.o = "subborrow" -> LET s == Less(e.a, e.b, T(e.c > 0), 1) IN [w |-> <<s[1]>>, k |-> s[2]]
      [] e.o = "mulx" -> LET p == Times(e.a, e.b, 0, 1) IN Words(<<SubSeq(p, 1, Len(e.a)), SubSeq(p, Len(e.a) + 1, 2 * Len(e.a))>>)
      [] e.o = "digits" -> Number(e.n[1])
      [] e.o = "narrowest" -> Number(Best(Elems(e.n), Asc))
      [] e.o = "widest" -> Number(Best(Elems(e.n), Desc))
      [] e.o = "narrower" -> Number(LET s == {x \in Widths : x < e.n[1]} IN IF s = {} THEN e.n[1] ELSE Best(s, Desc))
      [] e.o = "wider" -> Number(LET s == {x \in Widths : x > e.n[1]} IN IF s = {} THEN e.n[1] ELSE Best(s, Asc))
=============================================================================
