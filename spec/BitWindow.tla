----------------------------- MODULE BitWindow -----------------------------
(***************************************************************************)
(* The pieces algorithms are made of: windows of bits that are read into   *)
(* and written from one word, of any width, at any bit of a storage;       *)
(* ranges that are compared with a length; words that are moved.           *)
(*                                                                         *)
(* A storage and a word are sequences of limbs of LimbBits bits each, the  *)
(* least significant first.  A call e has                                  *)
(*   o      what is called           d, t   bits of a word, of the value   *)
(*   m      the storage before       p, q   the range (bit numbers)        *)
(*   n      a length (in words for the moves), or the bit to pad with      *)
(*   s      the word to be written                                         *)
(* and what came of it: m2 the storage after, r the word and k the number  *)
(* (position, truth value) that was returned.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT LimbBits

BitAt(w, i) == (w[(i \div LimbBits) + 1] \div 2^(i % LimbBits)) % 2
Size(w) == Len(w) * LimbBits
True(b) == IF b THEN 1 ELSE 0
Smaller(a, b) == IF a < b THEN a ELSE b

InRange(e) == 0 <= e.p /\ e.p <= e.q /\ e.q <= Size(e.m)
Words(e) == (e.q - e.p) \div e.d
LegalW(e) ==
    CASE e.o \in {"get", "put"} -> 0 <= e.p /\ e.p < Size(e.m) /\ 0 <= e.n /\ e.n <= e.t /\ e.p + e.n <= Size(e.m)
      [] e.o \in {"within", "within_const"} -> InRange(e) /\ e.n >= 0
      [] e.o = "padded" -> InRange(e) /\ e.p < e.q /\ e.n \in {0, 1}
      [] e.o = "one_past" -> InRange(e) /\ e.n >= 0 /\ e.n * e.d < Size(e.m)
      [] e.o \in {"words_left", "words_right"} -> InRange(e) /\ e.p % e.d = 0 /\ e.q % e.d = 0
      [] OTHER -> FALSE

Kept(e) == e.m2 = e.m
\* the storage is kept outside the bits from a to b
KeptBut(e, a, b) == Len(e.m2) = Len(e.m) /\ \A i \in 0..Size(e.m) - 1 : (i < a \/ i >= b) => BitAt(e.m2, i) = BitAt(e.m, i)

MeetsW(e) ==
    CASE e.o = "get" ->
            /\ Kept(e)
            /\ \A i \in 0..e.n - 1 : BitAt(e.r, i) = BitAt(e.m, e.p + i)
      [] e.o = "put" ->
            /\ KeptBut(e, e.p, e.p + e.n)
            /\ \A i \in 0..e.n - 1 : BitAt(e.m2, e.p + i) = BitAt(e.s, i)
      [] e.o \in {"within", "within_const"} -> Kept(e) /\ e.k = True(e.q - e.p <= e.n)
      [] e.o = "padded" ->       \* the bits of the range that are in its first word, others as n says
            LET a == e.p % e.d
                w == e.p - a
                b == Smaller(e.q - w, e.d)
            IN /\ Kept(e)
               /\ \A i \in 0..e.d - 1 : BitAt(e.r, i) = (IF i >= a /\ i < b THEN BitAt(e.m, w + i) ELSE e.n)
      [] e.o = "one_past" -> Kept(e) /\ e.k = True(e.q = (e.n + 1) * e.d)
      [] e.o = "words_left" ->   \* n words fewer; what is left behind is not told
            LET n == IF e.n < 0 THEN 0 ELSE Smaller(e.n, Words(e))
            IN /\ e.k = e.q - (n * e.d)
               /\ KeptBut(e, e.p, e.q)
               /\ \A i \in e.p..e.k - 1 : BitAt(e.m2, i) = BitAt(e.m, i + (n * e.d))
      [] e.o = "words_right" ->
            LET n == IF e.n < 0 THEN 0 ELSE Smaller(e.n, Words(e))
            IN /\ e.k = e.p + (n * e.d)
               /\ KeptBut(e, e.p, e.q)
               /\ \A i \in e.k..e.q - 1 : BitAt(e.m2, i) = BitAt(e.m, i - (n * e.d))
=============================================================================
