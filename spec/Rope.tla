-------------------------------- MODULE Rope --------------------------------
(***************************************************************************)
(* Run-length representation ("rope") of a sequence of symbolic bits.      *)
(*                                                                         *)
(* A symbolic bit says where a bit came from rather than what it is:       *)
(*     kind 0   token s          the bit that was at origin s              *)
(*     kind 1   inverted token s the complement of that bit                *)
(*     kind 2   constant 0                                                 *)
(*     kind 3   constant 1                                                 *)
(*     kind 4   no function of a single origin bit ("garbage")             *)
(* A run <<len, kind, src, step>> stands for len consecutive symbolic bits *)
(* of this kind with origins src, src+step, src+2*step, ...  (step is -1,  *)
(* 0 or 1; src = step = 0 for kinds 2, 3 and 4).  A rope is a sequence of  *)
(* runs with len > 0; many ropes denote the same sequence of bits, so      *)
(* ropes are compared with Same, never with =.                             *)
(*                                                                         *)
(* The module is parameterised by the number system of lengths and         *)
(* origins: TLC integers have 32 bits, and the library handles sequences   *)
(* of more than 2^32 bits, for which Wide.tla supplies pairs.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Plus(_, _), Minus(_, _), Lt(_, _), Zero, One

Le(a, b) == ~Lt(b, a)
Min2(a, b) == IF Lt(b, a) THEN b ELSE a

\* src + n * step for a step of -1, 0 or 1
Adv(src, n, step) == CASE step = 0  -> src
                       [] step = 1  -> Plus(src, n)
                       [] step = -1 -> Minus(src, n)

Tok == 0
Inv == 1
Con0 == 2
Con1 == 3
Gar == 4

Const(v, n) == IF n = Zero THEN << >> ELSE << <<n, IF v = 0 THEN Con0 ELSE Con1, Zero, 0>> >>
Tokens(s, n) == IF n = Zero THEN << >> ELSE << <<n, Tok, s, 1>> >>

RECURSIVE Len0(_, _, _)
Len0(x, i, acc) == IF i > Len(x) THEN acc ELSE Len0(x, i + 1, Plus(acc, x[i][1]))
Length(x) == Len0(x, 1, Zero)

\* first n bits / all but the first n bits
RECURSIVE Take(_, _)
Take(x, n) ==
    IF n = Zero THEN << >>
    ELSE LET r == Head(x) IN
         IF Lt(n, r[1]) THEN << <<n, r[2], r[3], r[4]>> >>
         ELSE << r >> \o Take(Tail(x), Minus(n, r[1]))

RECURSIVE Drop(_, _)
Drop(x, n) ==
    IF n = Zero THEN x
    ELSE LET r == Head(x) IN
         IF Lt(n, r[1])
         THEN << <<Minus(r[1], n), r[2], Adv(r[3], n, r[4]), r[4]>> >> \o Tail(x)
         ELSE Drop(Tail(x), Minus(n, r[1]))

\* bits a, a+1, ..., b-1
Slice(x, a, b) == IF Le(b, a) THEN << >> ELSE Take(Drop(x, a), Minus(b, a))

\* the bit at index i, as a run of length One
At(x, i) == Take(Drop(x, i), One)

\* x with the bits from a on replaced by those of y
Splice(x, a, y) == Take(x, a) \o y \o Drop(x, Plus(a, Length(y)))

RevRun(r) == <<r[1], r[2], Adv(r[3], Minus(r[1], One), r[4]), -r[4]>>
Rev(x) == [i \in 1..Len(x) |-> RevRun(x[Len(x) + 1 - i])]

InvKind(k) == CASE k = Tok -> Inv [] k = Inv -> Tok [] k = Con0 -> Con1 [] k = Con1 -> Con0 [] OTHER -> Gar
Invert(x) == [i \in 1..Len(x) |-> <<x[i][1], InvKind(x[i][2]), x[i][3], x[i][4]>>]

\* Do x and y denote the same sequence of symbolic bits?  Walks both ropes over
\* their common boundaries.
RunHead(r, n) == <<n, r[2], r[3], r[4]>>
RunTail(r, n) == <<Minus(r[1], n), r[2], Adv(r[3], n, r[4]), r[4]>>

RECURSIVE Walk(_, _, _, _, _, _)
Walk(x, y, i, j, p, q) ==
    \* p, q: what is left of runs x[i], y[j]
    LET n == Min2(p[1], q[1]) IN
    /\ p[2] = q[2]
    /\ p[3] = q[3]
    /\ (n = One \/ p[4] = q[4])
    /\ LET pd == p[1] = n
           qd == q[1] = n
       IN CASE pd /\ qd -> IF i = Len(x) \/ j = Len(y)
                           THEN i = Len(x) /\ j = Len(y)
                           ELSE Walk(x, y, i + 1, j + 1, x[i + 1], y[j + 1])
            [] pd /\ ~qd -> i < Len(x) /\ Walk(x, y, i + 1, j, x[i + 1], RunTail(q, n))
            [] ~pd -> j < Len(y) /\ Walk(x, y, i, j + 1, RunTail(p, n), y[j + 1])

Same(x, y) == IF x = << >> \/ y = << >> THEN x = y ELSE x = y \/ Walk(x, y, 1, 1, x[1], y[1])

\* Does every run only use kinds of K?
OnlyKinds(x, K) == \A i \in 1..Len(x) : x[i][2] \in K
Concrete(x) == OnlyKinds(x, {Con0, Con1})

WellFormed(x) == \A i \in 1..Len(x) :
    /\ Lt(Zero, x[i][1])
    /\ x[i][2] \in 0..4
    /\ x[i][4] \in {-1, 0, 1}
    /\ (x[i][2] \in {Con0, Con1, Gar} => x[i][3] = Zero /\ x[i][4] = 0)

\* Bitwise combination of two ropes of equal length by a truth table
\* tt = <<f(0,0), f(0,1), f(1,0), f(1,1)>>.  Where neither bit is constant the
\* result is no function of one origin bit, except for a bit and itself.
IsCon(k) == k \in {Con0, Con1}
Fun1(f0, f1, r) == \* r under the one-argument function 0 -> f0, 1 -> f1
    CASE f0 = f1 -> <<r[1], IF f0 = 0 THEN Con0 ELSE Con1, Zero, 0>>
      [] f0 = 0 /\ f1 = 1 -> r
      [] f0 = 1 /\ f1 = 0 -> <<r[1], InvKind(r[2]), r[3], r[4]>>
Comb(tt, p, q) ==
    CASE IsCon(q[2]) -> IF q[2] = Con0 THEN Fun1(tt[1], tt[3], p) ELSE Fun1(tt[2], tt[4], p)
      [] IsCon(p[2]) -> IF p[2] = Con0 THEN Fun1(tt[1], tt[2], q) ELSE Fun1(tt[3], tt[4], q)
      [] p = q /\ p[2] # Gar -> Fun1(tt[1], tt[4], p)
      [] OTHER -> <<p[1], Gar, Zero, 0>>

RECURSIVE Combine(_, _, _)
Combine(tt, x, y) ==
    IF x = << >> THEN << >>
    ELSE LET p == Head(x)
             q == Head(y)
             n == Min2(p[1], q[1])
         IN << Comb(tt, RunHead(p, n), RunHead(q, n)) >>
            \o Combine(tt,
                       IF p[1] = n THEN Tail(x) ELSE << RunTail(p, n) >> \o Tail(x),
                       IF q[1] = n THEN Tail(y) ELSE << RunTail(q, n) >> \o Tail(y))

\* Number of constant bits of value v in a concrete rope
RECURSIVE CountV(_, _, _, _)
CountV(x, v, i, acc) ==
    IF i > Len(x) THEN acc
    ELSE CountV(x, v, i + 1, IF x[i][2] = Con0 + v THEN Plus(acc, x[i][1]) ELSE acc)
Count(x, v) == CountV(x, v, 1, Zero)

\* Index of the first bit of value v in a concrete rope, its length if none
RECURSIVE FindV(_, _, _, _)
FindV(x, v, i, acc) ==
    IF i > Len(x) THEN acc
    ELSE IF x[i][2] = Con0 + v THEN acc
    ELSE FindV(x, v, i + 1, Plus(acc, x[i][1]))
Find(x, v) == FindV(x, v, 1, Zero)
=============================================================================
