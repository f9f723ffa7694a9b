----------------------------- MODULE MCBitInstr -----------------------------
(***************************************************************************)
(* The algorithms that stand in for instructions -- loops that shift a     *)
(* word out bit by bit, halving swaps, differences under a mask, products  *)
(* of half words -- step by step on words of D bits, for all operands:     *)
(* what they end with is what BitInstr says, and every loop ends.          *)
(* BitInstr itself is held against arithmetic on numbers (Meaning).        *)
(* Flaw names mistakes that have to show.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS LB, NL, OpSet, Flaw

VARIABLES e, pc, src, msk, dst, cnt, oth
vars == <<e, pc, src, msk, dst, cnt, oth>>

INSTANCE BitInstr WITH LimbBits <- LB

D == LB * NL
P(i) == 2^i
Full == P(D) - 1
W(x) == [k \in 1..NL |-> (x \div P((k - 1) * LB)) % P(LB)]     \* limbs of a number
Val(w) == LET f[k \in 0..NL] == IF k = 0 THEN 0 ELSE f[k - 1] + w[k] * P((k - 1) * LB) IN f[NL]
RECURSIVE Zip(_, _, _, _)
Zip(f, a, b, n) == IF n = 0 THEN 0 ELSE f[2 * (a % 2) + (b % 2) + 1] + 2 * Zip(f, a \div 2, b \div 2, n - 1)
And(a, b) == Zip(<<0, 0, 0, 1>>, a, b, D)
Or(a, b) == Zip(<<0, 1, 1, 1>>, a, b, D)
Xor(a, b) == Zip(<<0, 1, 1, 0>>, a, b, D)
Shl(a, n) == (a * P(n)) % P(D)
Shr(a, n) == a \div P(n)
\* a shift by the width or more is no shift: the machine leaves the word alone
BadShl(a, n) == IF n >= D THEN a ELSE Shl(a, n)
BadShr(a, n) == IF n >= D THEN a ELSE Shr(a, n)

Call(o, a, b, m, n, c) == [o |-> o, a |-> W(a), b |-> W(b), m |-> W(m), n |-> n, c |-> c]
Calls(o, a, b) ==
    CASE o \in {"popcnt", "lzcnt", "tzcnt", "byteswap", "bitswap"} -> IF b = 0 THEN {Call(o, a, 0, 0, << >>, 0)} ELSE {}
      [] o \in {"pdep", "pext"} -> {Call(o, a, 0, b, << >>, 0)}
      [] o = "bextr" -> IF b = 0 THEN {Call(o, a, 0, 0, <<s, n>>, 0) : s \in 0..D + 1, n \in 0..D + 1} ELSE {}
      [] o \in {"blend_mask", "exch_mask"} -> {Call(o, a, b, m, << >>, 0) : m \in {0, 1, Full, Full \div 3, P(D - 1), Full - 1}}
      [] o = "blend" -> {Call(o, a, b, 0, <<s, n>>, 0) : s \in 0..D + 1, n \in 0..D + 1}
      [] o = "exch" -> {Call(o, a, b, 0, <<s, n>>, 0) : s \in 0..D - 1, n \in 0..D}
      [] o = "exch2" -> {Call(o, a, b, 0, <<s, t, n>>, 0) : s \in 0..D - 1, t \in 0..D - 1, n \in 0..D}
      [] o \in {"shld", "shrd"} -> {Call(o, a, b, 0, <<n>>, 0) : n \in 0..2 * D + 1}
      [] o \in {"addcarry", "subborrow"} -> {Call(o, a, b, 0, << >>, c) : c \in 0..2}
      [] OTHER -> {Call(o, a, b, 0, << >>, 0)}

Init == \E o \in OpSet, a \in 0..Full, b \in 0..Full :
          /\ e \in {x \in Calls(o, a, b) : LegalI(x)}
          /\ pc = "start" /\ src = a /\ msk = 0 /\ dst = 0 /\ cnt = 0 /\ oth = b

Go(p, s, m, d, c, t) == pc' = p /\ src' = s /\ msk' = m /\ dst' = d /\ cnt' = c /\ oth' = t /\ UNCHANGED e
End(d, c, t) == Go("end", src, msk, d, c, t)

\* ---- loops
Begin ==
    /\ pc = "start"
    /\ LET m == Val(e.m)
           s == IF Len(e.n) > 0 THEN e.n[1] ELSE 0
           n == IF Len(e.n) > 1 THEN e.n[Len(e.n)] ELSE 0
           t == IF Len(e.n) > 2 THEN e.n[2] ELSE 0
           field(k) == IF k < D THEN P(k) - 1 ELSE Full
           c == T(e.c > 0)
       IN CASE e.o = "popcnt" -> Go("loop", src, 0, 0, 0, oth)
            [] e.o = "lzcnt" -> Go("loop", IF Flaw = "unshifted" THEN src ELSE Shr(src, 1), 0, T(src # 0), 0, oth)
            [] e.o = "tzcnt" -> IF src = 0 THEN End(D, 0, oth) ELSE Go("loop", Shr(Xor(src, (src - 1) % P(D)), 1), 0, 0, 0, oth)
            [] e.o \in {"pdep", "pext"} -> Go("loop", src, m, 0, 0, oth)
            [] e.o = "bitswap" -> Go("loop", src, 0, 0, D \div 2, oth)
            [] e.o = "byteswap" -> Go("loop", src, 0, 0, 0, oth)
            [] e.o = "bextr" -> End(IF s < D THEN And(Shr(src, s), field(n)) ELSE 0, 0, oth)
            [] e.o = "blend_mask" -> End(Xor(src, And(Xor(src, oth), m)), 0, oth)
            [] e.o = "blend" -> LET k == IF Flaw = "width" THEN (P(n % D) - 1) ELSE field(n)
                                    mk == IF s < D THEN Shl(k, s) ELSE 0
                                IN End(Xor(src, And(Xor(src, oth), mk)), 0, oth)
            [] e.o = "exch_mask" -> Go("x2", Xor(src, And(oth, m)), m, 0, 0, oth)
            [] e.o = "exch" -> LET mk == IF n < D THEN Shl(field(n), s) ELSE Full IN Go("x2", Xor(src, And(oth, mk)), mk, 0, 0, oth)
            [] e.o = "exch2" -> LET mk == field(n)
                                    al == IF s >= t THEN Shl(oth, s - t) ELSE Shr(oth, t - s)
                                IN Go("y2", Xor(src, And(al, Shl(mk, s))), mk, 0, 0, oth)
            [] e.o = "shld" -> End(IF s = 0 /\ Flaw # "zero" THEN src
                                   ELSE IF s < D THEN Or(Shl(src, s), BadShr(oth, D - s))
                                   ELSE IF s - D < D THEN Shl(oth, s - D) ELSE 0, 0, oth)
            [] e.o = "shrd" -> End(IF s = 0 /\ Flaw # "zero" THEN src
                                   ELSE IF s < D THEN Or(Shr(src, s), BadShl(oth, D - s))
                                   ELSE IF s - D < D THEN Shr(oth, s - D) ELSE 0, 0, oth)
            [] e.o = "addcarry" -> LET d == (src + oth + c) % P(D)
                                   IN End(d, IF c = 1 /\ Flaw # "carry" THEN T(d <= src \/ d <= oth) ELSE T(d < src \/ d < oth), oth)
            [] e.o = "subborrow" -> End((src - (oth + c)) % P(D), IF c = 1 /\ Flaw # "borrow" THEN T(oth >= src) ELSE T(oth > src), oth)
            [] e.o = "mulx" -> LET h == D \div 2
                                   l0 == src % P(h) u0 == src \div P(h) l1 == oth % P(h) u1 == oth \div P(h)
                                   ll == l0 * l1
                                   mi == (u0 * l1 + l0 * u1) % P(D)
                                   lo == (ll + Shl(mi, h)) % P(D)
                                   lc == T(lo < ll)
                                   mc == IF Flaw = "middle" THEN 0 ELSE T(mi < u0 * l1) * P(h)
                               IN End(lo, 0, (Shr(mi, h) + u0 * u1 + mc + lc) % P(D))

Top == P(D - 1)
Finish(d, c) == IF c > 0 THEN Shr(d, D - c) ELSE Shr(d, 0)
Loop ==
    /\ pc = "loop"
    /\ CASE e.o = "popcnt" -> IF src = 0 THEN End(dst, cnt, oth) ELSE Go("loop", Shr(src, 1), msk, dst + (src % 2), cnt, oth)
         [] e.o = "lzcnt" -> IF src = 0 THEN End(D - dst, cnt, oth) ELSE Go("loop", Shr(src, 1), msk, dst + 1, cnt, oth)
         [] e.o = "tzcnt" -> IF src = 0 THEN End(dst, cnt, oth) ELSE Go("loop", Shr(src, 1), msk, dst + 1, cnt, oth)
         [] e.o = "pdep" ->
              IF msk = 0 THEN End(Finish(dst, cnt), cnt, oth)
              ELSE IF msk % 2 = 1 THEN Go("loop", Shr(src, 1), Shr(msk, 1), Or(Shr(dst, 1), (src % 2) * Top), cnt + 1, oth)
              ELSE Go("loop", src, Shr(msk, 1), Shr(dst, 1), cnt + 1, oth)
         [] e.o = "pext" ->
              IF msk = 0 THEN End(Finish(dst, cnt), cnt, oth)
              ELSE IF msk % 2 = 1 THEN Go("loop", Shr(src, 1), Shr(msk, 1), Or(Shr(dst, 1), (src % 2) * Top), cnt + 1, oth)
              ELSE Go("loop", Shr(src, 1), Shr(msk, 1), dst, cnt + (IF Flaw = "extract" THEN 1 ELSE 0), oth)
         [] e.o = "bitswap" -> \* blocks of 2 cnt bits swap their halves
              IF cnt = 0 THEN End(src, cnt, oth)
              ELSE LET half == [i \in 0..D - 1 |-> (src \div P(IF (i \div cnt) % 2 = 0 THEN i + cnt ELSE i - cnt)) % 2]
                       sum[i \in 0..D] == IF i = 0 THEN 0 ELSE sum[i - 1] + half[i - 1] * P(i - 1)
                   IN Go("loop", sum[D], msk, dst, IF Flaw = "half" /\ cnt = 2 THEN 0 ELSE cnt \div 2, oth)
         [] e.o = "byteswap" ->
              IF cnt = NL \div 2 THEN End(src, cnt, oth)
              ELSE LET w == W(src)
                       j == NL - cnt
                   IN Go("loop", Val([w EXCEPT ![cnt + 1] = w[j], ![j] = w[cnt + 1]]), msk, dst, cnt + 1, oth)

\* ---- exchanging: three differences
Exchange ==
    LET s == IF Len(e.n) > 0 THEN e.n[1] ELSE 0
        t == IF Len(e.n) > 2 THEN e.n[2] ELSE 0
        al == IF s >= t THEN Shl(oth, s - t) ELSE Shr(oth, t - s)
        ar == IF s >= t THEN Shr(src, s - t) ELSE Shl(src, t - s)
    IN CASE pc = "x2" -> Go("x3", src, msk, dst, cnt, Xor(oth, And(src, msk)))
         [] pc = "x3" -> End(Xor(src, And(oth, msk)), cnt, oth)
         [] pc = "y2" -> Go("y3", src, msk, dst, cnt, Xor(oth, And(ar, Shl(msk, t))))
         [] pc = "y3" -> End(Xor(src, And(al, Shl(msk, IF Flaw = "place" THEN t ELSE s))), cnt, oth)

Next == Begin \/ Loop \/ (pc \in {"x2", "x3", "y2", "y3"} /\ Exchange)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Given ==
    CASE e.o \in {"popcnt", "lzcnt", "tzcnt"} -> Number(dst)
      [] e.o \in {"exch_mask", "exch", "exch2"} -> Words(<<W(dst), W(oth)>>)
      [] e.o = "mulx" -> Words(<<W(dst), W(oth)>>)
      [] e.o \in {"addcarry", "subborrow"} -> [w |-> <<W(dst)>>, k |-> cnt]
      [] OTHER -> Words(<<W(dst)>>)
Refines == pc = "end" => Given = GivesI(e)
Ends == <>(pc = "end")

\* ---- what the instructions mean as operations on numbers
Meaning ==
    pc = "start" =>
    LET a == Val(e.a)
        b == Val(e.b)
        g == GivesI(e)
        r == IF Len(g.w) > 0 THEN Val(g.w[1]) ELSE 0
        Again(o, w, m) == GivesI([e EXCEPT !.o = o, !.a = w, !.m = m])
    IN CASE e.o = "popcnt" -> g.k + Count(W(Full - a)) = D
         [] e.o = "lzcnt" -> a < P(D - g.k) /\ (g.k < D => a >= P(D - g.k - 1)) /\ g.k = Trailing(Mirror(e.a))
         [] e.o = "tzcnt" -> a % P(Least(g.k, D)) = 0 /\ (g.k < D => (a \div P(g.k)) % 2 = 1)
         [] e.o = "bextr" -> r = IF e.n[1] >= D THEN 0 ELSE (a \div P(e.n[1])) % P(e.n[2])
         [] e.o = "pdep" -> /\ And(r, Full - Val(e.m)) = 0
                            /\ Val(Again("pext", g.w[1], e.m).w[1]) = a % P(Count(e.m))
         [] e.o = "pext" -> /\ r < P(Count(e.m))
                            /\ Val(Again("pdep", g.w[1], e.m).w[1]) = And(a, Val(e.m))
         [] e.o \in {"bitswap", "byteswap"} -> Again(e.o, g.w[1], e.m).w[1] = e.a /\ Count(g.w[1]) = Count(e.a)
         [] e.o = "blend_mask" -> r = Or(And(a, Full - Val(e.m)), And(b, Val(e.m)))
         [] e.o = "blend" -> LET k == IF e.n[1] >= D THEN 0 ELSE Shl(P(Least(e.n[2], D)) - 1, e.n[1]) IN r = Or(And(a, Full - k), And(b, k))
         [] e.o \in {"exch_mask", "exch"} -> Or(And(r, Val(g.w[2])), 0) = And(a, b) /\ Or(r, Val(g.w[2])) = Or(a, b)
         [] e.o = "exch2" -> GivesI([e EXCEPT !.a = g.w[1], !.b = g.w[2]]).w = <<e.a, e.b>>
         [] e.o = "shld" -> r = (((a * P(D) + b) * P(e.n[1])) \div P(D)) % P(D)
         [] e.o = "shrd" -> r = ((b * P(D) + a) \div P(e.n[1])) % P(D)
         [] e.o = "addcarry" -> r + P(D) * g.k = a + b + T(e.c > 0) /\ g.k \in {0, 1}
         [] e.o = "subborrow" -> r - P(D) * g.k = a - b - T(e.c > 0) /\ g.k \in {0, 1}
         [] e.o = "mulx" -> r + P(D) * Val(g.w[2]) = a * b
=============================================================================
