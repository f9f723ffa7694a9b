------------------------------ MODULE BitWords ------------------------------
(***************************************************************************)
(* The design of bit_vector: bits in words of D bits, a length, and a      *)
(* vector of words that is lengthened and shortened as needed.  A call is  *)
(* what bit_vector.hpp does: it may ask for memory, which may be refused,  *)
(* then move words and bits about.  Words in use may hold leftovers beyond *)
(* the length.                                                             *)
(*                                                                         *)
(* MCBitVec checks that every step of this machine is a step BitVec        *)
(* allows.  Flaw names a mistake to make on purpose; TLC has to notice     *)
(* each of them.                                                           *)
(***************************************************************************)
EXTENDS BitVec

CONSTANTS D, Flaw

\* A concrete vector: w the bits of the words in use (a sequence of 0 and 1 whose
\* length is a multiple of D), n the length, kw the capacity in words, b its block.
Nothing == [l |-> 0, w |-> << >>, n |-> 0, kw |-> 0, b |-> 0, g |-> 0]

Unit(v) == <<1, Con0 + v, 0, 0>>
Abs1(x) == [l |-> x.l, c |-> [i \in 1..x.n |-> Unit(x.w[i])], k |-> x.kw * D, b |-> x.b, z |-> x.kw * D, g |-> x.g]
Abs(m) == [s \in DOMAIN m |-> Abs1(m[s])]

Words(n) == (IF Flaw = "floor" THEN n \div D ELSE (n + D - 1) \div D)
Used(x) == Len(x.w) \div D
Zeros(n) == [i \in 1..n |-> 0]
ValueOf(t) == IF t = -2 THEN 1 ELSE 0
Fresh(m, but) == CHOOSE b \in 1..(2 * Cardinality(DOMAIN m) + 2) :
                    b \notin ({m[s].b : s \in DOMAIN m} \cup but)

\* ------- the vector of words: what becomes of x when it has room for kw words
Move(m, x, kw) == [x EXCEPT !.kw = kw, !.b = Fresh(m, {})]
GrowTo(x, words) == IF Used(x) + Used(x) > words THEN Used(x) + Used(x) ELSE words
\* word_vector.resize(words): allocates if there is no room
NeedsRoom(x, words) == words > x.kw
WithWords(m, x, words) ==
    LET y == IF NeedsRoom(x, words) THEN Move(m, x, GrowTo(x, words)) ELSE x
    IN IF words <= Used(y) THEN [y EXCEPT !.w = SubSeq(y.w, 1, words * D)]
       ELSE [y EXCEPT !.w = y.w \o Zeros((words - Used(y)) * D)]

\* ------- bits; positions count from 0
FillB(w, a, b, v) == [i \in 1..Len(w) |-> IF a < i /\ i <= b THEN v ELSE w[i]]
\* move [a, b) up / down by k, leaving the rest
UpB(w, a, b, k) == [i \in 1..Len(w) |-> IF a + k < i /\ i <= b THEN w[i - k] ELSE w[i]]
DownB(w, a, b, k) == [i \in 1..Len(w) |-> IF a < i /\ i <= b - k THEN w[i + k] ELSE w[i]]
PutB(w, a, y) == [i \in 1..Len(w) |-> IF a < i /\ i <= a + Len(y) THEN y[i - a] ELSE w[i]]

\* ------- outcomes of a call: the next memory, what is returned, how many
\* allocations it makes, how many are refused
Done(m, r, al) == [m |-> m, r |-> r, al |-> al, f |-> 0]
\* a call that has to allocate: with the memory, or refused
Either(m, need, then, r) ==
    IF need THEN {Done(then, r, 1), [m |-> m, r |-> BadAlloc, al |-> 0, f |-> 1]} ELSE {Done(then, r, 0)}

Make(m, s, w, n, g) ==
    LET kw == Len(w) \div D
    IN Either(m, kw > 0,
              [m EXCEPT ![s] = [l |-> 1, w |-> w, n |-> n, kw |-> kw, b |-> IF kw > 0 THEN Fresh(m, {}) ELSE 0, g |-> g]], NoValue)

\* bits of the words that hold n bits of value v each / a list of bits, padded
Pad(y, v) == y \o [i \in 1..(((D - (Len(y) % D)) % D)) |-> v]

InsertN(m, s, p, y, r) ==
    LET x == m[s]
        k == Len(y)
        words == IF Words(x.n + k) > Used(x) THEN Words(x.n + k) ELSE Used(x)
        g == WithWords(m, x, words)
        n == x.n + k
    IN IF k = 0 THEN {Done(m, r, 0)}
       ELSE Either(m, NeedsRoom(x, words),
                   [m EXCEPT ![s] = [g EXCEPT !.n = n, !.w = PutB(UpB(@, p, n, k), p, y)]], r)

PushWord(m, x) == LET words == Used(x) + 1 IN
                  IF NeedsRoom(x, words) THEN [Move(m, x, GrowTo(x, words)) EXCEPT !.w = @ \o Zeros(D)] ELSE [x EXCEPT !.w = @ \o Zeros(D)]
PushOne(m, s, p, v, r, isPush) ==
    LET x == m[s]
        full == IF Flaw = "late" THEN Used(x) * D < x.n ELSE Used(x) * D = x.n
        g == IF full THEN PushWord(m, x) ELSE x
        n == x.n + 1
    IN IF isPush THEN Either(m, full /\ NeedsRoom(x, Used(x) + 1), [m EXCEPT ![s] = [g EXCEPT !.n = n, !.w = PutB(@, x.n, <<v>>)]], r)
       ELSE Either(m, full /\ NeedsRoom(x, Used(x) + 1),
                   [m EXCEPT ![s] = [g EXCEPT !.n = n, !.w = PutB(UpB(@, p, n, 1), p, <<v>>)]], r)

DropWord(x) == [x EXCEPT !.w = SubSeq(@, 1, Len(@) - D)]
PopOne(x, w) == LET y == [x EXCEPT !.n = @ - 1, !.w = w]
                    empty == IF Flaw = "early" THEN y.n % D = 1 ELSE y.n % D = 0
                IN IF empty THEN DropWord(y) ELSE y
Released(x) == [x EXCEPT !.w = << >>, !.n = 0, !.kw = 0, !.b = 0]

Outcomes(e, m) ==
    LET s == e.s
        a == e.a
        x == m[s]
        n == x.n
        Set(y) == [m EXCEPT ![s] = y]
        Bit(t) == ValueOf(t)
        Copied(t, g) == LET src == m[t] IN Make(m, s, src.w, src.n, g)
    IN CASE e.o = "new" -> {Done([m EXCEPT ![s] = [Nothing EXCEPT !.l = 1, !.g = e.g]], NoValue, 0)}
         [] e.o = "new_n" -> Make(m, s, Zeros(Words(a[1]) * D), a[1], e.g)
         [] e.o = "new_nv" -> Make(m, s, [i \in 1..(Words(a[1]) * D) |-> Bit(a[2])], a[1], e.g)
         [] e.o = "new_bits" -> Make(m, s, Pad([i \in 1..a[2] |-> Bit(a[1])], 1), a[2], e.g)
         [] e.o = "new_slice" -> Make(m, s, Pad(SubSeq(m[a[1]].w, a[2] + 1, a[3]), 0), a[3] - a[2], e.g)
         [] e.o = "new_copy" -> IF Flaw = "share" THEN {Done(Set(m[a[1]]), NoValue, 0)} ELSE Copied(a[1], m[a[1]].g)
         [] e.o = "new_copy_alloc" -> Copied(a[1], e.g)
         [] e.o = "new_move" -> {Done([m EXCEPT ![s] = m[a[1]], ![a[1]] = IF Flaw = "moved" THEN [@ EXCEPT !.b = 0, !.kw = 0, !.w = << >>] ELSE Released(@)], NoValue, 0)}
         [] e.o = "new_move_alloc" ->
               LET t == a[1] IN
               IF m[t].g = e.g THEN {Done([m EXCEPT ![s] = m[t], ![t] = Released(@)], NoValue, 0)}
               ELSE {[o EXCEPT !.m = IF o.r = BadAlloc THEN @ ELSE [@ EXCEPT ![t] = [@ EXCEPT !.w = << >>, !.n = 0]]] : o \in Copied(t, e.g)}
         [] e.o = "destroy" -> {Done(Set(Nothing), NoValue, 0)}
         [] e.o = "push" -> PushOne(m, s, n, Bit(a[1]), NoValue, TRUE)
         [] e.o = "push_ref" -> PushOne(m, s, n, x.w[a[1] + 1], NoValue, TRUE)
         [] e.o = "pop" -> {Done(Set(PopOne(x, x.w)), NoValue, 0)}
         [] e.o = "insert" -> PushOne(m, s, a[1], Bit(a[2]), a[1], FALSE)
         [] e.o = "insert_n" -> InsertN(m, s, a[1], [i \in 1..a[2] |-> Bit(a[3])], a[1])
         [] e.o = "insert_r" -> InsertN(m, s, a[1], SubSeq(m[a[2]].w, a[3] + 1, a[4]), a[1])
         [] e.o = "erase" -> {Done(Set(PopOne(x, DownB(x.w, a[1], n, 1))), a[1], 0)}
         [] e.o = "erase_r" ->
               LET k == a[2] - a[1]
                   y == [x EXCEPT !.w = DownB(@, a[1], n, k), !.n = @ - k]
               IN {Done(Set([y EXCEPT !.w = SubSeq(@, 1, Words(n - k) * D)]), a[1], 0)}
         [] e.o \in {"resize", "resize_v"} ->
               LET words == Words(a[1])
                   v == IF e.o = "resize" THEN 0 ELSE Bit(a[2])
                   y == WithWords(m, x, words)
                   z == [y EXCEPT !.n = a[1], !.w = IF a[1] > n /\ Flaw # "leftover" THEN FillB(@, n, a[1], v) ELSE @]
               IN Either(m, NeedsRoom(x, words), Set(z), NoValue)
         [] e.o = "clear" -> {Done(Set([x EXCEPT !.w = << >>, !.n = 0]), NoValue, 0)}
         [] e.o = "reserve" -> Either(m, NeedsRoom(x, Words(a[1])), Set(IF NeedsRoom(x, Words(a[1])) THEN Move(m, x, Words(a[1])) ELSE x), NoValue)
         [] e.o = "shrink" ->
               IF x.kw = Used(x) THEN {Done(m, NoValue, 0)}
               ELSE IF Used(x) = 0 THEN {Done(Set([x EXCEPT !.kw = 0, !.b = 0]), NoValue, 0)}
               ELSE {Done(Set(Move(m, x, Used(x))), NoValue, 1), [m |-> m, r |-> NoValue, al |-> 0, f |-> 1]} \* a refusal is not reported
         [] e.o = "set" -> {Done(Set([x EXCEPT !.w = PutB(@, a[1], <<Bit(a[2])>>)]), NoValue, 0)}
         [] e.o = "at_set" -> IF (IF Flaw = "at" THEN a[1] < x.kw * D ELSE a[1] < n) THEN {Done(Set([x EXCEPT !.w = PutB(@, a[1], <<Bit(a[2])>>)]), NoValue, 0)}
                              ELSE {Done(m, OutOfRange, 0)}
         [] e.o = "flip" -> {Done(Set([x EXCEPT !.w = PutB(@, a[1], <<1 - x.w[a[1] + 1]>>)]), NoValue, 0)}
         [] e.o = "copy_assign" ->
               LET src == m[a[1]] IN
               IF a[1] = s THEN {Done(m, NoValue, 0)}
               ELSE IF Used(src) <= x.kw THEN {Done(Set([x EXCEPT !.w = src.w, !.n = src.n]), NoValue, 0)}
               ELSE Either(m, TRUE, Set([Move(m, x, Used(src)) EXCEPT !.w = src.w, !.n = src.n]), NoValue)
         [] e.o = "move_assign" ->
               LET t == a[1]
                   src == m[t]
               IN IF x.g = src.g THEN {Done([m EXCEPT ![s] = src, ![t] = Released(@)], NoValue, 0)}
                  ELSE LET taken == [src EXCEPT !.w = << >>, !.n = 0]
                       IN IF Used(src) <= x.kw THEN {Done([m EXCEPT ![s] = [x EXCEPT !.w = src.w, !.n = src.n], ![t] = taken], NoValue, 0)}
                          ELSE Either(m, TRUE, [m EXCEPT ![s] = [Move(m, x, Used(src)) EXCEPT !.w = src.w, !.n = src.n], ![t] = taken], NoValue)
         [] e.o = "swap" -> {Done([m EXCEPT ![s] = m[a[1]], ![a[1]] = m[s]], NoValue, 0)}
         [] e.o = "copy_bits" -> {Done(Set([x EXCEPT !.w = PutB(@, a[4], SubSeq(m[a[1]].w, a[2] + 1, a[3]))]), a[4] + a[3] - a[2], 0)}
         [] e.o = "rotate" -> {Done(Set([x EXCEPT !.w = PutB(@, a[1], SubSeq(@, a[2] + 1, a[3]) \o SubSeq(@, a[1] + 1, a[2]))]), a[1] + (a[3] - a[2]), 0)}
=============================================================================
