---------------------------- MODULE MCBitWindow ----------------------------
(***************************************************************************)
(* The loops that read and write a window of bits word by word, and the    *)
(* moves of words one by one, for all storages of NW words of D bits, all  *)
(* values of T bits, positions and lengths: they end, touch only words the *)
(* storage has, and do what BitWindow says (with limbs of one bit).        *)
(* Flaw names mistakes that have to show.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS D, TD, NW, OpSet, Flaw

VARIABLES e, pc, mem, acc, it, off, len, touched
vars == <<e, pc, mem, acc, it, off, len, touched>>

INSTANCE BitWindow WITH LimbBits <- 1

N == NW * D
Bitss(n) == [1..n -> {0, 1}]
Min(a, b) == IF a < b THEN a ELSE b
WordAt(i) == [j \in 0..D - 1 |-> mem[(i * D) + j + 1]]
\* b bits of the value v from bit a on replaced by those of x, which begin at bit a
Into(v, x, a, b) == [i \in DOMAIN v |-> IF i > a /\ i <= a + b THEN x[i - 1 - a] ELSE v[i]]

Calls ==
    [o : {"get"} \cap OpSet, d : {D}, t : {TD}, m : Bitss(N), p : 0..N - 1, q : {0}, n : 0..TD, s : {<< >>}]
    \cup [o : {"put"} \cap OpSet, d : {D}, t : {TD}, m : Bitss(N), p : 0..N - 1, q : {0}, n : 0..TD, s : Bitss(TD)]
    \cup [o : {"words_left", "words_right"} \cap OpSet, d : {D}, t : {TD}, m : Bitss(N), p : {i * D : i \in 0..NW}, q : {i * D : i \in 0..NW}, n : -1..NW + 1, s : {<< >>}]

Init ==
    /\ e \in {c \in Calls : LegalW(c)}
    /\ pc = "start" /\ mem = e.m /\ acc = [i \in 1..TD |-> 0] /\ it = e.p \div D /\ off = e.p % D /\ len = e.n /\ touched = {}

Go(p, m, a, i, o, l, t) == pc' = p /\ mem' = m /\ acc' = a /\ it' = i /\ off' = o /\ len' = l /\ touched' = touched \cup t /\ UNCHANGED e

\* ---- get_word: the rest of the first word, then word after word blended in
Get ==
    LET first == WordAt(it)
        have == D - off
        ret == [i \in 1..TD |-> IF off + i <= D THEN first[off + i - 1] ELSE 0]
        w == WordAt(it)
    IN \/ /\ pc = "start" /\ e.o = "get"
          /\ IF len < have \/ (len = have /\ Flaw # "early") THEN Go("end", mem, ret, it, off, len, {it})
             ELSE Go("get", mem, ret, it + 1, have, len - have, {it})
       \/ /\ pc = "get" /\ it < NW /\ len > D
          /\ Go("get", mem, Into(acc, w, off, D), it + 1, IF Flaw = "offset" THEN off ELSE off + D, len - D, {it})
       \/ /\ pc = "get" /\ it < NW /\ len <= D
          /\ Go("end", mem, Into(acc, w, off, len), it, off, len, {it})
       \/ /\ pc = "get" /\ it >= NW /\ Go("lost", mem, acc, it, off, len, {it})

\* ---- write_word: what fits into the word, then the rest into the next one
Put ==
    LET have == IF Flaw = "length" THEN D ELSE D - off
        k == Min(have, len)
        src == [j \in 0..D - 1 |-> IF j + 1 <= TD THEN acc[j + 1] ELSE 0]
        w == [i \in 1..N |-> IF i - 1 >= (it * D) + off /\ i - 1 < (it * D) + off + k /\ i <= (it + 1) * D THEN src[i - 1 - ((it * D) + off)]
                              ELSE IF Flaw = "narrow" /\ i > (it * D) + TD /\ i <= (it + 1) * D THEN 0 ELSE mem[i]]
        rest == [i \in 1..TD |-> IF Flaw = "source" THEN acc[i] ELSE IF i + k <= TD THEN acc[i + k] ELSE 0]
    IN \/ pc = "start" /\ e.o = "put" /\ Go("put", mem, e.s, it, off, len, {})
       \/ pc = "put" /\ len = 0 /\ Go("end", mem, acc, it, off, len, {})
       \/ pc = "put" /\ len > 0 /\ it < NW /\ Go("put", w, rest, it + 1, IF Flaw = "position" THEN off ELSE 0, len - k, {it})
       \/ pc = "put" /\ len > 0 /\ it >= NW /\ Go("lost", mem, acc, it, off, len, {it})

\* ---- moves: off counts the words that were moved, len is what is returned
L == (e.q - e.p) \div D
Move ==
    LET left == e.o = "words_left"
        forward == left \/ Flaw = "forward"
        from == IF left THEN (e.p \div D) + e.n + off ELSE IF forward THEN (e.p \div D) + off ELSE (e.q \div D) - 1 - e.n - off
        to == IF left THEN from - e.n ELSE from + e.n
        w == WordAt(from)
    IN \/ /\ pc = "start" /\ e.o \in {"words_left", "words_right"}
          /\ IF e.n <= 0 THEN Go("end", mem, acc, it, 0, IF left THEN e.q ELSE e.p, {})
             ELSE IF e.n >= L THEN Go("end", mem, acc, it, 0, IF left THEN e.p ELSE e.q, {})
             ELSE Go("move", mem, acc, it, 0, IF left THEN e.q - (e.n * D) ELSE e.p + (e.n * D), {})
       \/ /\ pc = "move" /\ off < L - e.n
          /\ Go("move", [i \in 1..N |-> IF i > to * D /\ i <= (to + 1) * D THEN w[i - 1 - (to * D)] ELSE mem[i]], acc, it, off + 1, len, {from, to})
       \/ /\ pc = "move" /\ off = L - e.n /\ Go("end", mem, acc, it, off, len, {})

Next == Get \/ Put \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Outcome == [o |-> e.o, d |-> e.d, t |-> e.t, m |-> e.m, p |-> e.p, q |-> e.q, n |-> e.n, s |-> e.s, m2 |-> mem, r |-> acc, k |-> len]
Meets == pc = "end" => MeetsW(Outcome)
InStorage == \A i \in touched : 0 <= i /\ i < NW
\* only words that hold bits of the window, or are moved
OnlyNeeded == e.o \in {"get", "put"} /\ e.n > 0 => \A i \in touched : e.p \div D <= i /\ i <= (e.p + e.n - 1) \div D
Ends == <>(pc = "end")
=============================================================================
