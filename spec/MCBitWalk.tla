------------------------------ MODULE MCBitWalk ------------------------------
(***************************************************************************)
(* How algorithms walk over the words of a range of bits, address by       *)
(* address: counting goes up, copying backward and shifting right go down. *)
(* The words of the range are 0..Words-1; an address is one of 0..Words    *)
(* (one past the last may be formed, but not followed).  Every address     *)
(* formed is one of these, every address followed is a word, for all       *)
(* places, lengths and distances; the walk visits every word that holds a  *)
(* bit to write.  Flaw names walks that go one address too far -- unseen   *)
(* by a program that only looks at what was stored.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS D, MaxBits, Flaw

VARIABLES op, f, n, s,        \* the range [f, f + n) with f < D; the distance (shift), or the source's place (copy)
          pc, it, jt, rem,    \* the walk: the addresses held, bits left
          formed, followed, written
vars == <<op, f, n, s, pc, it, jt, rem, formed, followed, written>>

L == f + n
Words == (L + D - 1) \div D
Last == L \div D                       \* the address of the word the end lies in
Aligned == L % D = 0

Init ==
    /\ op \in {"count", "copy_backward", "shift_right"}
    /\ f \in 0..D - 1 /\ n \in 1..MaxBits
    /\ s \in CASE op = "count" -> {0} [] op = "copy_backward" -> 0..D - 1 [] OTHER -> 1..n - 1
    /\ pc = "start" /\ it = 0 /\ jt = 0 /\ rem = n
    /\ formed = {0, Last} /\ followed = {} /\ written = {}

Keep == UNCHANGED <<op, f, n, s>>
Walk(p, i, j, r, read, write, more) ==
    /\ pc' = p /\ it' = i /\ jt' = j /\ rem' = r
    /\ formed' = formed \cup {i, j} \cup read \cup write \cup more
    /\ followed' = followed \cup read \cup write
    /\ written' = written \cup write
    /\ Keep
To(p, i, j, r, read, write) == Walk(p, i, j, r, read, write, {})

\* ---- counting: the first word if it is not whole, the whole words in one go, the last word if it is not whole
Count ==
    /\ op = "count"
    /\ CASE pc = "start" -> IF Last = 0 THEN To("end", 0, 0, 0, {0}, {})
                            ELSE IF f # 0 THEN To("whole", 1, 0, rem, {0}, {}) ELSE To("whole", 0, 0, rem, {}, {})
         [] pc = "whole" -> IF it # Last \/ Flaw = "end_followed" THEN To("tail", Last, 0, rem, it..(IF it < Last THEN Last - 1 ELSE it), {})
                            ELSE To("tail", it, 0, rem, {}, {})
         [] pc = "tail" -> To("end", it, 0, 0, IF Aligned THEN {} ELSE {Last}, {})

\* ---- copying backward: the word the end lies in if it is not whole, whole words, what remains of the first
CopyBackward ==
    /\ op = "copy_backward"
    /\ CASE pc = "start" -> LET k == IF Aligned THEN 0 ELSE IF L % D < rem THEN L % D ELSE rem
                            IN To(IF rem = k THEN "end" ELSE IF (s + n - k) % D = 0 /\ rem - k > D THEN "block" ELSE "whole", Last, 0, rem - k,
                                  {}, IF k > 0 THEN {Last} ELSE {})
         [] pc = "block" -> \* all words of an aligned source but its first
                            LET k == ((s + rem - 1) \div D) - (s \div D)
                                m == IF k * D >= rem THEN k - 1 ELSE k
                            IN To("rest", it - m, 0, rem - m * D, {}, it - m..it - 1)
         [] pc = "whole" -> IF rem >= D THEN To("whole", it - 1, 0, rem - D, {}, {it - 1}) ELSE To("rest", it, 0, rem, {}, {})
         [] pc = "rest" -> IF Flaw = "before_first" THEN To("end", it - 1, 0, 0, {}, IF rem > 0 THEN {it - 1} ELSE {})
                           ELSE IF rem > 0 THEN To("end", it - 1, 0, 0, {}, {it - 1}) ELSE To("end", it, 0, 0, {}, {})

\* ---- shifting right: the word the end lies in, words made of two, the first ones
Of(a, b) == IF a < b THEN (a \div D)..((b - 1) \div D) ELSE {}      \* the words that hold the bits from a up to b
M == L - s                                                          \* the end of what moves
ShiftRight ==
    /\ op = "shift_right"
    /\ CASE pc = "start" ->
              IF Words = 1 THEN To("end", 0, 0, 0, {0}, {0})
              ELSE LET k == IF Aligned THEN 0 ELSE IF L % D < M - f THEN L % D ELSE M - f
                       j == M - k
                       to == IF j = f THEN "end" ELSE IF j % D = 0 THEN "even" ELSE IF j - f >= D THEN "pairs" ELSE "first"
                   IN To(to, Last, j \div D, j % D, Of(j, M), Of(L - k, L))
         [] pc = "even" -> To("end", it - jt, 0, 0, 0..jt - 1, it - jt..it - 1)
         [] pc = "pairs" ->   \* words made of two neighbours; rem is where the upper one is cut
              IF jt > 1 THEN To("pairs", it - 1, jt - 1, rem, {jt - 1, jt}, {it - 1})
              ELSE IF f > rem THEN To("first", it, jt, rem, {}, {})
              ELSE Walk("first", it - 1, jt - 1, rem, {jt - 1, jt}, {it - 1}, IF Flaw = "held_below" THEN {it - 2, jt - 2} ELSE {})
         [] pc = "first" -> LET j == jt * D + rem IN To("end", it, jt, 0, Of(f, j), Of(it * D - (j - f), it * D))

Next == pc # "end" /\ (Count \/ CopyBackward \/ ShiftRight)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

FormedStay == formed \subseteq 0..Words
FollowedAre == followed \subseteq 0..Words - 1
\* every word that gets a bit is written
Done == pc = "end" => CASE op = "copy_backward" -> written = 0..Words - 1
                        [] op = "shift_right" -> written = Of(f + s, L)
                        [] OTHER -> followed = 0..Words - 1
Ends == <>(pc = "end")
=============================================================================
