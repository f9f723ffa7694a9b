----------------------------- MODULE GenBitVec -----------------------------
(***************************************************************************)
(* Histories to be run on real vectors, one for every transition of the    *)
(* machine of sizes: what matters to a design in words is not every size   *)
(* but where a size or position lies in its word.  Sizes here are classes: *)
(* 3q for q words exactly, 3q + 1 for one bit more, 3q + 2 for one bit     *)
(* less than q + 1 words.  A state is, for each slot, the class of the     *)
(* size, the capacity in words, and whether bits beyond the size, in the   *)
(* last word, may be left over from before (d).                            *)
(*                                                                         *)
(* TLC visits every state once, along a shortest history, and prints for   *)
(* every call that leaves it that history and the call.  lib/vec.py turns  *)
(* classes into sizes for each word type.  What the calls do to contents   *)
(* is not the business of this module: BitVecTrace checks the recordings.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, MaxWords, OpSet

VARIABLES m, hist
vars == <<m, hist>>
View == m

None == [l |-> 0, n |-> 0, k |-> 0, d |-> 0]
MaxN == 3 * MaxWords
P == 0..MaxN
Words(n) == (n + 2) \div 3
Mid(n) == n % 3 # 0
Max2(a, b) == IF a < b THEN b ELSE a

\* room for n, growing geometrically or to what is needed
Room(k, n) == IF Words(n) <= k THEN k ELSE Max2(Words(n), 2 * k)
Grown(x, n) == [x EXCEPT !.n = n, !.k = Room(@, n), !.d = IF Mid(n) /\ Words(n) = Words(x.n) THEN @ ELSE 0]
Cut(x, n) == [x EXCEPT !.n = n, !.d = IF Mid(n) THEN 1 ELSE 0]

\* calls: <<name, slot, arguments>>; positions and sizes are classes, the size
\* after the call is given instead of a count
Calls(s) ==
    LET x == m[s]
        n == x.n
        U == 0..n
        Others == {t \in 1..Slots : t # s /\ m[t].l = 1}
        O(o, A) == IF o \in OpSet THEN {<<o, s, a>> : a \in A} ELSE {}
    IN IF x.l = 0
       THEN O("new", {<< >>}) \cup O("new_n", {<<p>> : p \in P}) \cup O("new_bits", {<<p>> : p \in P})
            \cup O("new_copy", {<<t>> : t \in Others}) \cup O("new_move", {<<t>> : t \in Others})
            \cup O("new_slice", {<<t, p, q>> : t \in Others, p \in P, q \in P})
       ELSE O("push", IF n < MaxN THEN {<< >>} ELSE {}) \cup O("pop", IF n > 0 THEN {<< >>} ELSE {})
            \cup O("push_ref", IF n < MaxN /\ n > 0 THEN {<<n - 1>>, <<0>>} ELSE {})
            \cup O("insert", IF n < MaxN THEN {<<p>> : p \in U} ELSE {})
            \cup O("erase", {<<p>> : p \in {p \in U : p < n}})
            \cup O("insert_n", {<<p, q>> : p \in U, q \in n..MaxN})
            \cup O("erase_r", {<<p, q>> \in U \X U : p <= q})
            \cup O("insert_r", {<<p, t, q>> : p \in U, t \in Others, q \in n..MaxN})
            \cup O("resize", {<<p>> : p \in P}) \cup O("resize_v", {<<p>> : p \in P})
            \cup O("reserve", {<<p>> : p \in P}) \cup O("shrink", {<< >>}) \cup O("clear", {<< >>})
            \cup O("rotate", {<<p, q, r>> \in U \X U \X U : p <= q /\ q <= r})
            \cup O("reverse", {<<p, q>> \in U \X U : p <= q})
            \cup O("copy_assign", {<<t>> : t \in Others \cup {s}}) \cup O("move_assign", {<<t>> : t \in Others})
            \cup O("swap", {<<t>> : t \in Others})
            \cup O("copy_bits", {<<t, p, q, r>> : t \in Others, p \in P, q \in P, r \in U})
            \cup O("destroy", {<< >>})

\* "insert_r" needs a source as long as what is inserted, slices lie in their vector
Possible(c) ==
    LET a == c[3]
        n == m[c[2]].n
    IN CASE c[1] = "insert_r" -> m[a[2]].n >= a[3] - n
         [] c[1] = "new_slice" -> a[2] <= a[3] /\ a[3] <= m[a[1]].n
         [] c[1] = "copy_bits" -> a[2] <= a[3] /\ a[3] <= m[a[1]].n /\ a[4] + (a[3] - a[2]) <= n
         [] OTHER -> TRUE

After(c) ==
    LET s == c[2]
        a == c[3]
        o == c[1]
        x == m[s]
        Made(n) == [l |-> 1, n |-> n, k |-> Words(n), d |-> 0]
        Put(y) == [m EXCEPT ![s] = y]
    IN CASE o = "new" -> Put(Made(0))
         [] o \in {"new_n", "new_bits"} -> Put(Made(a[1]))
         [] o = "new_copy" -> Put([m[a[1]] EXCEPT !.k = Words(m[a[1]].n)])
         [] o = "new_move" -> [m EXCEPT ![s] = m[a[1]], ![a[1]] = [Made(0) EXCEPT !.k = 0]]
         [] o = "new_slice" -> Put(Made(a[3] - a[2]))
         [] o \in {"push", "insert", "push_ref"} -> Put(Grown(x, x.n + 1))
         [] o \in {"pop", "erase"} -> Put(Cut(x, x.n - 1))
         [] o = "insert_n" -> Put(Grown(x, a[2]))
         [] o = "insert_r" -> Put(Grown(x, a[3]))
         [] o = "erase_r" -> Put(IF a[1] = a[2] THEN x ELSE Cut(x, x.n - (a[2] - a[1])))
         [] o \in {"resize", "resize_v"} -> Put(IF a[1] <= x.n THEN (IF a[1] = x.n THEN x ELSE Cut(x, a[1])) ELSE Grown(x, a[1]))
         [] o = "reserve" -> Put([x EXCEPT !.k = Max2(@, Words(a[1]))])
         [] o = "shrink" -> Put([x EXCEPT !.k = Words(x.n)])
         [] o = "clear" -> Put([x EXCEPT !.n = 0, !.d = 0])
         [] o = "copy_assign" -> LET y == m[a[1]] IN Put([y EXCEPT !.k = Max2(x.k, Words(y.n))])
         [] o = "move_assign" -> [m EXCEPT ![s] = m[a[1]], ![a[1]] = Made(0)]
         [] o = "swap" -> [m EXCEPT ![s] = m[a[1]], ![a[1]] = m[s]]
         [] o = "destroy" -> Put(None)
         [] OTHER -> m

Init == m = [s \in 1..Slots |-> None] /\ hist = << >>
Next == \E s \in 1..Slots : \E c \in Calls(s) :
            /\ Possible(c)
            /\ hist' = Append(hist, c)
            /\ PrintT(<<"HISTORY", ToJson(hist')>>)
            /\ m' = After(c)
Spec == Init /\ [][Next]_vars

Sane == \A s \in 1..Slots : /\ m[s].n \in 0..MaxN
                            /\ Words(m[s].n) <= m[s].k
                            /\ (m[s].l = 0 => m[s] = None)
Bounded == \A s \in 1..Slots : m[s].k <= 2 * MaxWords
=============================================================================
