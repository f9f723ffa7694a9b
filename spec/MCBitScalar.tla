----------------------------- MODULE MCBitScalar -----------------------------
(***************************************************************************)
(* The design of bit_reference -- an address and a mask, masks combined    *)
(* into words, swaps by flipping both sides if they differ -- refines      *)
(* BitScalar: all histories over two words of D bits, two references, one  *)
(* of them possibly an alias of the other, and two values.  Flaw names     *)
(* mistakes that have to show.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS D, Flaw

VARIABLES w, p, q, st, ret, want   \* words, references <<word, mask>>, values; BitScalar's state
vars == <<w, p, q, st, ret, want>>

INSTANCE BitScalar WITH LimbBits <- D, MutableRefs <- 2, Refs <- 2, Vals <- 2

Ones == Pow2[D + 1] - 1
RECURSIVE Zip(_, _, _, _)
Zip(f, a, b, n) == IF n = 0 THEN 0 ELSE f[2 * (a % 2) + (b % 2) + 1] + 2 * Zip(f, a \div 2, b \div 2, n - 1)
AndW(a, b) == Zip(<<0, 0, 0, 1>>, a, b, D)
OrW(a, b) == Zip(<<0, 1, 1, 1>>, a, b, D)
XorW(a, b) == Zip(<<0, 1, 1, 0>>, a, b, D)
NotW(a) == Ones - a

\* ---- operands: 1, 2 references; 3, 4 values; 5, 6 constants
Ask(x) == CASE x <= 2 -> IF AndW(w[p[x][1]], p[x][2]) # 0 THEN 1 ELSE 0
            [] x <= 4 -> q[x - 2]
            [] OTHER -> x - 5
\* what writing f(word, mask), or v to a value, gives as <<words, values>>
Do(x, f(_, _), v, s) == IF x <= 2 THEN <<[s[1] EXCEPT ![p[x][1]] = f(@, p[x][2])], s[2]>>
                        ELSE <<s[1], [s[2] EXCEPT ![x - 2] = v]>>
Now == <<w, q>>
SetBit(x, s) == LET F(a, m) == OrW(a, m) IN Do(x, F, 1, s)
ResetBit(x, s) == LET F(a, m) == AndW(a, NotW(IF Flaw = "lowmask" THEN OrW(m, 1) ELSE m)) IN Do(x, F, 0, s)
FlipBit(x, s) == LET F(a, m) == XorW(a, m) IN Do(x, F, 1 - (IF x > 2 THEN s[2][x - 2] ELSE 0), s)

Ev(o, s, t, n) == [o |-> o, s |-> s, t |-> t, n |-> n, w |-> <<0, 0>>]

Word(g) == <<g \div D + 1, Pow2[(g % D) + 1]>>
Act(e, s, r) ==
    /\ LegalB(e, st)
    /\ w' = s[1] /\ q' = s[2] /\ st' = AfterB(e, st)
    /\ ret' = r /\ want' = ReturnB(e, st, Word) /\ UNCHANGED p

Init == /\ w \in [1..2 -> 0..Ones] /\ q \in [1..2 -> Bits]
        /\ \E a, b \in 0..2 * D - 1 :
            /\ p = <<Word(a), Word(b)>>
            /\ st = [m |-> <<w[1], w[2]>>, ref |-> <<a, b>>, val |-> <<q[1], q[2]>>]
        /\ ret = << >> /\ want = << >>

Assign(x, b, s) == IF b = 1 THEN SetBit(x, s) ELSE ResetBit(x, s)
SwapBits(x, y) == IF Flaw = "xor_swap" THEN
                    LET s1 == IF Ask(y) = 1 THEN FlipBit(x, Now) ELSE Now
                        B1 == IF x <= 2 THEN T(AndW(s1[1][p[x][1]], p[x][2]) # 0) ELSE s1[2][x - 2]
                        s2 == IF B1 = 1 THEN FlipBit(y, s1) ELSE s1
                        B2 == IF y <= 2 THEN T(AndW(s2[1][p[y][1]], p[y][2]) # 0) ELSE s2[2][y - 2]
                    IN IF B2 = 1 THEN FlipBit(x, s2) ELSE s2
                  ELSE IF Ask(x) # Ask(y) THEN FlipBit(y, FlipBit(x, Now)) ELSE Now

Next == \E x \in 1..4, y \in 1..6 :
    \/ Act(Ev("assign", x, y, 0), Assign(x, Ask(y), Now), << >>)
    \/ LET F(a, m) == AndW(a, NotW(m * (1 - Ask(y)))) IN Act(Ev("and_to", x, y, 0), Do(x, F, IF x > 2 THEN Ask(x) * Ask(y) ELSE 0, Now), << >>)
    \/ LET F(a, m) == OrW(a, m * Ask(y)) IN Act(Ev("or_to", x, y, 0), Do(x, F, IF x > 2 THEN T(Ask(x) + Ask(y) > 0) ELSE 0, Now), << >>)
    \/ LET F(a, m) == XorW(a, m * Ask(y)) IN Act(Ev("xor_to", x, y, 0), Do(x, F, IF x > 2 THEN T(Ask(x) # Ask(y)) ELSE 0, Now), << >>)
    \/ y = 1 /\ \/ Act(Ev("set", x, 1, 0), SetBit(x, Now), << >>)
                \/ Act(Ev("reset", x, 1, 0), ResetBit(x, Now), << >>)
                \/ Act(Ev("flip", x, 1, 0), FlipBit(x, Now), << >>)
    \/ y <= 4 /\ Act(Ev("swap", x, y, 0), SwapBits(x, y), << >>)
    \/ y = 1 /\ x <= 2 /\ Act(Ev("loc", x, 1, 0), Now, p[x])
    \/ Act(Ev("cmp", x, y, 0), Now, <<T(Ask(x) = Ask(y)), T(Ask(x) # Ask(y)), T(Ask(x) < Ask(y)), T(Ask(x) <= Ask(y)), T(Ask(x) > Ask(y)), T(Ask(x) >= Ask(y))>>)
    \/ y <= 2 /\ x <= 2 /\ x # y /\ LET e == Ev("alias", x, y, 0) IN
          /\ LegalB(e, st) /\ p' = [p EXCEPT ![x] = p[y]] /\ st' = AfterB(e, st)
          /\ ret' = << >> /\ want' = ReturnB(e, st, Word) /\ UNCHANGED <<w, q>>

Spec == Init /\ [][Next]_vars

Refines ==
    /\ st.m = <<w[1], w[2]>> /\ st.val = <<q[1], q[2]>>
    /\ <<Word(st.ref[1]), Word(st.ref[2])>> = p
    /\ ret = want
=============================================================================
