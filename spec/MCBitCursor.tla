----------------------------- MODULE MCBitCursor -----------------------------
(***************************************************************************)
(* Checks BitCursor, and through it Wide, on small numbers:                *)
(*  - the design of bit_iterator and bit_pointer, a word and a position    *)
(*    put forward with C++'s division (which rounds towards zero), does    *)
(*    what BitCursor says (Refines), and Flaw names mistakes that have to  *)
(*    show;                                                                *)
(*  - the laws that random access iterators are to obey follow from it     *)
(*    (Laws);                                                              *)
(*  - Wide agrees with TLC's integers (WideIsRight).                       *)
(* x, y are two cursors of the design, v the same in BitCursor; n is the   *)
(* number the last call was given.                                         *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets

CONSTANTS D, Far, SmallBase, Flaw

VARIABLES x, y, v, n, ret, want
vars == <<x, y, v, n, ret, want>>

INSTANCE BitCursor WITH Base <- SmallBase

Value(w) == w[1] * SmallBase + w[2]

\* ---- C++ on words and positions
Abs(i) == IF i < 0 THEN -i ELSE i
Trunc(i, d) == IF i >= 0 THEN i \div d ELSE -((-i) \div d)
Split(c, sum) ==
    LET q == Trunc(sum, D)
        diff == IF Flaw # "trunc" /\ sum < 0 /\ q * D # sum THEN q - 1 ELSE q
    IN <<c[1] + diff, sum - diff * D>>
Plus(c, i) == Split(c, c[2] + i)
Minus(c, i) == Split(c, c[2] - i)
Inc(c) == IF c[2] + 1 < D THEN <<c[1], c[2] + 1>> ELSE <<c[1] + 1, 0>>
Dec(c) == IF c[2] # 0 THEN <<c[1], c[2] - 1>> ELSE <<c[1] - (IF Flaw = "borrow" THEN 0 ELSE 1), D - 1>>
Diff(a, b) == IF Flaw = "diff" THEN (a[1] - b[1]) * D + Abs(a[2] - b[2]) ELSE (a[1] - b[1]) * D + (a[2] - b[2])
Less(a, b) == a[1] < b[1] \/ ((Flaw = "less" \/ a[1] = b[1]) /\ a[2] < b[2])

Index(c) == c[1] * D + c[2]
Near(c) == Abs(Index(c)) <= Far

\* ---- what is explored: pairs of cursors, and one call on them
Numbers == -Far..Far
Cursor(p) == <<p \div D, p % D>>
Ev(o, s, t, i) == [o |-> o, s |-> s, t |-> t, n |-> Of(i), d |-> D]
Regs(a, b) == [r \in 1..Registers |-> IF r = 1 THEN At(Of(a)) ELSE IF r = 2 THEN At(Of(b)) ELSE Unset]

Init == \E a, b \in Numbers :
    x = Cursor(a) /\ y = Cursor(b) /\ v = Regs(a, b) /\ n = 0 /\ ret = << >> /\ want = << >>

Loc2(c) == <<Of(c[1]), Of(c[2])>>
Act(e, nx, r) ==
    /\ LegalC(e, v) /\ Near(nx)
    /\ x' = nx /\ v' = AfterC(e, v) /\ ret' = r /\ want' = ReturnC(e, v) /\ n' = Value(e.n) /\ UNCHANGED y

Bool(b) == IF b THEN Of(1) ELSE Of(0)
Next == ret = << >> /\ want = << >> /\
    \/ \E i \in Numbers :
        \/ Act(Ev("add", 1, 1, i), Plus(x, i), Loc2(Plus(x, i)))
        \/ Act(Ev("sub", 1, 1, i), Minus(x, i), Loc2(Minus(x, i)))
        \/ Act(Ev("index", 1, 1, i), x, Loc2(Plus(x, i)))
        \/ Act(Ev("rev", 1, 1, i), x, Loc2(Dec(Minus(x, i))))
        \/ Act(Ev("neg_add", 1, 1, i), Plus(x, -i), Loc2(Plus(x, -i)))
    \/ Act(Ev("inc", 1, 1, 0), Inc(x), Loc2(Inc(x)))
    \/ Act(Ev("postinc", 1, 1, 0), Inc(x), Loc2(x))
    \/ Act(Ev("dec", 1, 1, 0), Dec(x), Loc2(Dec(x)))
    \/ Act(Ev("postdec", 1, 1, 0), Dec(x), Loc2(x))
    \/ Act(Ev("diff", 1, 2, 0), x, <<Of(Diff(x, y))>>)
    \/ Act(Ev("distance", 1, 2, 0), x, <<Of(Diff(y, x))>>)
    \/ Act(Ev("cmp", 1, 2, 0), x, <<Bool(x = y), Bool(x # y), Bool(Less(x, y)), Bool(Less(x, y) \/ x = y),
                                    Bool(Less(y, x)), Bool(Less(y, x) \/ x = y)>>)
    \/ Act(Ev("conv", 2, 1, 0), y, << >>) /\ want' = << >>

Spec == Init /\ [][Next]_vars

Refines ==
    /\ Of(Index(x)) = v[1].p /\ Of(Index(y)) = v[2].p
    /\ 0 <= x[2] /\ x[2] < D
    /\ ret = want

Laws ==
    LET p == v[1].p
        q == v[2].p
        c == Six(p, q)
    IN /\ WPlus(q, WMinus(p, q)) = p
       /\ WMinus(p, q) = WNeg(WMinus(q, p))
       /\ c[3] = B(WLt(Of(0), WMinus(q, p)))
       /\ c[1][2] + c[3][2] + c[5][2] = 1            \* exactly one of =, <, >
       /\ c[4] = B(c[1] = Of(1) \/ c[3] = Of(1))
       /\ Loc(p, D) = Loc(q, D) <=> p = q

WideIsRight ==
    LET a == Index(x)
        b == Index(y)
        p == Of(a)
        q == Of(b)
    IN /\ IsWide(p) /\ Value(p) = a
       /\ Value(WPlus(p, q)) = a + b /\ IsWide(WPlus(p, q))
       /\ Value(WMinus(p, q)) = a - b /\ IsWide(WMinus(p, q))
       /\ Value(WNeg(p)) = -a /\ IsWide(WNeg(p))
       /\ (WLt(p, q) <=> a < b) /\ (WLe(p, q) <=> a <= b)
       /\ Value(WDiv(p, D)) = a \div D /\ IsWide(WDiv(p, D)) /\ WMod(p, D) = a % D
=============================================================================
