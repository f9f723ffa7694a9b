-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Integers too large for TLC, as pairs <<h, l>> for h * Base + l with     *)
(* 0 <= l < Base.  MCBitCursor checks these definitions against TLC's own  *)
(* integers.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Base

Of(i) == <<i \div Base, i % Base>>                  \* a TLC integer
Norm(h, l) == <<h + l \div Base, l % Base>>
WPlus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
WMinus(a, b) == Norm(a[1] - b[1], a[2] - b[2])
WNeg(a) == Norm(-a[1], -a[2])
WLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WLe(a, b) == ~WLt(b, a)
IsWide(a) == Len(a) = 2 /\ 0 <= a[2] /\ a[2] < Base
\* quotient (rounded down) and remainder for a d that divides Base
WDiv(a, d) == <<a[1] \div d, (a[1] % d) * (Base \div d) + a[2] \div d>>
WMod(a, d) == a[2] % d
=============================================================================
