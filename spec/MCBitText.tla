------------------------------ MODULE MCBitText ------------------------------
(***************************************************************************)
(* The design of the extraction operator -- a sentry, then one character   *)
(* taken from the buffer and put back if it is no digit -- refines         *)
(* BitText for all short texts, flags and exception masks; and text laws:  *)
(* what debug_string prints, the string constructor reads back, what is    *)
(* inserted is extracted again.  Flaw names mistakes that have to show.    *)
(***************************************************************************)
EXTENDS BitText, FiniteSets

CONSTANTS MaxText, MaxBits, Flaw

VARIABLES s, w, threw     \* BitText's state, the design's, and whether the design threw last
vars == <<s, w, threw>>

Alphabet == {C0, C1, 32, 120, Throws}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxText}
BitsOf == UNION {[1..n -> {0, 1}] : n \in 0..MaxBits}

With(t, k, x, b, v) == [Start EXCEPT !.text = t, !.skip = k, !.exc = x, !.back = b, !.val = v]
Init == /\ \E t \in Texts, k, v, b \in {0, 1}, x \in [1..3 -> {0, 1}] : s = With(t, k, x, b, v)
        /\ w = s /\ threw = 0

\* ---- the design: a procedure over the stream, as bit_value's operator>>
SetState(d, e, f, b) == Flags(d, e, f, b)
Sentry(d) == \* <<stream, may go on>>
    IF ~Good(d) THEN <<SetState(d, FALSE, Flaw # "silent", FALSE), FALSE>>
    ELSE LET i == Skipped(d, d.pos)
             t == [d EXCEPT !.pos = i]
         IN IF d.skip = 0 THEN <<d, TRUE>>
            ELSE IF Peek(d, i) = -2 THEN <<SetState(t, TRUE, TRUE, FALSE), FALSE>>
            ELSE IF Peek(d, i) = Throws THEN <<SetState(t, FALSE, FALSE, TRUE), FALSE>>
            ELSE <<t, TRUE>>
Extract(d) == \* all <<stream, bit or -1>>
    LET y == Sentry(d)
        t == y[1]
        c == Peek(t, t.pos)
        took == [t EXCEPT !.pos = @ + 1]
    IN IF ~y[2] THEN {<<SetState(t, FALSE, Flaw # "silent", FALSE), -1>>} \* fails
       ELSE IF c = -2 THEN {<<SetState(t, TRUE, TRUE, FALSE), -1>>}
       ELSE IF c = Throws THEN {<<SetState(t, FALSE, TRUE, TRUE), -1>>}
       ELSE IF c = C0 THEN {<<took, 0>>}
       ELSE IF c = C1 THEN {<<took, 1>>}
       ELSE {<<SetState(IF d.back = 1 /\ Flaw # "keep" THEN t ELSE took, FALSE, TRUE, FALSE), IF Flaw = "clobber" THEN 0 ELSE -1>>}

Ev(o, a) == [o |-> o, a |-> a, t |-> << >>, d |-> 8]
Next ==
    \/ \E x \in Extract(w) :
          LET d == Store(0, x[2], x[1]) IN
          /\ w' = d /\ threw' = B(MustThrow(w, d))
          /\ LET fit == {o \in Outcomes(Ev("extract", <<0>>), s) : Shown(o[1]) = Shown(d) /\ o[3] = B(MustThrow(w, d))}
             IN s' = IF fit = {} THEN [s EXCEPT !.val = -7] ELSE (CHOOSE o \in fit : TRUE)[1]
    \/ w' = [w EXCEPT !.eof = 0, !.fail = 0, !.bad = 0] /\ threw' = 0
       /\ s' = (CHOOSE o \in Outcomes(Ev("clear", << >>), s) : TRUE)[1]

Spec == Init /\ [][Next]_vars
Refines == Shown(s) = Shown(w)

RoundTrip ==
    /\ \A b \in BitsOf, d \in {8, 16, 32, 64} : Parsed(Printed(b, d)) = b
    /\ \A b \in BitsOf : Len(b) > 8 => Printed(b, 16)[9] = 46 /\ Printed(b, 8)[9] = 32
    /\ \A b \in {0, 1}, k \in 0..3, left \in {0, 1} :
          LET o == [Start EXCEPT !.width = k, !.left = left]
              t == Inserted(o, b)
              i == [Start EXCEPT !.text = t]
          IN /\ Len(t) = (IF k > 1 THEN k ELSE 1)
             /\ \A x \in Extraction(i) : x[2] = b
ASSUME RoundTrip
=============================================================================
