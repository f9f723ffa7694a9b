------------------------------- MODULE BitText -------------------------------
(***************************************************************************)
(* Bits as text: extraction from and insertion into streams, construction  *)
(* of vectors from strings, and debug_string.                              *)
(*                                                                         *)
(* The state is a record of                                                *)
(*   vec    the bits of a vector, targets for references to single bits    *)
(*   val    a bit value                                                    *)
(*   text   what the input stream is to deliver, character codes; Throws   *)
(*          stands for a source that throws instead of delivering          *)
(*   pos    how many characters of it were consumed                        *)
(*   eof, fail, bad, skip                      state of the input stream   *)
(*   exc    <<eof, fail, bad>>: which of these make it throw               *)
(*   back   whether its buffer can take back a character                   *)
(*   out    what the output stream was given, since the last call          *)
(*   width, fill, left, good                   state of the output stream  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Throws == -1
C0 == 48
C1 == 49
Space(c) == c \in {32} \cup 9..13
Digit(c) == c \in {C0, C1}
B(p) == IF p THEN 1 ELSE 0

\* ---- text of bits
RECURSIVE Parsed(_)
Parsed(t) == IF t = << >> THEN << >>                 \* everything but 0 and 1 is skipped
             ELSE (IF Digit(t[1]) THEN <<t[1] - C0>> ELSE << >>) \o Parsed(Tail(t))

Separator(i, d) == IF i = 0 THEN << >> ELSE IF i % d = 0 THEN <<32>> ELSE IF i % 8 = 0 THEN <<46>> ELSE << >>
RECURSIVE Printed_(_, _, _)
Printed_(b, i, d) == IF i = Len(b) THEN << >> ELSE Separator(i, d) \o <<b[i + 1] + C0>> \o Printed_(b, i + 1, d)
Printed(b, d) == Printed_(b, 0, d)                   \* a dot between bytes, a space between words

\* ---- extraction
Peek(s, i) == IF i < Len(s.text) THEN s.text[i + 1] ELSE -2      \* -2: the end
RECURSIVE Skipped(_, _)
Skipped(s, i) == IF s.skip = 1 /\ Space(Peek(s, i)) THEN Skipped(s, i + 1) ELSE i

Good(s) == s.eof = 0 /\ s.fail = 0 /\ s.bad = 0
Flags(s, e, f, b) == [s EXCEPT !.eof = IF e THEN 1 ELSE @, !.fail = IF f THEN 1 ELSE @, !.bad = IF b THEN 1 ELSE @]

\* All <<state, bit or -1>> that an extraction may end with.
Extraction(s) ==
    LET i == Skipped(s, s.pos)
        c == Peek(s, i)
        t == [s EXCEPT !.pos = i]
    IN IF ~Good(s) THEN {<<Flags(s, FALSE, TRUE, FALSE), -1>>}
       ELSE IF c = -2 THEN {<<Flags(t, TRUE, TRUE, FALSE), -1>>}
       ELSE IF c = Throws THEN {<<Flags(t, FALSE, f, TRUE), -1>> : f \in BOOLEAN}
       ELSE IF Digit(c) THEN {<<[t EXCEPT !.pos = i + 1], c - C0>>}
       ELSE {<<Flags([t EXCEPT !.pos = k], FALSE, TRUE, FALSE), -1>> : k \in IF s.back = 1 THEN {i} ELSE {i, i + 1}}

\* does the stream have to throw when it gets from s to t
MustThrow(s, t) == (t.eof = 1 /\ s.exc[1] = 1) \/ (t.fail = 1 /\ s.exc[2] = 1) \/ (t.bad = 1 /\ s.exc[3] = 1)

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN << >> ELSE <<c>> \o Rep(c, n - 1)
Inserted(s, b) == IF s.good = 0 THEN << >>
                  ELSE IF s.left = 1 THEN <<C0 + b>> \o Rep(s.fill, s.width - 1)
                  ELSE Rep(s.fill, s.width - 1) \o <<C0 + b>>

\* ---- calls e: operation e.o, numbers e.a, text e.t, word size e.d
LegalT(e, s) ==
    CASE e.o \in {"extract", "insert"} -> e.a[1] \in 0..Len(s.vec)        \* 0: the value, else a bit of the vector
      [] e.o = "print" -> 0 <= e.a[1] /\ e.a[1] <= e.a[2] /\ e.a[2] <= Len(s.vec)
      [] OTHER -> e.o \in {"parse", "print_all", "clear", "exceptions", "skipws", "format", "break", "source", "value"}

Chosen(i, s) == IF i = 0 THEN s.val ELSE s.vec[i]
Store(i, b, s) == IF b = -1 THEN s ELSE IF i = 0 THEN [s EXCEPT !.val = b] ELSE [s EXCEPT !.vec[i] = b]

\* <<state, text returned or written, threw>> that a call may end with
Outcomes(e, s) ==
    CASE e.o = "extract" ->
            {LET t == Store(e.a[1], x[2], x[1]) IN <<t, << >>, B(MustThrow(s, t))>> : x \in Extraction(s)}
      [] e.o = "insert" -> {<<[s EXCEPT !.width = IF s.good = 1 THEN 0 ELSE @], Inserted(s, Chosen(e.a[1], s)), 0>>}
      [] e.o = "parse" -> {<<[s EXCEPT !.vec = Parsed(e.t)], << >>, 0>>}
      [] e.o = "print" -> {<<s, Printed(SubSeq(s.vec, e.a[1] + 1, e.a[2]), e.d), 0>>}
      [] e.o = "print_all" -> {<<s, Printed(s.vec, e.d), 0>>}
      [] e.o = "value" -> {<<[s EXCEPT !.val = e.a[1]], << >>, 0>>}
      [] e.o = "source" -> {<<[s EXCEPT !.text = e.t, !.pos = 0, !.eof = 0, !.fail = 0, !.bad = 0, !.skip = 1, !.exc = <<0, 0, 0>>, !.back = e.a[1]], << >>, 0>>}
      [] e.o = "clear" -> {<<[s EXCEPT !.eof = 0, !.fail = 0, !.bad = 0], << >>, 0>>}
      [] e.o = "exceptions" -> {<<[s EXCEPT !.exc = <<e.a[1], e.a[2], e.a[3]>>, !.eof = 0, !.fail = 0, !.bad = 0], << >>, 0>>}
      [] e.o = "skipws" -> {<<[s EXCEPT !.skip = e.a[1]], << >>, 0>>}
      [] e.o = "format" -> {<<[s EXCEPT !.width = e.a[1], !.fill = e.a[2], !.left = e.a[3]], << >>, 0>>}
      [] e.o = "break" -> {<<[s EXCEPT !.good = 1 - e.a[1]], << >>, 0>>}

Start == [vec |-> << >>, val |-> 0, text |-> << >>, pos |-> 0, eof |-> 0, fail |-> 0, bad |-> 0, skip |-> 1, exc |-> <<0, 0, 0>>,
          back |-> 1, width |-> 0, fill |-> 32, left |-> 0, good |-> 1]
\* what of the state can be observed
Shown(s) == <<s.vec, s.val, s.pos, s.eof, s.fail, s.bad, s.width>>
=============================================================================
