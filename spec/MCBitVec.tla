------------------------------ MODULE MCBitVec ------------------------------
(***************************************************************************)
(* TLC explores every history of the word-level machine BitWords with      *)
(* Slots vectors of at most MaxBits bits in words of D bits, every request *)
(* for memory granted or refused, and checks that each step is one BitVec  *)
(* allows, and that the words fit the length.                              *)
(***************************************************************************)
EXTENDS BitWords

CONSTANTS Slots, MaxBits, OpSet, Tags

VARIABLES m, bad
vars == <<m, bad>>

P == 0..MaxBits
V == {-1, -2}
Args(o) ==
    CASE o \in {"new", "pop", "clear", "shrink", "destroy"} -> {<< >>}
      [] o \in {"new_n", "resize", "reserve", "erase", "flip", "push_ref"} -> {<<p>> : p \in P}
      [] o \in {"new_nv", "resize_v", "insert", "set", "at_set"} -> P \X V
      [] o = "new_bits" -> V \X P
      [] o = "push" -> {<<t>> : t \in V}
      [] o = "insert_n" -> P \X P \X V
      [] o = "insert_r" -> P \X (1..Slots) \X P \X P
      [] o = "erase_r" -> P \X P
      [] o = "new_slice" -> (1..Slots) \X P \X P
      [] o = "copy_bits" -> (1..Slots) \X P \X P \X P
      [] o = "rotate" -> P \X P \X P
      [] OTHER -> {<<t>> : t \in 1..Slots}

Small(e, v) == Size(Contents(e, v)[e.s]) <= MaxBits /\ (e.o = "reserve" => e.a[1] <= MaxBits)

Tag(o, a) == IF o \in {"new_copy", "new_move"} THEN {m[a[1]].g} ELSE IF o \in Constructors THEN Tags ELSE {0}
Calls == {[o |-> o, s |-> s, a |-> << >>, g |-> 0] : o \in OpSet, s \in 1..Slots}

Init == m = [s \in 1..Slots |-> Nothing] /\ bad = << >>
Next == /\ bad = << >>
        /\ LET v == Abs(m) IN
           \E o \in OpSet : \E s \in 1..Slots : \E a \in Args(o) : \E g \in Tag(o, a) :
             LET e == [o |-> o, s |-> s, a |-> a, g |-> g] IN
             /\ LegalV(e, v)
             /\ Small(e, v)
             /\ \E out \in Outcomes(e, m) :
                  LET fits == \A t \in 1..Slots : Len(out.m[t].w) >= out.m[t].n
                      ok == fits /\ Allowed_(e, v, Abs(out.m), out.r, out.al, out.f)
                  IN IF ok THEN m' = out.m /\ bad' = << >>
                     ELSE m' = m /\ bad' = <<e, out>>
Spec == Init /\ [][Next]_vars

Refines == bad = << >>
WordsFit == \A s \in 1..Slots : /\ Len(m[s].w) % D = 0
                                /\ m[s].n <= Len(m[s].w)
                                /\ Len(m[s].w) <= m[s].kw * D
                                /\ Len(m[s].w) <= ((m[s].n + D - 1) \div D) * D + D
=============================================================================
