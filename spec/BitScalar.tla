----------------------------- MODULE BitScalar -----------------------------
(***************************************************************************)
(* Single bits: references to bits of words, and bit values.               *)
(*                                                                         *)
(* The state st is a record of                                             *)
(*   m    the storage, a sequence of limbs of LimbBits bits each; bit g of *)
(*        it is bit g mod LimbBits of limb g div LimbBits + 1              *)
(*   ref  for each reference register, the bit it designates, or Unbound   *)
(*   val  for each value register, 0 or 1                                  *)
(* The storage is carved into words of several types; Word(g) says which   *)
(* word and position bit g is.  Operands are designated by numbers:        *)
(* 1..Refs references (those above MutableRefs to const words), then the   *)
(* values, then the constants 0 and 1.                                     *)
(*                                                                         *)
(* A reference never moves by assignment: assigning to it writes the bit.  *)
(* Nothing but the bits written changes.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS LimbBits, MutableRefs, Refs, Vals

Unbound == -1
Bits == {0, 1}

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Bit(m, g) == (m[g \div LimbBits + 1] \div Pow2[(g % LimbBits) + 1]) % 2
WithBit(m, g, b) ==
    LET i == g \div LimbBits + 1
    IN [m EXCEPT ![i] = @ + (b - Bit(m, g)) * Pow2[(g % LimbBits) + 1]]

IsRef(x) == x \in 1..Refs
IsVal(x) == x \in Refs + 1..Refs + Vals
IsConst(x) == x \in {Refs + Vals + 1, Refs + Vals + 2}
Writable(x, st) == (x \in 1..MutableRefs /\ st.ref[x] # Unbound) \/ IsVal(x)
Readable(x, st) == (IsRef(x) /\ st.ref[x] # Unbound) \/ IsVal(x) \/ IsConst(x)

Get(x, st) == CASE IsRef(x) -> Bit(st.m, st.ref[x])
                [] IsVal(x) -> st.val[x - Refs]
                [] OTHER -> x - Refs - Vals - 1
Put(x, b, st) == IF IsRef(x) THEN [st EXCEPT !.m = WithBit(@, st.ref[x], b)]
                 ELSE [st EXCEPT !.val[x - Refs] = b]

\* bit e.n[2] of the number whose limbs are the rest of e.n (least significant first)
Digit(limbs, p) == (limbs[p \div 16 + 1] \div Pow2[(p % 16) + 1]) % 2
OfWord(e) == Digit(SubSeq(e.w, 2, Len(e.w)), e.w[1])

Writes == {"assign", "and_to", "or_to", "xor_to"}                  \* s op= t
Sets == {"set", "reset", "flip", "set_to", "assign_word"}          \* s alone
Makes == {"value_of", "value_of_word", "value_of_bool", "value"}   \* value s made anew
Reads == {"get", "not", "loc", "pointer"}                          \* of s
Reads2 == {"and", "or", "xor", "cmp"}                              \* of s and t
Swaps == {"swap", "free_swap", "iter_swap"}
Binds == {"bind", "alias"}

LegalB(e, st) ==
    CASE e.o \in Writes -> Writable(e.s, st) /\ Readable(e.t, st)
      [] e.o \in Sets -> Writable(e.s, st)
      [] e.o \in Makes -> IsVal(e.s) /\ (e.o = "value_of" => Readable(e.t, st))
      [] e.o \in {"get", "not"} -> Readable(e.s, st)
      [] e.o \in {"loc", "pointer"} -> IsRef(e.s) /\ Readable(e.s, st)
      [] e.o \in Reads2 -> Readable(e.s, st) /\ Readable(e.t, st)
      [] e.o \in {"swap", "free_swap"} -> Writable(e.s, st) /\ Writable(e.t, st)
      [] e.o = "iter_swap" -> Writable(e.s, st) /\ Writable(e.t, st) /\ IsRef(e.s) /\ IsRef(e.t)
      [] e.o = "bind" -> IsRef(e.s) /\ e.n >= 0 /\ e.n < Len(st.m) * LimbBits
      [] e.o = "alias" -> IsRef(e.s) /\ IsRef(e.t) /\ Readable(e.t, st) /\ (e.s <= MutableRefs => e.t <= MutableRefs)
      [] OTHER -> FALSE

AfterB(e, st) ==
    CASE e.o = "assign" -> Put(e.s, Get(e.t, st), st)
      [] e.o = "and_to" -> Put(e.s, IF Get(e.t, st) = 1 THEN Get(e.s, st) ELSE 0, st)
      [] e.o = "or_to" -> Put(e.s, IF Get(e.t, st) = 0 THEN Get(e.s, st) ELSE 1, st)
      [] e.o = "xor_to" -> Put(e.s, (Get(e.s, st) + Get(e.t, st)) % 2, st)
      [] e.o = "set" -> Put(e.s, 1, st)
      [] e.o = "reset" -> Put(e.s, 0, st)
      [] e.o = "flip" -> Put(e.s, 1 - Get(e.s, st), st)
      [] e.o = "set_to" -> Put(e.s, e.n, st)
      [] e.o = "assign_word" -> Put(e.s, OfWord(e), st)
      [] e.o = "value" -> Put(e.s, 0, st)
      [] e.o = "value_of" -> Put(e.s, Get(e.t, st), st)
      [] e.o = "value_of_word" -> Put(e.s, OfWord(e), st)
      [] e.o = "value_of_bool" -> Put(e.s, e.n, st)
      [] e.o \in Swaps -> LET a == Get(e.s, st)
                              b == Get(e.t, st)
                          IN Put(e.t, a, Put(e.s, b, st))
      [] e.o = "bind" -> [st EXCEPT !.ref[e.s] = e.n]
      [] e.o = "alias" -> [st EXCEPT !.ref[e.s] = st.ref[e.t]]
      [] OTHER -> st

T(p) == IF p THEN 1 ELSE 0
ReturnB(e, st, Word(_)) ==
    CASE e.o = "get" -> <<Get(e.s, st)>>
      [] e.o = "not" -> <<1 - Get(e.s, st)>>
      [] e.o \in {"loc", "pointer"} -> Word(st.ref[e.s])
      [] e.o = "and" -> <<Get(e.s, st) * Get(e.t, st)>>
      [] e.o = "or" -> <<T(Get(e.s, st) + Get(e.t, st) > 0)>>
      [] e.o = "xor" -> <<T(Get(e.s, st) # Get(e.t, st))>>
      [] e.o = "cmp" -> LET a == Get(e.s, st)
                            b == Get(e.t, st)
                        IN <<T(a = b), T(a # b), T(a < b), T(a <= b), T(a > b), T(a >= b)>>
      [] OTHER -> << >>
=============================================================================
