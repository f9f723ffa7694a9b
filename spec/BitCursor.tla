------------------------------ MODULE BitCursor ------------------------------
(***************************************************************************)
(* Bit iterators and bit pointers as a state machine.                      *)
(*                                                                         *)
(* A few registers hold cursors.  A cursor designates the bit of index p   *)
(* (a Wide number; bit p is bit p mod D of word p div D, D bits to the     *)
(* word), or is null, or the register was never set.  Everything a cursor  *)
(* can do is arithmetic on p: this is what it means for bit_iterator and   *)
(* bit_pointer to be random access iterators over bits.                    *)
(*                                                                         *)
(* A call is a record e: operation e.o, registers e.s and e.t, a number    *)
(* e.n (Wide), and D in e.d.  Registers of pointers to const words can be  *)
(* set from the others, not conversely: 1..Mutable hold the others.        *)
(***************************************************************************)
EXTENDS Wide

Unset == [k |-> 0, p |-> Of(0)]
Null == [k |-> 1, p |-> Of(0)]
At(p) == [k |-> 2, p |-> p]
Mutable == 4
Registers == 7
One_ == Of(1)

Loc(p, d) == <<WDiv(p, d), Of(WMod(p, d))>>          \* word and position
B(x) == IF x THEN Of(1) ELSE Of(0)
Six(x, y) == <<B(x = y), B(x # y), B(WLt(x, y)), B(WLe(x, y)), B(WLt(y, x)), B(WLe(y, x))>>

Moves == {"plus", "nplus", "next", "minus", "prev"}       \* t := s moved by n
Steps == {"inc", "dec", "postinc", "postdec", "add", "sub", "advance", "neg_add", "neg_sub"}
Looks == {"deref", "index", "arrow", "addr", "ref", "rev", "mask"}
Ops == Moves \cup Steps \cup Looks \cup
       {"make", "make0", "null", "assign_null", "conv", "assign", "swap", "diff", "distance", "cmp", "eq", "bool", "readdr"}

Distance(e, v) ==    \* how far e moves a cursor
    CASE e.o \in {"plus", "nplus", "next", "add", "advance", "neg_sub"} -> e.n
      [] e.o \in {"minus", "prev", "sub", "neg_add"} -> WNeg(e.n)
      [] e.o \in {"inc", "postinc"} -> Of(1)
      [] e.o \in {"dec", "postdec"} -> Of(-1)
      [] OTHER -> Of(0)

LegalC(e, v) ==
    /\ e.o \in Ops /\ e.s \in 1..Registers /\ e.t \in 1..Registers /\ IsWide(e.n)
    /\ e.o \in Moves \cup Steps \cup Looks \cup {"diff", "distance", "cmp", "readdr"} => v[e.s].k = 2
    /\ e.o \in {"diff", "distance", "cmp"} => v[e.t].k = 2
    /\ e.o \in {"eq", "bool"} => v[e.s].k # 0
    /\ e.o = "eq" => v[e.t].k # 0
    /\ e.o \in {"conv", "assign", "swap"} => v[e.s].k # 0
    /\ e.o \in {"swap"} => v[e.t].k # 0 /\ (e.s <= Mutable <=> e.t <= Mutable)
    /\ e.o \in {"conv", "assign", "readdr"} \cup Moves => (e.t <= Mutable => e.s <= Mutable)

AfterC(e, v) ==
    CASE e.o = "make" -> [v EXCEPT ![e.s] = At(e.n)]
      [] e.o = "make0" -> [v EXCEPT ![e.s] = At(WMinus(e.n, Of(WMod(e.n, e.d))))]   \* from the word alone
      [] e.o \in {"null", "assign_null"} -> [v EXCEPT ![e.s] = Null]
      [] e.o \in {"conv", "assign", "readdr"} -> [v EXCEPT ![e.t] = v[e.s]]
      [] e.o = "swap" -> [v EXCEPT ![e.s] = v[e.t], ![e.t] = v[e.s]]
      [] e.o \in Moves -> [v EXCEPT ![e.t] = At(WPlus(v[e.s].p, Distance(e, v)))]
      [] e.o \in Steps -> [v EXCEPT ![e.s] = At(WPlus(v[e.s].p, Distance(e, v)))]
      [] OTHER -> v

ReturnC(e, v) ==
    LET p == v[e.s].p
        q == v[e.t].p
    IN CASE e.o \in {"inc", "dec", "add", "sub", "advance", "neg_add", "neg_sub"} -> Loc(WPlus(p, Distance(e, v)), e.d)
         [] e.o \in {"postinc", "postdec"} -> Loc(p, e.d)
         [] e.o \in {"deref", "arrow", "addr", "ref"} -> Loc(p, e.d)
         [] e.o = "index" -> Loc(WPlus(p, e.n), e.d)
         [] e.o = "rev" -> Loc(WMinus(p, WPlus(e.n, Of(1))), e.d)
         [] e.o = "mask" -> <<Of(WMod(p, e.d))>>
         [] e.o = "diff" -> <<WMinus(p, q)>>
         [] e.o = "distance" -> <<WMinus(q, p)>>
         [] e.o = "cmp" -> Six(p, q)
         [] e.o = "eq" -> <<B(v[e.s] = v[e.t]), B(v[e.s] # v[e.t])>>
         [] e.o = "bool" -> <<B(v[e.s].k = 2)>>
         [] OTHER -> << >>
=============================================================================
