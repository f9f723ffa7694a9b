----------------------------- MODULE MCBitShare -----------------------------
(***************************************************************************)
(* How threads that change different words come to see only their own      *)
(* calls.  Threads call fill, or copy from constant bits, on a range of a  *)
(* storage of words; a call is a number of steps, each of which reads a    *)
(* word, or writes back a word of which it replaced the bits in the range. *)
(* TLC looks at every interleaving of them.                                *)
(*                                                                         *)
(* Flaw is a mistake made on purpose: "wide" also writes back, unchanged,  *)
(* the word after the range (or before it, in the last word of the storage)*)
(* - every single thread would still compute the right bits - and "same"   *)
(* lets the threads share a word, which the guarantee does not cover.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS D, Words, Threads, Flaw

Bits == 0..(D * Words - 1)
Word(i) == i \div D
WordsOf(f, t) == IF f = t THEN {} ELSE Word(f)..Word(t - 1)

VARIABLES store,    \* the bits
          first,    \* what they were
          call,     \* of each thread: [op, f, t, v]: fill [f,t) with v, or copy the constant bits v, v+1, ... there
          todo,     \* words it has yet to deal with
          reg,      \* of each thread: the word it read, and its contents; Idle if none
          const     \* the constant bits
vars == <<store, first, call, todo, reg, const>>

Idle == [w |-> -1, c |-> << >>]

Ranges == {r \in Bits \X (Bits \cup {D * Words}) : r[1] <= r[2]}
Calls == {[op |-> o, f |-> r[1], t |-> r[2], v |-> v] : o \in {"fill", "copy"}, r \in Ranges, v \in {0, 1}}

Touched(c) ==
    LET own == WordsOf(c.f, c.t)
    IN IF Flaw # "wide" \/ own = {} THEN own
       ELSE own \cup {IF Word(c.t - 1) + 1 < Words THEN Word(c.t - 1) + 1 ELSE IF Word(c.f) > 0 THEN Word(c.f) - 1 ELSE Word(c.f)}

Target(c, i) == IF c.op = "fill" THEN c.v ELSE const[i - c.f + c.v]   \* the bit that i becomes
Apart(cs) == \A s, t \in Threads : s # t =>
    IF Flaw = "same" THEN \A i \in Bits : ~(cs[s].f <= i /\ i < cs[s].t /\ cs[t].f <= i /\ i < cs[t].t)
    ELSE WordsOf(cs[s].f, cs[s].t) \cap WordsOf(cs[t].f, cs[t].t) = {}

Init ==
    /\ first \in {[i \in Bits |-> 0], [i \in Bits |-> i % 2]}
    /\ store = first
    /\ const = [i \in 0..(D * Words) |-> IF i % 3 = 0 THEN 1 ELSE 0]
    /\ call \in {cs \in [Threads -> Calls] : Apart(cs)}
    /\ todo = [t \in Threads |-> Touched(call[t])]
    /\ reg = [t \in Threads |-> Idle]

Read(t) ==
    /\ reg[t] = Idle
    /\ \E w \in todo[t] : reg' = [reg EXCEPT ![t] = [w |-> w, c |-> [j \in 0..(D - 1) |-> store[w * D + j]]]]
    /\ UNCHANGED <<store, first, call, todo, const>>
Write(t) ==
    /\ reg[t] # Idle
    /\ LET w == reg[t].w
           c == call[t]
       IN /\ store' = [i \in Bits |-> IF Word(i) # w THEN store[i] ELSE IF c.f <= i /\ i < c.t THEN Target(c, i) ELSE reg[t].c[i % D]]
          /\ todo' = [todo EXCEPT ![t] = @ \ {w}]
    /\ reg' = [reg EXCEPT ![t] = Idle]
    /\ UNCHANGED <<first, call, const>>
Next == \E t \in Threads : Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars

\* no thread writes a word that another may be reading or writing
RaceFree == \A s, t \in Threads : s # t /\ reg[s] # Idle => reg[s].w \notin todo[t]

Finished(t) == todo[t] = {}
\* what thread t sees of the words it was given once its call has ended
SeesOwn == \A t \in Threads : Finished(t) =>
    \A i \in Bits : (Word(i) \in WordsOf(call[t].f, call[t].t)
                     /\ (Flaw # "same" \/ (call[t].f <= i /\ i < call[t].t))) =>
        store[i] = IF call[t].f <= i /\ i < call[t].t THEN Target(call[t], i) ELSE first[i]
\* and all calls together are what they would have been one after another
Serial == (\A t \in Threads : Finished(t)) =>
    \A i \in Bits : store[i] = IF \E t \in Threads : call[t].f <= i /\ i < call[t].t
                               THEN Target(call[CHOOSE t \in Threads : call[t].f <= i /\ i < call[t].t], i)
                               ELSE first[i]
=============================================================================
