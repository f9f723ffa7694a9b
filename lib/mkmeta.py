#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the one source of both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ALG = "include/bitlib/bit-algorithms/"
ITER = "include/bitlib/bit-iterator/"
CONT = "include/bitlib/bit-containers/"
DET = ALG + "bit_algorithm_details.hpp"
BDT = ITER + "bit_details.hpp"
VEC = CONT + "bit_vector.hpp"
ROPE = "TLA+ (TLC): BitOps spec model-checked, recorded symbolic-bit traces of the real code validated against it"
HIST = "TLA+ (TLC): bit-vector state machine model-checked; histories generated from it and recorded in the real code are validated"

EXTENT = ("every pair of offsets within a word, every length from empty to many words, every legal overlap, every content, the "
          "unsigned word types of 8 to 64 bits, iterators over pointers and vectors, const or not, scalar and SIMD builds")
TESTS = ("the repository's tests compare each call with std:: on random vector<bool> contents at a handful of positions; they run one "
         "instruction set and never look at neighbouring bits of every word, every overlap and every alignment")
STORE = "every bit outside the {w} keeps its value, and no storage is accessed other than words that hold bits of the ranges given"

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))

ANOTE = ("TLC exhaustively checks the abstract operation against an independent bitwise definition for storages of a few bits, and "
         "validates each recorded execution of the real code (four compiler/SIMD builds, four word types, four storage placements) "
         "exactly; the sampled part is which calls are recorded: all offsets/lengths around word boundaries for small words, seeded "
         "random ones beyond")

prop("C01", "copy and move put exactly the source bits at the destination",
     "Copying or moving a bit range [first, last) to d_first makes bit i of the destination equal to the value bit i of the source had "
     "before the call, also when the destination begins before the source and overlaps it, and returns the iterator past the last bit "
     "written. " + STORE.format(w="destination").capitalize() + ".",
     ["inputs", "configurations"], EXTENT, TESTS, [ALG + "copy.hpp", ALG + "move.hpp", DET],
     [("word-aligned, same-alignment and unaligned paths of copy", ALG + "copy.hpp"), ("move", ALG + "move.hpp"),
      ("get_word / write_word / get_masked_word", DET)], ROPE, ANOTE)
prop("C02", "copy_backward puts exactly the source bits before the destination's end",
     "copy_backward(first, last, d_last) makes the bits that end at d_last equal to the values [first, last) had before the call, also when "
     "the destination ends after the source and overlaps it, and returns the iterator to the first bit written. "
     + STORE.format(w="destination").capitalize() + ".",
     ["inputs", "configurations"], EXTENT, TESTS, [ALG + "copy_backward.hpp", DET],
     [("aligned and unaligned backward loops", ALG + "copy_backward.hpp")], ROPE, ANOTE)
prop("C03", "fill sets exactly the bits of its range",
     "fill(first, last, value) gives every bit of [first, last) the value. " + STORE.format(w="range").capitalize() + ".",
     ["inputs", "configurations"], EXTENT, TESTS, [ALG + "fill.hpp", DET],
     [("masked first and last word, whole words between", ALG + "fill.hpp")], ROPE, ANOTE)
prop("C04", "shift_left moves the bits of a range towards its beginning",
     "shift_left(first, last, n) moves bit i+n of the range to position i for every i for which both exist, and changes nothing for n = 0 "
     "and for every n from the length of the range up, and returns the end of the moved bits as std::shift_left does. "
     + STORE.format(w="range").capitalize() + " (otherwise the values of vacated bits are unspecified).",
     ["inputs", "configurations"], EXTENT + "; every shift count", TESTS, [ALG + "shift.hpp", DET],
     [("shift_left", ALG + "shift.hpp")], ROPE, ANOTE)
prop("C05", "shift_right moves the bits of a range towards its end",
     "shift_right(first, last, n) moves bit i of the range to position i+n for every i for which both exist, and changes nothing for n = 0 "
     "and for every n from the length of the range up, and returns the beginning of the moved bits as std::shift_right does. "
     + STORE.format(w="range").capitalize() + " (otherwise the values of vacated bits are unspecified).",
     ["inputs", "configurations"], EXTENT + "; every shift count", TESTS, [ALG + "shift.hpp", DET],
     [("shift_right", ALG + "shift.hpp")], ROPE, ANOTE)
prop("C06", "rotate makes the middle bit the first and loses no bit",
     "rotate(first, n_first, last) replaces the range by the bits of [n_first, last) followed by those of [first, n_first), for every n_first "
     "from first to last inclusive, and returns the new position of the bit that was first. " + STORE.format(w="range").capitalize() + ".",
     ["inputs", "configurations"], EXTENT + "; every middle", TESTS, [ALG + "rotate.hpp", DET],
     [("rotate: within a word, small left or right part, recursive", ALG + "rotate.hpp")], ROPE, ANOTE)
prop("C07", "reverse mirrors the bits of a range",
     "reverse(first, last) makes bit i of the range equal to what bit length-1-i was before the call. "
     + STORE.format(w="range").capitalize() + ".",
     ["inputs", "configurations"], EXTENT, TESTS, [ALG + "reverse.hpp", ITER + "bit_details.hpp"],
     [("reversing word pairs, then realigning", ALG + "reverse.hpp"), ("word bit reversal", ITER + "bit_details.hpp")], ROPE, ANOTE)
prop("C08", "swap_ranges exchanges two bit ranges",
     "swap_ranges(first1, last1, first2) exchanges bit i of the two ranges for every i and returns the end of the second range. "
     + STORE.format(w="two ranges").capitalize() + ".",
     ["inputs", "configurations"], EXTENT + " (the ranges are disjoint, possibly within one word)", TESTS, [ALG + "swap_ranges.hpp", DET],
     [("aligned and unaligned exchange loops", ALG + "swap_ranges.hpp")], ROPE, ANOTE)
prop("C09", "unary transform applies its word function to exactly the range",
     "transform(first, last, d_first, op) with a bitwise operation op makes bit i of the destination op of what bit i of the source was, also "
     "in place, and returns the end of the destination. " + STORE.format(w="destination").capitalize() + ".",
     ["inputs", "configurations"], EXTENT + "; the four functions of one bit", TESTS, [ALG + "transform.hpp", DET],
     [("unary transform, aligned and unaligned", ALG + "transform.hpp")], ROPE, ANOTE)
prop("C10", "binary transform combines exactly the two ranges",
     "transform(first1, last1, first2, d_first, op) with a bitwise operation op makes bit i of the destination op of what bits i of the two "
     "sources were, also when the destination is one of them, and returns the end of the destination. "
     + STORE.format(w="destination").capitalize() + ".",
     ["inputs", "configurations"], EXTENT + "; functions of two bits", TESTS, [ALG + "transform.hpp", DET],
     [("binary transform, aligned and unaligned", ALG + "transform.hpp")], ROPE, ANOTE)
prop("C11", "equal compares exactly the bits of its ranges",
     "equal(first1, last1, first2) is true if and only if bit i of the first range equals bit i of the second for every i. It changes nothing "
     "and reads no storage other than words that hold bits of the two ranges.",
     ["inputs", "configurations"], EXTENT + "; ranges that differ in any single bit or only outside the range", TESTS,
     [ALG + "equal.hpp", DET], [("aligned and unaligned comparison", ALG + "equal.hpp")], ROPE, ANOTE)
prop("C12", "find returns the first bit of the wanted value",
     "find(first, last, value) returns the first position in [first, last) whose bit has the value, and last if there is none. It changes "
     "nothing and reads no storage other than words that hold bits of the range.",
     ["inputs", "configurations"], EXTENT + "; the sought bit in any position, or only outside the range", TESTS, [ALG + "find.hpp", DET],
     [("first partial word, SIMD blocks, words, last partial word", ALG + "find.hpp")], ROPE, ANOTE)
prop("C13", "count counts exactly the bits of its range",
     "count(first, last, value) returns the number of bits of [first, last) that have the value. It changes nothing and reads no storage "
     "other than words that hold bits of the range.",
     ["inputs", "configurations"], EXTENT, TESTS, [ALG + "count.hpp", ALG + "libpopcnt.h"],
     [("partial words and libpopcnt in between", ALG + "count.hpp")], ROPE, ANOTE)
prop("C14", "bit algorithms stay within the words of their ranges",
     "No bit algorithm (copy, move, copy_backward, fill, shifts, rotate, reverse, swap_ranges, transform, equal, find, count) reads or writes "
     "memory other than words that hold bits of the ranges it is given; bits of these words outside the ranges keep their values. This holds "
     "when the ranges' words end or begin exactly at inaccessible memory, for empty ranges at the end of storage, and for every alignment.",
     ["inputs", "configurations"], EXTENT + "; storage that begins or ends at an inaccessible page", TESTS + "; nothing checks reads",
     [ALG + f for f in ("copy.hpp", "copy_backward.hpp", "fill.hpp", "shift.hpp", "rotate.hpp", "reverse.hpp", "swap_ranges.hpp",
                        "transform.hpp", "equal.hpp", "find.hpp", "count.hpp")] + [DET],
     [("word_shift / get_word / write_word across word boundaries", DET), ("every algorithm's tail handling", ALG)], ROPE, ANOTE)
prop("C15", "long ranges and SIMD builds give the same results as short scalar ones",
     "Every bit algorithm gives on ranges of thousands of bits, in every instruction set it is compiled for (scalar, SSE2, AVX2, AVX-512) and for "
     "every word type, the result its definition prescribes bit by bit. In particular SIMD builds agree with scalar ones on every input.",
     ["inputs", "configurations"], "ranges long enough for every vectorised loop, its remainders and its alignment peeling; " + EXTENT,
     "the tests are built for one instruction set, with ranges of random lengths and contents that rarely place a difference in the last lanes",
     [ALG + f for f in ("find.hpp", "shift.hpp", "equal.hpp", "count.hpp", "libpopcnt.h", "copy.hpp", "rotate.hpp", "reverse.hpp")] + [DET],
     [("SIMD blocks of find", ALG + "find.hpp"), ("SIMD word shifts", ALG + "shift.hpp"), ("libpopcnt dispatch", ALG + "libpopcnt.h")], ROPE, ANOTE)
prop("C16", "sequences of bit:: and std:: algorithm calls act as on plain bits",
     "After any sequence of calls of the library's algorithms and of std:: algorithms over bit iterators (copy, rotate, reverse, sort, transform, "
     "fill, find, count and others) on the same storage, every bit has the value that performing each call on a plain sequence of "
     "bits gives, and every call returns what it would return there.",
     ["histories", "inputs"], "every sequence of such calls on one storage, mixing library and std:: algorithms at any positions",
     "each test makes one call on fresh data; std:: algorithms over bit iterators are tested hardly at all",
     [ALG + "bit_algorithm.hpp", ITER + "bit_iterator.hpp", ITER + "bit_reference.hpp", ITER + "bit_value.hpp"],
     [("iterator arithmetic", ITER + "bit_iterator.hpp"), ("proxy reference assignment and swap", ITER + "bit_reference.hpp")], ROPE, ANOTE)

VTESTS = ("the repository's tests make one or two calls on a fresh vector of a random size and compare with vector<bool>; what a call leaves "
          "beyond the last bit, in the capacity or in a shared block shows only later in a history")
VNOTE = ("TLC exhaustively explores the vector's state machine on word-level models of small vectors and checks that they refine it; "
         "histories recorded from the real code (three slots, four word types, 32 contents at once, guarded memory, two compilers) are "
         "validated by TLC against the same state machine event by event; the sampled part is which histories are recorded")
VHIST = "every history of calls on several vectors, sizes on both sides of every word and capacity boundary, every content, all word types"

prop("C17", "after any history a bit_vector holds the bits plain sequences would hold",
     "After any sequence of calls on bit_vectors (construction, push_back, pop_back, insert, erase, resize, clear, reserve, shrink_to_fit, "
     "assignment, swap, element writes, algorithms over their iterators), size() and every element equal those of a std::vector<bool> put "
     "through the same calls, and iterators returned by insert and erase designate the position the standard prescribes. Indexing, at, "
     "front/back, iterators (const or not), data() and debug_string all show the same bits.",
     ["histories", "inputs"], VHIST, VTESTS, [VEC, ALG + "shift.hpp", ALG + "copy.hpp", ALG + "fill.hpp"],
     [("insert, erase, resize, push_back over whole words", VEC)], HIST, VNOTE)
prop("C18", "growing a bit_vector shows exactly the bits that were asked for",
     "Whatever bits a vector held before, in its last word or in words it gave up, resize to a larger size appends exactly the requested value "
     "(bit0 by default), and insert and push_back add exactly the bits given. Bits dropped by pop_back, erase, clear or a smaller resize never "
     "reappear, and existing elements never change.",
     ["histories", "inputs"], VHIST, VTESTS + "; a resize that reuses a partly filled last word is not among them", [VEC],
     [("resize", VEC), ("insert(pos, count, value)", VEC), ("word_count", VEC)], HIST, VNOTE)
prop("C19", "every constructor builds the vector its arguments describe",
     "Each constructor (default, size, size and value, iterator pairs over bits, bools and words, initializer lists of bit_value, bool and "
     "words, string, copy and move, with or without allocator) makes a vector of exactly the bits its arguments describe, which then behaves like any "
     "other vector, with memory for at most about twice these bits. The allocator passed, or obtained from the source, is the one that provides its memory.",
     ["inputs", "configurations"], "every constructor at every length around word boundaries, every content, all word types, stateful allocators",
     "the tests construct vectors of a few random sizes and never pass an allocator", [VEC],
     [("Vector<..., It> iterator pair specialisations", VEC), ("allocator-extended constructors", VEC)], HIST, VNOTE)
prop("C20", "capacity covers size, reserve holds, and push_back grows geometrically",
     "capacity() is never less than size() nor more than the memory owned, reserve(n) provides capacity for n bits, and until the size exceeds the capacity no "
     "push_back, insert or resize allocates or moves the elements, so iterators stay valid; erase, pop_back, clear and element writes never change "
     "capacity or move elements. When push_back or single-bit insert reallocate, the capacity grows geometrically; shrink_to_fit never increases it.",
     ["histories"], VHIST, "the tests compare capacities of fresh vectors once; no test watches addresses or allocations over a history", [VEC],
     [("reserve, capacity, shrink_to_fit", VEC), ("push_back", VEC)], HIST, VNOTE)
prop("C21", "copies are independent; moves and swaps hand over the storage itself",
     "A copy (construction or assignment, self-assignment included) equals its source and shares no storage with it, so later changes to either never show in "
     "the other. Move construction, move assignment and swap between vectors with equal allocators allocate nothing and hand over the very "
     "block of memory; a moved-from vector is empty after construction and in any case valid for reuse; with unequal allocators the bits are transferred all the same.",
     ["histories", "configurations"], VHIST + "; stateful allocators that compare unequal", VTESTS, [VEC],
     [("copy / move constructors and assignment", VEC)], HIST, VNOTE)
prop("C22", "element access reads and writes exactly the bit addressed, at checks bounds",
     "operator[], at, front, back, data() and dereferenced iterators, const or not, read and write exactly the bit addressed and no other, also "
     "after the vector grew, shrank or was reallocated. at throws std::out_of_range for every index that is not below size(), however large, "
     "even if memory for it is reserved, and changes nothing.",
     ["inputs", "histories"], "every index up to the largest value of size_type, every size, every history before it", VTESTS, [VEC, ITER + "bit_reference.hpp"],
     [("at, operator[], front, back", VEC), ("bit_reference set/reset/flip/assignment", ITER + "bit_reference.hpp")], HIST, VNOTE)
CURS = "TLA+ (TLC): cursor state machine model-checked against a word-level design; recorded uses of the real types validated"
CNOTE = ("TLC exhaustively checks for small words and distances that word-and-position arithmetic with C++ division refines index arithmetic and obeys "
         "the laws of random access iterators; histories recorded from the real types (four word types, distances up to 2^60 bits, "
         "two compilers) are validated by TLC; the sampled part is which positions and distances are recorded: all around word boundaries, seeded beyond")
CTESTS = "the tests try a few increments and small positive distances; negative distances, far distances, and mixed const types are sampled hardly at all"
prop("C23", "bit iterators are random access iterators over the bits of their words",
     "bit_iterator, const or not and also as bit_vector's iterator and const_iterator, does what its bit index implies: ++, --, +=, -=, +, - and [] by any positive, negative or "
     "large distance lead to the bit that far away, differences are exact distances in bits, and the six comparisons order by index. base(), "
     "position(), mask() and the address and position of the reference show exactly that bit (position below the word's digits); copies and conversions to const keep it.",
     ["inputs", "histories"], "every starting position, every distance of either sign up to the largest difference, every sequence of such operations, all word types",
     CTESTS, [ITER + "bit_iterator.hpp", ITER + "bit_reference.hpp", VEC],
     [("operator+=, -=, +, - split a distance into words and bits", ITER + "bit_iterator.hpp"), ("operator- and comparisons", ITER + "bit_iterator.hpp"),
      ("address, position, mask", ITER + "bit_reference.hpp")], CURS, CNOTE)
prop("C24", "bit pointers behave as plain pointers do, one bit at a time",
     "bit_pointer, to mutable or const words, does what a pointer to the bit of its index would do: arithmetic by any signed distance, differences, the six comparisons, "
     "[], * and -> address exactly the bit implied, and &*p gives p back. Copies, assignments (also to and from null), swaps and conversions to const keep the bit addressed; "
     "default and nullptr pointers are null, equal to each other and to no other, and convert to false.",
     ["inputs", "histories"], "every starting position, every distance of either sign, every sequence of such operations, null or not, all word types",
     CTESTS, [ITER + "bit_pointer.hpp", ITER + "bit_reference.hpp"],
     [("arithmetic and comparison", ITER + "bit_pointer.hpp"), ("bit_reference::operator&", ITER + "bit_reference.hpp")], CURS, CNOTE)
prop("C25", "references and values of single bits act on exactly their bit",
     "Every operation of bit_reference and bit_value (assignment from references, values and words, &=, |=, ^=, set, reset, flip, ~, &, |, ^, comparisons, bool, "
     "member, free and iterator swap, in every mix of word types, const and volatile) reads the bits designated and writes exactly the bit designated, with the result a "
     "bit in {0, 1} has. A reference never moves when assigned to, aliases and neighbours in the same word included, and &, address, position and mask show its bit.",
     ["histories", "inputs"], "every bit of words of every width, every content of the rest of the word, every mix and aliasing of operands, every sequence of such operations",
     "the tests sample a few operations on random bits of one word type at a time; no test mixes word types or aliases operands",
     [ITER + "bit_reference.hpp", ITER + "bit_value.hpp", ITER + "bit_pointer.hpp"],
     [("masks combined into words", ITER + "bit_reference.hpp"), ("swaps that flip both sides", ITER + "bit_reference.hpp"), ("value operators", ITER + "bit_value.hpp")],
     "TLA+ (TLC): state machine of bits, references and values model-checked against masks in words; recorded histories validated",
     "TLC explores all operations on all states of a small storage with two references and two values and checks that the mask design refines the "
     "machine; histories recorded from the real classes (10 references of seven types, three compilers) are validated by TLC; the sampled part is which histories are recorded")
prop("C26", "bits go to and come from text exactly, and failed extraction changes nothing",
     "is >> b (bit_value, bit_reference; char and wchar_t) takes one '0' or '1' after optional white space and sets exactly b to it; in every other case (other character, "
     "end, stream not good, buffer that throws) b keeps its value, failbit (or badbit) is set and a character that is no bit stays in the stream. "
     "os << b writes '0' or '1' as one formatted character. A bit_vector made from a string has the bits of its 0s and 1s in order, other characters skipped, and debug_string "
     "shows its bits in order with '.' between bytes and a blank between words.",
     ["inputs", "histories"], "every text, every state, exception mask and kind of buffer of the stream, every width, fill and alignment, every string and range of bits",
     "no test streams bits at all; strings of a few lengths are parsed", [ITER + "bit_value.hpp", ITER + "bit_reference.hpp", VEC],
     [("operator>> twice: sentry, sbumpc, sputbackc, setstate", ITER + "bit_value.hpp"), ("the same for references", ITER + "bit_reference.hpp"),
      ("constructor from strings, debug_string", VEC)],
     "TLA+ (TLC): stream state machine model-checked against the extraction procedure; recorded uses of real streams and strings validated",
     "TLC explores all short texts, flags and exception masks and checks that the extraction procedure refines the specification, and text round trips; "
     "recorded uses of real streams (string buffers and three other kinds of buffers, char and wchar_t) are validated by TLC; the sampled part is which uses are recorded")
prop("C27", "calls that get no memory throw and leave every vector as it was",
     "When an allocation a call needs fails, or a size is requested that no memory can hold (up to the largest value of size_type), the call throws "
     "(std::bad_alloc or std::length_error) rather than wrap, terminate or corrupt. All vectors then have the contents, capacity and storage they had before "
     "(the target of a copy assignment is only promised to stay valid), no memory is lost, and they can be used further.",
     ["fault_sequences", "histories"], "every allocation of every kind of call refused, alone or with all later ones; sizes near SIZE_MAX and SIZE_MAX/2",
     "no test makes an allocation fail or asks for an absurd size", [VEC],
     [("insert's order of growing and shifting", VEC), ("word_count near the top of size_type", VEC), ("noexcept of the move operations", VEC)], HIST, VNOTE)
prop("C28", "beyond 2^32 bits everything works as it does for short ranges",
     "Every algorithm on ranges of more than 2^32 bits (or bytes, or words of them), and every bit_vector of more than 2^32 bits under insertion, erasure, resizing, "
     "copying and element access, has the effect and results it has for short ones: no count, distance, position or size is cut to 32 bits. "
     "A vector made or copied takes no more than twice the words its bits need.",
     ["inputs", "histories"], "ranges of 2^32 to 2^38 bits at all offsets, vectors around and over 2^32 bits, all word types, scalar and SIMD",
     "no test uses more than some thousand bits", [ALG + "count.hpp", ALG + "shift.hpp", ALG + "copy.hpp", DET, VEC, ITER + "bit_iterator.hpp"],
     [("byte and word counts", ALG + "count.hpp"), ("distances in loops over words", DET), ("sizes in insert and resize", VEC), ("constructors of ranges and strings", VEC)],
     "TLA+ (TLC): BitOps and BitHuge over pairs of integers, model-checked against the small ones; recorded sequences of huge calls validated",
     "TLC checks for small storages that the specification over pairs of integers means what it means over integers, and validates sequences of calls recorded on "
     "storages of 2^33 to 2^37 bits (contents of few runs); the sampled part is which calls are recorded")
prop("C29", "threads can share constant bits and change bits in different words",
     "Threads that at the same time read the same constant bits or const bit_vector (algorithms, element access, iteration, copies) while each changes bits only in words, or a "
     "vector, of its own do so without a data race, and each call has the effect and result it has alone: no call writes constant bits, words outside its range (not even "
     "with the value they hold), or state shared behind the scenes.",
     ["schedules", "histories"], "every interleaving of any number of threads making any calls, with ranges that begin and end in neighbouring words of one storage",
     "no test uses threads; a run shows one schedule, and a word rewritten with its own value looks untouched",
     [ALG + f for f in ("copy.hpp", "copy_backward.hpp", "fill.hpp", "shift.hpp", "rotate.hpp", "reverse.hpp", "swap_ranges.hpp", "transform.hpp", "count.hpp")] + [DET, ITER + "bit_reference.hpp", VEC],
     [("partial first and last words are read, blended and written back; whole words between written", DET), ("const members of bit_vector", VEC)],
     "TLA+ (TLC): all interleavings of threads that read and write back words model-checked; recorded runs of real threads (with ThreadSanitizer) validated",
     "TLC explores all interleavings of two threads (three in the thorough tier) that call fill or copy on a small storage and rejects designs that write back a neighbouring word; recorded runs of "
     "2 to 4 real threads are validated, each thread against its own calls alone; ThreadSanitizer reports accesses without order between them whatever the schedule; the sampled part is which calls are made")
prop("C30", "bit_vectors use only their own live memory and give all of it back",
     "Over any history, bit_vectors read and write only memory they own at that time: nothing before or after their block, no freed block, and no memory of another "
     "vector. Every block is given back exactly once, to the allocator it came from, and none is left when the vectors are gone.",
     ["histories", "fault_sequences"], VHIST + "; under AddressSanitizer, or with blocks against inaccessible pages", "the tests run without memory checkers", [VEC, DET] + [ALG + f for f in ("shift.hpp", "copy.hpp", "copy_backward.hpp")],
     [("shifts of the tail in insert and erase", VEC), ("read of uninitialised or freed words", DET)], HIST, VNOTE)
prop("C31", "word operations give the mathematical result, with or without intrinsics",
     "For every unsigned word type, all operands and all field positions, the word operations of bit_details (population, leading-zero and trailing-zero counts; extraction and deposit of a field or by a "
     "mask; byte and bit reversal; blend and exchange of fields; double shifts; addition with carry, subtraction with borrow, full multiplication) give the mathematical result: the same with and "
     "without compiler intrinsics, at run time and in constant expressions. Counts of a zero word are its width, fields that reach past the word are cut off there, and shifts by zero change nothing. "
     "The type helpers name the narrowest, widest, next narrower and next wider word type.",
     ["inputs", "configurations"], "all words, field positions and lengths, carries and masks; words of 8 to 64 bits, intrinsics and portable variants, constant expressions",
     "the tests use the word operations only through the algorithms, in one variant, with few values", [BDT],
     [("_popcnt, _lzcnt, _tzcnt, _bextr, _pdep, _pext, _byteswap, _bitswap, _bitblend, _bitexch, _shld, _shrd, _addcarry, _subborrow, _mulx", BDT), ("_narrower_type, _wider_type", BDT)],
     "TLA+ (TLC): BitInstr defines every operation by bits or by integers of limbs; its algorithms model-checked against that, recorded calls validated",
     "TLC checks for all small words that the algorithms the code uses meet the definitions (flawed ones are rejected) and validates calls recorded from every build; the sampled part is which operands "
     "are recorded: every 8-bit word of the operations on one word (in the thorough tier every pair for two words), else positions and lengths over the whole width with boundary and random values")
prop("C32", "calls within their preconditions do nothing the language leaves undefined",
     "Calls of the algorithms, vectors, iterators, references, pointers, values, words and text functions that keep their preconditions do not shift by a word's width or more, overflow signed "
     "arithmetic, form an address of a word outside the range's words and their end, follow an address that is no word of the storage (the end included), or use an iterator that the call has "
     "invalidated; the iterators they return are valid. So no compiler may make them do anything but what is promised.",
     ["inputs", "histories"], "the inputs and histories of the other properties, in builds that trap undefined operations, over word iterators that report leaving their words",
     "undefined operations often have the expected effect on one compiler at one optimisation level", [BDT, DET, VEC] + [ALG + f for f in ("shift.hpp", "copy.hpp", "copy_backward.hpp", "count.hpp", "transform.hpp")],
     [("shifts by digits - n", BDT), ("loops over words that hold the next or the previous address", ALG + "shift.hpp"), ("&*it of a partial last word that is not there", ALG + "count.hpp"),
      ("iterators returned by insert and erase", VEC)],
     "TLA+ (TLC): walks over word addresses model-checked (formed stay, followed are words); calls recorded in trapping builds validated against the other specifications",
     "TLC explores the walks of count, copy_backward and shift_right for small storages and rejects flawed ones; calls recorded in builds with -fsanitize=undefined (a trap ends the recording, which no behaviour allows), "
     "with word iterators that record leaving their words and with checked std::vector iterators, are validated; the sampled part is which calls are recorded")
prop("C33", "words of any width can be read and written at any bit position",
     "get_word gives the next n bits of a range (up to the width of the value's type, which may be narrower or wider than the words) and reads only words that hold them; write_word puts the low "
     "n bits of a value of any word type at a bit position and changes nothing else. is_within says for every length whether a range has at most so many bits; _padded_read gives the bits of a range that lie in its first "
     "word, padded with the bit asked for. word_shift_left and word_shift_right move the words of a range by n, keep what is outside, and return the end or the beginning of what was moved.",
     ["inputs"], "all pairs of word types and value types, positions, lengths and contents; storages with inaccessible memory before or after them",
     "the algorithms use these pieces only for values as wide as the words, and the tests only through them", [DET],
     [("blending the rest of one word and the beginning of the next", DET), ("recursion over words of is_within<N>", DET), ("masks of _padded_read", DET)],
     "TLA+ (TLC): BitWindow says what each piece does; the loops over words model-checked against it, recorded calls validated",
     "TLC checks for all small storages, values and positions that the loops of get_word, write_word and the moves meet the definition and touch only the words they need (flawed ones are rejected), and "
     "validates recorded calls; the sampled part is which positions, lengths and contents are recorded")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import registry\"",
         "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's headers as they are", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                     "thorough_cmd": "python3 check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                    for p in P if p["id"] in CHECKS],
         "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in P if p["id"] not in CHECKS]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
