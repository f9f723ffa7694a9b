// Drives the bit algorithms of the library and records what they did as a
// trace that spec/BitMemTrace.tla validates.
//
// A session is a storage of N bits (a rope, see spec/Rope.tla), and one or
// more calls on it.  Every session runs for four word types, and for each of
// them several times: with symbolic bits, once per "plane" -- an assignment
// of values to the tokens; the planes together decide which token, inverted
// token or constant every bit of the storage became -- and with known bits,
// a few times with the same data.  Runs rotate through placements of the
// storage (in the middle of canaries at several alignments, right before an
// inaccessible page, right after one, every operand in pages of its own) and
// through kinds of iterators.
//
// The harness never computes what a call should do: it only records what it
// did.  Outcomes that are equal for all word types are written once.
//
//   alg --seed S --tier quick|thorough --shard I/N [--only SID] [--list]
// Output lines: SID \t word sizes \t outcome (JSON events separated by \x1f)

#include "common.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <tuple>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include "bitlib/bitlib.hpp"

#ifndef GROUP
#error "define GROUP"
#endif

// ------------------------------------------------------------------- calls
// macros, for the preprocessor to select by
#define COPY 0
#define MOVE 1
#define COPYB 2
#define FILL 3
#define SHL 4
#define SHR 5
#define ROT 6
#define REV 7
#define SWAPR 8
#define EQUAL 9
#define FIND 10
#define COUNT 11
#define SORT 12
#define U_NOT 13
#define U_ID 14
#define U_ZEROS 15
#define U_ONES 16
#define B_AND 17
#define B_OR 18
#define B_XOR 19
#define B_ANDNOT 20
#define B_NAND 21
#define B_NOR 22
#define B_XNOR 23
#define B_ORNOT 24
#define B_FIRST 25
#define B_SECOND 26
#define REVC 27
#define ROTC 28
#define BSET 29
#define BFLIP 30
#define BCOPY 31
#define BSWAP 32
#define BAND 33
#define BOR 34
#define BXOR 35
#define BGET 36
#define NOPS 37
static const char* NAME[] = {"copy", "move", "copy_backward", "fill", "shift_left", "shift_right", "rotate",
    "reverse", "swap_ranges", "equal", "find", "count", "sort", "not", "id", "zeros", "ones",
    "and", "or", "xor", "andnot", "nand", "nor", "xnor", "ornot", "first", "second",
    "reverse_copy", "rotate_copy", "bit_set", "bit_flip", "bit_copy", "bit_swap", "bit_and", "bit_or",
    "bit_xor", "bit_get"};
static int arity(int op) {
    switch (op) {
    case REV: case SORT: case BSET: case BCOPY: case BSWAP: case BAND: case BOR: case BXOR: return 2;
    case BFLIP: case BGET: return 1;
    case ROTC: return 4;
    default: return op >= B_AND && op <= B_SECOND ? 4 : 3;
    }
}
static bool is_un(int op) { return op >= U_NOT && op <= U_ONES; }
static bool is_bin(int op) { return op >= B_AND && op <= B_SECOND; }
static bool is_data(int op) { return op == EQUAL || op == FIND || op == COUNT || op == SORT || op == BGET; }

// std: the std:: algorithm over bit iterators rather than the library's own
struct Call { u8 op; bool std_; i64 a[4]; };
struct Sess { int n; bool concrete; Rope pre; std::vector<Call> calls; };

struct Range { i64 lo, hi; };
// the bit ranges a call is given
static int ranges(const Call& c, Range* r) {
    const i64* a = c.a; i64 k = a[1] - a[0];
    switch (c.op) {
    case COPY: case MOVE: case SWAPR: case EQUAL: case REVC: case U_NOT: case U_ID: case U_ZEROS: case U_ONES:
        r[0] = {a[0], a[1]}; r[1] = {a[2], a[2] + k}; return 2;
    case COPYB: r[0] = {a[0], a[1]}; r[1] = {a[2] - k, a[2]}; return 2;
    case FILL: case FIND: case COUNT: case SHL: case SHR: case REV: case SORT: r[0] = {a[0], a[1]}; return 1;
    case ROT: r[0] = {a[0], a[2]}; return 1;
    case ROTC: r[0] = {a[0], a[2]}; r[1] = {a[3], a[3] + a[2] - a[0]}; return 2;
    case BSET: case BFLIP: case BAND: case BOR: case BXOR: case BGET: r[0] = {a[0], a[0] + 1}; return 1;
    case BCOPY: case BSWAP: r[0] = {a[0], a[0] + 1}; r[1] = {a[1], a[1] + 1}; return 2;
    default: r[0] = {a[0], a[1]}; r[1] = {a[2], a[2] + k}; r[2] = {a[3], a[3] + k}; return 3;
    }
}

// ---------------------------------------------------- performing one call
static const i64 VOIDRET = INT64_MIN;

template <class W> using VIt = typename std::vector<W>::iterator;
template <class W> using VCIt = typename std::vector<W>::const_iterator;
// word iterators over raw memory
template <class It, class W> struct Mk;
template <class W> struct Mk<W*, W> { static W* at(W* p) { return p; } };
template <class W> struct Mk<const W*, W> { static const W* at(W* p) { return p; } };
template <class W> struct Mk<VIt<W>, W> { static VIt<W> at(W* p) { return VIt<W>(p); } };
template <class W> struct Mk<VCIt<W>, W> { static VCIt<W> at(W* p) { return VCIt<W>(VIt<W>(p)); } };

// a word iterator that does not leave the words of the operand it belongs to, nor touch what is not one of them
static const void *g_first[3], *g_last[3]; static int g_operand;
template <class W> struct SIt {
    typedef std::random_access_iterator_tag iterator_category;
    typedef W value_type; typedef std::ptrdiff_t difference_type; typedef W* pointer; typedef W& reference;
    W *p = nullptr, *lo = nullptr, *hi = nullptr;
    W* to(difference_type n) const { if (n < lo - p || n > hi - p) fault("an address outside the words"); return p + n; }
    W& at(difference_type n) const { W* q = to(n); if (q == hi) fault("a word that is none"); return *q; }
    reference operator*() const { return at(0); }
    pointer operator->() const { return &at(0); }
    reference operator[](difference_type n) const { return at(n); }
    SIt& operator++() { p = to(1); return *this; }
    SIt& operator--() { p = to(-1); return *this; }
    SIt operator++(int) { SIt t = *this; p = to(1); return t; }
    SIt operator--(int) { SIt t = *this; p = to(-1); return t; }
    SIt& operator+=(difference_type n) { p = to(n); return *this; }
    SIt& operator-=(difference_type n) { p = to(-n); return *this; }
    friend SIt operator+(SIt i, difference_type n) { return i += n; }
    friend SIt operator+(difference_type n, SIt i) { return i += n; }
    friend SIt operator-(SIt i, difference_type n) { return i -= n; }
    friend difference_type operator-(const SIt& x, const SIt& y) { return x.p - y.p; }
    friend bool operator==(const SIt& x, const SIt& y) { return x.p == y.p; }
    friend bool operator!=(const SIt& x, const SIt& y) { return x.p != y.p; }
    friend bool operator<(const SIt& x, const SIt& y) { return x.p < y.p; }
    friend bool operator>(const SIt& x, const SIt& y) { return x.p > y.p; }
    friend bool operator<=(const SIt& x, const SIt& y) { return x.p <= y.p; }
    friend bool operator>=(const SIt& x, const SIt& y) { return x.p >= y.p; }
};
template <class W> struct Mk<SIt<W>, W> { static SIt<W> at(W* p) { SIt<W> i; i.p = p; i.lo = (W*)g_first[g_operand]; i.hi = (W*)g_last[g_operand]; return i; } };

template <class It> static const void* raw(const It& i) { return i == It() ? nullptr : &*i; }
template <class W> static const void* raw(const SIt<W>& i) { return i.p; }

// where bit p of the storage is, if the storage starts at base (of type W)
template <class It, class W> static bit::bit_iterator<It> bit_at(W* base, i64 p) {
    const i64 D = sizeof(W) * 8;
    return bit::bit_iterator<It>(Mk<It, W>::at(base + p / D), (size_t)(p % D));
}
template <class W, class It> static i64 index_of(W* base, bit::bit_iterator<It> it) {
    const i64 D = sizeof(W) * 8;
    if (it.position() >= (size_t)D) return -1;
    const void* p = raw(it.base());
    intptr_t d = (intptr_t)p - (intptr_t)base;
    if (d % (intptr_t)sizeof(W)) return -1;
    d = d / (intptr_t)sizeof(W) * D + (i64)it.position();
    return d < 0 || d > (1 << 30) ? -1 : d;
}

#define HAS(op) ((1ull << (op)) & (GROUP))
#ifndef STDOPS
#define STDOPS 0
#endif
#define HASSTD(op) ((1ull << (op)) & (STDOPS))

// any one- or two-argument bit function, by its truth table
template <class W> struct Fn1 { bool f0, f1;
    W operator()(W x) const { return (W)((f1 ? x : 0) | (f0 ? (W)~x : 0)); } };
template <class W> struct Fn2 { bool f00, f01, f10, f11;
    W operator()(W x, W y) const { return (W)((f11 ? x & y : 0) | (f10 ? x & (W)~y : 0) | (f01 ? (W)~x & y : 0) | (f00 ? (W)~(x | y) : 0)); } };

// S: source iterator over words, D: destination iterator over words
// b[i]: where bit 0 would be for the component that range i of the call lies in
template <class W, class S, class D> static i64 perform(const Call& c, W* const* b) {
    const i64* a = c.a;
    // a shift by 2147483647 stands for any that is larger than every range here
    static const i64 HUGE_N[] = {2147483647, 2147483648, 4294967296, 4294967299, (i64)1 << 40, INT64_MAX};
    const i64 n = a[2] == 2147483647 ? HUGE_N[(u64)(a[0] + a[1]) % 6] : a[2];
    (void)n;
    auto s = [&](i64 p) { g_operand = 0; return bit_at<S, W>(b[0], p); };    // in range 0
    auto m = [&](i64 p) { g_operand = 0; return bit_at<D, W>(b[0], p); };    // in range 0, mutable
    auto d = [&](i64 p) { g_operand = 1; return bit_at<D, W>(b[1], p); };    // in range 1
    auto e = [&](i64 p) { g_operand = 2; return bit_at<D, W>(b[2], p); };    // in range 2
    (void)s; (void)m; (void)d; (void)e; (void)a;
    const bit::bit_value v = c.a[2] ? bit::bit1 : bit::bit0;
    const bit::bit_value v1 = c.a[1] ? bit::bit1 : bit::bit0;
    (void)v; (void)v1;
    if (c.std_) switch (c.op) {
#if HASSTD(COPY)
    case COPY: return index_of(b[1], std::copy(s(a[0]), s(a[1]), d(a[2])));
#endif
#if HASSTD(MOVE)
    case MOVE: return index_of(b[1], std::move(s(a[0]), s(a[1]), d(a[2])));
#endif
#if HASSTD(COPYB)
    case COPYB: return index_of(b[1], std::copy_backward(s(a[0]), s(a[1]), d(a[2])));
#endif
#if HASSTD(FILL)
    case FILL: std::fill(m(a[0]), m(a[1]), v); return VOIDRET;
#endif
#if HASSTD(ROT)
    case ROT: return index_of(b[0], std::rotate(m(a[0]), m(a[1]), m(a[2])));
#endif
#if HASSTD(REV)
    case REV: std::reverse(m(a[0]), m(a[1])); return VOIDRET;
#endif
#if HASSTD(SWAPR)
    case SWAPR: return index_of(b[1], std::swap_ranges(m(a[0]), m(a[1]), d(a[2])));
#endif
#if HASSTD(EQUAL)
    case EQUAL: return std::equal(s(a[0]), s(a[1]), d(a[2]));
#endif
#if HASSTD(FIND)
    case FIND: return index_of(b[0], std::find(s(a[0]), s(a[1]), v));
#endif
#if HASSTD(COUNT)
    case COUNT: return std::count(s(a[0]), s(a[1]), v);
#endif
#if HASSTD(SORT)
    case SORT: std::sort(m(a[0]), m(a[1])); return VOIDRET;
#endif
#if HASSTD(U_NOT)
    case U_NOT: return index_of(b[1], std::transform(m(a[0]), m(a[1]), d(a[2]),
                    [](bit::bit_value x) { return x ? bit::bit0 : bit::bit1; }));
#endif
#if HASSTD(B_AND)
    case B_AND: return index_of(b[2], std::transform(m(a[0]), m(a[1]), d(a[2]), e(a[3]),
                    [](bit::bit_value x, bit::bit_value y) { return x & y; }));
    case B_OR: return index_of(b[2], std::transform(m(a[0]), m(a[1]), d(a[2]), e(a[3]),
                    [](bit::bit_value x, bit::bit_value y) { return x | y; }));
    case B_XOR: return index_of(b[2], std::transform(m(a[0]), m(a[1]), d(a[2]), e(a[3]),
                    [](bit::bit_value x, bit::bit_value y) { return x ^ y; }));
#endif
#if HASSTD(REVC)
    case REVC: return index_of(b[1], std::reverse_copy(s(a[0]), s(a[1]), d(a[2])));
#endif
#if HASSTD(ROTC)
    case ROTC: return index_of(b[1], std::rotate_copy(s(a[0]), s(a[1]), s(a[2]), d(a[3])));
#endif
    default: fprintf(stderr, "harness: std op %d not compiled\n", c.op); _exit(3);
    }
    switch (c.op) {
#if HAS(COPY)
    case COPY: return index_of(b[1], bit::copy(s(a[0]), s(a[1]), d(a[2])));
#endif
#if HAS(MOVE)
    case MOVE: return index_of(b[1], bit::move(s(a[0]), s(a[1]), d(a[2])));
#endif
#if HAS(COPYB)
    case COPYB: return index_of(b[1], bit::copy_backward(s(a[0]), s(a[1]), d(a[2])));
#endif
#if HAS(FILL)
    case FILL: bit::fill(m(a[0]), m(a[1]), v); return VOIDRET;
#endif
#if HAS(SHL)
    case SHL: return index_of(b[0], bit::shift_left(m(a[0]), m(a[1]), n));
#endif
#if HAS(SHR)
    case SHR: return index_of(b[0], bit::shift_right(m(a[0]), m(a[1]), n));
#endif
#if HAS(ROT)
    case ROT: return index_of(b[0], bit::rotate(m(a[0]), m(a[1]), m(a[2])));
#endif
#if HAS(REV)
    case REV: bit::reverse(m(a[0]), m(a[1])); return VOIDRET;
#endif
#if HAS(SWAPR)
    case SWAPR: if constexpr (std::is_same_v<S, const W*> || std::is_same_v<S, VCIt<W>>)
                    return index_of(b[1], bit::swap_ranges(m(a[0]), m(a[1]), d(a[2])));
                else return index_of(b[1], bit::swap_ranges(s(a[0]), s(a[1]), d(a[2])));
#endif
#if HAS(EQUAL)
    case EQUAL: return bit::equal(s(a[0]), s(a[1]), d(a[2]));
#endif
#if HAS(FIND)
    case FIND: return index_of(b[0], bit::find(s(a[0]), s(a[1]), v));
#endif
#if HAS(COUNT)
    case COUNT: return bit::count(s(a[0]), s(a[1]), v);
#endif
#define UN(F) return index_of(b[1], bit::transform(m(a[0]), m(a[1]), d(a[2]), F))
#define BI(F) return index_of(b[2], bit::transform(m(a[0]), m(a[1]), d(a[2]), e(a[3]), F))
#if HAS(U_NOT)
    case U_NOT: UN(std::bit_not<W>());
#endif
#if HAS(U_ID)
    case U_ID: case U_ZEROS: case U_ONES: UN((Fn1<W>{c.op == U_ONES, c.op != U_ZEROS}));
#endif
#if HAS(B_AND)
    case B_AND: BI(std::bit_and<W>());
#endif
#if HAS(B_OR)
    case B_OR: BI(std::bit_or<W>());
#endif
#if HAS(B_XOR)
    case B_XOR: BI(std::bit_xor<W>());
#endif
#if HAS(B_ANDNOT)
    case B_ANDNOT: BI((Fn2<W>{0, 0, 1, 0}));
    case B_NAND: BI((Fn2<W>{1, 1, 1, 0}));
    case B_NOR: BI((Fn2<W>{1, 0, 0, 0}));
    case B_XNOR: BI((Fn2<W>{1, 0, 0, 1}));
    case B_ORNOT: BI((Fn2<W>{1, 0, 1, 1}));
    case B_FIRST: BI((Fn2<W>{0, 0, 1, 1}));
    case B_SECOND: BI((Fn2<W>{0, 1, 0, 1}));
#endif
#if HAS(BSET)
    // several spellings of the same single-bit action, chosen by the position
    case BSET: {
        auto it = m(a[0]);
        switch (a[0] % 6) {
        case 0: *it = v1; break;
        case 1: it->set(a[1] != 0); break;
        case 2: if (a[1]) (*it).set(); else (*it).reset(); break;
        case 3: it[0] = v1; break;
        case 4: (*it).assign((W)a[1]); break;
        case 5: if (a[1]) it->set(); else it->reset(); break;
        }
        return VOIDRET;
    }
#endif
#if HAS(BFLIP)
    case BFLIP: { auto it = m(a[0]); if (a[0] % 2) (*it).flip(); else it->flip(); return VOIDRET; }
#endif
#if HAS(BCOPY)
    case BCOPY: { auto x = m(a[0]); auto y = d(a[1]);
        switch ((a[0] + a[1]) % 3) {
        case 0: *x = *y; break;
        case 1: { bit::bit_value t = *y; *x = t; break; }
        case 2: if (*y) *x = bit::bit1; else *x = bit::bit0; break;
        }
        return VOIDRET; }
#endif
#if HAS(BSWAP)
    case BSWAP: { auto x = m(a[0]); auto y = d(a[1]);
        switch ((a[0] + a[1]) % 4) {
        case 0: swap(*x, *y); break;
        case 1: (*x).swap(*y); break;
        case 2: { bit::bit_value t = *x; (*y).swap(t); *x = t; break; }
        case 3: { bit::bit_value t = *y; swap(*x, t); swap(t, *y); break; }
        }
        return VOIDRET; }
#endif
#if HAS(BAND)
    case BAND: *m(a[0]) &= v1; return VOIDRET;
#endif
#if HAS(BOR)
    case BOR: *m(a[0]) |= v1; return VOIDRET;
#endif
#if HAS(BXOR)
    case BXOR: *m(a[0]) ^= v1; return VOIDRET;
#endif
#if HAS(BGET)
    case BGET: { auto it = s(a[0]);
        switch (a[0] % 4) {
        case 0: return (bool)*it;
        case 1: return *it == bit::bit1;
        case 2: { bit::bit_value t = *it; return (bool)t; }
        default: return it[0] != bit::bit0;
        } }
#endif
    default: fprintf(stderr, "harness: op %d not compiled\n", c.op); _exit(3);
    }
}

// which kinds of iterators this build exercises: two out of six
#ifndef KIND0
#define KIND0 0
#define KIND1 1
#endif
template <class W, int K> static i64 perform_kind(const Call& c, W* const* b) {
    if constexpr (K == 0) return perform<W, W*, W*>(c, b);
    else if constexpr (K == 1) return perform<W, VIt<W>, VIt<W>>(c, b);
    else if constexpr (K == 2) return perform<W, const W*, W*>(c, b);
    else if constexpr (K == 3) return perform<W, VCIt<W>, VIt<W>>(c, b);
    else if constexpr (K == 4) return perform<W, VIt<W>, W*>(c, b);
    else {
        Range r[3]; const int nr = ranges(c, r); const i64 D = sizeof(W) * 8;
        for (int i = 0; i < nr; i++) {
            g_first[i] = b[i] + r[i].lo / D; g_last[i] = b[i] + (r[i].hi + D - 1) / D;
            if (g_last[i] == g_first[i] && r[i].lo % D) g_last[i] = (const W*)g_first[i] + 1;
        }
        return perform<W, SIt<W>, SIt<W>>(c, b);
    }
}
template <class W> static i64 perform_any(const Call& c, W* const* b, int kind) {
    return kind ? perform_kind<W, KIND1>(c, b) : perform_kind<W, KIND0>(c, b);
}

// -------------------------------------------------------------- placement
static const size_t PAGE = 4096, SLOTPAGES = 16, SLOT = SLOTPAGES * PAGE;
static u8* g_slot[3];      // accessible pages between inaccessible ones
static u8* g_inner;        // for storage in the middle of canaries
static const size_t INNER = 3 * SLOT;
static void map_memory() {
    for (auto& s : g_slot) {
        u8* p = (u8*)mmap(nullptr, SLOT + 32 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED || mprotect(p + 16 * PAGE, SLOT, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(3); }
        s = p + 16 * PAGE;
    }
    g_inner = (u8*)mmap(nullptr, INNER, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g_inner == MAP_FAILED) { perror("mmap"); exit(3); }
}

struct Outcome { i64 ret; std::string x; };

// One call on the storage in bits[0..n/8), which it updates.
// placement: 0 inner, 1 before the end of accessible memory, 2 at its start;
// 3, 4: as 1, 2 but every operand that shares no word with another apart
template <class W> static Outcome one_call(const Call& c, u8* bits, int n, int placement, int kind, int salt) {
    const i64 D = sizeof(W) * 8;
    Range r[3]; int nr = ranges(c, r);
    W* base[3] = {nullptr, nullptr, nullptr};
    Outcome out{VOIDRET, ""};
    if (placement == 0) {
        size_t bytes = n / 8, off = 256 + 64 * (salt % 3) + sizeof(W) * ((unsigned)salt * 5u % (64 / sizeof(W)));
        u8* p = g_inner + off;
        u8 canary = 0xA5 ^ (u8)(salt * 29);
        memset(p - 128, canary, 128); memcpy(p, bits, bytes); memset(p + bytes, canary, 128);
        for (auto& x : base) x = (W*)p;
        g_armed = 1;
        if (sigsetjmp(g_jmp, 0) == 0) { out.ret = perform_any<W>(c, base, kind); g_armed = 0; }
        else out.x = (const char*)g_fault;
        for (int i = 0; i < 128 && out.x.empty(); i++)
            if (p[-1 - i] != canary || p[bytes + i] != canary) out.x = "wrote outside the storage";
        memcpy(bits, p, bytes);
        return out;
    }
    // words of every range; ranges that share a word are kept in one component.
    // An empty range in the middle of a word has that word, one at the start of
    // a word may be the end of its storage and has none.
    i64 lo[3], hi[3]; int comp[3];
    for (int i = 0; i < nr; i++) { lo[i] = r[i].lo / D; hi[i] = (r[i].hi + D - 1) / D; comp[i] = i; }
    bool split = placement >= 3;
    for (int round = 0; round < 2; round++)
        for (int i = 0; i < nr; i++) for (int j = 0; j < i; j++) {
            if (comp[i] == comp[j]) continue;
            int ci = comp[i], cj = comp[j];
            bool meet = lo[ci] < hi[cj] && lo[cj] < hi[ci];
            // an empty range is a component of its own only if split
            if (meet || !split) {
                if (lo[ci] == hi[ci] && !meet) { lo[ci] = lo[cj]; hi[ci] = hi[cj]; }
                else if (lo[cj] != hi[cj]) { lo[ci] = std::min(lo[ci], lo[cj]); hi[ci] = std::max(hi[ci], hi[cj]); }
                for (int k = 0; k < nr; k++) if (comp[k] == cj) comp[k] = ci;
            }
        }
    u8* at[3];
    for (int i = 0; i < nr; i++) if (comp[i] == i) {
        size_t bytes = (hi[i] - lo[i]) * sizeof(W);
        if (bytes > SLOT) { fprintf(stderr, "harness: storage too large\n"); _exit(3); }
        at[i] = (placement % 2 == 1) ? g_slot[i] + SLOT - bytes : g_slot[i];
        memcpy(at[i], bits + lo[i] * sizeof(W), bytes);
    }
    // an empty range in a component with words must still point inside it or at its end
    for (int i = 0; i < nr; i++) base[i] = (W*)at[comp[i]] - lo[comp[i]];
    g_armed = 1;
    if (sigsetjmp(g_jmp, 0) == 0) { out.ret = perform_any<W>(c, base, kind); g_armed = 0; }
    else out.x = (const char*)g_fault;
    for (int i = 0; i < nr; i++) if (comp[i] == i)
        memcpy(bits + lo[i] * sizeof(W), at[i], (hi[i] - lo[i]) * sizeof(W));
    return out;
}

// ---------------------------------------------------------------- running
struct Stats { u64 execs = 0, calls = 0; } g_stats;
static std::map<int, std::vector<u8>> g_tables;

static void emit_event(std::string& s, const Call& c, const Rope* pre, i64 ret, const Rope& post, const std::string& x) {
    char buf[160];
    if (!s.empty()) s += '\x1f';
    s += "{";
    if (pre) { snprintf(buf, sizeof buf, "\"n\":%d,\"i\":", [&] { int n = 0; for (auto& r : *pre) n += r.len; return n; }()); s += buf; emit_rope(s, *pre); s += ','; }
    s += "\"o\":\""; s += NAME[c.op]; s += "\",\"a\":[";
    for (int i = 0; i < arity(c.op); i++) { snprintf(buf, sizeof buf, "%s%lld", i ? "," : "", (long long)c.a[i]); s += buf; }
    s += "],\"r\":";
    if (ret == VOIDRET) s += "[]"; else { snprintf(buf, sizeof buf, "%lld", (long long)ret); s += buf; }
    s += ",\"p\":"; emit_rope(s, post);
    s += ",\"x\":\""; s += x; s += "\"}";
}

// all runs of a session for one word type; raw: what was observed, to compare
// word types without decoding
template <class W> static void run_session(const Sess& S, u64 sid, int callno_salt, std::string& out, std::string& raw, bool& same_as_first, const std::string& first_raw) {
    Planes P(S.n); size_t st = S.n / 8;
    std::vector<u8>& table = g_tables[S.n];
    if (table.empty()) table = plane_table(P);
    int runs = S.concrete ? 5 : P.count;
    std::vector<u8> mem((size_t)runs * st);
    for (int p = 0; p < runs; p++) eval(S.pre, S.n, &table[st * (S.concrete ? 0 : p)], &mem[st * p]);
    raw.clear(); same_as_first = true;
    struct Step { i64 ret; std::string x; std::vector<u8> mem; };
    std::vector<Step> steps;
    for (size_t ci = 0; ci < S.calls.size(); ci++) {
        const Call& c = S.calls[ci];
        Step q{0, "", {}};
        for (int p = 0; p < runs; p++) {
            unsigned h = (unsigned)(sid * 7 + ci * 3 + p + callno_salt);
            int placement = h % 5, kind = (h / 5) % 2;
            Outcome o = one_call<W>(c, &mem[st * p], S.n, placement, kind, (int)(h % 1009));
            g_stats.execs++;
            if (p == 0) q.ret = o.ret;
            else if (o.ret != q.ret && q.x.empty()) q.x = "return value differs between runs of the same call";
            if (!o.x.empty()) { q.x = o.x; break; }
        }
        q.mem = mem;
        raw.append((const char*)&q.ret, 8); raw += q.x; raw += '\0'; raw.append((const char*)mem.data(), mem.size());
        bool bad = !q.x.empty();
        steps.push_back(std::move(q));
        if (bad) break;
    }
    if (raw == first_raw) return;
    same_as_first = false;
    out.clear();
    for (size_t ci = 0; ci < steps.size(); ci++) {
        Step& q = steps[ci];
        Rope post;
        if (!q.x.empty()) post = {};
        else if (S.concrete) {
            for (int i = 0; i < S.n; i++) {
                bool v = getb(&q.mem[0], i), diff = false;
                for (int p = 1; p < runs; p++) diff |= getb(&q.mem[st * p], i) != v;
                add_bit(post, diff ? 4 : v ? 3 : 2, 0);
            }
        } else post = decode(P, table, q.mem.data(), st, S.n);
        i64 ret = q.ret;
        if (ret != VOIDRET && (ret < -1 || ret > 1000000000)) ret = -1;
        emit_event(out, S.calls[ci], ci == 0 ? &S.pre : nullptr, ret, post, q.x);
        g_stats.calls++;
        if (!q.x.empty()) break;
    }
}

#include "alg_gen.hpp"

int main(int argc, char** argv) {
    u64 seed = 1; bool thorough = false, list = false; int shard = 0, shards = 1; i64 only = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &shards);
        else if (a == "--only") only = atoll(argv[++i]);
        else if (a == "--list") list = true;
        else { fprintf(stderr, "usage\n"); return 3; }
    }
    install(); map_memory();
    std::vector<Sess> all = generate(seed, thorough);
    if (list) { printf("%zu\n", all.size()); return 0; }
    for (size_t sid = 0; sid < all.size(); sid++) {
        if (only >= 0 ? (i64)sid != only : (int)(sid % shards) != shard) continue;
        const Sess& S = all[sid];
        std::string first_raw, raw, out;
        std::vector<std::pair<std::string, std::string>> outcomes; // JSON, word sizes
        bool same;
        cpu_limit(20);
        auto add = [&](const char* w) {
            if (same && !outcomes.empty()) { outcomes[0].second += w; return; }
            if (outcomes.empty()) first_raw = raw;
            for (auto& o : outcomes) if (o.first == out) { o.second += w; return; }
            outcomes.push_back({out, w});
        };
        run_session<u8>(S, sid, 0, out, raw, same, first_raw); add(" 8");
        run_session<u16>(S, sid, 1, out, raw, same, first_raw); add(" 16");
        run_session<u32>(S, sid, 2, out, raw, same, first_raw); add(" 32");
        run_session<u64>(S, sid, 3, out, raw, same, first_raw); add(" 64");
        for (auto& o : outcomes) printf("%zu\t%s\t%s\n", sid, o.second.c_str() + 1, o.first.c_str());
    }
    printf("#stats %llu %llu\n", (unsigned long long)g_stats.execs, (unsigned long long)g_stats.calls);
    return fflush(stdout) ? 3 : 0;
}
