// Records what bit iterators and bit pointers do, for spec/BitCursorTrace.tla.
//
// A session lives in one "world": a word type and one of
//   0  bit_iterator over an iterator of words that is nothing but an index, so that distances of 2^60 bits can be had;
//      what it refers to is a ring of RING words
//   1  bit_pointer, into a reserved but inaccessible region of the address space
//   2  the iterators of bit_vector
//   3  bit_iterator over pointers to words
//   4  bit_iterator over the iterators of a deque of words
//   5  bit_iterator over the iterators of a list of words (bidirectional: neither differences nor order)
// Registers 1..4 hold cursors over mutable words, 5..7 over const words.
#include "common.hpp"
#include <deque>
#include <iterator>
#include <list>
#include <optional>
#include <type_traits>
#include <sys/mman.h>
#include "bitlib/bitlib.hpp"

static const i64 RING = 1024;
enum Op { MAKE, MAKE0, NUL, ASSIGN_NUL, CONV, ASSIGN, SWAP, PLUS, NPLUS, NEXT, MINUS, PREV, INC, DEC, POSTINC, POSTDEC, ADD, SUB, ADVANCE,
          NEG_ADD, NEG_SUB, DEREF, INDEX, ARROW, ADDR, REF, REV, MASK, DIFF, DISTANCE, CMP, EQ, BOOL, READDR, NOPS };
static const char* NAME[] = {"make", "make0", "null", "assign_null", "conv", "assign", "swap", "plus", "nplus", "next", "minus", "prev", "inc", "dec",
    "postinc", "postdec", "add", "sub", "advance", "neg_add", "neg_sub", "deref", "index", "arrow", "addr", "ref", "rev", "mask", "diff", "distance",
    "cmp", "eq", "bool", "readdr"};
struct Call { Op op; int s, t; i64 n; };

// ------------------------------------------------ words addressed by an index
template <class W> struct Ring { static W* mem() { static W* m = new W[RING](); return m; } };
template <class W, bool C> struct Idx {
    typedef std::random_access_iterator_tag iterator_category;
    typedef typename std::conditional<C, const W, W>::type Q;
    typedef W value_type; typedef i64 difference_type; typedef Q* pointer; typedef Q& reference;
    i64 i = 0;
    constexpr Idx() {}
    constexpr explicit Idx(i64 i_) : i(i_) {}
    template <bool D, class = typename std::enable_if<C && !D>::type> constexpr Idx(const Idx<W, D>& o) : i(o.i) {}
    reference operator*() const { return Ring<W>::mem()[(u64)i % RING]; }
    pointer operator->() const { return &**this; }
    reference operator[](i64 n) const { return *(*this + n); }
    Idx& operator++() { ++i; return *this; } Idx& operator--() { --i; return *this; }
    Idx operator++(int) { Idx o = *this; ++i; return o; } Idx operator--(int) { Idx o = *this; --i; return o; }
    Idx& operator+=(i64 n) { i += n; return *this; } Idx& operator-=(i64 n) { i -= n; return *this; }
    Idx operator+(i64 n) const { return Idx(i + n); } Idx operator-(i64 n) const { return Idx(i - n); }
    friend Idx operator+(i64 n, Idx x) { return x + n; }
};
#define REL(op) template <class W, bool A, bool B> bool operator op(const Idx<W, A>& x, const Idx<W, B>& y) { return x.i op y.i; }
REL(==) REL(!=) REL(<) REL(<=) REL(>) REL(>=)
template <class W, bool A, bool B> i64 operator-(const Idx<W, A>& x, const Idx<W, B>& y) { return x.i - y.i; }

// ---------------------------------------------------------------- the worlds
static u8* g_region = nullptr; static size_t g_region_size = 0;
static void reserve_region() {
    for (size_t s = (size_t)1 << 45; s >= ((size_t)1 << 20); s >>= 1) {
        void* p = mmap(nullptr, s, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p != MAP_FAILED) { g_region = (u8*)p; g_region_size = s; return; }
    }
    fprintf(stderr, "no address space\n"); _exit(3);
}
static const i64 SMALL = 1 << 14; // words of the storages of worlds 2 and 3
template <class W> static bit::bit_vector<W>& store() { static bit::bit_vector<W> v((size_t)SMALL * sizeof(W) * 8); return v; }

template <class W, int K> struct World;
template <class W> struct World<W, 0> {
    typedef Idx<W, false> MB; typedef Idx<W, true> CB;
    typedef bit::bit_iterator<MB> M; typedef bit::bit_iterator<CB> C;
    static MB base(i64 w) { return MB(w); }
    static i64 word(const M& x) { return x.base().i; } static i64 word(const C& x) { return x.base().i; }
    static i64 at(const W* p) { return p - Ring<W>::mem(); }
    static i64 limit() { return (i64)1 << 60; }
};
template <class W> struct World<W, 1> {
    typedef W* MB; typedef const W* CB;
    typedef bit::bit_pointer<W> M; typedef bit::bit_pointer<const W> C;
    static W* mid() { return (W*)(g_region + g_region_size / 2); }
    static MB base(i64 w) { return mid() + w; }
    template <class X> static i64 word(const X& x) { return (*x).address() - mid(); }
    static i64 at(const W* p) { return p - mid(); }
    static i64 limit() { return (i64)(g_region_size / 2 - 4096) * 8; }
};
template <class W> struct World<W, 2> {
    typedef bit::bit_vector<W> V;
    typedef typename V::iterator M; typedef typename V::const_iterator C;
    typedef typename M::iterator_type MB; typedef typename C::iterator_type CB;
    static MB base(i64 w) { return store<W>().begin().base() + (w + SMALL / 2); }
    static i64 word(const M& x) { return x.base() - base(0); }
    static i64 word(const C& x) { return x.base() - CB(base(0)); }
    static i64 at(const W* p) { return p - store<W>().data() - SMALL / 2; }
    static i64 limit() { return SMALL / 2 * (i64)sizeof(W) * 8 - 1; }
};
template <class W> struct World<W, 3> {
    typedef W* MB; typedef const W* CB;
    typedef bit::bit_iterator<W*> M; typedef bit::bit_iterator<const W*> C;
    static MB base(i64 w) { return store<W>().data() + (w + SMALL / 2); }
    template <class X> static i64 word(const X& x) { return x.base() - (const W*)base(0); }
    static i64 at(const W* p) { return p - store<W>().data() - SMALL / 2; }
    static i64 limit() { return SMALL / 2 * (i64)sizeof(W) * 8 - 1; }
};
static const i64 NODES = 64; // words of the list
template <class W> struct World<W, 4> {
    typedef std::deque<W> Q;
    typedef typename Q::iterator MB; typedef typename Q::const_iterator CB;
    typedef bit::bit_iterator<MB> M; typedef bit::bit_iterator<CB> C;
    static Q& q() { static Q v(SMALL); return v; }
    static MB base(i64 w) { return q().begin() + (w + SMALL / 2); }
    template <class X> static i64 word(const X& x) { return CB(x.base()) - CB(base(0)); }
    static i64 at(const W* p) { for (i64 w = 0; w < SMALL; w++) if (&q()[w] == p) return w - SMALL / 2; return 1 << 29; }
};
template <class W> struct World<W, 5> {
    typedef std::list<W> Q;
    typedef typename Q::iterator MB; typedef typename Q::const_iterator CB;
    typedef bit::bit_iterator<MB> M; typedef bit::bit_iterator<CB> C;
    static Q& q() { static Q v(NODES); return v; }
    static MB base(i64 w) { return std::next(q().begin(), w + NODES / 2); }
    template <class X> static i64 word(const X& x) { i64 n = 0; for (CB i = q().begin(); i != q().end(); ++i, ++n) if (i == CB(x.base())) break; return n - NODES / 2; }
    static i64 at(const W* p) { i64 n = 0; for (const W& w : q()) { if (&w == p) return n - NODES / 2; n++; } return 1 << 29; }
};
static i64 limit_of(int kind, int lg) { // lg: bytes of the word
    return kind == 0 ? (i64)1 << 60 : kind == 1 ? (i64)(g_region_size / 2 - 4096) * 8 : kind == 5 ? NODES / 2 * (i64)lg * 8 - 1 : SMALL / 2 * (i64)lg * 8 - 1;
}

// ------------------------------------------------------------------- running
static std::string wide(i64 x) {
    char b[64]; i64 B = 1 << 30, h = x >> 30; snprintf(b, sizeof b, "[%lld,%lld]", (long long)h, (long long)(x - h * B)); return b;
}
struct Seen { std::string r, x; int k[7]; i64 w[7]; i64 p[7]; };

template <class X> static i64 pos_of(const X& x, std::false_type) { return (i64)x.position(); }
template <class X> static i64 pos_of(const X& x, std::true_type) { return (i64)(*x).position(); }
template <class M> static i64 lg_mask(M m) { for (i64 i = 0; i < (i64)sizeof(M) * 8; i++) if (m == (M)((M)1 << i)) return i; return -1; }

template <class W, int K> struct Runner {
    typedef World<W, K> Wd; typedef typename Wd::M M; typedef typename Wd::C C;
    typedef std::integral_constant<bool, K == 1> IsPtr;
    static const int D = sizeof(W) * 8;
    std::optional<M> m[5]; std::optional<C> c[8]; int kind[8] = {};
    std::string r, x;
    void num(i64 v) { r += (r.empty() ? "" : ",") + wide(v); }
    template <class R> void loc(const R& ref) { num(Wd::at(ref.address())); num((i64)ref.position());
        if (lg_mask(ref.mask()) != (i64)ref.position()) x = "mask of a reference"; }
    template <class T> void place(const T& t) { num(Wd::word(t)); num(pos_of(t, IsPtr())); }
    template <class F> void on(int s, F f) { if (s <= 4) f(*m[s]); else f(*c[s]); }
    template <class F> void on2(int s, int t, F f) { on(s, [&](auto& a) { on(t, [&](auto& b) { f(a, b); }); }); }
    template <class T> T make(i64 w, i64 p) {
        if constexpr (K != 1 && K != 3) return T(typename T::iterator_type(Wd::base(w)), (size_t)p);
        else return T(Wd::base(w), (size_t)p);
    }
    template <class T> T make0(i64 w) {
        if constexpr (K != 1 && K != 3) return T(typename T::iterator_type(Wd::base(w)));
        else return T(Wd::base(w));
    }
    template <class T> void set(int s, const T& v) { // by construction
        if (s <= 4) { if constexpr (std::is_same<T, M>::value) m[s].emplace(v); }
        else c[s].emplace(v);
    }
    template <class T> void put(int s, const T& v) { // by assignment where there is something to assign to
        if (s <= 4) { if constexpr (std::is_same<T, M>::value) { if (m[s]) { if (&(*m[s] = v) != &*m[s]) x = "result of an assignment"; } else m[s].emplace(v); } }
        else if (c[s]) { if (&(*c[s] = v) != &*c[s]) x = "result of an assignment"; } else c[s].emplace(v);
    }
    void act(const Call& e) {
        i64 n = e.n; int s = e.s, t = e.t;
        switch (e.op) {
        case MAKE: case MAKE0: {
            i64 w = n >= 0 ? n / D : -((-n + D - 1) / D), p = n - w * D;
            if (s <= 4) m[s].emplace(e.op == MAKE ? make<M>(w, p) : make0<M>(w)); else c[s].emplace(e.op == MAKE ? make<C>(w, p) : make0<C>(w));
            kind[s] = 2; break; }
        case NUL: if (s <= 4) m[s].emplace(); else c[s].emplace(); kind[s] = 1; break;
        case ASSIGN_NUL:
            if constexpr (K == 1) { if (s <= 4) { if (!m[s]) m[s].emplace(nullptr); else *m[s] = nullptr; } else { if (!c[s]) c[s].emplace(nullptr); else *c[s] = nullptr; } }
            kind[s] = 1; break;
        case CONV: on(s, [&](auto& a) { set(t, a); }); kind[t] = kind[s]; break;
        case ASSIGN: on(s, [&](auto& a) { put(t, a); }); kind[t] = kind[s]; break;
        case SWAP: { using std::swap; if (s <= 4) swap(*m[s], *m[t]); else swap(*c[s], *c[t]); std::swap(kind[s], kind[t]); break; }
        case PLUS: on(s, [&](auto& a) { put(t, a + n); }); kind[t] = 2; break;
        case NPLUS: on(s, [&](auto& a) { put(t, n + a); }); kind[t] = 2; break;
        case NEXT: on(s, [&](auto& a) { if constexpr (K == 1) put(t, a + n); else put(t, std::next(a, n)); }); kind[t] = 2; break;
        case MINUS: on(s, [&](auto& a) { put(t, a - n); }); kind[t] = 2; break;
        case PREV: on(s, [&](auto& a) { if constexpr (K == 1) put(t, a - n); else put(t, std::prev(a, n)); }); kind[t] = 2; break;
        case INC: on(s, [&](auto& a) { auto& b = ++a; if (&b != &a) x = "result of ++"; place(b); }); break;
        case DEC: on(s, [&](auto& a) { auto& b = --a; if (&b != &a) x = "result of --"; place(b); }); break;
        case POSTINC: on(s, [&](auto& a) { auto b = a++; place(b); }); break;
        case POSTDEC: on(s, [&](auto& a) { auto b = a--; place(b); }); break;
        case ADD: on(s, [&](auto& a) { auto& b = (a += n); if (&b != &a) x = "result of +="; place(b); }); break;
        case NEG_ADD: on(s, [&](auto& a) { auto& b = (a += -n); place(b); }); break;
        case SUB: on(s, [&](auto& a) { auto& b = (a -= n); if (&b != &a) x = "result of -="; place(b); }); break;
        case NEG_SUB: on(s, [&](auto& a) { auto& b = (a -= -n); place(b); }); break;
        case ADVANCE: on(s, [&](auto& a) { if constexpr (K == 1) a += n; else std::advance(a, n); place(a); }); break;
        case DEREF: on(s, [&](auto& a) { loc(*a); }); break;
        case INDEX: on(s, [&](auto& a) { loc(a[n]); }); break;
        case ARROW: on(s, [&](auto& a) { num(Wd::at(a->address())); num((i64)a->position()); }); break;
        case ADDR: on(s, [&](auto& a) { auto q = &*a; loc(*q); }); break;
        case REF: on(s, [&](auto& a) { auto q = *a; bit::bit_reference<const W> k(q); auto q2(q); bit::bit_reference<const W> k2(k); loc(k2); r.clear(); loc(q2);
                                       if (k.address() != q.address() || k.position() != q.position() || k2.address() != k.address() || k2.mask() != q.mask()) x = "a copied reference"; }); break;
        case REV: on(s, [&](auto& a) { if constexpr (K == 1) loc(a[-n - 1]); else { auto q = std::make_reverse_iterator(a); if (n == 0) loc(*q); else loc(q[n]); } }); break;
        case MASK: on(s, [&](auto& a) { if constexpr (K == 1) num(lg_mask((*a).mask())); else num(lg_mask(a.mask())); }); break;
        case DIFF: on2(s, t, [&](auto& a, auto& b) { if constexpr (K != 5) num(a - b); }); break;
        case DISTANCE: on2(s, t, [&](auto& a, auto& b) { if constexpr (K == 1) num(b - a); else if constexpr (K == 5) {} else if constexpr (std::is_same<decltype(a), decltype(b)>::value) num(std::distance(a, b)); else num(b - a); }); break;
        case CMP: on2(s, t, [&](auto& a, auto& b) { if constexpr (K != 5) for (bool q : {a == b, a != b, a < b, a <= b, a > b, a >= b}) num(q); }); break;
        case EQ: on2(s, t, [&](auto& a, auto& b) { for (bool q : {a == b, a != b}) num(q); }); break;
        case BOOL: on(s, [&](auto& a) { if constexpr (K == 1) num(static_cast<bool>(a)); }); break;
        case READDR: on(s, [&](auto& a) { if constexpr (K == 1) put(t, &*a); }); kind[t] = 2; break;
        default: break;
        }
    }
    void run(const std::vector<Call>& calls, std::vector<Seen>& seen) {
        for (auto& e : calls) {
            r.clear(); x.clear(); Seen z{};
            g_armed = 1;
            if (sigsetjmp(g_jmp, 0) == 0) {
                try {
                    act(e);
                    for (int s = 1; s <= 7; s++) { z.k[s - 1] = kind[s]; if (kind[s] == 2) on(s, [&](auto& a) { z.w[s - 1] = Wd::word(a); z.p[s - 1] = pos_of(a, IsPtr()); }); }
                } catch (...) { x = "an exception"; }
                g_armed = 0;
            } else x = (const char*)g_fault;
            z.r = r; z.x = x; seen.push_back(z);
            if (!x.empty()) break;
        }
    }
};

static struct { u64 execs = 0, calls = 0; } g_stats;
template <class W, int K> static std::string run_session(const std::vector<Call>& calls) {
    std::vector<Seen> seen;
    Runner<W, K> R; R.run(calls, seen);
    std::string out; char b[256];
    for (size_t i = 0; i < seen.size(); i++) {
        const Call& e = calls[i]; const Seen& z = seen[i];
        if (i) out += '\x1f';
        snprintf(b, sizeof b, "{\"o\":\"%s\",\"i\":%d,\"s\":%d,\"t\":%d,\"d\":%d,\"q\":%d,\"n\":", NAME[e.op], i == 0, e.s, e.t, (int)sizeof(W) * 8, K == 0 ? (int)RING : 0);
        out += b; out += wide(e.n) + ",\"r\":[" + z.r + "],\"v\":[";
        for (int s = 0; s < 7; s++) { snprintf(b, sizeof b, "%s[%d,", s ? "," : "", z.k[s]); out += b; out += wide(z.w[s]) + "," + wide(z.p[s]) + "]"; }
        out += "],\"x\":\"" + z.x + "\"}";
        g_stats.calls++;
    }
    g_stats.execs++;
    return out;
}

// -------------------------------------------------------- what to try, and where
struct Sess { int kind, size; std::vector<Call> calls; };
static const Op POINTS[] = {PLUS, NPLUS, NEXT, MINUS, PREV};

static void around(std::vector<Sess>& all, int kind, int size, i64 p, i64 n, Rng& g) { // everything about a bit and a distance
    i64 lim = limit_of(kind, size);
    if (p < -lim || p > lim || p + n < -lim || p + n > lim || p - n < -lim || p - n > lim) return;
    Sess S{kind, size, {}}; auto& c = S.calls;
    int s = (int)g.range(1, 7), t = s <= 4 ? (int)g.range(1, 7) : (int)g.range(5, 7);
    bool set_t = false;
    auto add = [&](Op o, i64 k = 0) { if (kind == 5 && (o == DIFF || o == CMP || o == DISTANCE)) o = EQ; if (o == EQ && s != t && !set_t) return; if (POINTS[0] <= o && o <= POINTS[4]) set_t = true; c.push_back({o, s, t, k}); };
    add(MAKE, p); add(MASK);
    bool deref = true; // nothing is read through a reference
    if (deref) { add(DEREF); add(ARROW); if (kind != 2) add(ADDR); if (g.coin()) add(REF); add(INDEX, n); if (kind != 2 || p + n > -lim) add(REV, g.coin() ? 0 : n > 0 && p - n > -lim ? n - 1 : 0); }
    add(POINTS[g.below(3)], n); add(DIFF); add(CMP); add(DISTANCE); add(POINTS[3 + g.below(2)], n); if (s != t) { add(DIFF); add(CMP); add(DISTANCE); }
    c.push_back({MAKE, s, t, p});
    switch (g.below(3)) { case 0: add(ADD, n); add(SUB, n); break; case 1: add(ADVANCE, n); add(NEG_ADD, n); break; default: add(NEG_SUB, n); add(SUB, n); }
    if (p > -lim && p < lim) { add(g.coin() ? INC : POSTINC); add(g.coin() ? DEC : POSTDEC); add(g.coin() ? DEC : POSTDEC); add(g.coin() ? INC : POSTINC); }
    // vectors: stay within the storage
    all.push_back(S);
}

static std::vector<Sess> generate(u64 seed, bool thorough) {
    std::vector<Sess> all; Rng g(seed * 31 + 7);
    const int sizes[] = {1, 2, 4, 8};
    for (int kind = 0; kind < 6; kind++) for (int size : sizes) {
        i64 D = size * 8, lim = limit_of(kind, size);
        std::vector<i64> P, N, BIG;
        for (i64 p = 0; p < D; p++) if (thorough || D == 8 || p <= 1 || p >= D - 2 || p == D / 2 || g.below(D / 8) == 0) P.push_back(p);
        for (i64 k = 0; k <= 2; k++) for (i64 d : {-1, 0, 1}) { N.push_back(k * D + d); N.push_back(-k * D + d); }
        if (thorough || D == 8) for (i64 n = -2 * D - 3; n <= 2 * D + 3; n++) N.push_back(n);
        for (int b : {15, 16, 31, 32, 33, 34, 37, 38, 45, 46, 58, 59}) for (i64 d : {-1, 0, 1}) { BIG.push_back(((i64)1 << b) + d); BIG.push_back(-((i64)1 << b) + d); }
        for (i64 p : P) for (i64 n : N) { around(all, kind, size, p - (g.coin() ? D : 0), n, g); }
        for (i64 n : BIG) for (int k = 0; k < (thorough ? 12 : 3); k++) {
            i64 m = g.pick<i64>({n, n, -n, n / 2, n + g.range(-D, D)}), p = g.pick<i64>({0, D - 1, 1, -D, m, -m, m / 2, -m / 2, g.range(-3 * D, 3 * D)});
            around(all, kind, size, p, m, g);
        }
        // histories: registers set from one another and moved about
        for (int k = 0; k < (thorough ? 1500 : 180); k++) {
            Sess S{kind, size, {}}; i64 at[8] = {}; int kd[8] = {};
            i64 span = k % 3 == 0 ? 3 * D : k % 3 == 1 ? (lim < 4096 ? lim : 4096) : lim;
            if (span > lim) span = lim;
            auto ok = [&](i64 p) { return -span <= p && p <= span; };
            for (int step = 0; step < 40; step++) {
                int s = (int)g.range(1, 7), t = s <= 4 ? (int)g.range(1, 7) : (int)g.range(5, 7);
                Op o = (Op)g.below(NOPS);
                i64 n = g.pick<i64>({0, 1, D - 1, D, D + 1, g.range(0, 2 * D), g.range(0, span), g.range(0, span)}); if (g.coin()) n = -n;
                switch (o) {
                case MAKE: case MAKE0: if (!ok(n) || !ok(n - D)) continue; at[s] = o == MAKE ? n : n - ((n % D) + D) % D; kd[s] = 2; break;
                case NUL: at[s] = 0; kd[s] = 1; break;
                case ASSIGN_NUL: if (kind != 1) continue; at[s] = 0; kd[s] = 1; break;
                case CONV: case ASSIGN: if (!kd[s]) continue; at[t] = at[s]; kd[t] = kd[s]; break;
                case READDR: if (kind != 1 || kd[s] != 2) continue; at[t] = at[s]; kd[t] = kd[s]; break;
                case SWAP: if ((s <= 4) != (t <= 4) || !kd[s] || !kd[t]) continue; std::swap(at[s], at[t]); std::swap(kd[s], kd[t]); break;
                case PLUS: case NPLUS: case NEXT: if (kd[s] != 2 || !ok(at[s] + n)) continue; at[t] = at[s] + n; kd[t] = 2; break;
                case MINUS: case PREV: if (kd[s] != 2 || !ok(at[s] - n)) continue; at[t] = at[s] - n; kd[t] = 2; break;
                case ADD: case ADVANCE: case NEG_SUB: if (kd[s] != 2 || !ok(at[s] + n)) continue; at[s] += n; break;
                case SUB: case NEG_ADD: if (kd[s] != 2 || !ok(at[s] - n)) continue; at[s] -= n; break;
                case INC: case POSTINC: if (kd[s] != 2 || !ok(at[s] + 1)) continue; at[s]++; break;
                case DEC: case POSTDEC: if (kd[s] != 2 || !ok(at[s] - 1)) continue; at[s]--; break;
                case DEREF: case ARROW: case ADDR: case REF: case MASK: if (kd[s] != 2) continue; break;
                case INDEX: if (kd[s] != 2 || !ok(at[s] + n)) continue; break;
                case REV: if (n < 0) n = -n; if (kd[s] != 2 || !ok(at[s] - n - 1)) continue; break;
                case DIFF: case DISTANCE: case CMP: if (kind == 5 || kd[s] != 2 || kd[t] != 2 || at[s] - at[t] > lim || at[t] - at[s] > lim) continue; break;
                case EQ: if (!kd[s] || !kd[t] || (kind != 1 && kd[s] != kd[t])) continue; break;
                case BOOL: if (kind != 1 || !kd[s]) continue; break;
                default: continue;
                }
                S.calls.push_back({o, s, t, n});
            }
            if (!S.calls.empty()) all.push_back(S);
        }
    }
    return all;
}

template <class W> static std::string dispatch(int kind, const std::vector<Call>& c) {
    switch (kind) {
    case 0: return run_session<W, 0>(c); case 1: return run_session<W, 1>(c); case 2: return run_session<W, 2>(c);
    case 3: return run_session<W, 3>(c); case 4: return run_session<W, 4>(c); default: return run_session<W, 5>(c);
    }
}

int main(int argc, char** argv) {
    u64 seed = 1; bool thorough = false; int shard = 0, shards = 1; i64 only = -1; std::string kinds = "012345";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &shards);
        else if (a == "--only") only = atoll(argv[++i]);
        else if (a == "--kinds") kinds = argv[++i];
        else { fprintf(stderr, "usage\n"); return 3; }
    }
    install(); reserve_region();
    static const char* WHAT[] = {"iterator", "pointer", "vector iterator", "iterator over pointers", "iterator over deque", "iterator over list"};
    std::vector<Sess> all = generate(seed, thorough), mine;
    for (auto& s : all) if (kinds.find((char)('0' + s.kind)) != std::string::npos) mine.push_back(s);
    for (size_t sid = 0; sid < mine.size(); sid++) {
        if (only >= 0 ? (i64)sid != only : (int)(sid % shards) != shard) continue;
        const Sess& S = mine[sid];
        cpu_limit(30);
        std::string o = S.size == 1 ? dispatch<u8>(S.kind, S.calls) : S.size == 2 ? dispatch<u16>(S.kind, S.calls)
                      : S.size == 4 ? dispatch<u32>(S.kind, S.calls) : dispatch<u64>(S.kind, S.calls);
        printf("%zu\t%s %d\t%s\n", sid, WHAT[S.kind], S.size * 8, o.c_str());
    }
    printf("#stats %llu %llu\n", (unsigned long long)g_stats.execs, (unsigned long long)g_stats.calls);
    return fflush(stdout) ? 3 : 0;
}
