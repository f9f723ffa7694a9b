// Records what references to single bits and bit values do, for spec/BitScalarTrace.tla.
//
// The storage is four words each of 8, 16, 32 and 64 bits, each kind in a page of its own between inaccessible ones.
// Operands: references 1..7 to mutable words, 8..10 to const words, values 11..13, constants 14, 15.
#include "common.hpp"
#include <functional>
#include <iterator>
#include <optional>
#include <type_traits>
#include <utility>
#include <sys/mman.h>
#include "bitlib/bitlib.hpp"

enum Op { ASSIGN, AND_TO, OR_TO, XOR_TO, SET, RESET, FLIP, SET_TO, ASSIGN_WORD, VALUE_OF, VALUE_OF_WORD, VALUE_OF_BOOL, VALUE, GET, NOT, LOC, POINTER,
          AND, OR, XOR, CMP, SWAP, FREE_SWAP, ITER_SWAP, BIND, ALIAS, NOPS };
static const char* NAME[] = {"assign", "and_to", "or_to", "xor_to", "set", "reset", "flip", "set_to", "assign_word", "value_of", "value_of_word",
    "value_of_bool", "value", "get", "not", "loc", "pointer", "and", "or", "xor", "cmp", "swap", "free_swap", "iter_swap", "bind", "alias"};
static const int REFS = 10, MUTABLE = 7, VALS = 3;
static const int WIDTH[] = {0, 8, 8, 16, 32, 64, 64, 32, 8, 64, 16}; // of the words references refer to
struct Call { Op op; int s, t; i64 n; int pos, width; u64 w; int how; };

// ------------------------------------------------------------------ storage
static u8* g_page[4];
static u8* g_area[4];    // where the four words begin
static int kind_of(int width) { return width == 8 ? 0 : width == 16 ? 1 : width == 32 ? 2 : 3; }
static const int FIRST[] = {0, 32, 96, 224}, TOTAL = 480;
template <class W> static W* words() { return (W*)g_area[kind_of(sizeof(W) * 8)]; }
static void map_pages() {
    for (auto& p : g_page) {
        u8* m = (u8*)mmap(nullptr, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED || mprotect(m + 4096, 4096, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(3); }
        p = m + 4096;
    }
}
static void place(u64 salt) {
    for (int k = 0; k < 4; k++) { memset(g_page[k], 0x5A, 4096); g_area[k] = g_page[k] + (salt >> k & 1 ? 4096 - (4 << k) : 0); }
}
static std::string limbs() {
    std::string s; char b[16];
    auto put = [&](u64 v) { snprintf(b, sizeof b, "%s%llu", s.empty() ? "" : ",", (unsigned long long)(v & 0xffff)); s += b; };
    u8* a = words<u8>(); put(a[0] | a[1] << 8); put(a[2] | a[3] << 8);
    for (int i = 0; i < 4; i++) put(words<u16>()[i]);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) put(words<u32>()[i] >> 16 * j);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) put(words<u64>()[i] >> 16 * j);
    return s;
}

// ------------------------------------------------------------------ operands
template <class W> using Ref = bit::bit_reference<W>;
struct State {
    std::optional<Ref<u8>> r1, r2; std::optional<Ref<u16>> r3; std::optional<Ref<u32>> r4; std::optional<Ref<u64>> r5, r6; std::optional<Ref<volatile u32>> r7;
    std::optional<Ref<const u8>> r8; std::optional<Ref<const u64>> r9; std::optional<Ref<const u16>> r10;
    bit::bit_value v[VALS];
    // f(register) for references
    template <class F> void ref(int s, F f) {
        switch (s) { case 1: f(r1); break; case 2: f(r2); break; case 3: f(r3); break; case 4: f(r4); break; case 5: f(r5); break; case 6: f(r6); break;
                     case 7: f(r7); break; case 8: f(r8); break; case 9: f(r9); break; case 10: f(r10); break; }
    }
    // f(operand) for what can be written, or read
    template <class F> void writable(int s, F f) {
        switch (s) { case 1: f(*r1); break; case 2: f(*r2); break; case 3: f(*r3); break; case 4: f(*r4); break; case 5: f(*r5); break; case 6: f(*r6); break;
                     case 7: f(*r7); break; default: f(v[s - REFS - 1]); }
    }
    template <class F> void readable(int s, F f) {
        if (s <= MUTABLE || (s > REFS && s <= REFS + VALS)) { writable(s, f); return; }
        switch (s) { case 8: f(*r8); break; case 9: f(*r9); break; case 10: f(*r10); break; case REFS + VALS + 1: f(bit::bit0); break; default: f(bit::bit1); }
    }
};
template <class X> struct is_ref : std::false_type {};
template <class W> struct is_ref<Ref<W>> : std::true_type {};
template <class R> using word_of = typename R::word_type;

static std::string g_r, g_x;
static void num(i64 v) { char b[32]; snprintf(b, sizeof b, "%s%lld", g_r.empty() ? "" : ",", (long long)v); g_r += b; }
template <class W> static i64 index_of(const volatile W* p, size_t pos) { // global index of a bit
    const i64 D = sizeof(W) * 8; i64 i = (const W*)p - words<W>();
    return i < 0 || i > 3 || pos >= (size_t)D ? -2 : FIRST[kind_of(D)] + i * D + (i64)pos;
}
template <class R> static i64 where(const R& r) {
    typedef typename std::remove_cv<word_of<R>>::type W;
    if (r.position() < sizeof(W) * 8 && r.mask() != (W)((W)1 << r.position())) g_x = "mask and position disagree";
    return index_of<W>(r.address(), r.position());
}
template <class W> static void show(const volatile W* p, size_t pos) { num(sizeof(W) * 8); num((const W*)p - words<W>()); num((i64)pos); }

static void perform(State& S, const Call& c) {
    auto same = [&](const void* a, const void* b) { if (a != b) g_x = "does not return its left operand"; };
    const int s = c.s, t = c.t; const bool b = c.n != 0;
    switch (c.op) {
    case ASSIGN: S.writable(s, [&](auto& x) { S.readable(t, [&](auto& y) { auto& z = (x = y); same(std::addressof(z), std::addressof(x)); }); }); break;
    case AND_TO: S.writable(s, [&](auto& x) { S.readable(t, [&](auto& y) { auto& z = (x &= y); same(std::addressof(z), std::addressof(x)); }); }); break;
    case OR_TO: S.writable(s, [&](auto& x) { S.readable(t, [&](auto& y) { auto& z = (x |= y); same(std::addressof(z), std::addressof(x)); }); }); break;
    case XOR_TO: S.writable(s, [&](auto& x) { S.readable(t, [&](auto& y) { auto& z = (x ^= y); same(std::addressof(z), std::addressof(x)); }); }); break;
    case SET: S.writable(s, [&](auto& x) { auto& z = x.set(); same(std::addressof(z), std::addressof(x)); }); break;
    case RESET: S.writable(s, [&](auto& x) { auto& z = x.reset(); same(std::addressof(z), std::addressof(x)); }); break;
    case FLIP: S.writable(s, [&](auto& x) { auto& z = x.flip(); same(std::addressof(z), std::addressof(x)); }); break;
    case SET_TO: S.writable(s, [&](auto& x) { auto& z = x.set(b); same(std::addressof(z), std::addressof(x)); }); break;
    case ASSIGN_WORD: S.writable(s, [&](auto& x) {
        auto go = [&](auto w) { auto& z = c.pos || c.how ? x.assign(w, (size_t)c.pos) : x.assign(w); same(std::addressof(z), std::addressof(x)); };
        typedef typename std::remove_reference<decltype(x)>::type X;
        if constexpr (is_ref<X>::value) go((typename std::remove_cv<word_of<X>>::type)c.w);
        else switch (c.width) { case 8: go((u8)c.w); break; case 16: go((u16)c.w); break; case 32: go((u32)c.w); break; default: go((u64)c.w); } }); break;
    case VALUE_OF: S.readable(t, [&](auto& y) { bit::bit_value& v = S.v[s - REFS - 1]; v.~bit_value();
        switch (c.how) { case 0: new (&v) bit::bit_value(y); break; case 1: { bit::bit_value u = y; new (&v) bit::bit_value(u); break; } default: { auto f = [](bit::bit_value q) { return q; }; new (&v) bit::bit_value(f(y)); } } }); break;
    case VALUE_OF_WORD: { bit::bit_value& v = S.v[s - REFS - 1]; v.~bit_value();
        auto go = [&](auto w) { if (c.pos || c.how) new (&v) bit::bit_value(w, (size_t)c.pos); else new (&v) bit::bit_value(w); };
        switch (c.width) { case 8: go((u8)c.w); break; case 16: go((u16)c.w); break; case 32: go((u32)c.w); break; default: go((u64)c.w); } break; }
    case VALUE_OF_BOOL: { bit::bit_value& v = S.v[s - REFS - 1]; v.~bit_value(); new (&v) bit::bit_value(b); break; }
    case VALUE: { bit::bit_value& v = S.v[s - REFS - 1]; v.~bit_value(); memset((void*)&v, 1, sizeof v); new (&v) bit::bit_value; break; }
    case GET: S.readable(s, [&](auto& x) { switch (c.how) { case 0: num(static_cast<bool>(x)); break; case 1: num(x ? 1 : 0); break; default: num(!x ? 0 : 1); } }); break;
    case NOT: S.readable(s, [&](auto& x) { num(static_cast<bool>(~x)); }); break;
    case AND: S.readable(s, [&](auto& x) { S.readable(t, [&](auto& y) { num(static_cast<bool>(x & y)); }); }); break;
    case OR: S.readable(s, [&](auto& x) { S.readable(t, [&](auto& y) { num(static_cast<bool>(x | y)); }); }); break;
    case XOR: S.readable(s, [&](auto& x) { S.readable(t, [&](auto& y) { num(static_cast<bool>(x ^ y)); }); }); break;
    case CMP: S.readable(s, [&](auto& x) { S.readable(t, [&](auto& y) { for (bool q : {x == y, x != y, x < y, x <= y, x > y, x >= y}) num(q); }); }); break;
    case LOC: S.ref(s, [&](auto& x) { show(x->address(), x->position()); if (x->mask() != (decltype(x->mask()))((decltype(x->mask()))1 << x->position())) g_x = "mask"; }); break;
    case POINTER: S.ref(s, [&](auto& x) { auto p = &*x; auto r = *p; show(r.address(), r.position()); if (&r != p || !p) g_x = "pointer of a reference"; }); break;
    case SWAP: S.writable(s, [&](auto& x) { S.writable(t, [&](auto& y) { x.swap(y); }); }); break;
    case FREE_SWAP: S.writable(s, [&](auto& x) { S.writable(t, [&](auto& y) {
        if constexpr (!is_ref<typename std::remove_reference<decltype(x)>::type>::value && !is_ref<typename std::remove_reference<decltype(y)>::type>::value) std::swap(x, y);
        else swap(x, y); }); }); break;
    case ITER_SWAP: S.ref(s, [&](auto& x) { S.ref(t, [&](auto& y) {
        typedef word_of<typename std::remove_reference<decltype(*x)>::type> A; typedef word_of<typename std::remove_reference<decltype(*y)>::type> B;
        if constexpr (!std::is_const<A>::value && !std::is_const<B>::value)
            std::iter_swap(bit::bit_iterator<A*>(x->address(), x->position()), bit::bit_iterator<B*>(y->address(), y->position())); }); }); break;
    case BIND: S.ref(s, [&](auto& x) {
        typedef typename std::remove_reference<decltype(*x)>::type R; typedef word_of<R> A; typedef typename std::remove_cv<A>::type W;
        const i64 D = sizeof(W) * 8, i = c.n - FIRST[kind_of(D)]; A* p = words<W>() + i / D; size_t pos = (size_t)(i % D);
        switch (c.how) {
        case 0: x.emplace(*p, pos); break;
        case 1: x.emplace(*bit::bit_iterator<A*>(p, pos)); break;
        case 2: x.emplace(*bit::bit_pointer<A>(p, pos)); break;
        case 3: x.emplace(bit::bit_iterator<A*>(words<W>())[i]); break;
        case 4: x.emplace(bit::bit_pointer<A>((A*)words<W>())[i]); break;
        case 5: { bit::bit_iterator<A*> q(p, pos); x.emplace(*&*q); break; }
        default: if (pos == 0) x.emplace(*p); else { R y(*p, pos); x.emplace(y); } } }); break;
    case ALIAS: S.ref(s, [&](auto& x) { S.ref(t, [&](auto& y) {
        typedef typename std::remove_reference<decltype(*x)>::type R; typedef typename std::remove_reference<decltype(*y)>::type Q;
        if constexpr (std::is_convertible<word_of<Q>*, word_of<R>*>::value) { const R z(*y); x.emplace(z); } }); }); break;
    default: break;
    }
}

// -------------------------------------------------------------- histories
struct Sess { u64 fill; u64 salt; std::vector<Call> calls; };
static bool convertible(int s, int t) { // can register s be made from register t
    if (WIDTH[s] != WIDTH[t]) return false;
    if (t > MUTABLE) return s > MUTABLE;
    return !(t == 7 && s != 7);
}
static std::vector<Sess> generate(u64 seed, bool thorough) {
    std::vector<Sess> all; Rng g(seed * 77 + 5);
    auto bindc = [&](int s, i64 i) { return Call{BIND, s, 0, FIRST[kind_of(WIDTH[s])] + i, 0, 0, 0, (int)g.below(7)}; };
    auto alone = [&](std::vector<Call>& c, int s) { // everything about one operand
        bool val = s > REFS;
        static const Op ops[] = {FLIP, SET, SET, FLIP, RESET, RESET, SET_TO, SET_TO, ASSIGN_WORD, ASSIGN_WORD, ASSIGN_WORD, GET, NOT};
        int first = (int)g.below(13);
        for (int i = 0; i < 13; i++) {
            Op o = ops[(i + first) % 13]; int width = val ? (int)g.pick<int>({8, 16, 32, 64}) : WIDTH[s];
            c.push_back({o, s, 0, (i64)g.below(2), g.below(3) ? (int)g.below(width) : 0, width, g.next(), (int)g.below(3)});
        }
    };
    // every bit of the storage, alone
    for (int s = 1; s <= MUTABLE; s++) for (int i = 0; i < 4 * WIDTH[s]; i++) {
        if (!thorough && WIDTH[s] > 16 && i % 3 && i % WIDTH[s] != WIDTH[s] - 1 && i % WIDTH[s]) continue;
        Sess S{g.below(4), g.next(), {}}; S.calls.push_back(bindc(s, i)); S.calls.push_back({LOC, s, 0, 0, 0, 0, 0, 0}); S.calls.push_back({POINTER, s, 0, 0, 0, 0, 0, 0});
        alone(S.calls, s); all.push_back(S);
    }
    // histories with all of them, bits that coincide or are neighbours
    for (int k = 0; k < (thorough ? 12000 : 2500); k++) {
        Sess S{g.below(4), g.next(), {}}; bool bound[REFS + 1] = {}; i64 at[REFS + 1] = {};
        auto base = [&](int s) { return (i64)FIRST[kind_of(WIDTH[s])]; };
        for (int s = 1; s <= REFS; s++) if (g.below(4)) { Call c = bindc(s, (i64)g.below(4 * WIDTH[s])); S.calls.push_back(c); bound[s] = true; at[s] = c.n; }
        auto readable = [&](int s) { return s > REFS || bound[s]; };
        auto writable = [&](int s) { return (s > REFS || (s <= MUTABLE && bound[s])) && s <= REFS + VALS; };
        for (int step = 0; step < 40; step++) {
            Op o = (Op)g.below(NOPS); if (g.below(4) == 0) o = g.pick<Op>({ASSIGN, SWAP, FREE_SWAP, ITER_SWAP, CMP, XOR_TO});
            int s = (int)g.range(1, REFS + VALS + 2), t = (int)g.range(1, REFS + VALS + 2); if (g.below(8) == 0) t = s;
            int width = s >= 1 && s <= REFS ? WIDTH[s] : (int)g.pick<int>({8, 16, 32, 64});
            Call c{o, s, t, (i64)g.below(2), g.below(3) ? (int)g.below(width) : 0, width, g.next(), (int)g.below(3)};
            switch (o) {
            case ASSIGN: case AND_TO: case OR_TO: case XOR_TO: if (!writable(s) || !readable(t)) continue; break;
            case SET: case RESET: case FLIP: case SET_TO: case ASSIGN_WORD: if (!writable(s)) continue; break;
            case VALUE_OF: if (s <= REFS || s > REFS + VALS || !readable(t) || s == t) continue; break;
            case VALUE_OF_WORD: case VALUE_OF_BOOL: case VALUE: if (s <= REFS || s > REFS + VALS) continue; break;
            case GET: case NOT: if (!readable(s)) continue; break;
            case LOC: case POINTER: if (s > REFS || !bound[s]) continue; break;
            case AND: case OR: case XOR: case CMP: if (!readable(s) || !readable(t)) continue; break;
            case SWAP: case FREE_SWAP: if (!writable(s) || !writable(t)) continue; break;
            case ITER_SWAP: if (!writable(s) || !writable(t) || s > REFS || t > REFS) continue; break;
            case BIND: { if (s > REFS) continue;
                i64 i = (i64)g.below(4 * WIDTH[s]); // often at or next to what another one designates
                for (int u = 1; u <= REFS; u++) if (bound[u] && WIDTH[u] == WIDTH[s] && u != s && g.coin()) { i = at[u] - base(s) + g.range(-1, 1); if (i < 0 || i >= 4 * WIDTH[s]) i = at[u] - base(s); }
                c = bindc(s, i); bound[s] = true; at[s] = c.n; break; }
            case ALIAS: if (s > REFS || t > REFS || s == t || !bound[t] || !convertible(s, t)) continue; bound[s] = true; at[s] = at[t]; break;
            default: continue;
            }
            S.calls.push_back(c);
        }
        all.push_back(S);
    }
    return all;
}

static struct { u64 execs = 0, calls = 0; } g_stats;
static std::string run(const Sess& S) {
    place(S.salt);
    Rng g(S.salt);
    for (int k = 0; k < 4; k++) for (int i = 0; i < (4 << k); i++) g_area[k][i] = S.fill == 0 ? 0 : S.fill == 1 ? 0xff : (u8)g.next();
    State st; char b[256];
    std::string out = "{\"o\":\"start\",\"m\":[" + limbs() + "],\"f\":[";
    for (int s = 1; s <= REFS; s++) out += s > 1 ? ",-1" : "-1";
    out += "],\"u\":["; for (int i = 0; i < VALS; i++) out += i ? ",0" : "0";
    out += "],\"x\":\"\"}";
    for (auto& c : S.calls) {
        g_r.clear(); g_x.clear();
        std::string f, u;
        g_armed = 1;
        if (sigsetjmp(g_jmp, 0) == 0) {
            try {
                perform(st, c);
                for (int s = 1; s <= REFS; s++) { i64 i = -1; st.ref(s, [&](auto& x) { if (x) i = where(*x); }); snprintf(b, sizeof b, "%s%lld", s > 1 ? "," : "", (long long)i); f += b; }
                for (int i = 0; i < VALS; i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", (int)static_cast<bool>(st.v[i])); u += b; }
            } catch (...) { g_x = "an exception"; }
            g_armed = 0;
        } else { g_x = (const char*)g_fault; f = u = ""; }
        for (int k = 0; k < 4; k++) for (int i = 0; i < 4096; i++) if ((g_page[k] + i < g_area[k] || g_page[k] + i >= g_area[k] + (4 << k)) && g_page[k][i] != 0x5A) g_x = "wrote elsewhere";
        out += '\x1f';
        snprintf(b, sizeof b, "{\"o\":\"%s\",\"s\":%d,\"t\":%d,\"n\":%lld,\"w\":[%d", NAME[c.op], c.s, c.t, (long long)c.n, c.pos); out += b;
        for (int k = 0; k < (c.width + 15) / 16; k++) { snprintf(b, sizeof b, ",%llu", (unsigned long long)((c.width == 8 ? c.w & 0xff : c.w >> 16 * k) & 0xffff)); out += b; }
        out += "],\"r\":[" + g_r + "],\"m\":[" + limbs() + "],\"f\":[" + f + "],\"u\":[" + u + "],\"x\":\"" + g_x + "\"}";
        g_stats.calls++;
        if (!g_x.empty()) break;
    }
    g_stats.execs++;
    return out;
}

int main(int argc, char** argv) {
    u64 seed = 1; bool thorough = false; int shard = 0, shards = 1; i64 only = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &shards);
        else if (a == "--only") only = atoll(argv[++i]);
        else { fprintf(stderr, "usage\n"); return 3; }
    }
    install(); map_pages();
    std::vector<Sess> all = generate(seed, thorough);
    for (size_t sid = 0; sid < all.size(); sid++) {
        if (only >= 0 ? (i64)sid != only : (int)(sid % shards) != shard) continue;
        cpu_limit(30);
        std::string o = run(all[sid]);
        printf("%zu\t-\t%s\n", sid, o.c_str());
    }
    printf("#stats %llu %llu\n", (unsigned long long)g_stats.execs, (unsigned long long)g_stats.calls);
    return fflush(stdout) ? 3 : 0;
}
