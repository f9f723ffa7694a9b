// Drives bit_vector and records histories that spec/BitVecTrace.tla validates.
//
// A session is a history: calls on three slots, each of which holds a vector
// or none.  It runs for four word types, and for each of them once per plane
// (common.hpp): every bit that enters a vector is a token of a long input, and
// the planes together decide which token every bit of every vector is after
// every call.  Each run reads the vectors in different ways (indices,
// iterators, at(), words, debug_string(), ...), so that these must agree.
//
// All memory the library asks for comes from here: blocks lie against
// inaccessible pages, start with junk, are poisoned when freed, and are
// numbered.  Requests can be refused.
//
//   vec --seed S --tier T --profile P --shard I/N [--only SID] [--script FILE]
// Output lines: SID \t word sizes \t outcome (JSON events separated by \x1f)

#include "common.hpp"
#include <array>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include "bitlib/bitlib.hpp"

#ifndef ALLOC
#define ALLOC 0     // 1: vectors with stateful allocators that do not propagate
#endif
#if defined(__SANITIZE_ADDRESS__)
#define PLAIN 1     // AddressSanitizer guards the blocks
#else
#define PLAIN 0
#endif

// ------------------------------------------------------------------ memory
static const size_t PAGE = 4096, SLOT = 16 * PAGE, STRIDE = SLOT + PAGE, NSLOTS = 32;
struct Block { u8* p; size_t bytes; int tag, serial; bool live; };
static u8* g_pool;
static Block g_block[NSLOTS];
static unsigned g_next = 0; static int g_serial = 0;
static bool g_track = false;
static int g_tag = 0, g_allocs = 0, g_refused = 0, g_fail_at = 0, g_live = 0; static bool g_fail_all = false;
static const char* g_mem_error = "";
static u64 g_junk = 1;

static void map_pool() {
    if (PLAIN) return;
    g_pool = (u8*)mmap(nullptr, STRIDE * NSLOTS + PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_pool == MAP_FAILED) { perror("mmap"); exit(3); }
    for (size_t i = 0; i < NSLOTS; i++) if (mprotect(g_pool + PAGE + i * STRIDE, SLOT, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
}
static const u8 DEAD = 0xDB, EDGE = 0x5C;
static bool all_are(const u8* p, size_t n, u8 v) { for (size_t i = 0; i < n; i++) if (p[i] != v) return false; return true; }
static void edges(Block& b, size_t i, bool check) {
    if (PLAIN) return;
    u8 *lo = g_pool + PAGE + i * STRIDE, *hi = lo + SLOT;
    size_t l = std::min<size_t>(64, b.p - lo), h = std::min<size_t>(64, hi - (b.p + b.bytes));
    if (!check) { memset(b.p - l, EDGE, l); memset(b.p + b.bytes, EDGE, h); }
    else if (!all_are(b.p - l, l, EDGE) || !all_are(b.p + b.bytes, h, EDGE)) g_mem_error = "wrote outside a block";
}
static void check_memory() { // blocks in use have intact edges, freed ones are untouched
    for (size_t i = 0; i < NSLOTS; i++) { Block& b = g_block[i]; if (!b.p) continue;
        if (b.live) edges(b, i, true);
        else if (!PLAIN && !all_are(b.p, b.bytes, DEAD)) g_mem_error = "wrote to a freed block"; }
}
static void forget_memory() { // start of a history
    for (auto& b : g_block) { if (PLAIN && b.live) std::free(b.p); b = Block{nullptr, 0, 0, 0, false}; }
    g_next = 0; g_serial = 0; g_live = 0; g_mem_error = ""; g_allocs = g_refused = g_fail_at = 0; g_fail_all = false;
}
static void* get_block(size_t bytes, int tag) {
    if (!g_track) { void* p = std::malloc(bytes ? bytes : 1); if (!p) throw std::bad_alloc(); return p; }
    if (g_fail_at > 0 && --g_fail_at == 0) { if (g_fail_all) g_fail_at = 1; g_refused++; throw std::bad_alloc(); }
    if (bytes > SLOT) { g_refused++; throw std::bad_alloc(); }
    size_t i = NSLOTS;
    for (size_t k = 0; k < NSLOTS; k++) if (!g_block[(g_next + k) % NSLOTS].live) { i = (g_next + k) % NSLOTS; break; }
    if (i == NSLOTS) { g_mem_error = "leaks blocks"; throw std::bad_alloc(); }
    g_next = i + 1;
    Block& b = g_block[i];
    if (!PLAIN && b.p && !all_are(b.p, b.bytes, DEAD)) g_mem_error = "wrote to a freed block";
    u8* p;
    if (PLAIN) p = (u8*)std::malloc(bytes ? bytes : 1);
    else { u8* lo = g_pool + PAGE + i * STRIDE; size_t al = bytes % 8 == 0 ? 8 : bytes % 4 == 0 ? 4 : bytes % 2 == 0 ? 2 : 1; (void)al;
           p = (g_serial + g_junk) % 3 == 2 ? lo : lo + SLOT - bytes; }
    b = Block{p, bytes, tag, ++g_serial, true};
    edges(b, i, false);
    u64 z = g_junk * 0x9E3779B97F4A7C15ull + g_serial;
    for (size_t k = 0; k < bytes; k++) { z = z * 6364136223846793005ull + 1442695040888963407ull; p[k] = (u8)(z >> 56); }
    g_allocs++; g_live++;
    return p;
}
static void free_block(void* q, int tag) {
    if (!q) return;
    u8* p = (u8*)q;
    for (size_t i = 0; i < NSLOTS; i++) { Block& b = g_block[i]; if (b.p != p) continue;
        if (!b.live) { if (PLAIN) break; g_mem_error = "freed a block twice"; return; }
        if (tag >= 0 && b.tag != tag) g_mem_error = "freed a block through another allocator";
        edges(b, i, true); b.live = false; g_live--;
        if (PLAIN) { b.p = nullptr; break; }
        memset(p, DEAD, b.bytes); return; }
    if (!PLAIN && p >= g_pool && p < g_pool + STRIDE * NSLOTS) { g_mem_error = "freed what is no block"; return; }
    std::free(q);
}
static Block* block_of(const void* q) {
    const u8* p = (const u8*)q;
    for (auto& b : g_block) if (b.live && p >= b.p && p < b.p + std::max<size_t>(b.bytes, 1)) return &b;
    return nullptr;
}
void* operator new(size_t n) { return get_block(n, 0); }
void* operator new[](size_t n) { return get_block(n, 0); }
void operator delete(void* p) noexcept { free_block(p, -1); }
void operator delete[](void* p) noexcept { free_block(p, -1); }
void operator delete(void* p, size_t) noexcept { free_block(p, -1); }
void operator delete[](void* p, size_t) noexcept { free_block(p, -1); }

template <class T> struct TagAlloc {
    typedef T value_type;
    typedef std::false_type propagate_on_container_copy_assignment, propagate_on_container_move_assignment, propagate_on_container_swap, is_always_equal;
    int tag;
    TagAlloc(int t = 1) noexcept : tag(t) {}
    template <class U> TagAlloc(const TagAlloc<U>& o) noexcept : tag(o.tag) {}
    T* allocate(size_t n) { if (n > (size_t)PTRDIFF_MAX / sizeof(T)) throw std::bad_array_new_length(); return (T*)get_block(n * sizeof(T), tag); }
    void deallocate(T* p, size_t) noexcept { free_block(p, tag); }
    template <class U> bool operator==(const TagAlloc<U>& o) const noexcept { return tag == o.tag; }
    template <class U> bool operator!=(const TagAlloc<U>& o) const noexcept { return tag != o.tag; }
};
#if ALLOC
template <class W> using Al = TagAlloc<W>;
template <class A> static A make_alloc(int g) { return A(g); }
#else
template <class W> using Al = std::allocator<W>;
template <class A> static A make_alloc(int) { return A(); }
#endif

// ------------------------------------------------------------------- calls
enum Op { NEW, NEW_N, NEW_NV, NEW_BITS, NEW_BOOLS, NEW_WORDS, NEW_VALUES, NEW_BOOLLIST, NEW_WORDLIST, NEW_STR, NEW_SLICE,
    NEW_COPY, NEW_COPY_ALLOC, NEW_MOVE, NEW_MOVE_ALLOC, NEW_N_HUGE, NEW_NV_HUGE,
    PUSH, PUSH_REF, POP, INSERT, INSERT_N, INSERT_R, ERASE, ERASE_R, RESIZE, RESIZE_V, CLEAR, RESERVE, SHRINK,
    SET, AT_SET, AT_GET, DATA_SET, FRONT_SET, BACK_SET, FLIP, RESERVE_HUGE, RESIZE_HUGE, INSERT_HUGE,
    REVERSE, ROTATE, FILL, SHIFT_LEFT, SHIFT_RIGHT, COPY, COPY_BACKWARD, SWAP_RANGES, NOT,
    COPY_ASSIGN, MOVE_ASSIGN, SWAP, DESTROY, COPY_BITS, NOPS };
static const struct { const char* name; int arity; } OPS[NOPS] = {
    {"new", 0}, {"new_n", 1}, {"new_nv", 2}, {"new_bits", 2}, {"new_bools", 2}, {"new_words", 2}, {"new_values", 2}, {"new_boollist", 2},
    {"new_wordlist", 2}, {"new_str", 2}, {"new_slice", 3}, {"new_copy", 1}, {"new_copy_alloc", 1}, {"new_move", 1}, {"new_move_alloc", 1},
    {"new_n_huge", 0}, {"new_nv_huge", 1},
    {"push", 1}, {"push_ref", 1}, {"pop", 0}, {"insert", 2}, {"insert_n", 3}, {"insert_r", 4}, {"erase", 1}, {"erase_r", 2}, {"resize", 1},
    {"resize_v", 2}, {"clear", 0}, {"reserve", 1}, {"shrink", 0},
    {"set", 2}, {"at_set", 2}, {"at_get", 1}, {"data_set", 2}, {"front_set", 1}, {"back_set", 1}, {"flip", 1}, {"reserve_huge", 0},
    {"resize_huge", 1}, {"insert_huge", 2},
    {"reverse", 2}, {"rotate", 3}, {"fill", 3}, {"shift_left", 3}, {"shift_right", 3}, {"copy", 3}, {"copy_backward", 3}, {"swap_ranges", 3}, {"not", 3},
    {"copy_assign", 1}, {"move_assign", 1}, {"swap", 1}, {"destroy", 0}, {"copy_bits", 4} };

static const int K = 3;               // slots, numbered from 1
static const int NTOK = 4096;         // tokens of the input
static const int NOVALUE = -100, OUT_OF_RANGE = -1, BAD_ALLOC = -2, LENGTH_ERROR = -3, BAD = -99;
static const i64 TOP = 2147483647;    // stands for something larger still

struct Call { int op, s; i64 a[4]; int g, fail; }; // fail: which allocation to refuse; negative: and all later ones
struct Sess { std::vector<Call> calls; };

static size_t huge(unsigned salt) {
    static const size_t H[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 6, SIZE_MAX - 7, SIZE_MAX - 62, SIZE_MAX - 63, SIZE_MAX - 64, SIZE_MAX - 1000,
                               (size_t)1 << 63, ((size_t)1 << 63) - 1, ((size_t)1 << 63) + 64, (size_t)3 << 61, SIZE_MAX / 2 - 63};
    return H[salt % (sizeof H / sizeof *H)];
}

// -------------------------------------------------------------- one history
struct SlotSeen { int l; i64 k; int b; i64 z; int g; int n; };
struct EventSeen { i64 ret; int al, f, lb; SlotSeen slot[K]; std::string x; };

template <class W> struct World {
    typedef Al<W> A;
    typedef bit::bit_vector<W, A> V;
    static const int D = sizeof(W) * 8;
    std::optional<V> v[K + 1];
    const u8* in; unsigned salt;

    bool bitin(i64 t) const { return t >= 0 ? getb(in, (int)t) : t == -2; }
    bit::bit_value val(i64 t) const { return bitin(t) ? bit::bit1 : bit::bit0; }
    // (no dereference: of an empty vector there is nothing to refer to)
    template <class B> static W* addr(B b) {
        if constexpr (std::is_pointer<B>::value) return (W*)b;
#ifdef _GLIBCXX_DEBUG
        else if constexpr (sizeof(B) > sizeof(W*)) return addr(b.base());
#endif
        else return (W*)b.operator->();
    }
    static W* raw(V& x) { return x.capacity() ? addr(x.begin().base()) : nullptr; }
    template <class It> static i64 pos_in(V& x, It it) {
        W* p = addr(it.base()); intptr_t d = (intptr_t)p - (intptr_t)raw(x);
        if (raw(x) == nullptr) return p == nullptr && it.position() == 0 ? 0 : BAD;
        if (d < 0 || d % (intptr_t)sizeof(W) || it.position() >= (size_t)D) return BAD;
        return d / (intptr_t)sizeof(W) * D + (i64)it.position();
    }
    // n input bits from t, as words with the first at bit off; other bits junk
    std::vector<W> words(i64 t, i64 n, int off) const {
        std::vector<W> w((size_t)(off + n + D - 1) / D + 1);
        for (size_t i = 0; i < w.size(); i++) w[i] = (W)(0x5bd1e995u * (i + 1 + salt) >> 3);
        for (i64 i = 0; i < n; i++) { W m = (W)((W)1 << ((off + i) % D)); W& x = w[(off + i) / D]; x = (W)(bitin(t < 0 ? t : t + i) ? x | m : x & ~m); }
        return w;
    }
    template <class F> void tracked(F f) {
        g_track = true;
        try { f(); } catch (...) { g_track = false; throw; }
        g_track = false;
    }
    template <class T, size_t... I> static void make_list(std::optional<V>& o, const T* p, const A& al, bool braces, std::index_sequence<I...>) {
        if (braces) { o.emplace(std::initializer_list<T>{p[I]...}, al); return; }
        if (sizeof...(I) == 0) { o.emplace(std::initializer_list<T>{}); return; }
        V t{p[I]...};
        o.emplace(std::move(t));
    }
    template <class T> static void make_list(std::optional<V>& o, const T* p, i64 n, const A& al, bool braces) {
        switch (n) {
#define L(k) case k: make_list(o, p, al, braces, std::make_index_sequence<k>()); break;
        L(0) L(1) L(2) L(3) L(4) L(5) L(6) L(7) L(8) L(9) L(12) L(15) L(16) L(17) L(24) L(31) L(32) L(33) L(48) L(63) L(64) L(65) L(70)
#undef L
        default: fprintf(stderr, "harness: no list of %lld\n", (long long)n); _exit(3);
        }
    }

    i64 act(const Call& c) {
        const i64* a = c.a;
        std::optional<V>& o = v[c.s];
        const A al = make_alloc<A>(c.g);
        // several spellings of one call
        const bool dflt = !ALLOC && salt % 2;     // leave the allocator argument out
        i64 ret = NOVALUE;
        auto tok = [&](i64 i) { return a[0] < 0 ? a[0] : a[0] + i; };
        switch (c.op) {
        case NEW: tracked([&] { if (dflt) o.emplace(); else o.emplace(al); }); return ret;
        case NEW_N: tracked([&] { if (dflt) o.emplace((size_t)a[0]); else o.emplace((size_t)a[0], al); }); return ret;
        case NEW_NV: { auto x = val(a[1]); tracked([&] { if (dflt) o.emplace((size_t)a[0], x); else o.emplace((size_t)a[0], x, al); }); return ret; }
        case NEW_N_HUGE: tracked([&] { o.emplace(huge(salt), al); }); return ret;
        case NEW_NV_HUGE: { auto x = val(a[0]); tracked([&] { o.emplace(huge(salt), x, al); }); return ret; }
        case NEW_BITS: {
            int off = (salt / 2) % D; std::vector<W> w = words(a[0], a[1], off);
            auto go = [&](auto it) { auto f = it + off, l = f + a[1]; tracked([&] { if (dflt) o.emplace(f, l); else o.emplace(f, l, al); }); };
            switch (salt % 4) {
            case 0: go(bit::bit_iterator<W*>(w.data())); break;
            case 1: go(bit::bit_iterator<const W*>(w.data())); break;
            case 2: go(bit::bit_iterator<typename std::vector<W>::iterator>(w.begin())); break;
            default: go(bit::bit_iterator<typename std::vector<W>::const_iterator>(w.cbegin())); break;
            }
            return ret; }
        case NEW_BOOLS: {
            auto go = [&](auto f, auto l) { tracked([&] { if (dflt) o.emplace(f, l); else o.emplace(f, l, al); }); };
            if (salt % 3 == 0) { std::vector<bool> b(a[1]); for (i64 i = 0; i < a[1]; i++) b[i] = bitin(tok(i)); go(b.begin(), b.end()); }
            else if (salt % 3 == 1) { std::deque<bool> b(a[1]); for (i64 i = 0; i < a[1]; i++) b[i] = bitin(tok(i)); go(b.cbegin(), b.cend()); }
            else { std::unique_ptr<bool[]> b(new bool[a[1] + 1]); for (i64 i = 0; i < a[1]; i++) b[i] = bitin(tok(i));
                   const bool* p = b.get(); go(p, p + a[1]); }
            return ret; }
        case NEW_WORDS: {
            std::vector<W> w = words(a[0], a[1], 0); size_t n = a[1] / D;
            auto go = [&](auto f, auto l) { tracked([&] { if (dflt) o.emplace(f, l); else o.emplace(f, l, al); }); };
            if (salt % 3 == 0) go(w.data(), w.data() + n);
            else if (salt % 3 == 1) go(w.cbegin(), w.cbegin() + n);
            else { std::deque<W> q(w.begin(), w.begin() + n); go(q.begin(), q.end()); }
            return ret; }
        case NEW_VALUES: { bit::bit_value b[70]; for (i64 i = 0; i < a[1]; i++) b[i] = val(tok(i));
            tracked([&] { make_list(o, b, a[1], al, !dflt); }); return ret; }
        case NEW_BOOLLIST: { bool b[70]; for (i64 i = 0; i < a[1]; i++) b[i] = bitin(tok(i));
            tracked([&] { make_list(o, b, a[1], al, !dflt); }); return ret; }
        case NEW_WORDLIST: { std::vector<W> w = words(a[0], a[1], 0);
            tracked([&] { make_list(o, w.data(), a[1] / D, al, !dflt); }); return ret; }
        case NEW_STR: {
            static const char SEP[] = " ._|,-xX23456789:;/*\n\tb'\"\0";
            std::string s; unsigned z = salt * 7 + 3;
            for (i64 i = 0; i <= a[1]; i++) {
                while ((z = z * 1103515245u + 12345u) >> 29 < (salt % 4)) s += SEP[(z >> 8) % sizeof SEP];
                if (i < a[1]) s += bitin(tok(i)) ? '1' : '0';
            }
            tracked([&] { o.emplace(std::string_view(s)); }); return ret; }
        case NEW_SLICE: {
            V& x = *v[a[0]];
            if (salt % 2) tracked([&] { o.emplace(x.begin() + a[1], x.begin() + a[2], al); });
            else { const V& y = x; tracked([&] { o.emplace(y.begin() + a[1], y.cbegin() + a[2], al); }); }
            return ret; }
        case NEW_COPY: { const V& x = *v[a[0]]; tracked([&] { o.emplace(x); }); return ret; }
        case NEW_COPY_ALLOC: { const V& x = *v[a[0]]; tracked([&] { o.emplace(x, al); }); return ret; }
        case NEW_MOVE: tracked([&] { o.emplace(std::move(*v[a[0]])); }); return ret;
        case NEW_MOVE_ALLOC: tracked([&] { o.emplace(std::move(*v[a[0]]), al); }); return ret;
        case DESTROY: tracked([&] { o.reset(); }); return ret;
        }
        V& x = *o;
        auto b = [&] { return x.begin(); };
        switch (c.op) {
        case PUSH: { auto y = val(a[0]); tracked([&] { x.push_back(y); }); break; }
        case PUSH_REF: tracked([&] { x.push_back(x[a[0]]); }); break;
        case POP: tracked([&] { x.pop_back(); }); break;
        case INSERT: { auto y = val(a[1]); tracked([&] { ret = pos_in(x, x.insert(x.cbegin() + a[0], y)); }); break; }
        case INSERT_N: { auto y = val(a[2]); tracked([&] { ret = pos_in(x, x.insert(x.cbegin() + a[0], (size_t)a[1], y)); }); break; }
        case INSERT_R: { V& y = *v[a[1]]; tracked([&] { ret = pos_in(x, x.insert(x.cbegin() + a[0], y.begin() + a[2], y.begin() + a[3])); }); break; }
        case ERASE: tracked([&] { ret = pos_in(x, x.erase(b() + a[0])); }); break;
        case ERASE_R: tracked([&] { ret = pos_in(x, x.erase(b() + a[0], b() + a[1])); }); break;
        case RESIZE: tracked([&] { x.resize((size_t)a[0]); }); break;
        case RESIZE_V: { auto y = val(a[1]); tracked([&] { x.resize((size_t)a[0], y); }); break; }
        case CLEAR: tracked([&] { x.clear(); }); break;
        case RESERVE: tracked([&] { x.reserve((size_t)a[0]); }); break;
        case SHRINK: tracked([&] { x.shrink_to_fit(); }); break;
        case RESERVE_HUGE: tracked([&] { x.reserve(huge(salt)); }); break;
        case RESIZE_HUGE: { auto y = val(a[0]); tracked([&] { if (a[0] == -1 && salt % 2) x.resize(huge(salt)); else x.resize(huge(salt), y); }); break; }
        case INSERT_HUGE: { auto y = val(a[1]); tracked([&] { x.insert(x.cbegin() + a[0], huge(salt), y); }); break; }
        case SET: { bool y = bitin(a[1]); auto z = val(a[1]); tracked([&] {
            switch (salt % 6) {
            case 0: x[a[0]] = z; break;
            case 1: *(b() + a[0]) = z; break;
            case 2: if (y) x[a[0]].set(); else x[a[0]].reset(); break;
            case 3: b()[a[0]].set(y); break;
            case 4: { auto it = x.end(); it -= (i64)x.size() - a[0]; *it = z; break; }
            default: { typename V::reference r = x[a[0]]; r = z; }
            } }); break; }
        case AT_SET: { auto z = val(a[1]); tracked([&] { x.at((size_t)a[0]) = z; }); break; }
        case AT_GET: {
            static const size_t T[] = {SIZE_MAX, (size_t)1 << 32, (size_t)1 << 63, SIZE_MAX - 1, ((size_t)1 << 32) + 1};
            size_t i = a[0] == TOP ? T[salt % 5] : (size_t)a[0]; const V& y = x;
            tracked([&] { if (salt % 2) { volatile bool q = (bool)x.at(i); (void)q; } else { volatile bool q = (bool)y.at(i); (void)q; } }); break; }
        case DATA_SET: { bool y = bitin(a[1]); W m = (W)((W)1 << (a[0] % D)); tracked([&] { W* p = x.data() + a[0] / D; *p = (W)(y ? *p | m : *p & ~m); }); break; }
        case FRONT_SET: { auto z = val(a[0]); tracked([&] { x.front() = z; }); break; }
        case BACK_SET: { auto z = val(a[0]); tracked([&] { x.back() = z; }); break; }
        case FLIP: tracked([&] { if (salt % 2) x[a[0]].flip(); else (*(b() + a[0])).flip(); }); break;
        case REVERSE: tracked([&] { bit::reverse(b() + a[0], b() + a[1]); }); break;
        case ROTATE: tracked([&] { ret = pos_in(x, bit::rotate(b() + a[0], b() + a[1], b() + a[2])); }); break;
        case FILL: tracked([&] { bit::fill(b() + a[0], b() + a[1], a[2] ? bit::bit1 : bit::bit0); }); break;
        case SHIFT_LEFT: tracked([&] { ret = pos_in(x, bit::shift_left(b() + a[0], b() + a[1], a[2])); }); break;
        case SHIFT_RIGHT: tracked([&] { ret = pos_in(x, bit::shift_right(b() + a[0], b() + a[1], a[2])); }); break;
        case COPY: tracked([&] { const V& y = x; if (salt % 2) ret = pos_in(x, bit::copy(b() + a[0], b() + a[1], b() + a[2]));
                                 else ret = pos_in(x, bit::copy(y.begin() + a[0], y.begin() + a[1], b() + a[2])); }); break;
        case COPY_BACKWARD: tracked([&] { ret = pos_in(x, bit::copy_backward(b() + a[0], b() + a[1], b() + a[2])); }); break;
        case SWAP_RANGES: tracked([&] { ret = pos_in(x, bit::swap_ranges(b() + a[0], b() + a[1], b() + a[2])); }); break;
        case NOT: tracked([&] { ret = pos_in(x, bit::transform(b() + a[0], b() + a[1], b() + a[2], std::bit_not<W>())); }); break;
        case COPY_ASSIGN: { const V& y = *v[a[0]]; tracked([&] { x = y; }); break; }
        case MOVE_ASSIGN: tracked([&] { x = std::move(*v[a[0]]); }); break;
        case SWAP: tracked([&] { using std::swap; swap(x, *v[a[0]]); }); break;
        case COPY_BITS: { V& y = *v[a[0]]; const V& z = y;
            tracked([&] { if (salt % 2) ret = pos_in(x, bit::copy(y.begin() + a[1], y.begin() + a[2], b() + a[3]));
                          else ret = pos_in(x, bit::copy(z.cbegin() + a[1], z.cbegin() + a[2], b() + a[3])); }); break; }
        default: fprintf(stderr, "harness: op %d\n", c.op); _exit(3);
        }
        return ret;
    }

    static const int CHANNELS = 14;
    // reads the bits of x in one of many ways; what is wrong, if anything
    static std::string read(V& x, int ch, std::vector<u8>& out) {
        const V& y = x;
        size_t n = x.size();
        if (n > 200000) return "size is absurd";
        if (y.empty() != (n == 0) || x.empty() != (n == 0)) return "empty() disagrees with size()";
        if (x.end() - x.begin() != (i64)n || y.end() - y.begin() != (i64)n || x.cend() - x.cbegin() != (i64)n || bit::distance(y.cbegin(), y.cend()) != (i64)n)
            return "iterators disagree with size()";
        if (y.capacity() < n) return "capacity below size";
        if (y.max_size() == 0) return "max_size is 0";
        out.assign((n + 7) / 8 + 1, 0);
        auto put = [&](size_t i, bool b) { if (b) out[i / 8] |= 1 << (i % 8); };
        size_t i = 0;
        switch (ch) {
        case 0: for (; i < n; i++) put(i, (bool)x[i]); break;
        case 1: for (; i < n; i++) put(i, y[i] == bit::bit1); break;
        case 2: for (auto it = x.begin(); it != x.end(); ++it) put(i++, (bool)*it); break;
        case 3: for (auto it = x.cbegin(); it != x.cend(); it++) put(i++, *it == bit::bit1); break;
        case 4: for (; i < n; i++) put(i, (bool)x.at(i)); break;
        case 5: for (; i < n; i++) put(i, (bool)y.at(i)); break;
        case 6: for (; i < n; i++) put(i, (x.data()[i / D] >> (i % D)) & 1); break;
        case 7: { std::string s = x.debug_string(); size_t k = 0; for (char ch2 : s) if (ch2 == '0' || ch2 == '1') k++;
                  if (k != n) return "debug_string has another length"; for (char ch2 : s) if (ch2 == '0' || ch2 == '1') put(i++, ch2 == '1'); break; }
        case 8: { std::vector<W> w(n / D + 1); bit::copy(y.begin(), y.end(), bit::bit_iterator<W*>(w.data())); for (; i < n; i++) put(i, (w[i / D] >> (i % D)) & 1); break; }
        case 9: { auto it = x.end(); for (i = n; i-- > 0;) put(i, (bool)*--it); break; }
        case 10: for (; i < n; i++) put(i, i == 0 ? (bool)x.front() : i == n - 1 ? (bool)x.back() : (bool)*(y.begin() + i)); break;
        case 11: for (; i < n; i++) put(i, i == 0 ? (bool)y.front() : i == n - 1 ? (bool)y.back() : (bool)y.cbegin()[i]); break;
        case 12: { std::vector<bool> b(n); std::transform(y.begin(), y.end(), b.begin(), [](bit::bit_value q) { return (bool)q; }); for (; i < n; i++) put(i, b[i]); break; }
        default: for (; i < n; i++) put(i, (y.data()[i / D] >> (i % D)) & 1); break;
        }
        return "";
    }

    // runs a history under one plane; contents[e][s] gets the bits
    void run(const Sess& S, u64 sid, int plane, int wsalt, const u8* input, std::vector<EventSeen>& seen, std::vector<std::array<std::vector<u8>, K>>& contents) {
        in = input;
        forget_memory(); g_junk = plane + 1;
        seen.clear(); contents.clear();
        for (size_t e = 0; e < S.calls.size(); e++) {
            const Call& c = S.calls[e];
            salt = (unsigned)(sid * 11 + e * 5 + plane * 3 + wsalt);
            // how a call may be spelt must not depend on the plane where the spelling allocates differently
            if (c.op == NEW_VALUES || c.op == NEW_BOOLLIST || c.op == NEW_WORDLIST || c.op >= NEW_N_HUGE) salt = (unsigned)(sid * 11 + e * 5);
            if (c.op == SET || c.op == AT_GET || c.op == COPY || c.op == COPY_BITS || c.op == FLIP) salt += plane;
            EventSeen E{}; E.ret = BAD;
            g_allocs = g_refused = 0; g_mem_error = "";
            g_fail_at = c.fail < 0 ? -c.fail : c.fail; g_fail_all = c.fail < 0;
            g_armed = 1;
            if (sigsetjmp(g_jmp, 0) == 0) {
                try { E.ret = act(c); }
                catch (const std::out_of_range&) { E.ret = OUT_OF_RANGE; }
                catch (const std::length_error&) { E.ret = LENGTH_ERROR; }
                catch (const std::bad_alloc&) { E.ret = BAD_ALLOC; }
                catch (...) { E.x = "another exception"; }
                g_fail_at = 0;
                E.al = g_allocs; E.f = g_refused; E.lb = g_live;
                contents.emplace_back();
                for (int s = 0; s < K && E.x.empty(); s++) {
                    SlotSeen& q = E.slot[s]; q = SlotSeen{};
                    if (!v[s + 1]) continue;
                    V& x = *v[s + 1];
                    E.x = read(x, (int)((e * 3 + plane + s * 5) % CHANNELS), contents.back()[s]);
                    if (!E.x.empty()) break;
                    q.l = 1; q.n = (int)x.size(); q.k = x.capacity() > (size_t)TOP ? TOP : (i64)x.capacity();
                    if (x.capacity()) { Block* b = block_of(raw(x)); q.b = b ? b->serial : -1; q.z = b ? (i64)b->bytes * 8 : 0; q.g = b ? b->tag : 0;
                        if (b && (u8*)raw(x) != b->p) E.x = "does not begin where its block does"; }
                }
                check_memory();
                g_armed = 0;
                if (E.x.empty() && *g_mem_error) E.x = g_mem_error;
            } else { g_armed = 0; g_track = false; E.x = (const char*)g_fault; contents.resize(e + 1); }
            seen.push_back(E);
            if (!E.x.empty()) break;
        }
        if (seen.empty() || seen.back().x.empty()) { g_armed = 1; if (sigsetjmp(g_jmp, 0) == 0) for (auto& o : v) o.reset(); else if (!seen.empty()) seen.back().x = (const char*)g_fault; g_armed = 0; }
        else for (auto& o : v) { new (&o) std::optional<V>(); } // abandon
    }
};

// ---------------------------------------------------------------- running
static struct { u64 execs = 0, calls = 0; } g_stats;

static void emit_event(std::string& s, const Call& c, bool first, const EventSeen& E, const Rope* ropes) {
    char buf[256];
    if (!s.empty()) s += '\x1f';
    s += "{\"o\":\""; s += OPS[c.op].name;
    snprintf(buf, sizeof buf, "\",\"s\":%d,\"g\":%d,\"i\":%d,\"a\":[", c.s, c.g, first ? 1 : 0); s += buf;
    for (int i = 0; i < OPS[c.op].arity; i++) { snprintf(buf, sizeof buf, "%s%lld", i ? "," : "", (long long)c.a[i]); s += buf; }
    snprintf(buf, sizeof buf, "],\"r\":%lld,\"al\":%d,\"f\":%d,\"lb\":%d,\"v\":[", (long long)E.ret, E.al, E.f, E.lb); s += buf;
    for (int i = 0; i < K; i++) {
        const SlotSeen& q = E.slot[i];
        snprintf(buf, sizeof buf, "%s{\"l\":%d,\"k\":%lld,\"b\":%d,\"z\":%lld,\"g\":%d,\"c\":", i ? "," : "", q.l, (long long)q.k, q.b, (long long)q.z, q.g); s += buf;
        emit_rope(s, ropes[i]); s += '}';
    }
    s += "],\"x\":\""; s += E.x; s += "\"}";
}

template <class W> static std::string run_session(const Sess& S, u64 sid, int wsalt, const Planes& P, const std::vector<u8>& table) {
    std::vector<EventSeen> seen, first;
    std::vector<std::array<std::vector<u8>, K>> contents; std::vector<std::vector<std::array<std::vector<u8>, K>>> all;
    size_t upto = S.calls.size(); std::string bad; size_t bad_at = upto;
    for (int p = 0; p < P.count; p++) {
        static World<W> w; // its slots are empty between histories
        w.run(S, sid, p, wsalt, &table[(size_t)p * (NTOK / 8)], seen, contents);
        g_stats.execs++;
        if (p == 0) first = seen;
        for (size_t e = 0; e < seen.size() && e < bad_at; e++) {
            const EventSeen &a = seen[e], &b = first[e];
            if (!a.x.empty()) { bad_at = e; bad = a.x; break; }
            bool same = a.ret == b.ret && a.al == b.al && a.f == b.f && a.lb == b.lb;
            for (int s = 0; s < K; s++) same = same && a.slot[s].l == b.slot[s].l && a.slot[s].k == b.slot[s].k && a.slot[s].b == b.slot[s].b
                && a.slot[s].z == b.slot[s].z && a.slot[s].g == b.slot[s].g && a.slot[s].n == b.slot[s].n;
            if (!same) { bad_at = e; bad = "outcome depends on the values of the bits"; break; }
        }
        all.push_back(contents);
        if (bad_at == 0) break;
    }
    std::string out;
    std::vector<u8> buf;
    for (size_t e = 0; e < upto && e <= bad_at; e++) {
        Rope ropes[K]; EventSeen E = e < first.size() ? first[e] : EventSeen{};
        if (e == bad_at) { E.x = bad; for (auto& q : E.slot) q = SlotSeen{}; emit_event(out, S.calls[e], e == 0, E, ropes); g_stats.calls++; break; }
        for (int s = 0; s < K; s++) if (E.slot[s].l && E.slot[s].n) {
            size_t st = (size_t)E.slot[s].n / 8 + 2; buf.assign(st * P.count, 0);
            for (int p = 0; p < P.count; p++) { auto& x = all[p][e][s]; memcpy(&buf[st * p], x.data(), std::min(st, x.size())); }
            ropes[s] = decode(P, table, buf.data(), st, E.slot[s].n);
        }
        emit_event(out, S.calls[e], e == 0, E, ropes);
        g_stats.calls++;
    }
    return out;
}

#include "vec_gen.hpp"

int main(int argc, char** argv) {
    u64 seed = 1; bool thorough = false; int shard = 0, shards = 1; i64 only = -1; std::string profile = "H", script;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &shards);
        else if (a == "--only") only = atoll(argv[++i]);
        else if (a == "--profile") profile = argv[++i];
        else if (a == "--script") script = argv[++i];
        else { fprintf(stderr, "usage\n"); return 3; }
    }
    install(); map_pool();
    std::vector<Sess> all = script.empty() ? generate(seed, thorough, profile) : read_script(script);
    Planes P(NTOK); std::vector<u8> table = plane_table(P);
    for (size_t sid = 0; sid < all.size(); sid++) {
        if (only >= 0 ? (i64)sid != only : (int)(sid % shards) != shard) continue;
        std::vector<std::pair<std::string, std::string>> outcomes;
        cpu_limit(30);
        auto add = [&](const std::string& o, const char* w) { for (auto& p : outcomes) if (p.first == o) { p.second += w; return; } outcomes.push_back({o, w}); };
        add(run_session<u8>(all[sid], sid, 0, P, table), " 8");
        add(run_session<u16>(all[sid], sid, 1, P, table), " 16");
        add(run_session<u32>(all[sid], sid, 2, P, table), " 32");
        add(run_session<u64>(all[sid], sid, 3, P, table), " 64");
        for (auto& o : outcomes) printf("%zu\t%s\t%s\n", sid, o.second.c_str() + 1, o.first.c_str());
    }
    printf("#stats %llu %llu\n", (unsigned long long)g_stats.execs, (unsigned long long)g_stats.calls);
    return fflush(stdout) ? 3 : 0;
}
