// Records calls on ranges and vectors of more than 2^32 bits, for spec/BitHugeTrace.tla. Contents are concrete and have few runs.
#include "common.hpp"
#include <sys/mman.h>
#include <functional>
#include <memory>
#include "bitlib/bitlib.hpp"

enum Op { COPY, COPYB, FILL, SHL, SHR, ROT, REV, SWAPR, EQUAL, FIND, COUNT, NOT, AND, XOR, POKE, FLIP, GET,
          V_MAKE, V_PUSH, V_POP, V_INSERT, V_INSERT_N, V_ERASE, V_ERASE_N, V_RESIZE, V_RESERVE, V_SHRINK, V_CLEAR, V_COPY, V_MOVE, V_ASSIGN_N, V_SIZE };
static const char* NAME[] = {"copy", "copy_backward", "fill", "shift_left", "shift_right", "rotate", "reverse", "swap_ranges", "equal", "find", "count",
    "not", "and", "xor", "bit_set", "bit_flip", "bit_get",
    "v_make", "v_push", "v_pop", "v_insert", "v_insert_n", "v_erase", "v_erase_n", "v_resize", "v_reserve", "v_shrink", "v_clear", "v_copy", "v_move", "v_assign", "v_size"};
struct Call { Op op; std::vector<i64> a; };
struct Sess { int size; i64 bits; bool vector, reading; std::vector<Call> calls; };
static struct { u64 execs = 0, calls = 0; } g_stats;

static std::string wide(i64 x) { char b[48]; i64 B = 1 << 30, h = x >> 30; snprintf(b, sizeof b, "[%lld,%lld]", (long long)h, (long long)(x - h * B)); return b; }
typedef std::vector<std::pair<i64, int>> Runs; // length, value
static const size_t MANY = 4000;
static void add(Runs& r, i64 n, int v) { if (n <= 0) return; if (!r.empty() && r.back().second == v) r.back().first += n; else r.push_back({n, v}); }
template <class W> static Runs scan(const W* w, i64 n) { // words of zeros and ones count as one, other words are taken apart
    const i64 D = sizeof(W) * 8; Runs r; i64 i = 0, words = n / D; const W Z = 0, O = (W)~Z;
    while (i < words) {
        W x = w[i];
        if (x == Z || x == O) {
            i64 k = i + 1;
            for (; k < words && ((uintptr_t)(w + k) & 7) && w[k] == x; k++);
            if (!((uintptr_t)(w + k) & 7)) {
                const u64 y = x == Z ? 0 : ~0ull; const i64 per = 8 / sizeof(W);
                while (k + 8 * per <= words) { const u64* q = (const u64*)(w + k); u64 d = 0; for (int j = 0; j < 8; j++) { u64 t; memcpy(&t, q + j, 8); d |= t ^ y; } if (d) break; k += 8 * per; }
            }
            for (; k < words && w[k] == x; k++);
            add(r, (k - i) * D, x != Z); i = k;
        } else { for (i64 j = 0; j < D; j++) add(r, 1, (x >> j) & 1); i++; }
        if (r.size() > MANY) return r;
    }
    for (i64 j = 0; j < n % D; j++) add(r, 1, (w[words] >> j) & 1);
    return r;
}
static std::string text(const Runs& r) {
    std::string s = "[";
    for (size_t i = 0; i < r.size(); i++) { if (i) s += ','; s += "[" + wide(r[i].first) + (r[i].second ? ",3,[0,0],0]" : ",2,[0,0],0]"); }
    return s + "]";
}

template <class W> struct World {
    typedef bit::bit_iterator<W*> It; typedef bit::bit_iterator<const W*> CIt;
    char* map = nullptr; size_t mapped = 0, bytes = 0; W* base = nullptr; i64 n = 0; bool vec = false;
    std::unique_ptr<bit::bit_vector<W>> v; std::string x, r; Runs seen;
    static constexpr i64 D = sizeof(W) * 8;

    ~World() { if (map) munmap(map, mapped); }
    void storage(i64 bits) {
        n = bits; bytes = (size_t)(bits / D) * sizeof(W); const size_t pg = 4096; size_t body = (bytes + pg - 1) / pg * pg;
        mapped = body + 2 * pg; map = (char*)mmap(nullptr, mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (map == MAP_FAILED) { fprintf(stderr, "harness: no address space\n"); _exit(3); }
        writable(true); base = (W*)(map + pg + body - bytes);      // the end of the storage is the end of the accessible pages
    }
    void writable(bool yes) { if (mprotect(map + 4096, mapped - 8192, yes ? PROT_READ | PROT_WRITE : PROT_READ)) { perror("harness: mprotect"); _exit(3); } }
    It m(i64 i) { return It(base) + i; }
    CIt c(i64 i) { return CIt(base) + i; }
    void ret(It i) { r = wide(i - It(base)); }
    void ret(CIt i) { r = wide(i - CIt(base)); }
    void act(const Call& k) {
        const auto& a = k.a; auto bv = [](i64 q) { return q ? bit::bit1 : bit::bit0; };
        switch (k.op) {
        case COPY: ret(bit::copy(c(a[0]), c(a[1]), m(a[2]))); break;
        case COPYB: ret(bit::copy_backward(m(a[0]), m(a[1]), m(a[2]))); break;
        case FILL: bit::fill(m(a[0]), m(a[1]), bv(a[2])); break;
        case SHL: ret(bit::shift_left(m(a[0]), m(a[1]), a[2])); break;
        case SHR: ret(bit::shift_right(m(a[0]), m(a[1]), a[2])); break;
        case ROT: ret(bit::rotate(m(a[0]), m(a[1]), m(a[2]))); break;
        case REV: bit::reverse(m(a[0]), m(a[1])); break;
        case SWAPR: ret(bit::swap_ranges(m(a[0]), m(a[1]), m(a[2]))); break;
        case EQUAL: r = bit::equal(c(a[0]), c(a[1]), c(a[2])) ? "1" : "0"; break;
        case FIND: ret(bit::find(c(a[0]), c(a[1]), bv(a[2]))); break;
        case COUNT: r = wide((i64)bit::count(c(a[0]), c(a[1]), bv(a[2]))); break;
        case NOT: ret(bit::transform(m(a[0]), m(a[1]), m(a[2]), std::bit_not<W>())); break;
        case AND: ret(bit::transform(m(a[0]), m(a[1]), m(a[2]), m(a[3]), std::bit_and<W>())); break;
        case XOR: ret(bit::transform(m(a[0]), m(a[1]), m(a[2]), m(a[3]), std::bit_xor<W>())); break;
        case POKE: if (vec) (*v)[a[0]] = bv(a[1]); else m(0)[a[0]] = bv(a[1]); break;
        case FLIP: if (vec) (*v)[a[0]].flip(); else (m(n) - (n - a[0]))->flip(); break;
        case GET: { const auto* cv = v.get(); r = (vec ? (a[0] % 2 ? (*cv)[a[0]] : *(cv->begin() + a[0])) : *(c(a[0]))) == bit::bit1 ? "1" : "0"; break; }
        case V_MAKE: v.reset(); v.reset(new bit::bit_vector<W>(a[0], bv(a[1]))); break;
        case V_PUSH: v->push_back(bv(a[0])); break;
        case V_POP: v->pop_back(); break;
        case V_INSERT: { auto i = v->insert(v->cbegin() + a[0], bv(a[1])); r = wide(i - v->begin()); break; }
        case V_INSERT_N: { auto i = v->insert(v->cbegin() + a[0], (typename bit::bit_vector<W>::size_type)a[1], bv(a[2])); r = wide(i - v->begin()); break; }
        case V_ERASE: { auto i = v->erase(v->begin() + a[0]); r = wide(i - v->begin()); break; }
        case V_ERASE_N: { auto i = v->erase(v->begin() + a[0], v->begin() + a[1]); r = wide(i - v->begin()); break; }
        case V_RESIZE: v->resize(a[0], bv(a[1])); break;
        case V_RESERVE: v->reserve(a[0]); break;
        case V_SHRINK: v->shrink_to_fit(); break;
        case V_CLEAR: v->clear(); break;
        case V_COPY: { std::unique_ptr<bit::bit_vector<W>> t(new bit::bit_vector<W>(*v)); v = std::move(t); break; }
        case V_MOVE: { std::unique_ptr<bit::bit_vector<W>> t(new bit::bit_vector<W>()); *t = std::move(*v); v = std::move(t); break; }
        case V_ASSIGN_N: { auto* t = new bit::bit_vector<W>(v->begin() + a[0], v->begin() + a[1]); v.reset(t); break; }
        case V_SIZE: if ((i64)v->size() != v->end() - v->begin() || v->empty() != (v->size() == 0)) x = "size, begin and end differ"; r = wide((i64)v->size()); break;
        }
    }
    void look(bool changed) {
        if (changed) seen = vec ? scan(v->data(), (i64)v->size()) : scan(base, n);
        if (seen.size() > MANY) { x = "the contents are shattered"; seen.resize(1); }
    }
    std::string event(const char* o, bool first, const std::string& a, const std::string& rr) {
        char b[64]; snprintf(b, sizeof b, "\",\"i\":%d,\"d\":%d,\"a\":", (int)first, (int)D);
        return std::string("{\"o\":\"") + o + b + a + ",\"r\":" + (rr.empty() ? "[]" : rr) + ",\"c\":" + wide(vec && v ? (i64)v->capacity() : 0) + ",\"p\":" + text(seen) + ",\"x\":\"" + x + "\"}";
    }
    std::string run(const Sess& S) {
        std::string o; vec = S.vector;
        if (vec) v.reset(new bit::bit_vector<W>()); else storage(S.bits);
        if (S.reading) seen = Runs{{n, 0}}; else look(true);
        o += event(vec ? "v_start" : "start", true, "[]", "");
        for (const Call& k : S.calls) {
            x.clear(); r.clear(); const bool reads = k.op == EQUAL || k.op == FIND || k.op == COUNT || k.op == GET; cpu_limit(S.bits > 4 * (1ll << 33) && !S.reading ? 500 : 120);
            if (!vec) writable(!reads);
            g_armed = 1;
            if (sigsetjmp(g_jmp, 0) == 0) { try { act(k); } catch (...) { x = "an exception"; } g_armed = 0; }
            else x = (const char*)g_fault;
            if (S.reading && !reads) { // only single bits are written, and a fault tells any other write to a word never touched; the runs are computed
                Runs q; i64 at = 0; for (auto& u : seen) { i64 e = at + u.first, p = k.a[0]; int nv = k.op == FLIP ? !u.second : (int)k.a[1];
                    if (at <= p && p < e) { add(q, p - at, u.second); add(q, 1, nv); add(q, e - p - 1, u.second); } else add(q, u.first, u.second); at = e; }
                seen = q;
            } else if (x.empty()) { g_armed = 1; if (sigsetjmp(g_jmp, 0) == 0) { look(!reads || vec); g_armed = 0; } else x = "contents not readable"; }
            std::string a = "["; const bool last = k.op == FILL || k.op == FIND || k.op == COUNT || k.op == POKE || k.op == V_MAKE || k.op == V_PUSH || k.op == V_INSERT || k.op == V_INSERT_N || k.op == V_RESIZE;
            for (size_t j = 0; j < k.a.size(); j++) { if (j) a += ','; a += last && j + 1 == k.a.size() ? (k.a[j] ? "1" : "0") : wide(k.a[j]); }
            o += '\x1f'; o += event(NAME[k.op], false, a + "]", r);
            g_stats.calls++;
            if (!x.empty()) break;
        }
        g_stats.execs++;
        return o;
    }
};

static std::vector<Sess> generate(u64 seed, bool thorough) {
    std::vector<Sess> all; Rng g(seed * 131 + 17); const i64 G = 1ll << 32;
    auto odd = [&] { return (i64)g.below(200); };
    auto flag = [&] { return (i64)g.below(2); };
    for (int size : {1, 2, 4, 8}) { // ranges of more than 2^32 bits, all algorithms
        for (int rep = 0; rep < (thorough ? 3 : 1); rep++) {
            const i64 n = 2 * G + (1 << 16); Sess S{size, n, false, false, {}};
            auto poke = [&] { for (int i = 0; i < 3; i++) S.calls.push_back({POKE, {g.pick<i64>({0, G / 2, G, G + G / 2, 2 * G, n - 300}) + odd(), 1}}); };
            poke(); S.calls.push_back({FILL, {G / 2 + odd(), G + G / 2 + odd(), 1}}); S.calls.push_back({FILL, {odd(), G + 999 + odd(), 1}}); S.calls.push_back({FILL, {G / 4 + odd(), G + 77 + odd(), 0}});
            for (int pass = 0; pass < (thorough ? 3 : 1); pass++) {
                std::vector<Op> ops = {COPY, COPYB, SHL, SHR, ROT, REV, SWAPR, EQUAL, EQUAL, FIND, FIND, COUNT, COUNT, NOT, AND, XOR, FLIP, GET, FILL};
                for (size_t i = ops.size(); i > 1; i--) std::swap(ops[i - 1], ops[g.below(i)]);
                for (Op op : ops) {
                    i64 k = G + (i64)g.below(3000), f = odd(); bool word = g.below(4) == 0; if (word) { f -= f % 64; k -= k % 64; }
                    switch (op) {
                    case COPY: if (g.coin()) S.calls.push_back({COPY, {f + G - 4000, f + G - 4000 + k, word ? 64 * (i64)g.below(50) : odd()}}); else S.calls.push_back({COPY, {f, f + k - 5000, f + k + odd()}}); break;
                    case COPYB: S.calls.push_back({COPYB, {f, f + k, g.coin() ? f + k + 64 + (word ? 64 : odd()) : 2 * G + odd()}}); break;
                    case SHL: case SHR: S.calls.push_back({op, {f, f + k + (i64)g.below(G / 2), g.coin() ? odd() : (i64)(word ? G / 2 : G / 2 + odd())}}); S.calls.push_back({op, {f, f + k + 70000, G + odd()}}); break;
                    case ROT: S.calls.push_back({ROT, {f, g.coin() ? f + k - 4000 + odd() : f + 1 + odd(), f + k + odd() + 300}}); break;
                    case REV: S.calls.push_back({REV, {f, f + k + odd()}}); break;
                    case SWAPR: S.calls.push_back({SWAPR, {f, f + G + 3, f + G + 3 + odd()}}); break;
                    case EQUAL: { i64 d = g.coin() ? f + k : odd(); if (g.coin()) S.calls.push_back({COPY, {f, f + G - 9, f + k + odd()}}); S.calls.push_back({EQUAL, {f, f + std::min(k, n - std::max(d, f)), d}}); break; }
                    case FIND: S.calls.push_back({FILL, {f + 7, f + k - 70, flag()}}); S.calls.push_back({FIND, {f + 7, f + k + 500, 0}}); S.calls.push_back({FIND, {f + 7, f + k + 500, 1}}); break;
                    case COUNT: S.calls.push_back({COUNT, {f, f + k, flag()}}); S.calls.push_back({COUNT, {0, n, flag()}}); break;
                    case NOT: S.calls.push_back({NOT, {f, f + G, g.coin() ? f : f + G + (word ? 64 : odd())}}); break;
                    case AND: case XOR: S.calls.push_back({op, {f, f + G, f + G + (word ? 64 : odd()), 0}}); S.calls.back().a[3] = g.coin() ? f : S.calls.back().a[2]; break;
                    case FLIP: case GET: S.calls.push_back({op, {G + odd()}}); S.calls.push_back({op, {(i64)g.below(n)}}); break;
                    case FILL: S.calls.push_back({FILL, {f, f + k, flag()}}); poke(); break;
                    default: break;
                    }
                }
            }
            all.push_back(S);
        }
        { // vectors
            Sess S{size, 0, true, false, {}}; i64 n = G - 3 + (i64)g.below(3); S.calls.push_back({V_MAKE, {n, 0}});
            auto at = [&] { return std::min(n, g.pick<i64>({0, G / 2, G - 1, n, n - 5}) + (i64)g.below(5)); };
            auto bit = [&] { S.calls.push_back({POKE, {std::min(n - 1, at()), 1}}); };
            bit(); bit(); for (int i = 0; i < 6; i++) { S.calls.push_back({V_PUSH, {i % 2 ? 1 : flag()}}); n++; } S.calls.push_back({V_SIZE, {}});
            for (int i = 0; i < (thorough ? 60 : 22); i++) {
                i64 p = at();
                switch (g.below(16)) {
                case 0: case 1: S.calls.push_back({V_INSERT, {p, 1}}); n++; break;
                case 2: { i64 k = g.pick<i64>({1, 7, 64, 1000}); S.calls.push_back({V_INSERT_N, {p, k, flag()}}); n += k; break; }
                case 3: { if (n > G + G / 2) break; i64 k = G / 2 + odd(); S.calls.push_back({V_INSERT_N, {p, k, flag()}}); n += k; break; }
                case 4: p = std::min(p, n - 1); S.calls.push_back({V_ERASE, {p}}); n--; break;
                case 5: { i64 q = std::min(n, p + odd()); S.calls.push_back({V_ERASE_N, {p, q}}); n -= q - p; break; }
                case 6: { i64 k = n > G + 100 ? n - G + 50 : 9; i64 q = std::min(n, k); S.calls.push_back({V_ERASE_N, {0, q}}); n -= q; break; }
                case 7: n = G + (i64)g.below(200); S.calls.push_back({V_RESIZE, {n, flag()}}); break;
                case 8: S.calls.push_back({V_PUSH, {flag()}}); n++; break;
                case 9: S.calls.push_back({V_POP, {}}); n--; break;
                case 10: S.calls.push_back({g.coin() ? V_COPY : V_MOVE, {}}); break;
                case 11: S.calls.push_back({V_SHRINK, {}}); break;
                case 12: S.calls.push_back({V_RESERVE, {n + G / 4 + odd()}}); break;
                case 13: { i64 f = odd(), l = n - odd(); S.calls.push_back({V_ASSIGN_N, {f, l}}); n = l - f; break; }
                case 14: S.calls.push_back({GET, {n - 1 - odd()}}); S.calls.push_back({FLIP, {n - 1 - odd()}}); break;
                default: S.calls.push_back({V_SIZE, {}}); bit(); break;
                }
            }
            S.calls.push_back({V_SIZE, {}}); S.calls.push_back({V_CLEAR, {}}); S.calls.push_back({V_SIZE, {}});
            all.push_back(S);
        }
        { // only read, so that the storage may be far larger than memory
            const i64 n = (size == 1 ? 1ll << 35 : size == 8 && thorough ? 1ll << 38 : size == 8 ? 1ll << 37 : 1ll << 36) + (1 << 15); Sess S{size, n, false, true, {}}; i64 f = odd();
            i64 p = n - 5000 + odd(), q = n / 2 + odd();
            S.calls.push_back({COUNT, {f, n - f, 0}}); S.calls.push_back({POKE, {p, 1}}); S.calls.push_back({FIND, {f, n - 64, 1}}); S.calls.push_back({COUNT, {f, n - 9, 1}});
            S.calls.push_back({POKE, {q, 1}}); S.calls.push_back({COUNT, {q, n - 64, 1}}); S.calls.push_back({COUNT, {0, n, 0}}); S.calls.push_back({FIND, {q + 1, n - 64, 1}});
            S.calls.push_back({EQUAL, {f, n / 2 - 5, n / 2 - 5000 + odd()}}); S.calls.push_back({EQUAL, {64 * 3, n / 2 - 6400, n / 2 + 64 * (i64)g.below(20)}}); S.calls.push_back({FLIP, {q}}); S.calls.push_back({EQUAL, {f, n / 2 - 50000, n / 2 - 5000 + odd()}}); S.calls.push_back({GET, {p}});
            all.push_back(S);
        }
    }
    for (int size : {1, 8}) { // more than 2^31 bytes
        const i64 H = 1ll << 34, n = H + (1 << 20); Sess S{size, n, false, false, {}};
        i64 f = odd();
        S.calls.push_back({POKE, {n - 77, 1}}); S.calls.push_back({FILL, {f, f + H + odd(), 1}}); S.calls.push_back({COUNT, {f, n, 1}}); S.calls.push_back({FIND, {f, n, 0}});
        S.calls.push_back({POKE, {5 + f, 0}}); S.calls.push_back({SHR, {f, f + H + 3000, 1 + odd()}}); S.calls.push_back({SHL, {f, f + H + 4000, 64}}); S.calls.push_back({COPY, {f + 64, f + 64 + H + 99, f}});
        S.calls.push_back({COPYB, {f, f + H + 99, f + H + 100 + odd()}}); S.calls.push_back({NOT, {f, f + H + 11, f}}); S.calls.push_back({REV, {f, f + H + 1234}}); S.calls.push_back({ROT, {f, f + 1 + odd(), f + H + 2345}});
        S.calls.push_back({EQUAL, {f, f + H + 3, f + 1}}); S.calls.push_back({COUNT, {0, n, 0}});
        all.push_back(S);
    }
#ifndef BITLIB_HWY // no SIMD in it, and it takes long
    {   // more than 2^32 times the bits that are brought to the front
        const i64 n = 9 * G + (1 << 15); Sess S{1, n, false, false, {}}; const i64 f = odd(), l = n - odd();
        for (i64 i : {f, f + 20, G, 5 * G + odd(), 9 * G - 1, l - 20, l - 10, l - 4, l - 1}) S.calls.push_back({POKE, {i, 1}});
        S.calls.push_back({ROT, {f, l - 9, l}});
        all.push_back(S);
    }
#endif
    for (int size : {1, 2, 4}) { // more than 2^32 words: short ranges far apart, and shifts as far (the storage is sparse: pages nobody writes cost nothing)
        if (size > (thorough ? 4 : 1)) continue;
        const i64 F = (i64)size << 35, n = F + (1 << 15), l = n - 20000; Sess S{size, n, false, false, {}}; const i64 f = 64 * 5, u = odd();
        for (i64 i : {f + odd(), F + u, F + 700 + odd(), n - 20 - odd()}) S.calls.push_back({POKE, {i, 1}});
        S.calls.push_back({COPY, {F + u, F + u + 900, f + odd()}}); S.calls.push_back({SWAPR, {f, f + 3000, F + 64 * 9}}); S.calls.push_back({EQUAL, {f, f + 3000, F + 64 * 9}});
        S.calls.push_back({COPY, {f + u, f + u + 3000, l + odd()}}); S.calls.push_back({COPYB, {f, f + 2000, n - odd()}}); S.calls.push_back({NOT, {F + 64, F + 64 + 500, f}});
        S.calls.push_back({XOR, {f, f + 999, F + u, F + u}}); S.calls.push_back({AND, {F, F + 640, 64, F + 5000 + odd()}}); S.calls.push_back({SWAPR, {F + u, F + u + 777, odd()}});
        S.calls.push_back({FIND, {F + 5000, n, 1}}); S.calls.push_back({EQUAL, {F + odd(), F + 900, odd()}}); S.calls.push_back({COUNT, {F - 1, n, 1}});
        if (size <= 2) {
            S.calls.push_back({SHL, {64, n - 64, F}}); S.calls.push_back({POKE, {f + odd(), 1}}); S.calls.push_back({SHR, {f - 1, n - odd(), F + odd()}});
            S.calls.push_back({SHL, {odd(), n - odd(), F + 64 + odd()}}); S.calls.push_back({SHR, {0, n, F}}); S.calls.push_back({FIND, {0, n, 1}});
        }
        all.push_back(S);
    }
    return all;
}
template <class W> static std::string dispatch(const Sess& S) { World<W> w; return w.run(S); }

int main(int argc, char** argv) {
    u64 seed = 1; bool thorough = false; int shard = 0, shards = 1; i64 only = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &shards);
        else if (a == "--only") only = atoll(argv[++i]);
        else { fprintf(stderr, "usage\n"); return 3; }
    }
    install();
    std::vector<Sess> all = generate(seed, thorough);
    for (size_t sid = 0; sid < all.size(); sid++) {
        if (only >= 0 ? (i64)sid != only : (int)(sid % shards) != shard) continue;
        const Sess& S = all[sid];
        cpu_limit(500);
        std::string o = S.size == 1 ? dispatch<u8>(S) : S.size == 2 ? dispatch<u16>(S) : S.size == 4 ? dispatch<u32>(S) : dispatch<u64>(S);
        printf("%zu\t%d\t%s\n", sid, S.size * 8, o.c_str()); fflush(stdout);
    }
    printf("#stats %llu %llu\n", (unsigned long long)g_stats.execs, (unsigned long long)g_stats.calls);
    return fflush(stdout) ? 3 : 0;
}
