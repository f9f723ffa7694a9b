// Records what threads do that read the same constant bits and change different words, for spec/BitShareTrace.tla. Built with ThreadSanitizer.
#include "common.hpp"
#include <atomic>
#include <memory>
#include <thread>
#include "bitlib/bitlib.hpp"

static std::atomic<int> g_races{0};
static thread_local int t_races = 0;
extern "C" const char* __tsan_default_options() { return "exitcode=0:suppress_equal_stacks=0:suppress_equal_addresses=0:report_signal_unsafe=0:print_suppressions=0"; }
extern "C" void __tsan_on_report(void*) { g_races++; t_races++; }

enum Op { COPY, COPYB, FILL, SHL, SHR, ROT, REV, SWAPR, EQUAL, FIND, COUNT, NOT, AND, XOR, BSET, BFLIP, BGET,
          V_FROM, V_COPY, V_PUSH, V_POP, V_INSERT, V_INSERT_N, V_INSERT_FROM, V_ERASE, V_ERASE_N, V_RESIZE, V_CLEAR, V_EQUAL, V_SHARED, V_GET, V_SIZE };
static const char* NAME[] = {"copy", "copy_backward", "fill", "shift_left", "shift_right", "rotate", "reverse", "swap_ranges", "equal", "find", "count",
    "not", "and", "xor", "bit_set", "bit_flip", "bit_get",
    "v_from", "v_copy_shared", "v_push", "v_pop", "v_insert", "v_insert_n", "v_insert_from", "v_erase", "v_erase_n", "v_resize", "v_clear", "v_equal", "v_shared", "v_get", "v_size"};
struct Call { Op op; std::vector<int> a; };
struct Thread { int words; std::vector<Call> calls; };
struct Sess { int size, shared, fill; bool vectors; std::vector<Thread> threads; };   // shared: words of constant bits
static struct { u64 execs = 0, calls = 0; } g_stats;

template <class W> struct Bits {
    static constexpr int D = sizeof(W) * 8;
    static std::string runs(const W* a, i64 na, const W* b, i64 nb) { // the bits of a, then of b
        std::string s = "["; i64 len = 0; int v = -1; char t[48];
        for (i64 i = 0; i <= na + nb; i++) {
            int x = i == na + nb ? -1 : i < na ? (a[i / D] >> (i % D)) & 1 : (b[(i - na) / D] >> ((i - na) % D)) & 1;
            if (x == v) { len++; continue; }
            if (len) { snprintf(t, sizeof t, "%s[%lld,%d,0,0]", s.size() > 1 ? "," : "", (long long)len, 2 + v); s += t; }
            v = x; len = 1;
        }
        return s + "]";
    }
};

template <class W> struct World : Bits<W> {
    using Bits<W>::D;
    const W* k; int nk;                         // the constant bits
    const bit::bit_vector<W>* kv;               // the same bits in a vector
    W* base = nullptr; int n = 0;               // the words of this thread
    std::unique_ptr<bit::bit_vector<W>> v;
    typedef bit::bit_iterator<W*> It; typedef bit::bit_iterator<const W*> CIt;
    It m(int i) { return It(base) + (i - nk); }
    CIt c(int i, bool end = false) { return i < nk || (end && i == nk) ? CIt(k) + i : CIt(base) + (i - nk); }
    i64 r = -1;
    void ret(It i) { r = nk + (i - It(base)); }
    void ret(CIt i, bool constant) { r = constant ? i - CIt(k) : nk + (i - CIt(base)); }

    template <class I> void at(I i) { r = i - v->begin(); }

    void act(const Call& q) {
        const auto& a = q.a; auto bv = [](int x) { return x ? bit::bit1 : bit::bit0; };
        auto e = [&](int f, int l) { return c(l, f < nk); };
        switch (q.op) {
        case COPY: ret(bit::copy(c(a[0]), e(a[0], a[1]), m(a[2]))); break;
        case COPYB: ret(bit::copy_backward(m(a[0]), m(a[1]), m(a[2]))); break;
        case FILL: bit::fill(m(a[0]), m(a[1]), bv(a[2])); break;
        case SHL: ret(bit::shift_left(m(a[0]), m(a[1]), a[2])); break;
        case SHR: ret(bit::shift_right(m(a[0]), m(a[1]), a[2])); break;
        case ROT: ret(bit::rotate(m(a[0]), m(a[1]), m(a[2]))); break;
        case REV: bit::reverse(m(a[0]), m(a[1])); break;
        case SWAPR: ret(bit::swap_ranges(m(a[0]), m(a[1]), m(a[2]))); break;
        case EQUAL: r = bit::equal(c(a[0]), e(a[0], a[1]), c(a[2])); break;
        case FIND: ret(bit::find(c(a[0]), e(a[0], a[1]), bv(a[2])), a[0] < nk); break;
        case COUNT: r = bit::count(c(a[0]), e(a[0], a[1]), bv(a[2])); break;
        case NOT: ret(bit::transform(m(a[0]), m(a[1]), m(a[2]), std::bit_not<W>())); break;
        case AND: ret(bit::transform(m(a[0]), m(a[1]), m(a[2]), m(a[3]), std::bit_and<W>())); break;
        case XOR: ret(bit::transform(m(a[0]), m(a[1]), m(a[2]), m(a[3]), std::bit_xor<W>())); break;
        case BSET: *m(a[0]) = bv(a[1]); break;
        case BFLIP: m(a[0])->flip(); break;
        case BGET: r = *c(a[0]) == bit::bit1; break;
        case V_FROM: v.reset(new bit::bit_vector<W>(kv->begin() + a[0], kv->begin() + a[1])); break;
        case V_COPY: if (v->size() % 2) v.reset(new bit::bit_vector<W>(*kv)); else *v = *kv; break;
        case V_PUSH: v->push_back(bv(a[0])); break;
        case V_POP: v->pop_back(); break;
        case V_INSERT: at(v->insert(v->cbegin() + a[0], bv(a[1]))); break;
        case V_INSERT_N: at(v->insert(v->cbegin() + a[0], (size_t)a[1], bv(a[2]))); break;
        case V_INSERT_FROM: { bit::bit_vector<W> t(*kv); at(v->insert(v->cbegin() + a[0], t.begin() + a[1], t.begin() + a[2])); break; }
        case V_ERASE: at(v->erase(v->begin() + a[0])); break;
        case V_ERASE_N: at(v->erase(v->begin() + a[0], v->begin() + a[1])); break;
        case V_RESIZE: v->resize(a[0], bv(a[1])); break;
        case V_CLEAR: v->clear(); break;
        case V_EQUAL: { const auto& cv = *v; r = bit::equal(kv->begin() + a[0], kv->begin() + a[1], cv.begin() + a[2]); break; }
        case V_SHARED: switch (a[0] % 5) {
            case 0: r = (*kv)[a[0]] == bit::bit1; break;
            case 1: r = kv->at(a[0]) == bit::bit1; break;
            case 2: r = *(kv->begin() + a[0]) == bit::bit1; break;
            case 3: r = bit::count(kv->begin() + a[0], kv->begin() + a[0] + 1, bit::bit1) == 1; break;
            default: r = bit::find(kv->begin() + a[0], kv->begin() + a[0] + 1, bit::bit1) == kv->begin() + a[0]; break;
            } break;
        case V_GET: { const auto& cv = *v; r = (a[0] % 2 ? bit::bit_value(cv[a[0]]) : bit::bit_value((*v)[a[0]])) == bit::bit1; break; }
        case V_SIZE: r = v->size(); if (kv->size() != (size_t)nk || kv->empty() != (nk == 0)) r = -2; break;
        }
    }
    void event(std::string& o, const char* name, bool first, const Call* q, bool vectors, int races) {
        char t[96]; if (!o.empty()) o += '\x1f';
        o += std::string("{\"o\":\"") + name + "\"";
        snprintf(t, sizeof t, ",\"i\":%d,\"a\":[", (int)first); o += t;
        if (q) for (size_t j = 0; j < q->a.size(); j++) { snprintf(t, sizeof t, j ? ",%d" : "%d", q->a[j]); o += t; }
        const bool none = r == -1; snprintf(t, sizeof t, "%lld", (long long)r);
        o += std::string("],\"r\":") + (none ? "[]" : t) + ",\"k\":" + (first ? this->runs(k, nk, k, 0) : "[]") + ",\"p\":";
        o += vectors ? this->runs(v->data(), (i64)v->size(), k, 0) : this->runs(base, n, k, 0);
        o += std::string(",\"x\":\"") + (races ? "data race" : "") + "\"}";
    }
    std::string go(const Thread& T, bool vectors, std::atomic<int>& gate, int all) {
        std::string o; if (vectors) v.reset(new bit::bit_vector<W>());
        event(o, vectors ? "v_start" : "start", true, nullptr, vectors, 0);
        gate.fetch_add(1, std::memory_order_relaxed); while (gate.load(std::memory_order_relaxed) < all) std::this_thread::yield();
        for (const Call& q : T.calls) { r = -1; int before = t_races; act(q); event(o, NAME[q.op], false, &q, vectors, t_races - before); }
        return o;
    }
};

template <class W> static std::string dispatch(const Sess& S, u64 seed) {
    constexpr int D = sizeof(W) * 8; Rng g(seed);
    auto word = [&]() -> W { switch (S.fill) { case 0: return (W)g.next(); case 1: return g.below(4) ? 0 : (W)g.next(); default: return g.coin() ? (W)~(W)0 : (W)(1 + g.below(2)); } };
    std::vector<W> K(S.shared + 1); for (auto& w : K) w = word();
    int nk = S.shared * D, total = 0; for (auto& T : S.threads) total += T.words;
    W* store = (W*)aligned_alloc(64, (total * sizeof(W) + 63) / 64 * 64); for (int i = 0; i < total; i++) store[i] = word();
    std::unique_ptr<const bit::bit_vector<W>> kv(new bit::bit_vector<W>(bit::bit_iterator<const W*>(K.data()), bit::bit_iterator<const W*>(K.data()) + nk));
    std::vector<std::string> out(S.threads.size()); std::vector<std::thread> th; std::atomic<int> gate{0}; int at = 0;
    const std::string before = Bits<W>::runs(K.data(), nk, K.data(), 0) ;
    for (size_t i = 0; i < S.threads.size(); i++) {
        World<W>* w = new World<W>(); w->k = K.data(); w->nk = nk; w->kv = kv.get(); w->base = store + at; w->n = S.threads[i].words * D; at += S.threads[i].words;
        th.emplace_back([&, w, i] { out[i] = w->go(S.threads[i], S.vectors, gate, (int)S.threads.size()); delete w; });
    }
    for (auto& t : th) t.join();
    std::string o; for (auto& s : out) { if (!o.empty()) o += '\x1f'; o += s; g_stats.execs++; }
    bool changed = Bits<W>::runs(K.data(), nk, K.data(), 0) != before || Bits<W>::runs(kv->data(), nk, K.data(), 0) != before;
    o += std::string("\x1f{\"o\":\"end\",\"i\":0,\"a\":[],\"r\":[],\"k\":[],\"p\":[],\"x\":\"") + (changed ? "constant bits changed" : "") + "\"}";
    free(store);
    return o;
}

static std::vector<Sess> generate(u64 seed, bool thorough) {
    std::vector<Sess> all; Rng g(seed * 977 + 5);
    for (int s = 0; s < (thorough ? 1500 : 320); s++) {
        Sess S{g.pick<int>({1, 2, 4, 8}), 0, (int)g.below(3), s % 4 == 3, {}}; const int D = S.size * 8;
        bool big = g.below(3) == 0; if (big) S.fill = 1 + (int)g.below(2);
        S.shared = big ? (int)g.range(20, 80) : (int)g.range(2, 8);
        const int nk = S.shared * D, threads = (int)g.range(2, 4);
        for (int t = 0; t < threads; t++) {
            Thread T{big ? (int)g.range(10, 70) : (int)g.range(1, 6), {}}; const int n = T.words * D;
            int len = 0; // of the vector
            for (int i = 0; i < 22; i++) {
                auto spot = [&](int lo, int hi) { int x = (int)g.range(lo, hi); if (g.below(3) == 0) { int y = x / D * D; if (y >= lo) x = y; } return x; };
                auto range = [&](int lo, int hi, int& f, int& l) { f = g.below(4) ? spot(lo, hi) : lo; l = g.below(4) ? spot(f, hi) : hi; };
                int f, l; Call c{COPY, {}};
                if (S.vectors) {
                    c.op = (Op)g.range(i ? V_FROM : V_FROM, i < 1 ? V_COPY : V_SIZE);
                    switch (c.op) {
                    case V_FROM: range(0, nk, f, l); c.a = {f, l}; len = l - f; break;
                    case V_COPY: len = nk; break;
                    case V_PUSH: c.a = {(int)g.below(2)}; len++; break;
                    case V_POP: if (!len) { c.op = V_SIZE; break; } len--; break;
                    case V_INSERT: c.a = {(int)g.range(0, len), (int)g.below(2)}; len++; break;
                    case V_INSERT_N: { int k = (int)g.below(3 * D); c.a = {(int)g.range(0, len), k, (int)g.below(2)}; len += k; break; }
                    case V_INSERT_FROM: range(0, nk, f, l); c.a = {(int)g.range(0, len), f, l}; len += l - f; break;
                    case V_ERASE: if (!len) { c.op = V_SIZE; break; } c.a = {(int)g.below(len)}; len--; break;
                    case V_ERASE_N: range(0, len, f, l); c.a = {f, l}; len -= l - f; break;
                    case V_RESIZE: len = (int)g.below(2 * nk); c.a = {len, (int)g.below(2)}; break;
                    case V_CLEAR: len = 0; break;
                    case V_EQUAL: range(0, std::min(nk, len), f, l); c.a = {f, l, (int)g.range(0, len - (l - f))}; break;
                    case V_GET: if (!len) { c.op = V_SIZE; break; } c.a = {(int)g.below(len)}; break;
                    case V_SHARED: c.a = {(int)g.below(nk)}; break;
                    default: break;
                    }
                } else {
                    c.op = (Op)g.below(V_FROM); const int lo = nk, hi = nk + n; const bool constant = g.coin();
                    range(lo, hi, f, l);
                    switch (c.op) {
                    case COPY: if (constant) { range(0, std::min(nk, n), f, l); c.a = {f, l, spot(lo, hi - (l - f))}; }
                               else { int d = spot(lo, f); if (g.below(3) == 0 && hi - l >= l - f) d = (int)g.range(l, hi - (l - f)); c.a = {f, l, f == l ? lo : d}; if (f != l && d == f) c.a[2] = f > lo ? f - 1 : -1; if (c.a[2] < 0) { c = {BGET, {spot(0, hi - 1)}}; } }
                               break;
                    case COPYB: { int d = spot(l, hi); if (d == l) { c = {BFLIP, {spot(lo, hi - 1)}}; break; } c.a = {f, l, d}; break; }
                    case FILL: c.a = {f, l, (int)g.below(2)}; break;
                    case SHL: case SHR: c.a = {f, l, g.coin() ? (int)g.below(2 * D) : (int)g.range(0, l - f + 2)}; break;
                    case ROT: c.a = {f, spot(f, l), l}; break;
                    case REV: c.a = {f, l}; break;
                    case SWAPR: { int k = (int)g.below(n / 2 + 1); f = spot(lo, hi - 2 * k); c.a = {f, f + k, (int)g.range(f + k, hi - k)}; break; }
                    case EQUAL: if (constant) { range(0, std::min(nk, n), f, l); c.a = {f, l, spot(lo, hi - (l - f))}; } else c.a = {f, l, g.coin() ? f : spot(lo, hi - (l - f))}; break;
                    case FIND: case COUNT: if (constant) range(0, nk, f, l); c.a = {f, l, (int)g.below(2)}; break;
                    case NOT: if (g.coin()) c.a = {f, l, f}; else { int k = (int)g.below(n / 2 + 1); f = spot(lo, hi - 2 * k); c.a = {f, f + k, (int)g.range(f + k, hi - k)}; } break;
                    case AND: case XOR: { int k = (int)g.below(n / 2 + 1); f = spot(lo, hi - 2 * k); int h = (int)g.range(f + k, hi - k); c.a = {f, f + k, h, g.coin() ? f : h}; break; }
                    case BSET: c.a = {spot(lo, hi - 1), (int)g.below(2)}; break;
                    case BFLIP: c.a = {spot(lo, hi - 1)}; break;
                    case BGET: c.a = {spot(0, hi - 1)}; break;
                    default: break;
                    }
                }
                T.calls.push_back(c);
            }
            S.threads.push_back(T);
        }
        all.push_back(S);
    }
    return all;
}

int main(int argc, char** argv) {
    u64 seed = 1; bool thorough = false; int shard = 0, shards = 1; i64 only = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &shards);
        else if (a == "--only") only = atoll(argv[++i]);
        else { fprintf(stderr, "usage\n"); return 3; }
    }
    std::vector<Sess> all = generate(seed, thorough);
    for (size_t sid = 0; sid < all.size(); sid++) {
        if (only >= 0 ? (i64)sid != only : (int)(sid % shards) != shard) continue;
        const Sess& S = all[sid]; u64 q = seed * 1000003 + sid;
        cpu_limit(100);
        std::string o = S.size == 1 ? dispatch<u8>(S, q) : S.size == 2 ? dispatch<u16>(S, q) : S.size == 4 ? dispatch<u32>(S, q) : dispatch<u64>(S, q);
        for (const char& ch : o) g_stats.calls += ch == '\x1f';
        printf("%zu\t%d\t%s\n", sid, S.size * 8, o.c_str()); fflush(stdout);
    }
    printf("#stats %llu %llu\n", (unsigned long long)g_stats.execs, (unsigned long long)g_stats.calls);
    return fflush(stdout) ? 3 : 0;
}
