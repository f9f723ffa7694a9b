// Records what the word instructions give, for spec/BitInstrTrace.tla.
//
// Every session is a block of calls on one type of words, made once as they are (with the compiler's intrinsics where the library
// finds them) and once with the variants without; one session per type holds what the calls give in constant expressions, and one
// what the helpers on word types give.
#include "common.hpp"
#include <array>
#include <tuple>
#include <cstddef>
#include "bitlib/bitlib.hpp"

enum Op { POPCNT, LZCNT, TZCNT, BEXTR, PDEP, PEXT, BYTESWAP, BITSWAP, BLEND_MASK, BLEND, EXCH_MASK, EXCH, EXCH2, SHLD, SHRD, ADDCARRY, SUBBORROW, MULX, NOPS };
static const char* NAME[] = {"popcnt", "lzcnt", "tzcnt", "bextr", "pdep", "pext", "byteswap", "bitswap", "blend_mask", "blend", "exch_mask", "exch", "exch2",
    "shld", "shrd", "addcarry", "subborrow", "mulx"};
static bool unary(int o) { return o == POPCNT || o == LZCNT || o == TZCNT || o == BYTESWAP || o == BITSWAP; }
static int params(int o) { return o == BEXTR || o == BLEND || o == EXCH ? 2 : o == EXCH2 ? 3 : o == SHLD || o == SHRD ? 1 : 0; }
static int outputs(int o) { return o <= TZCNT ? 0 : o == EXCH_MASK || o == EXCH || o == EXCH2 || o == MULX ? 2 : 1; }
static bool counts(int o) { return o <= TZCNT || o == ADDCARRY || o == SUBBORROW; }

template <class T> struct Args { int op; T a, b, m; unsigned n[3]; int c, how; };
template <class T> struct Result { T w[2]; long k; };

// what can be evaluated in constant expressions
template <class T, bool Portable>
constexpr Result<T> call_c(const Args<T>& g) {
    Result<T> r{{g.a, g.b}, -1};
    const T p = (T)g.n[0], q = (T)g.n[1];
    switch (g.op) {
    case POPCNT: if constexpr (Portable) r.k = (long)bit::_popcnt(g.a, std::ignore); else r.k = (long)bit::_popcnt(g.a); break;
    case LZCNT: if constexpr (Portable) r.k = (long)bit::_lzcnt(g.a, std::ignore); else r.k = (long)bit::_lzcnt(g.a); break;
    case TZCNT: if constexpr (Portable) r.k = (long)bit::_tzcnt(g.a, std::ignore); else r.k = (long)bit::_tzcnt(g.a); break;
    case BEXTR: if constexpr (Portable) r.w[0] = bit::_bextr(g.a, p, q, std::ignore); else r.w[0] = bit::_bextr(g.a, p, q); break;
    case PDEP: if constexpr (Portable) r.w[0] = bit::_pdep(g.a, g.m, std::ignore); else r.w[0] = bit::_pdep(g.a, g.m); break;
    case PEXT: if constexpr (Portable) r.w[0] = bit::_pext(g.a, g.m, std::ignore); else r.w[0] = bit::_pext(g.a, g.m); break;
    case BITSWAP: r.w[0] = bit::_bitswap(g.a); break;
    case BLEND_MASK: r.w[0] = bit::_bitblend(g.a, g.b, g.m); break;
    case BLEND: r.w[0] = bit::_bitblend(g.a, g.b, p, q); break;
    case EXCH_MASK: bit::_bitexch(r.w[0], r.w[1], g.m); break;
    case EXCH: if (g.how) bit::_bitexch(r.w[0], r.w[1], (std::ptrdiff_t)g.n[0], (std::ptrdiff_t)g.n[1]); else bit::_bitexch(r.w[0], r.w[1], p, q); break;
    case EXCH2: if (g.how) bit::_bitexch(r.w[0], r.w[1], (std::ptrdiff_t)g.n[0], (std::ptrdiff_t)g.n[1], (std::ptrdiff_t)g.n[2]);
                else bit::_bitexch(r.w[0], r.w[1], p, q, (T)g.n[2]); break;
    case SHLD: r.w[0] = bit::_shld(g.a, g.b, p); break;
    case SHRD: r.w[0] = bit::_shrd(g.a, g.b, p); break;
    case MULX: if constexpr (Portable) r.w[0] = bit::_mulx(g.a, g.b, &r.w[1], std::ignore); else r.w[0] = bit::_mulx(g.a, g.b, &r.w[1]); break;
    case ADDCARRY: if constexpr (Portable) r.k = bit::_addcarry((unsigned char)g.c, g.a, g.b, &r.w[0], std::ignore); break;
    case SUBBORROW: if constexpr (Portable) r.k = bit::_subborrow((unsigned char)g.c, g.a, g.b, &r.w[0], std::ignore); break;
    }
    return r;
}
template <class T, bool Portable>
static Result<T> call(const Args<T>& g) {
    Result<T> r{{g.a, g.b}, -1};
    unsigned char c = (unsigned char)g.c;
    switch (g.op) {
    case BYTESWAP: if constexpr (Portable) r.w[0] = bit::_byteswap(g.a, std::ignore); else r.w[0] = bit::_byteswap(g.a); return r;
    case ADDCARRY: if constexpr (Portable) break; else { if (g.how) r.k = bit::_addcarry(c, r.w[0], r.w[1], &r.w[0]); else r.k = bit::_addcarry(c, g.a, g.b, &r.w[0]); return r; }
    case SUBBORROW: if constexpr (Portable) break; else { if (g.how) r.k = bit::_subborrow(c, r.w[0], r.w[1], &r.w[0]); else r.k = bit::_subborrow(c, g.a, g.b, &r.w[0]); return r; }
    }
    return call_c<T, Portable>(g);
}

// ------------------------------------------------------------------ events
template <class T> static void limbs(std::string& s, T w) {
    char b[8]; s += '[';
    for (size_t i = 0; i < sizeof(T); i++) { snprintf(b, sizeof b, "%s%u", i ? "," : "", (unsigned)((u64)w >> 8 * i & 255)); s += b; }
    s += ']';
}
template <class T> static std::string event(const Args<T>& g, const Result<T>& r, const char* x) {
    std::string s = "{\"o\":\""; s += NAME[g.op]; s += "\",\"a\":"; limbs(s, g.a); s += ",\"b\":"; limbs(s, g.b); s += ",\"m\":"; limbs(s, g.m); s += ",\"n\":[";
    for (int i = 0; i < params(g.op); i++) s += (i ? "," : "") + std::to_string(g.n[i]);
    s += "],\"c\":" + std::to_string(g.c) + ",\"w\":[";
    for (int i = 0; i < outputs(g.op); i++) { if (i) s += ','; limbs(s, r.w[i]); }
    s += "],\"k\":" + std::to_string(counts(g.op) ? r.k : -1) + ",\"x\":\""; s += x; s += "\"}";
    return s;
}
static u64 g_execs = 0, g_calls = 0;
static i64 g_only = -1; static int g_shard = 0, g_shards = 1, g_seed = 1; static bool g_thorough = false;
static bool mine(i64 sid) { return g_only >= 0 ? sid == g_only : sid % g_shards == g_shard; }

template <class T, bool Portable> static void run(i64 sid, const std::string& where, const std::vector<Args<T>>& calls) {
    std::string line;
    for (const Args<T>& g : calls) {
        Result<T> r{{g.a, g.b}, -1}; const char* x = "";
        if (sigsetjmp(g_jmp, 1) == 0) { g_armed = 1; r = call<T, Portable>(g); g_armed = 0; }
        else { x = (const char*)g_fault; }
        g_armed = 0; g_calls++;
        if (!line.empty()) line += '\x1f';
        line += event(g, r, x);
    }
    g_execs++;
    printf("%lld\t%s\t%s\n", (long long)sid, where.c_str(), line.c_str());
}

// ------------------------------------------------------------------ operands
template <class T> static T pick(Rng& R) {
    const int D = sizeof(T) * 8;
    auto r = [&] { return (T)R.next(); };
    switch (R.below(12)) {
    case 0: return 0;
    case 1: return (T)~(T)0;
    case 2: return (T)((T)1 << R.below(D));
    case 3: return (T)~((T)1 << R.below(D));
    case 4: { int i = (int)R.below(D), j = (int)R.below(D); return (T)(((T)~(T)0 >> i) & ((T)~(T)0 << j)); }
    case 5: { int i = (int)R.below(D), j = (int)R.below(D); return (T)~(((T)~(T)0 >> i) & ((T)~(T)0 << j)); }
    case 6: return (T)(r() & r() & r());
    case 7: return (T)(r() | r() | r());
    case 8: return (T)(R.coin() ? 0x5555555555555555ull : 0x00ff00ff00ff00ffull);
    case 9: return (T)((T)~(T)0 >> R.below(D));
    default: return r();
    }
}
template <class T> static Args<T> make(Rng& R, int op) {
    const unsigned D = sizeof(T) * 8;
    Args<T> g{}; g.op = op; g.a = pick<T>(R); g.b = pick<T>(R); g.m = pick<T>(R); g.c = 0; g.how = (int)R.below(2);
    auto beyond = [&]() -> unsigned { switch (R.below(8)) { case 0: return D; case 1: return D + 1 + (unsigned)R.below(D); case 2: return D == 8 ? 255 : 0x3fffffff & (u64)(T)~(T)0; default: return (unsigned)R.below(D); } };
    if (unary(op)) g.b = g.m = 0;
    switch (op) {
    case PDEP: case PEXT: g.b = 0; break;
    case BEXTR: g.b = g.m = 0; g.n[0] = beyond(); g.n[1] = beyond(); break;
    case BLEND: g.m = 0; g.n[0] = beyond(); g.n[1] = beyond(); break;
    case EXCH: g.m = 0; g.n[0] = (unsigned)R.below(D); g.n[1] = R.coin() ? (unsigned)R.below(D - g.n[0] + 1) : D - g.n[0]; break;
    case EXCH2: { g.m = 0; g.n[0] = (unsigned)R.below(D); g.n[1] = (unsigned)R.below(D); unsigned q = D - std::max(g.n[0], g.n[1]);
                  g.n[2] = R.coin() ? (unsigned)R.below(q + 1) : q; break; }
    case SHLD: case SHRD: g.m = 0; g.n[0] = R.below(3) ? (unsigned)R.below(2 * D + 1) : R.coin() ? 0 : beyond(); break;
    case ADDCARRY: case SUBBORROW: g.m = 0; g.c = (int)R.below(2);
        if (R.coin()) { g.b = op == ADDCARRY ? (T)~g.a : g.a; g.b = (T)(g.b + (T)R.range(-1, 1)); } break;
    case MULX: g.m = 0; break;
    }
    return g;
}

// ------------------------------------------------------------------ constant expressions
template <class T> constexpr std::array<Args<T>, 96> table() {
    constexpr unsigned D = sizeof(T) * 8;
    std::array<Args<T>, 96> t{};
    const T w[] = {0, (T)~(T)0, (T)0x123456789abcdef1ull, (T)0x8040c02060e010f1ull, 1, (T)((T)1 << (D - 1)), (T)0xf0f0a5a53c3c0ff2ull, (T)0x5a00ff018000fe7full};
    const unsigned p[] = {0, 1, D - 1, D / 2 + 1, D, 3, D + 3, 2 * D};
    for (unsigned i = 0; i < 96; i++) {
        Args<T>& g = t[i]; const int op = (int)(i % 16);
        const int ops[] = {POPCNT, LZCNT, TZCNT, BEXTR, PDEP, PEXT, BITSWAP, BLEND_MASK, BLEND, EXCH_MASK, EXCH, EXCH2, SHLD, SHRD, MULX, BEXTR};
        g.op = ops[op]; g.a = w[(i * 3 + i / 16) % 8]; g.b = w[(i / 2 + 5 * (i / 16)) % 8]; g.m = w[(i + i / 7) % 8]; g.how = (int)(i / 16 % 2);
        unsigned x = p[(i / 16 + op) % 8], y = p[(i / 8 + 2 * op) % 8];
        if (g.op == POPCNT || g.op == LZCNT || g.op == TZCNT || g.op == BITSWAP || g.op == BEXTR) g.b = 0;
        if (g.op != PDEP && g.op != PEXT && g.op != BLEND_MASK && g.op != EXCH_MASK) g.m = 0;
        if (g.op == PDEP || g.op == PEXT) g.b = 0;
        if (g.op == EXCH || g.op == EXCH2) { x %= D; if (g.op == EXCH) y = D - x; else { y %= D; g.n[2] = D - (x > y ? x : y); } }
        g.n[0] = x; g.n[1] = y;
    }
    return t;
}
template <class T, bool Portable> constexpr std::array<Result<T>, 96> evaluate() {
    std::array<Result<T>, 96> r{}; constexpr auto t = table<T>();
    for (unsigned i = 0; i < 96; i++) r[i] = call_c<T, Portable>(t[i]);
    return r;
}
template <class T, bool Portable> static void constants(i64 sid, const std::string& where) {
    static constexpr auto t = table<T>(); static constexpr auto r = evaluate<T, Portable>();
    std::string line;
    for (unsigned i = 0; i < 96; i++) { if (i) line += '\x1f'; line += event(t[i], r[i], ""); }
    g_execs++; g_calls += 96;
    printf("%lld\t%s\t%s\n", (long long)sid, where.c_str(), line.c_str());
}

// ------------------------------------------------------------------ word types
static std::string g_types;
template <class... U> static std::string widths() { std::string s; ((s += (s.empty() ? "" : ",") + std::to_string(8 * sizeof(U))), ...); return s; }
template <class... U> static void fact(const char* o, size_t k) {
    if (!g_types.empty()) g_types += '\x1f';
    g_types += std::string("{\"o\":\"") + o + "\",\"a\":[],\"b\":[],\"m\":[],\"n\":[" + widths<U...>() + "],\"c\":0,\"w\":[],\"k\":" + std::to_string(k) + ",\"x\":\"\"}";
}
template <class... U> static void lists() {
    using namespace bit;
    fact<U...>("narrowest", sizeof(_narrowest_type_t<U...>) * 8); fact<U...>("widest", sizeof(_widest_type_t<U...>) * 8);
}
template <class U> static void one() {
    using namespace bit;
    fact<U>("digits", binary_digits<U>::value); fact<U>("digits", binary_digits<const U>::value); fact<U>("digits", binary_digits<volatile U>::value);
    fact<U>("digits", binary_digits<const volatile U>::value);
    fact<U>("narrower", sizeof(_narrower_type_t<U>) * 8); fact<U>("wider", sizeof(_wider_type_t<U>) * 8); lists<U>();
}
static void types(i64 sid) {
    one<unsigned char>(); one<unsigned short>(); one<unsigned int>(); one<unsigned long>(); one<unsigned long long>(); one<char16_t>(); one<char32_t>(); one<u64>();
    lists<u8, u8>(); lists<u8, u16>(); lists<u16, u8>(); lists<u8, u32>(); lists<u32, u8>(); lists<u8, u64>(); lists<u64, u8>(); lists<u16, u32>(); lists<u32, u16>();
    lists<u64, u16>(); lists<u16, u64>(); lists<u64, u32>(); lists<u32, u64>(); lists<u8, u16, u32>(); lists<u16, u8, u64>(); lists<u64, u8, u16>(); lists<u32, u64, u16>();
    lists<u64, u32, u16, u8>(); lists<u8, u16, u32, u64>(); lists<u16, u64, u8, u32>(); lists<u32, u16, u64, u32>();
    g_execs++;
    printf("%lld\ttypes\t%s\n", (long long)sid, g_types.c_str());
}

template <class T> static void words(const char* name, i64 base, int blocks) {
    const std::string n = name;
    for (int s = 0; s < blocks; s++) {
        const i64 sid = base + s;
        if (!mine(sid)) continue;
        Rng R((u64)g_seed * 1000003 + (u64)sid);
        std::vector<Args<T>> calls;
        const int op = s % NOPS;
        if (sizeof(T) == 1 && s < NOPS && unary(op)) for (int a = 0; a < 256; a++) { Args<T> g{}; g.op = op; g.a = (T)a; calls.push_back(g); }
        else if (sizeof(T) == 1 && g_thorough && s / NOPS <= 128 && (op == PDEP || op == PEXT || op == ADDCARRY || op == SUBBORROW || op == MULX))  // all pairs
            for (int a = 2 * (s / NOPS - 1); a < 2 * (s / NOPS); a++) for (int b = 0; b < 256; b++) {
                Args<T> g{}; g.op = op; g.a = (T)a; (op == PDEP || op == PEXT ? g.m : g.b) = (T)b; g.c = op == ADDCARRY || op == SUBBORROW ? (int)R.below(2) : 0; calls.push_back(g); }
        else for (int i = 0; i < 100; i++) calls.push_back(make<T>(R, op));
        if (calls.empty()) continue;
        run<T, false>(sid, n, calls); run<T, true>(sid, n + " without intrinsics", calls);
    }
    if (mine(base + blocks)) constants<T, false>(base + blocks, n + " constant");
    if (mine(base + blocks + 1)) constants<T, true>(base + blocks + 1, n + " constant without intrinsics");
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") g_seed = atoi(argv[++i]);
        else if (a == "--tier") g_thorough = !strcmp(argv[++i], "thorough");
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &g_shard, &g_shards);
        else if (a == "--only") g_only = atoll(argv[++i]);
    }
    install(); cpu_limit(600);
    const int blocks = NOPS * (g_thorough ? 160 : 24);
    const i64 each = 10000;
    words<u8>("u8", 0, blocks); words<u16>("u16", each, blocks); words<u32>("u32", 2 * each, blocks); words<u64>("u64", 3 * each, blocks);
    if (mine(4 * each)) types(4 * each);
    printf("#stats %llu %llu\n", (unsigned long long)g_execs, (unsigned long long)g_calls);
}
