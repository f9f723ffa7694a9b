// Records what the pieces algorithms are made of do, for spec/BitWindowTrace.tla: windows of bits read into and written from words
// of other widths, ranges compared with lengths, words moved. Every storage has as many words as the call needs and lies between
// pages that cannot be accessed, against the one after it or the one before it.
#include "common.hpp"
#include <sys/mman.h>
#include "bitlib/bitlib.hpp"

enum Op { GET, PUT, WITHIN, WITHIN_CONST, PADDED, ONE_PAST, WLEFT, WRIGHT, NOPS };
static const char* NAME[] = {"get", "put", "within", "within_const", "padded", "one_past", "words_left", "words_right"};

static u8* g_page; static const size_t PAGE = 4096;
static void pages() {
    u8* a = (u8*)mmap(nullptr, 3 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (a == MAP_FAILED || mprotect(a + PAGE, PAGE, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(3); }
    g_page = a + PAGE;
}

static void limbs(std::string& s, const u8* b, size_t n) {
    char t[8]; s += '[';
    for (size_t i = 0; i < n; i++) { snprintf(t, sizeof t, "%s%u", i ? "," : "", b[i]); s += t; }
    s += ']';
}
static u64 g_execs = 0, g_calls = 0;
static i64 g_only = -1; static int g_shard = 0, g_shards = 1, g_seed = 1; static bool g_thorough = false;
static bool mine(i64 sid) { return g_only >= 0 ? sid == g_only : sid % g_shards == g_shard; }

struct Call { int o, d, t, words, p, q, n, high; u8 s[8]; };

template <class It> static bool within_const(int n, It f, It l, int& used) {
    constexpr int D = bit::binary_digits<typename It::word_type>::value;
    switch (n % 9) {
    case 0: used = 0; return bit::is_within<0>(f, l);
    case 1: used = 1; return bit::is_within<1>(f, l);
    case 2: used = 5; return bit::is_within<5>(f, l);
    case 3: used = D - 1; return bit::is_within<D - 1>(f, l);
    case 4: used = D; return bit::is_within<D>(f, l);
    case 5: used = D + 1; return bit::is_within<D + 1>(f, l);
    case 6: used = 2 * D; return bit::is_within<2 * D>(f, l);
    case 7: used = 2 * D + 3; return bit::is_within<2 * D + 3>(f, l);
    default: used = 3 * D; return bit::is_within<3 * D>(f, l);
    }
}

template <class W, class T> static std::string make(Call c, const u8* content) {
    const int D = 8 * sizeof(W);
    W* w = (W*)(c.high ? g_page + PAGE - c.words * sizeof(W) : g_page);
    memcpy(w, content, c.words * sizeof(W));
    auto at = [&](int i) { return bit::bit_iterator<W*>(w + i / D, (size_t)(i % D)); };
    auto cat = [&](int i) { return bit::bit_iterator<const W*>(w + i / D, (size_t)(i % D)); };
    u8 r[8] = {0}; size_t rn = 0; int k = -1; const char* x = "";
    if (sigsetjmp(g_jmp, 1) == 0) {
        g_armed = 1;
        switch (c.o) {
        case GET: {
            T v = c.n == 8 * (int)sizeof(T) && c.high ? bit::get_word<T>(at(c.p)) : c.q & 1 ? bit::get_word<T>(cat(c.p), (size_t)c.n) : bit::get_word<T>(at(c.p), (size_t)c.n);
            memcpy(r, &v, rn = sizeof v); break; }
        case PUT: {
            T v; memcpy(&v, c.s, sizeof v);
            if (c.n == 8 * (int)sizeof(T) && c.high) bit::write_word<T>(v, at(c.p)); else bit::write_word<T>(v, at(c.p), (T)c.n);
            break; }
        case WITHIN: k = c.high ? bit::is_within(cat(c.p), cat(c.q), c.n) : bit::is_within(at(c.p), at(c.q), c.n); break;
        case WITHIN_CONST: { int which = c.n; k = within_const(which, at(c.p), at(c.q), c.n); break; }
        case PADDED: { W v = bit::_padded_read(at(c.p), at(c.q), c.n ? bit::bit1 : bit::bit0); memcpy(r, &v, rn = sizeof v); break; }
        case ONE_PAST: k = bit::_is_one_past_last_bit(at(c.q), w + c.n); break;
        case WLEFT: k = (int)(bit::word_shift_left(w + c.p / D, w + c.q / D, (std::ptrdiff_t)c.n) - w) * D; break;
        case WRIGHT: k = (int)(bit::word_shift_right(w + c.p / D, w + c.q / D, (std::ptrdiff_t)c.n) - w) * D; break;
        }
        g_armed = 0;
    } else x = (const char*)g_fault;
    g_armed = 0; g_calls++;
    std::string s = "{\"o\":\""; s += NAME[c.o];
    s += "\",\"d\":" + std::to_string(D) + ",\"t\":" + std::to_string(8 * sizeof(T)) + ",\"p\":" + std::to_string(c.p) + ",\"q\":" + std::to_string(c.q) + ",\"n\":" + std::to_string(c.n);
    s += ",\"s\":"; limbs(s, c.s, c.o == PUT ? sizeof(T) : 0); s += ",\"m\":"; limbs(s, content, c.words * sizeof(W));
    s += ",\"m2\":"; limbs(s, (u8*)w, c.words * sizeof(W)); s += ",\"r\":"; limbs(s, r, rn);
    s += ",\"k\":" + std::to_string(k) + ",\"x\":\""; s += x; s += "\"}";
    return s;
}

template <class W, class T> static void session(i64 sid, int op, const char* where) {
    const int D = 8 * sizeof(W), E = 8 * sizeof(T);
    Rng R((u64)g_seed * 1000003 + (u64)sid);
    std::string line;
    for (int i = 0; i < 100; i++) {
        Call c{}; c.o = op; c.high = R.coin();
        switch (op) {
        case GET: case PUT: {
            c.n = R.below(4) == 0 ? E : (int)R.range(0, E);
            c.p = R.below(4) == 0 ? 0 : (int)R.below(2 * D);
            c.q = (int)R.below(2);
            c.words = std::max(c.p / D + 1, (c.p + c.n + D - 1) / D) + (c.high ? 0 : (int)R.below(2));
            break; }
        case WLEFT: case WRIGHT: {
            c.words = (int)R.range(1, 48 / (int)sizeof(W) < 7 ? 6 : 8);
            int a = (int)R.range(0, c.words), b = (int)R.range(a, c.words);
            c.p = a * D; c.q = b * D; c.n = (int)R.range(-1, b - a + 1); break; }
        default: {
            c.words = (int)R.range(1, 4);
            c.p = (int)R.below(c.words * D + 1); c.q = (int)R.range(c.p, c.words * D);
            if (R.below(3) == 0) c.q = (c.q / D) * D >= c.p ? (c.q / D) * D : c.q;
            if (op == WITHIN) c.n = R.coin() ? std::max(0, c.q - c.p + (int)R.range(-1, 1)) : (int)R.below(4 * D);
            if (op == WITHIN_CONST) {
                c.n = (int)R.below(9);
                int len[] = {0, 1, 5, D - 1, D, D + 1, 2 * D, 2 * D + 3, 3 * D}; int want = len[c.n] + (int)R.range(-1, 1);   // ranges just as long
                if (R.coin() && want >= 0 && want <= c.words * D) { c.p = (int)R.below(c.words * D - want + 1); c.q = c.p + want; }
            }
            if (op == PADDED) { if (c.p == c.q) { if (c.p > 0) c.p--; else c.q++; } c.n = (int)R.below(2); c.words = std::max(c.p / D + 1, c.q / D + (c.q % D > 0)); }
            if (op == ONE_PAST) { c.n = (int)R.below(c.words); if (R.coin()) c.q = (c.n + (int)R.below(2)) * D; c.p = 0; }
            break; }
        }
        u8 content[64]; int how = (int)R.below(4);
        for (u8& b : content) b = how == 0 ? 0 : how == 1 ? 255 : (u8)R.next();
        for (u8& b : c.s) b = how == 0 ? 255 : how == 1 ? 0 : (u8)R.next();
        if (!line.empty()) line += '\x1f';
        line += make<W, T>(c, content);
    }
    g_execs++;
    printf("%lld\t%s\t%s\n", (long long)sid, where, line.c_str());
}

template <class W, class T> static void pair(i64& sid, const char* where) {
    for (int op : {GET, PUT}) for (int i = 0; i < (g_thorough ? 200 : 12); i++, sid++) if (mine(sid)) session<W, T>(sid, op, where);
}
template <class W> static void word(i64& sid, const char* name) {
    const std::string n = name;
    pair<W, u8>(sid, (n + ", value u8").c_str()); pair<W, u16>(sid, (n + ", value u16").c_str());
    pair<W, u32>(sid, (n + ", value u32").c_str()); pair<W, u64>(sid, (n + ", value u64").c_str());
    for (int op = WITHIN; op < NOPS; op++) for (int i = 0; i < (g_thorough ? 200 : 16); i++, sid++) if (mine(sid)) session<W, W>(sid, op, name);
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") g_seed = atoi(argv[++i]);
        else if (a == "--tier") g_thorough = !strcmp(argv[++i], "thorough");
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &g_shard, &g_shards);
        else if (a == "--only") g_only = atoll(argv[++i]);
    }
    install(); cpu_limit(600); pages();
    i64 sid = 0;
    word<u8>(sid, "u8"); word<u16>(sid, "u16"); word<u32>(sid, "u32"); word<u64>(sid, "u64");
    printf("#stats %llu %llu\n", (unsigned long long)g_execs, (unsigned long long)g_calls);
}
