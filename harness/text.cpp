// Records bits going to and coming from text, for spec/BitTextTrace.tla: streams of char and wchar_t over several kinds of
// buffers, construction from strings, debug_string.
#include "common.hpp"
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <string_view>
#include "bitlib/bitlib.hpp"

enum Op { EXTRACT, INSERT, PARSE, PRINT, PRINT_ALL, VALUE, SOURCE, CLEAR, EXCEPTIONS, SKIPWS, FORMAT, BREAK, NOPS };
static const char* NAME[] = {"extract", "insert", "parse", "print", "print_all", "value", "source", "clear", "exceptions", "skipws", "format", "break"};
struct Call { Op op; std::vector<int> a; std::vector<int> t; int how; };

// a source that delivers one character at a time, or throws; kind 1 has a buffer of one character, 2 and 3 have none, and 3 cannot take
// a character back
template <class C> struct Source : std::basic_streambuf<C> {
    typedef std::char_traits<C> T; typedef typename T::int_type int_type;
    std::vector<int> text; size_t next = 0; int kind; C c{};
    Source(const std::vector<int>& t, int k) : text(t), kind(k) {}
    i64 consumed() const { return (i64)next - (this->egptr() - this->gptr()); }
    int_type see() { if (next >= text.size()) return T::eof(); if (text[next] < 0) throw std::runtime_error("source"); return T::to_int_type((C)text[next]); }
    int_type underflow() override {
        if (kind == 1 && this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        int_type x = see();
        if (kind == 1 && !T::eq_int_type(x, T::eof())) { c = T::to_char_type(x); next++; this->setg(&c, &c, &c + 1); }
        return x;
    }
    int_type uflow() override { if (kind == 1) return std::basic_streambuf<C>::uflow(); int_type x = see(); if (!T::eq_int_type(x, T::eof())) next++; return x; }
    int_type pbackfail(int_type x) override {
        if (kind != 2 || next == 0 || T::eq_int_type(x, T::eof()) || !T::eq(T::to_char_type(x), (C)text[next - 1])) return T::eof();
        next--; return x;
    }
};

static struct { u64 execs = 0, calls = 0; } g_stats;
static std::string list(const std::vector<i64>& v) { std::string s = "["; char b[24]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, i ? ",%lld" : "%lld", (long long)v[i]); s += b; } return s + "]"; }
template <class S> static std::vector<i64> codes(const S& s) { std::vector<i64> r; for (auto c : s) r.push_back((i64)(typename std::make_unsigned<typename std::conditional<sizeof(c) == 1, char, int>::type>::type)c); return r; }

struct Sess { int size, wide; std::vector<Call> calls; };

template <class W, class C> struct World {
    std::unique_ptr<bit::bit_vector<W>> v{new bit::bit_vector<W>()};
    bit::bit_value val{};
    std::unique_ptr<std::basic_streambuf<C>> buf; std::unique_ptr<std::basic_istream<C>> in; size_t length = 0; int kind = 0;
    std::basic_ostringstream<C> out;
    std::string x; std::vector<i64> r; int threw = 0;

    void source(const std::vector<int>& t, int k) {
        kind = k; length = t.size(); in.reset();
        if (k == 0) { std::basic_string<C> s; for (int c : t) s += (C)c; buf.reset(new std::basic_stringbuf<C>(s, std::ios_base::in)); }
        else buf.reset(new Source<C>(t, k));
        in.reset(new std::basic_istream<C>(buf.get()));
    }
    i64 consumed() {
        if (!in) return 0;
        if (kind) return static_cast<Source<C>*>(buf.get())->consumed();
        auto n = buf->in_avail(); return (i64)length - (n < 0 ? 0 : (i64)n);
    }
    void act(const Call& c) {
        typedef std::ios_base I;
        switch (c.op) {
        case EXTRACT: {
            auto& is = *in;
            if (c.a[0] == 0) { auto& q = (is >> val); if (&q != &is) x = "does not return the stream"; }
            else { auto ref = (*v)[c.a[0] - 1]; auto before = ref.address(); auto pos = ref.position();
                   auto& q = (is >> ref); if (&q != &is) x = "does not return the stream"; if (ref.address() != before || ref.position() != pos) x = "the reference moved"; }
            break; }
        case INSERT: {
            out.str(std::basic_string<C>());
            if (c.a[0] == 0) { auto& q = (out << val); if (&q != &out) x = "does not return the stream"; }
            else if (c.how == 0) { auto& q = (out << (*v)[c.a[0] - 1]); if (&q != &out) x = "does not return the stream"; }
            else { const auto& cv = *v; auto& q = (out << cv[c.a[0] - 1]); if (&q != &out) x = "does not return the stream"; }
            r = codes(out.str()); break; }
        case PARSE: {
            std::string s; for (int k : c.t) s += (char)k;
            bool zero = s.find('\0') != std::string::npos;
            switch (zero ? 0 : c.how) {
            case 0: v.reset(new bit::bit_vector<W>(std::string_view(s))); break;
            case 1: v.reset(new bit::bit_vector<W>(s.c_str())); break;
            default: { std::string copy(s); bit::bit_vector<W> t{std::string_view(copy)}; v.reset(new bit::bit_vector<W>(t)); } }
            break; }
        case PRINT: { const auto& cv = *v; r = codes(v->debug_string(cv.begin() + c.a[0], cv.begin() + c.a[1])); break; }
        case PRINT_ALL: r = codes(v->debug_string()); break;
        case VALUE: val = c.a[0] ? bit::bit1 : bit::bit0; break;
        case SOURCE: source(c.t, c.how); break;
        case CLEAR: in->clear(); break;
        case EXCEPTIONS: in->clear(); in->exceptions((c.a[0] ? I::eofbit : I::goodbit) | (c.a[1] ? I::failbit : I::goodbit) | (c.a[2] ? I::badbit : I::goodbit)); break;
        case SKIPWS: if (c.a[0]) in->setf(I::skipws); else in->unsetf(I::skipws); break;
        case FORMAT: out.width(c.a[0]); out.fill((C)c.a[1]); if (c.a[2]) out.setf(I::left, I::adjustfield); else if (c.how) out.setf(I::right, I::adjustfield); else out.unsetf(I::adjustfield); break;
        case BREAK: if (c.a[0]) out.setstate(I::failbit); else out.clear(); break;
        default: break;
        }
    }
    std::string run(const Sess& S) {
        std::string o; char b[128]; source({}, 0);
        for (size_t i = 0; i < S.calls.size(); i++) {
            const Call& c = S.calls[i];
            x.clear(); r.clear(); threw = 0; std::vector<i64> bits; i64 pos = 0; int st = 0, one = 0; i64 width = 0;
            g_armed = 1;
            if (sigsetjmp(g_jmp, 0) == 0) {
                try { act(c); } catch (const std::exception&) { threw = 1; } catch (...) { threw = 1; }
                try {
                    for (size_t k = 0; k < v->size(); k++) bits.push_back((*v)[k] == bit::bit1);
                    one = static_cast<bool>(val); pos = consumed(); st = (int)in->rdstate(); width = (i64)out.width();
                } catch (...) { x = "an exception"; }
                g_armed = 0;
            } else x = (const char*)g_fault;
            if (i) o += '\x1f';
            std::vector<i64> a(c.a.begin(), c.a.end()), t(c.t.begin(), c.t.end());
            if (c.op == SOURCE) a = {c.how != 3};
            o += std::string("{\"o\":\"") + NAME[c.op] + "\",\"i\":" + (i ? "0" : "1") + ",\"a\":" + list(a) + ",\"t\":" + list(t);
            snprintf(b, sizeof b, ",\"d\":%d,\"h\":%d,\"r\":", (int)sizeof(W) * 8, threw); o += b + list(r);
            o += ",\"v\":[" + list(bits);
            snprintf(b, sizeof b, ",%d,%lld,%d,%d,%d,%lld],\"x\":\"", one, (long long)pos, !!(st & std::ios_base::eofbit), !!(st & std::ios_base::failbit), !!(st & std::ios_base::badbit), (long long)width);
            o += b + x + "\"}";
            g_stats.calls++;
            if (!x.empty()) break;
        }
        g_stats.execs++;
        return o;
    }
};

static std::vector<Sess> generate(u64 seed, bool thorough) {
    std::vector<Sess> all; Rng g(seed * 91 + 3);
    // every short text, extracted into a value and into references
    const int alphabet[] = {48, 49, 32, 120, -1};
    for (int n = 0; n <= 3; n++) { int total = 1; for (int i = 0; i < n; i++) total *= 5;
        for (int k = 0; k < total; k++) {
            if (n == 3 && !thorough && k % 3) continue;
            Sess S{g.pick<int>({1, 2, 4, 8}), (int)g.below(2), {}}; std::vector<int> t; bool thrower = false;
            for (int i = 0, q = k; i < n; i++, q /= 5) { t.push_back(alphabet[q % 5]); thrower |= alphabet[q % 5] < 0; }
            S.calls.push_back({PARSE, {}, {48, 49, 49, 48, 49}, 0});
            S.calls.push_back({VALUE, {(int)g.below(2)}, {}, 0});
            S.calls.push_back({SOURCE, {}, t, thrower ? (int)g.range(1, 3) : (int)g.below(4)});
            if (g.below(3) == 0) S.calls.push_back({SKIPWS, {(int)g.below(2)}, {}, 0});
            if (g.below(3) == 0) S.calls.push_back({EXCEPTIONS, {(int)g.below(2), (int)g.below(2), (int)g.below(2)}, {}, 0});
            for (int i = 0; i <= n + 1; i++) { S.calls.push_back({EXTRACT, {(int)g.below(6)}, {}, 0}); if (g.below(3) == 0) S.calls.push_back({CLEAR, {}, {}, 0}); }
            all.push_back(S);
        } }
    // strings and debug_string around words and bytes
    for (int size : {1, 2, 4, 8}) for (int n = 0; n <= 4 * size * 8; n++) {
        int D = size * 8; if (!thorough && D > 16 && n % D > 2 && n % D < D - 2 && n % 8 && n % 5) continue;
        Sess S{size, 0, {}}; std::vector<int> t;
        for (int i = 0; i < n; ) { if (g.below(6) == 0) t.push_back(g.pick<int>({32, 46, 120, 50, 47, 95, 176, 177, 0, 10})); else { t.push_back(48 + (int)g.below(2)); i++; } }
        if (g.coin()) t.push_back(g.pick<int>({32, 46, 58, 0}));
        S.calls.push_back({PARSE, {}, t, (int)g.below(3)}); S.calls.push_back({PRINT_ALL, {}, {}, 0});
        for (int k = 0; k < 2; k++) { int a = (int)g.range(0, n), b = (int)g.range(a, n); S.calls.push_back({PRINT, {a, b}, {}, 0}); }
        all.push_back(S);
    }
    // histories
    for (int k = 0; k < (thorough ? 8000 : 1500); k++) {
        Sess S{g.pick<int>({1, 2, 4, 8}), (int)g.below(2), {}}; int n = 0;
        S.calls.push_back({SOURCE, {}, {}, 0});
        for (int i = 0; i < 30; i++) {
            Op o = i == 0 ? PARSE : i == 1 ? SOURCE : g.pick<Op>({EXTRACT, EXTRACT, EXTRACT, EXTRACT, INSERT, INSERT, INSERT, FORMAT, (Op)g.below(NOPS), CLEAR});
            Call c{o, {}, {}, (int)g.below(3)};
            switch (o) {
            case EXTRACT: c.a = {g.coin() ? 0 : (int)g.range(0, n)}; break;
            case INSERT: c.a = {g.coin() ? 0 : (int)g.range(0, n)}; c.how = (int)g.below(2); break;
            case PARSE: { n = 0; int m = (int)g.below(40); for (int q = 0; q < m; q++) { int ch = g.below(5) ? 48 + (int)g.below(2) : g.pick<int>({32, 46, 50, 47, 176, 0}); c.t.push_back(ch); n += ch == 48 || ch == 49; } break; }
            case PRINT: { int a = (int)g.range(0, n), b = (int)g.range(a, n); c.a = {a, b}; break; }
            case VALUE: case SKIPWS: case BREAK: c.a = {(int)g.below(2)}; break;
            case SOURCE: { c.how = (int)g.below(4); int m = (int)g.below(30);
                for (int q = 0; q < m; q++) c.t.push_back(g.below(3) ? 48 + (int)g.below(2) : g.pick<int>({32, 9, 10, 13, 11, 12, 120, 50, 47, 46, S.wide ? 304 + (int)g.below(2) : 176 + (int)g.below(2), c.how ? -1 : 58}));
                break; }
            case EXCEPTIONS: c.a = {(int)g.below(2), (int)g.below(2), (int)g.below(2)}; break;
            case FORMAT: c.a = {g.pick<int>({0, 1, 2, 5, 17}), g.pick<int>({32, 42, 48}), (int)g.below(2)}; c.how = (int)g.below(2); break;
            default: break;
            }
            S.calls.push_back(c);
        }
        all.push_back(S);
    }
    return all;
}

template <class W> static std::string dispatch(const Sess& S) {
    if (S.wide) { World<W, wchar_t> w; return w.run(S); }
    World<W, char> w; return w.run(S);
}

int main(int argc, char** argv) {
    u64 seed = 1; bool thorough = false; int shard = 0, shards = 1; i64 only = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &shards);
        else if (a == "--only") only = atoll(argv[++i]);
        else { fprintf(stderr, "usage\n"); return 3; }
    }
    install();
    std::vector<Sess> all = generate(seed, thorough);
    for (size_t sid = 0; sid < all.size(); sid++) {
        if (only >= 0 ? (i64)sid != only : (int)(sid % shards) != shard) continue;
        const Sess& S = all[sid];
        cpu_limit(30);
        std::string o = S.size == 1 ? dispatch<u8>(S) : S.size == 2 ? dispatch<u16>(S) : S.size == 4 ? dispatch<u32>(S) : dispatch<u64>(S);
        printf("%zu\t%d %s\t%s\n", sid, S.size * 8, S.wide ? "wchar_t" : "char", o.c_str());
    }
    printf("#stats %llu %llu\n", (unsigned long long)g_stats.execs, (unsigned long long)g_stats.calls);
    return fflush(stdout) ? 3 : 0;
}
