// What the harnesses share: faults, random numbers, symbolic bits.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <string>
#include <vector>
#include <algorithm>
#include <exception>
#include <sys/time.h>
#include <unistd.h>

#ifdef ALT_WORDS      // unsigned types as wide as these, but different ones
typedef uint8_t u8; typedef char16_t u16; typedef char32_t u32; typedef unsigned long long u64;
#else
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#endif
typedef int64_t i64;

// ------------------------------------------------------------------ faults
static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_armed = 0;
static volatile const char* g_fault = "";
static void fault(const char* what) {
    if (!g_armed) { fprintf(stderr, "harness: unexpected %s\n", what); _exit(3); }
    g_armed = 0; g_fault = what; siglongjmp(g_jmp, 1);
}
static void on_signal(int s) {
    switch (s) {
    case SIGSEGV: fault("memory fault"); break;
    case SIGBUS: fault("bus error"); break;
    case SIGFPE: fault("arithmetic fault"); break;
    case SIGILL: fault("illegal instruction"); break;
    case SIGABRT: fault("abort"); break;
    case SIGPROF: fault("does not end"); break;
    }
    fault("signal");
}
extern "C" void __assert_fail(const char*, const char*, unsigned, const char*) noexcept {
    fault("assertion failed"); _exit(3);
}
static void on_terminate() { fault("terminate"); abort(); }
static void install() {
    std::set_terminate(on_terminate);
    static char stack[65536];
    stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
}
static void cpu_limit(int sec) {
    itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr);
}

// ------------------------------------------------------------------ random
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 3; i++) next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                 z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool coin() { return next() & 1; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <class T> const T& pick(const std::vector<T>& l) { return l[below(l.size())]; }
};

struct Run { int len, kind, src, step; };
typedef std::vector<Run> Rope;

// ------------------------------------------------------- planes and ropes
struct Planes { // values of token t under plane p
    int n, addr, count; u64 seed;
    static const int RANDOM = 6;
    explicit Planes(int n_) : n(n_), addr(0), seed(0x51ed270b) {
        while ((1 << addr) < n) addr++;
        count = 2 + 2 * addr + RANDOM;
    }
    bool value(int p, int t) const {
        if (p == 0) return true;
        if (p == 1) return false;
        p -= 2;
        if (p < addr) return (t >> p) & 1;
        p -= addr;
        if (p < addr) return !((t >> p) & 1);
        p -= addr;
        u64 z = (u64)t * 0x9E3779B97F4A7C15ull + (u64)(p + 1) * 0xD1B54A32D192ED03ull + seed;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
        return p < 4 ? z & 1 : p == 4 ? (z & 15) == 0 : (z & 15) != 0;
    }
};
static std::vector<u8> plane_table(const Planes& P) {
    std::vector<u8> t((size_t)P.count * (P.n / 8), 0);
    for (int p = 0; p < P.count; p++) for (int i = 0; i < P.n; i++)
        if (P.value(p, i)) t[(size_t)p * (P.n / 8) + i / 8] |= 1 << (i % 8);
    return t;
}
static inline bool getb(const u8* x, int i) { return (x[i / 8] >> (i % 8)) & 1; }

static void emit_rope(std::string& s, const Rope& r) {
    char buf[64]; s += '[';
    for (size_t i = 0; i < r.size(); i++) {
        snprintf(buf, sizeof buf, "%s[%d,%d,%d,%d]", i ? "," : "", r[i].len, r[i].kind, r[i].src, r[i].step);
        s += buf;
    }
    s += ']';
}
static void add_bit(Rope& r, int kind, int src) {
    if (!r.empty()) {
        Run& b = r.back();
        if (b.kind == kind) {
            if (kind >= 2) { b.len++; return; }
            if (b.len == 1 && src - b.src >= -1 && src - b.src <= 1) { b.step = src - b.src; b.len = 2; return; }
            if (b.len > 1 && src == b.src + b.step * b.len) { b.len++; return; }
        }
    }
    r.push_back({1, kind, kind >= 2 ? 0 : src, kind >= 2 ? 0 : 1});
}
// the symbolic bits of a storage given its value under every plane
// (out: plane after plane, every stride bytes; m bits each)
static Rope decode(const Planes& P, const std::vector<u8>& table, const u8* out, size_t st, int m) {
    Rope r; const size_t tst = P.n / 8;
    for (int i = 0; i < m; i++) {
        bool v1 = getb(out, i), v0 = getb(out + st, i);
        int kind, t = 0;
        if (v1 == v0) kind = v1 ? 3 : 2;
        else {
            kind = v1 ? 0 : 1;
            for (int b = 0; b < P.addr; b++) t |= (int)(getb(out + st * (2 + b), i) ^ (kind == 1)) << b;
            if (t >= P.n) kind = 4;
        }
        if (kind < 4) for (int p = 0; p < P.count; p++) {
            bool want = kind == 2 ? false : kind == 3 ? true : (getb(&table[tst * p], t) ^ (kind == 1));
            if (getb(out + st * p, i) != want) { kind = 4; break; }
        }
        add_bit(r, kind, t);
    }
    return r;
}
// value of a rope under a plane
static void eval(const Rope& r, int n, const u8* plane, u8* out) {
    memset(out, 0, n / 8); int i = 0;
    for (const Run& x : r) for (int k = 0; k < x.len; k++, i++) {
        bool b = x.kind == 3 || (x.kind == 0 && getb(plane, x.src + k * x.step)) || (x.kind == 1 && !getb(plane, x.src + k * x.step));
        if (b) out[i / 8] |= 1 << (i % 8);
    }
}

