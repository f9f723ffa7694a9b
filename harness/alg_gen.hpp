// Which sessions to run.  Deterministic in (seed, tier, GROUP, PROFILE), so
// that every build configuration runs the same ones.
//
// PROFILE 0  every operation of GROUP: exhaustive over small ranges, word
//            boundary values for every word size, random, long ranges
//         1  long ranges only, at all alignments
//         2  histories: several operations on one storage, std:: algorithms
//            among them
//         3  short and boundary ranges of every operation (footprint)
#ifndef PROFILE
#define PROFILE 0
#endif

static Rope tokens(int n) { return {{n, 0, 0, 1}}; }
static void append(Rope& r, int len, int kind) {
    if (len <= 0) return;
    if (!r.empty() && r.back().kind == kind && kind >= 2) r.back().len += len;
    else r.push_back({len, kind, 0, 0});
}
static Rope from_bits(const std::vector<u8>& b) {
    Rope r; for (u8 x : b) append(r, 1, 2 + x); return r;
}
// values with runs of random lengths up to m, and not too many runs for the
// specification to evaluate
static std::vector<u8> runs_of(Rng& g, int n, int m) {
    std::vector<u8> b(n); bool v = g.coin();
    if (n > 1200) { // lengths of every magnitude
        for (int i = 0; i < n; v = !v) { int k = 1 + (int)g.below(1 + (n / 12 >> g.below(7))); while (k-- && i < n) b[i++] = v; }
        return b;
    }
    for (int i = 0; i < n; v = !v) { int k = 1 + (int)g.below(m); while (k-- && i < n) b[i++] = v; }
    return b;
}
static int round64(i64 n) { return (int)((n + 63) / 64 * 64); }

static Call call(int op, i64 a, i64 b = 0, i64 c = 0, i64 d = 0, bool s = false) {
    Call x; x.op = (u8)op; x.std_ = s; x.a[0] = a; x.a[1] = b; x.a[2] = c; x.a[3] = d; return x;
}

struct Gen {
    std::vector<Sess> out; Rng g; bool thorough;
    Gen(u64 seed, bool t) : g(seed), thorough(t) {}

    // may the ranges of a call to op be these? (spec/BitOps.tla: Legal)
    static bool disjoint(i64 a, i64 b, i64 n) { return n == 0 || a + n <= b || b + n <= a; }
    static bool legal(const Call& c) {
        const i64* a = c.a; i64 k = a[1] - a[0];
        switch (c.op) {
        case COPY: case MOVE: return a[0] == a[1] || a[2] < a[0] || a[1] <= a[2];
        case COPYB: return a[0] == a[1] || a[2] <= a[0] || a[1] < a[2];
        case SWAPR: case REVC: return disjoint(a[0], a[2], k);
        case ROTC: return disjoint(a[0], a[3], a[2] - a[0]);
        default: break;
        }
        if (is_un(c.op)) return a[2] == a[0] || disjoint(a[0], a[2], k);
        if (is_bin(c.op)) return (a[3] == a[0] || disjoint(a[0], a[3], k)) && (a[3] == a[2] || disjoint(a[2], a[3], k));
        return true;
    }
    static i64 top(const Call& c) { Range r[3]; int n = ranges(c, r); i64 t = 0; for (int i = 0; i < n; i++) t = std::max(t, r[i].hi); return t; }
    static i64 bottom(const Call& c) { Range r[3]; int n = ranges(c, r); i64 t = r[0].lo; for (int i = 0; i < n; i++) t = std::min(t, r[i].lo); return t; }

    void push(const Call& c, Rope pre, int n) { out.push_back({n, is_data(c.op), std::move(pre), {c}}); }
    int size_for(const Call& c) { return round64(top(c) + 8); }

    // ---- initial storages
    void sym(const Call& c) {
        if (!legal(c) || bottom(c) < 0) return;
        int n = size_for(c);
        if (!is_bin(c.op)) {
            // now and then constants among the tokens, so that fills and
            // functions of constants show
            if (is_un(c.op) && out.size() % 4 == 0) {
                Rope r; int i = 0; Rng q(out.size());
                while (i < n) { int k = std::min<int>(n - i, 1 + (int)q.below(std::max(24, n / 60))); int kind = (int)q.below(4);
                    if (kind == 0) r.push_back({k, 0, i, 1}); else if (kind == 1) r.push_back({k, 1, i, 1}); else append(r, k, kind); i += k; }
                push(c, r, n);
            } else push(c, tokens(n), n);
            return;
        }
        // binary functions: one operand constant, or the two equal, or known
        Rng q(out.size() * 977 + c.op);
        i64 k = c.a[1] - c.a[0];
        switch (q.below(4)) {
        case 0: case 1: { // tokens, with runs of constants over either operand
            Rope r; int i = 0;
            bool overlap = !disjoint(c.a[0], c.a[2], k);
            int side = (int)q.below(2); i64 lo = c.a[side ? 2 : 0], hi = lo + k;
            if (overlap && c.a[0] != c.a[2]) break;
            int m = 1 + (int)q.below(20);
            while (i < n) {
                if (i >= lo && i < hi && !overlap) { int l = std::min<int>((int)(hi - i), 1 + (int)q.below(k > 1200 ? 1 + (k / 12 >> q.below(7)) : m)); append(r, l, 2 + (int)q.below(2)); i += l; }
                else { int e = i < lo && !overlap ? (int)std::min<i64>(lo, n) : n; r.push_back({e - i, 0, i, 1}); i = e; }
            }
            push(c, r, n); return; }
        default: break;
        }
        // known bits in the operands, tokens elsewhere
        std::vector<u8> b(n, 9), v = runs_of(q, n, k < 48 ? 3 : k < 128 ? 12 : 40);
        for (i64 i = 0; i < k; i++) { b[c.a[0] + i] = v[c.a[0] + i]; b[c.a[2] + i] = v[c.a[2] + i]; }
        Rope r;
        for (int i = 0; i < n; ) {
            if (b[i] < 2) { append(r, 1, 2 + b[i]); i++; continue; }
            int e = i; while (e < n && b[e] == 9) e++;
            r.push_back({e - i, 0, i, 1}); i = e;
        }
        push(c, r, n);
    }
    // storages with known values for the operations that look at them
    void mark(const Call& c, i64 p, int v, int outside) { // everything !v but p; outside of the range its own value
        int n = size_for(c); std::vector<u8> b(n, (u8)outside);
        for (i64 i = c.a[0]; i < c.a[1]; i++) b[i] = !v;
        if (p >= 0) b[p] = v;
        push(c, from_bits(b), n);
    }
    void dat(const Call& c, int style) {
        if (!legal(c) || bottom(c) < 0) return;
        int n = size_for(c);
        std::vector<u8> b = runs_of(g, n, n <= 128 ? g.pick({1, 2, 5, 12, 40}) : g.pick({6, 12, 40, 100, 400}));
        i64 k = c.a[1] - c.a[0];
        if (style == 1) for (i64 i = c.a[0]; i < c.a[1]; i++) b[i] = 1;   // ones inside
        if (style == 2) for (i64 i = c.a[0]; i < c.a[1]; i++) b[i] = 0;   // zeros inside
        if (style == 3) { for (auto& x : b) x = 0; for (i64 i = c.a[0]; i < c.a[1]; i++) b[i] = 1; }
        if (style == 4) { for (auto& x : b) x = 1; for (i64 i = c.a[0]; i < c.a[1]; i++) b[i] = 0; }
        if (c.op == EQUAL && style >= 1 && disjoint(c.a[0], c.a[2], k)) { // equal, or but for one bit
            for (i64 i = 0; i < k; i++) b[c.a[2] + i] = b[c.a[0] + i];
            if (style % 2 == 0 && k) { i64 p = g.pick({(i64)0, k - 1, (i64)g.below(k)}); b[c.a[2] + p] ^= 1; }
        }
        if (c.op == FIND && style >= 1 && k) { // first hit at a chosen place
            i64 p = g.pick({(i64)0, k - 1, (i64)g.below(k), (i64)-1});
            for (i64 i = 0; i < (p < 0 ? k : p); i++) b[c.a[0] + i] = !c.a[2];
            if (p >= 0) b[c.a[0] + p] = (u8)c.a[2];
        }
        push(c, from_bits(b), n);
    }
    void any(const Call& c, int style) { if (is_data(c.op)) dat(c, style); else sym(c); }

    // ---- shapes
    enum Shape { S_FL, S_FLV, S_FLN, S_FML, S_FLD, S_FLE, S_FLFD, S_FMLD, S_BIT };
    static Shape shape(int op) {
        switch (op) {
        case REV: case SORT: return S_FL;
        case FILL: case FIND: case COUNT: return S_FLV;
        case SHL: case SHR: return S_FLN;
        case ROT: return S_FML;
        case COPYB: return S_FLE;
        case ROTC: return S_FMLD;
        case BSET: case BFLIP: case BCOPY: case BSWAP: case BAND: case BOR: case BXOR: case BGET: return S_BIT;
        default: return is_bin(op) ? S_FLFD : S_FLD;
        }
    }

    // all small ranges: positions modulo 8, lengths up to a few 8-bit words
    void exhaustive(int op) {
        const i64 B = 64; int L = thorough ? 44 : 27;
        switch (shape(op)) {
        case S_FL: for (int f = 0; f < 17; f++) for (int l = 0; l <= 75; l++) any(call(op, B + f, B + f + l), 0); break;
        case S_FLV:
            for (int f = 0; f < 9; f++) for (int l = 0; l <= L + 8; l++) for (int v = 0; v < 2; v++) {
                Call c = call(op, B + f, B + f + l, v);
                if (op == FILL) { sym(c); continue; }
                if (op == COUNT) { for (int s = 0; s < 5; s++) dat(c, s); continue; }
                for (int p = -1; p <= l; p++) { // p = l: the first bit after the range
                    i64 at = p < 0 ? -1 : B + f + p;
                    mark(c, at, v, (p + f) & 1);
                    if (p == -1) mark(c, at, v, v);
                    if (p == 0) mark(c, B + f - 1, v, !v);
                }
            } break;
        case S_FLN:
            for (int f = 0; f < 9; f++) for (int l = 0; l <= L + 6; l++) for (int k = 0; k <= l + 2; k++) any(call(op, B + f, B + f + l, k), 0); break;
        case S_FML:
            for (int f = 0; f < 9; f++) for (int l = 0; l <= L + 9; l++) for (int k = 0; k <= l; k++) any(call(op, B + f, B + f + k, B + f + l), 0); break;
        case S_FLD: case S_FLE: {
            for (int f = 0; f < 9; f++) for (int l = 0; l <= L; l++) {
                std::vector<i64> ds;
                for (int d = 0; d < 9; d++) { ds.push_back(B + 64 + d); if (d % 3 == f % 3) ds.push_back(d); }   // apart
                for (int d : {-17, -9, -8, -7, -3, -1, 0, 1, 2, 5, 8, 9, 16, 19}) ds.push_back(B + f + d);      // overlapping
                ds.push_back(B + f + l); ds.push_back(B + f - l);                                               // adjacent
                for (i64 d : ds) {
                    Call c = call(op, B + f, B + f + l, shape(op) == S_FLE ? d + l : d);
                    if (op == EQUAL) { dat(c, (int)(f + l + d) % 5); if (l <= 20) dat(c, (int)(f + l + d + 1) % 5); }
                    else if (is_un(op) && (f + l + d) % 3) continue;
                    else sym(c);
                }
            } break; }
        case S_FLFD:
            for (int f : {0, 1, 4, 7}) for (int l = 0; l <= L; l++) for (int f2 : {0, 1, 5, 7}) {
                if ((l + f + f2 + op) % (thorough ? 2 : 4)) continue;
                for (int d : {0, 3, 7}) any(call(op, B + f, B + f + l, B + 64 + f2, B + 128 + d), 0);
                any(call(op, B + f, B + f + l, B + 64 + f2, B + f), 0);           // in place of the first
                any(call(op, B + f, B + f + l, B + 64 + f2, B + 64 + f2), 0);     // of the second
                any(call(op, B + f, B + f + l, B + f, B + 64 + f2), 0);           // with itself
            } break;
        case S_FMLD:
            for (int f = 0; f < 8; f++) for (int l = 0; l <= 20; l++) for (int k = 0; k <= l; k++) any(call(op, B + f, B + f + k, B + f + l, B + 64 + (f + k) % 9), 0); break;
        case S_BIT: for (int i = 0; i < 72; i++) bit(op, i); break;
        }
    }
    void bit(int op, int i) {
        switch (op) {
        case BFLIP: case BGET: any(call(op, i), 0); break;
        case BCOPY: case BSWAP: for (int j : {0, 1, 7, 8, 15, 31, 33, 63, 64, 71}) any(call(op, i, j), 0); break;
        default: any(call(op, i, 0), 0); any(call(op, i, 1), 0);
        }
    }

    // values around the word boundaries of width w
    static std::vector<i64> around(i64 w, int words) {
        std::vector<i64> v; for (int k = 0; k <= words; k++) for (int d : {-1, 0, 1}) if (k * w + d >= 0) v.push_back(k * w + d);
        v.push_back(w / 2); v.push_back(w + w / 2); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
    }
    void boundary(int op, int percent) {
        for (i64 w : {8, 16, 32, 64}) {
            std::vector<i64> F = {0, 1, w / 2, w - 1}, L = around(w, 4), N = around(w, 4);
            const i64 B = 64;
            auto skip = [&] { return (int)g.below(100) >= percent; };
            for (i64 f : F) for (i64 l : L) switch (shape(op)) {
                case S_FL: any(call(op, B + f, B + f + l), 0); break;
                case S_FLV: for (int v = 0; v < 2; v++) for (int s = 0; s < (op == FILL ? 1 : 5); s++) any(call(op, B + f, B + f + l, v), s); break;
                case S_FLN: for (i64 k : N) if (!skip()) any(call(op, B + f, B + f + l, k), 0);
                            for (i64 k : {l, l - 1, l + 1, l / 2, (i64)2147483647}) if (k >= 0) any(call(op, B + f, B + f + l, k), 0); break;
                case S_FML: for (i64 k : N) if (k <= l && !skip()) any(call(op, B + f, B + f + k, B + f + l), 0);
                            for (i64 k : N) if (k <= l && !skip()) any(call(op, B + f, B + f + l - k, B + f + l), 0);
                            any(call(op, B + f, B + f + l / 2, B + f + l), 0); break;
                case S_FLD: case S_FLE: {
                    std::vector<i64> D;
                    for (i64 d : F) { D.push_back(B + 6 * w + d); D.push_back(B + f + d); D.push_back(B + f - d); D.push_back(B + f + w + d); D.push_back(B + f - w - d); }
                    D.push_back(B + f + l); D.push_back(B + f - l);
                    for (i64 d : D) if (!skip()) any(call(op, B + 256 + f, B + 256 + f + l, 256 + (shape(op) == S_FLE ? d + l : d)), (int)g.below(5));
                    break; }
                case S_FLFD: for (i64 f2 : F) for (i64 d : F) {
                    if (skip()) continue;
                    int m = (int)g.below(4);
                    i64 a2 = m == 3 ? B + f : B + 6 * w + f2, dd = m == 0 ? B + f : m == 1 ? a2 : B + 12 * w + d;
                    any(call(op, B + f, B + f + l, a2, dd), 0); } break;
                case S_FMLD: for (i64 d : F) if (!skip()) any(call(op, B + f, B + f + (l ? (i64)g.below(l + 1) : 0), B + f + l, B + 6 * w + d), 0); break;
                case S_BIT: break;
            }
        }
    }
    // one random call of op inside [0, n), lengths up to maxl
    Call random_call(int op, i64 n, i64 maxl) {
        i64 l = (i64)g.below(std::min(n, maxl) + 1), f = g.range(0, n - l);
        if (g.below(3) == 0) { f = f / 64 * 64; if (g.coin()) l = std::min(n - f, (l + 63) / 64 * 64); }
        switch (shape(op)) {
        case S_FL: return call(op, f, f + l);
        case S_FLV: return call(op, f, f + l, g.coin());
        case S_FLN: return call(op, f, f + l, g.pick({g.range(0, l), (i64)g.below(80), l / 2, g.range(0, l)}));
        case S_FML: { i64 k = g.pick({g.range(0, l), g.range(0, l), std::min<i64>(l, (i64)g.below(130)), l - std::min<i64>(l, (i64)g.below(130)), l / 2, l / 3}); return call(op, f, f + k, f + l); }
        case S_FLD: case S_FLE: case S_FLFD: case S_FMLD: {
            for (int tries = 0; tries < 60; tries++) {
                i64 d = g.range(0, n - l), d2 = g.range(0, n - l);
                if (g.below(3) == 0) d = (d - d % 64 + f % 64); 
                if (g.below(4) == 0) d -= d % 64;
                if (g.below(4) == 0) d2 -= d2 % 64;
                if (g.below(4) == 0) d = f;
                if (g.below(5) == 0) d2 = g.coin() ? f : d;
                if (d + l > n || d < 0 || d2 < 0) continue;
                Call c = shape(op) == S_FLD ? call(op, f, f + l, d) : shape(op) == S_FLE ? call(op, f, f + l, d + l)
                       : shape(op) == S_FLFD ? call(op, f, f + l, d, d2) : call(op, f, f + (i64)g.below(l + 1), f + l, d);
                if (legal(c)) return c;
                if (tries % 6 == 5) { l = l * 2 / 3; if (f + l > n) f = n - l; }
            }
            return shape(op) == S_FLFD ? call(op, f, f, f, f) : shape(op) == S_FMLD ? call(op, f, f, f, f) : call(op, f, f, f); }
        default: { i64 i = (i64)g.below(n), j = (i64)g.below(n);
            return op == BFLIP || op == BGET ? call(op, i) : op == BCOPY || op == BSWAP ? call(op, i, j) : call(op, i, g.coin()); }
        }
    }
    void random(int op, int count, i64 n, i64 maxl) {
        for (int i = 0; i < count; i++) { Call c = random_call(op, n, maxl); any(c, (int)g.below(5)); }
    }
    void long_ones(int op, int count, i64 n) {
        if (shape(op) == S_BIT) return;
        for (int i = 0; i < count; i++) {
            Call c{};
            for (int t = 0; t < 40; t++) { // at least a third of the storage
                c = random_call(op, n, shape(op) == S_FLFD || shape(op) == S_FMLD ? n / 3 : shape(op) == S_FLD || shape(op) == S_FLE ? n / 2 : n);
                Range r[3]; ranges(c, r);
                if (r[0].hi - r[0].lo >= n / 6) break;
            }
            any(c, (int)g.below(5));
        }
    }

    // ---- histories
    void history(const std::vector<int>& ops, bool concrete, int n, int len) {
        Sess s; s.n = n; s.concrete = concrete;
        s.pre = concrete ? from_bits(runs_of(g, n, n <= 64 ? g.pick({2, 9, 40}) : g.pick({9, 25, 60}))) : tokens(n);
        std::vector<bool> gap(n, false); // bits left unspecified by a shift
        for (int i = 0; i < len; i++) {
            int op = g.pick(ops); bool st = HASSTD(op) && (!HAS(op) || g.coin());
            if (!concrete && (is_data(op) || (is_bin(op)))) { i--; continue; }
            Call c = random_call(op, n, n / 2); c.std_ = st;
            if (!legal(c)) continue;
            Range r[3]; int nr = ranges(c, r);
            if (concrete && op >= FIND && op <= SORT) { bool bad = false; for (i64 k = r[0].lo; k < r[0].hi; k++) bad |= gap[k]; if (bad) continue; }
            if (concrete && op == EQUAL) { bool bad = false; for (int q = 0; q < nr; q++) for (i64 k = r[q].lo; k < r[q].hi; k++) bad |= gap[k]; if (bad) continue; }
            if (concrete && op == BGET && gap[c.a[0]]) continue;
            s.calls.push_back(c);
            // the vacated bits may hold anything from now on: conservatively
            // everything in reach of a later operation that touches them
            if (op == SHL || op == SHR) { i64 d = c.a[1] - c.a[0]; if (c.a[2] > 0 && c.a[2] < d) for (i64 k = c.a[0]; k < c.a[1]; k++) gap[k] = true; 
                // give them values again
                if (c.a[2] > 0 && c.a[2] < d) { Call f = op == SHL ? call(FILL, c.a[1] - c.a[2], c.a[1], g.coin()) : call(FILL, c.a[0], c.a[0] + c.a[2], g.coin());
                    f.std_ = !HAS(FILL); s.calls.push_back(f); for (i64 k = c.a[0]; k < c.a[1]; k++) gap[k] = false; } }
        }
        if (!s.calls.empty()) out.push_back(std::move(s));
    }
};

static std::vector<Sess> generate(u64 seed, bool thorough) {
    Gen G(seed, thorough);
    std::vector<int> ops; for (int i = 0; i < NOPS; i++) if (HAS(i) || HASSTD(i)) ops.push_back(i);
    const int k = thorough ? 8 : 1;
#if PROFILE == 0
    for (int op : ops) {
        bool un = is_un(op) || is_bin(op);
        G.exhaustive(op);
        G.boundary(op, un ? (thorough ? 60 : 12) : thorough ? 100 : 60);
        G.random(op, (un ? 300 : 1500) * k, 256, 200);
        G.random(op, (un ? 150 : 600) * k, 1024, 900);
        G.long_ones(op, (un ? 40 : 150) * k, 2560);
        G.long_ones(op, (un ? 10 : 60) * k, 4096);
        G.long_ones(op, (un ? 2 : 6) * k, 140032);
        if (op == COUNT || op == FIND || op == EQUAL) { G.long_ones(op, 150 * k, 9216); G.long_ones(op, 60 * k, 24576); }
    }
#elif PROFILE == 1
    for (int op : ops) {
        bool heavy = op == FIND || op == COUNT || op == U_NOT || op == EQUAL;
        G.long_ones(op, (heavy ? 500 : 60) * k, 2560);
        G.long_ones(op, (heavy ? 300 : 40) * k, 5120);
        if (is_data(op)) { G.long_ones(op, 150 * k, 12288); G.long_ones(op, 60 * k, 32768); }
        G.boundary(op, 8);
    }
#elif PROFILE == 2
    for (int i = 0; i < 1500 * k; i++) {
        G.history(ops, false, G.g.pick({64, 128, 192, 320}), 12);
        G.history(ops, true, G.g.pick({64, 128, 192, 320}), 12);
    }
#else
    for (int op : ops) { G.boundary(op, thorough ? 100 : is_un(op) || is_bin(op) ? 5 : 25); G.random(op, 150 * k, 192, 150); if (Gen::shape(op) == Gen::S_BIT) G.exhaustive(op); G.long_ones(op, 40 * k, 3072); }
#endif
    return G.out;
}
