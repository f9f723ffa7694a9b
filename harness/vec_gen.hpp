// Which histories to run; deterministic in (seed, tier, profile, ALLOC).
//   H  all calls, mixed            G  growing and shrinking
//   N  every way to construct      K  capacity
//   M  copies, moves, swaps        E  element access
//   F  requests for memory refused, sizes no memory can hold
//   S  mixed, for memory checkers
// The generator knows sizes only, so that calls are legal.

static int op_named(const std::string& n) { for (int i = 0; i < NOPS; i++) if (n == OPS[i].name) return i; fprintf(stderr, "harness: no op %s\n", n.c_str()); exit(3); }

static std::vector<Sess> read_script(const std::string& file) { // op s g fail args ; op ...
    std::vector<Sess> r; std::ifstream f(file); std::string line;
    while (std::getline(f, line)) {
        Sess S; std::istringstream is(line); std::string part;
        while (std::getline(is, part, ';')) {
            std::istringstream w(part); std::string op; Call c{};
            if (!(w >> op >> c.s >> c.g >> c.fail)) continue;
            c.op = op_named(op); for (int i = 0; i < OPS[c.op].arity; i++) w >> c.a[i];
            S.calls.push_back(c);
        }
        if (!S.calls.empty()) r.push_back(S);
    }
    return r;
}

struct VecGen {
    Rng g; bool thorough; std::vector<Sess> out;
    Sess cur; bool live[K + 1]; i64 n[K + 1]; int tag[K + 1]; bool unknown[K + 1];
    i64 cap[K + 1];                        // a guess, to aim at
    VecGen(u64 seed, bool t) : g(seed), thorough(t) { begin(); }
    void begin() { cur = Sess(); for (int i = 0; i <= K; i++) { live[i] = unknown[i] = false; n[i] = cap[i] = 0; tag[i] = 0; } }
    void end() { for (int s = 1; s <= K; s++) if (live[s]) add(DESTROY, s); if (!cur.calls.empty()) out.push_back(cur); begin(); }
    int any_tag() { return ALLOC ? 1 + (int)g.below(2) : 0; }
    int dflt_tag() { return ALLOC ? 1 : 0; }

    // a call, and what it does to the sizes
    void add(int op, int s, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0, int gg = -1, int fail = 0) {
        Call x{op, s, {a, b, c, d}, 0, fail};
        if (gg < 0) gg = op == NEW_STR ? dflt_tag() : op <= NEW_NV_HUGE ? any_tag() : 0;
        if (op == NEW_COPY || op == NEW_MOVE) gg = tag[a];
        x.g = gg;
        cur.calls.push_back(x);
        if (fail) { unknown[s] = true; if (op <= NEW_NV_HUGE) { live[s] = true; } return; }
        auto made = [&](i64 k) { live[s] = true; n[s] = k; tag[s] = gg; unknown[s] = false; cap[s] = (k + 63) / 64 * 64; };
        auto grown = [&] { if (n[s] > cap[s]) cap[s] = std::max(2 * cap[s], (n[s] + 63) / 64 * 64); };
        switch (op) {
        case NEW: made(0); break;
        case NEW_N: case NEW_NV: made(a); break;
        case NEW_BITS: case NEW_BOOLS: case NEW_WORDS: case NEW_VALUES: case NEW_BOOLLIST: case NEW_WORDLIST: case NEW_STR: made(b); break;
        case NEW_SLICE: made(c - b); break;
        case NEW_COPY: case NEW_COPY_ALLOC: made(n[a]); break;
        case NEW_MOVE: case NEW_MOVE_ALLOC: { bool open = op == NEW_MOVE_ALLOC && tag[a] != gg; made(n[a]); n[a] = cap[a] = 0; unknown[a] = open; break; }
        case PUSH: case PUSH_REF: case INSERT: n[s]++; grown(); break;
        case POP: case ERASE: n[s]--; break;
        case INSERT_N: n[s] += b; grown(); break;
        case INSERT_R: n[s] += d - c; grown(); break;
        case ERASE_R: n[s] -= b - a; break;
        case RESIZE: case RESIZE_V: n[s] = a; grown(); unknown[s] = false; break;
        case CLEAR: n[s] = 0; unknown[s] = false; break;
        case RESERVE: cap[s] = std::max(cap[s], a); break;
        case SHRINK: cap[s] = (n[s] + 63) / 64 * 64; break;
        case COPY_ASSIGN: n[s] = n[a]; unknown[s] = false; break;
        case MOVE_ASSIGN: n[s] = n[a]; cap[s] = cap[a]; n[a] = cap[a] = 0; unknown[s] = false; unknown[a] = true; break;
        case SWAP: std::swap(n[s], n[a]); std::swap(cap[s], cap[a]); break;
        case DESTROY: live[s] = unknown[s] = false; n[s] = cap[s] = 0; break;
        default: break;
        }
    }
    i64 token() { return g.below(6) == 0 ? -1 - (i64)g.below(2) : (i64)g.below(NTOK); }
    i64 tokens(i64 k) { return g.below(8) == 0 ? -1 - (i64)g.below(2) : (i64)g.below(NTOK - k); }
    i64 list_size() { return g.pick<i64>({0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 70}); }
    i64 size(i64 most) { // near word boundaries, mostly
        switch (g.below(6)) {
        case 0: return (i64)g.below(std::min<i64>(most, 20) + 1);
        case 1: return (i64)g.below(most + 1);
        default: { i64 w = g.pick<i64>({8, 16, 32, 64, 64, 128}); i64 k = (i64)g.below(most / w + 1) * w + g.range(-1, 1); return std::min(most, std::max<i64>(0, k)); }
        }
    }
    i64 pos(int s) { return n[s] == 0 ? 0 : g.pick<i64>({0, n[s] - 1, (i64)g.below(n[s]), (i64)g.below(n[s]), n[s] / 64 * 64 < n[s] ? n[s] / 64 * 64 : 0}); }
    i64 gap(int s) { return g.pick<i64>({0, n[s], (i64)g.below(n[s] + 1), (i64)g.below(n[s] + 1), n[s] / 8 * 8, n[s] / 64 * 64}); }
    // how many to add so that sizes meet words and capacities
    i64 more(int s, i64 most) {
        i64 k;
        switch (g.below(7)) {
        case 0: k = 0; break;
        case 1: k = 1 + (i64)g.below(9); break;
        case 2: k = cap[s] - n[s]; break;
        case 3: k = cap[s] - n[s] + 1; break;
        case 4: { i64 w = g.pick<i64>({8, 16, 32, 64}); k = (w - n[s] % w) + (i64)g.below(3) * w; break; }
        case 5: k = size(most); break;
        default: k = g.pick<i64>({8, 16, 32, 64, 128}) + g.range(-1, 1); break;
        }
        return std::max<i64>(0, std::min(k, most));
    }
    int pick_live() { std::vector<int> v; for (int s = 1; s <= K; s++) if (live[s]) v.push_back(s); return v.empty() ? 0 : g.pick(v); }
    int pick_free() { std::vector<int> v; for (int s = 1; s <= K; s++) if (!live[s]) v.push_back(s); return v.empty() ? 0 : g.pick(v); }
    int other(int s) { std::vector<int> v; for (int t = 1; t <= K; t++) if (t != s && live[t] && !unknown[t]) v.push_back(t); return v.empty() ? 0 : g.pick(v); }

    bool construct(int s, int op, i64 most) {
        int t = other(s);
        switch (op) {
        case NEW: add(op, s); break;
        case NEW_N: add(op, s, size(most)); break;
        case NEW_NV: add(op, s, size(most), token()); break;
        case NEW_BITS: case NEW_BOOLS: case NEW_STR: { i64 k = size(most); add(op, s, tokens(k), k); break; }
        case NEW_WORDS: { i64 k = (i64)g.below(most / 64 + 1) * 64; add(op, s, tokens(k), k); break; }
        case NEW_VALUES: case NEW_BOOLLIST: { i64 k = list_size(); add(op, s, tokens(k), k); break; }
        case NEW_WORDLIST: { i64 k = 64 * g.pick<i64>({0, 1, 2, 3}); add(op, s, tokens(k), k); break; }
        case NEW_SLICE: { if (!t) return false; i64 x = gap(t), y = gap(t); add(op, s, t, std::min(x, y), std::max(x, y)); break; }
        case NEW_COPY: case NEW_COPY_ALLOC: case NEW_MOVE: case NEW_MOVE_ALLOC: if (!t) return false; add(op, s, t); break;
        case NEW_N_HUGE: add(op, s); return true;
        case NEW_NV_HUGE: add(op, s, token()); return true;
        default: return false;
        }
        return true;
    }
    bool step(int s, int op, i64 most) { // a random legal call op on the live slot s
        int t = other(s); i64 m = n[s];
        switch (op) {
        case PUSH: if (m >= most) return false; add(op, s, token()); break;
        case PUSH_REF: if (m >= most || !m) return false; add(op, s, pos(s)); break;
        case POP: if (!m) return false; add(op, s); break;
        case INSERT: if (m >= most) return false; add(op, s, gap(s), token()); break;
        case INSERT_N: add(op, s, gap(s), more(s, std::max<i64>(0, most - m)), token()); break;
        case INSERT_R: { if (!t) return false; i64 x = gap(t), y = gap(t); if (x > y) std::swap(x, y); if (m + y - x > most) y = x + std::max<i64>(0, most - m); if (y > n[t]) return false; add(op, s, gap(s), t, x, y); break; }
        case ERASE: if (!m) return false; add(op, s, pos(s)); break;
        case ERASE_R: { i64 x = gap(s), y = gap(s); add(op, s, std::min(x, y), std::max(x, y)); break; }
        case RESIZE: add(op, s, g.coin() ? size(most) : std::min(most, m + more(s, most))); break;
        case RESIZE_V: add(op, s, g.coin() ? size(most) : std::min(most, m + more(s, most)), token()); break;
        case CLEAR: case SHRINK: add(op, s); break;
        case RESERVE: add(op, s, g.coin() ? size(2 * most) : m + more(s, most)); break;
        case SET: case DATA_SET: if (!m) return false; add(op, s, pos(s), token()); break;
        case AT_SET: add(op, s, g.below(3) ? m ? pos(s) : 0 : m + (i64)g.below(70), token()); break;
        case AT_GET: add(op, s, g.below(3) ? m ? pos(s) : 0 : g.pick<i64>({m, m + 1, m + (i64)g.below(200), TOP, TOP})); break;
        case FRONT_SET: case BACK_SET: if (!m) return false; add(op, s, token()); break;
        case FLIP: if (!m) return false; add(op, s, pos(s)); break;
        case RESERVE_HUGE: add(op, s); break;
        case RESIZE_HUGE: add(op, s, token()); break;
        case INSERT_HUGE: add(op, s, gap(s), token()); break;
        case REVERSE: case FILL: case ROTATE: { i64 p[3] = {gap(s), gap(s), gap(s)}; std::sort(p, p + 3);
            if (op == REVERSE) add(op, s, p[0], p[2]); else if (op == FILL) add(op, s, p[0], p[2], g.below(2)); else add(op, s, p[0], p[1], p[2]); break; }
        case SHIFT_LEFT: case SHIFT_RIGHT: { i64 x = gap(s), y = gap(s); if (x > y) std::swap(x, y); i64 k = g.pick<i64>({0, 1, 8, (i64)g.below(y - x + 3), y - x, TOP});
            add(op, s, x, y, k);
            if (k && k < y - x) { if (op == SHIFT_LEFT) add(FILL, s, y - k, y, g.below(2)); else add(FILL, s, x, x + k, g.below(2)); } // unspecified bits
            break; }
        case COPY: { i64 x = gap(s), y = gap(s); if (x > y) std::swap(x, y); i64 d = g.coin() ? (i64)g.below(x + 1) : y; if (d + y - x > m || (d == x && y > x)) return false; add(op, s, x, y, d); break; }
        case COPY_BACKWARD: { i64 x = gap(s), y = gap(s); if (x > y) std::swap(x, y); i64 e = g.coin() ? m : x; if (e < y - x || !(x == y || e <= x || y < e)) return false; add(op, s, x, y, e); break; }
        case SWAP_RANGES: case NOT: { i64 h = m / 2; if (!h) return false; i64 x = (i64)g.below(h), l = (i64)g.below(h - x + 1), y = h + (i64)g.below(m - h - l + 1); if (g.coin()) add(op, s, x, x + l, y); else add(op, s, y, y + l, x); break; }
        case COPY_ASSIGN: { int u = g.below(8) == 0 ? s : t; if (!u || n[u] > most) return false; add(op, s, u); break; }
        case MOVE_ASSIGN: if (!t) return false; add(op, s, t); break;
        case SWAP: if (!t || tag[s] != tag[t] || n[t] > most) return false; add(op, s, t); break;
        case DESTROY: add(op, s); break;
        case COPY_BITS: { if (!t) return false; i64 x = gap(t), y = gap(t); if (x > y) std::swap(x, y); if (y - x > m) y = x + (i64)g.below(m + 1); add(op, s, t, x, y, (i64)g.below(m - (y - x) + 1)); break; }
        default: return false;
        }
        return true;
    }
    // gives a vector of unknown size a known one
    void settle(int s) {
        switch (g.below(4)) {
        case 0: add(CLEAR, s); break;
        case 1: add(RESIZE, s, size(200)); break;
        case 2: add(DESTROY, s); break;
        default: { int t = other(s); if (t) add(COPY_ASSIGN, s, t); else add(RESIZE_V, s, size(100), token()); }
        }
    }
    struct Weights { int w[NOPS] = {}; int total = 0; void set(std::initializer_list<int> ops, int k) { for (int o : ops) { total += k - w[o]; w[o] = k; } } };
    int choose(const Weights& W) { i64 x = (i64)g.below(W.total); for (int i = 0; i < NOPS; i++) { x -= W.w[i]; if (x < 0) return i; } return PUSH; }
    void history(const Weights& W, int len, i64 most) {
        begin();
        for (int guard = 0; (int)cur.calls.size() < len && guard < 20 * len; guard++) {
            for (int s = 1; s <= K; s++) if (live[s] && unknown[s]) settle(s);
            int op = choose(W);
            if (op <= NEW_NV_HUGE) { int s = pick_free(); if (!s) { if (g.below(3) == 0) add(DESTROY, pick_live()); continue; } construct(s, op, most); }
            else { int s = pick_live(); if (!s || (op == DESTROY && g.below(2))) continue; step(s, op, most); }
        }
        for (int s = 1; s <= K; s++) if (live[s] && unknown[s]) add(DESTROY, s);
        end();
    }
    static const std::vector<i64>& edges() { static const std::vector<i64> e = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192}; return e; }
    // one call at every interesting size and place, on a vector with or without slack and leftovers
    void systematic(int op, int percent) {
        for (i64 m : edges()) for (int prep = 0; prep < 5; prep++) {
            std::vector<std::array<i64, 3>> args;
            std::vector<i64> P = {0, 1, m / 2, m - 1, m, m - 8, m / 64 * 64};
            std::vector<i64> C = {0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 128, 8 - m % 8, 64 - m % 64};
            auto in = [&](i64 p, i64 top) { return p >= 0 && p <= top; };
            switch (op) {
            case PUSH: args = {{0, 0, 0}}; break;
            case POP: case FRONT_SET: case BACK_SET: if (m) args = {{0, 0, 0}}; break;
            case CLEAR: case SHRINK: args = {{0, 0, 0}}; break;
            case INSERT: for (i64 p : P) if (in(p, m)) args.push_back({p, 0, 0}); break;
            case ERASE: case SET: case FLIP: case DATA_SET: case PUSH_REF: for (i64 p : P) if (in(p, m - 1)) args.push_back({p, 0, 0}); break;
            case AT_SET: case AT_GET: for (i64 p : P) if (in(p, m)) args.push_back({p, 0, 0}); args.push_back({m + 1, 0, 0}); args.push_back({(m + 63) / 64 * 64, 0, 0}); args.push_back({m + 4096, 0, 0});
                if (op == AT_GET) for (int i = 0; i < 4; i++) args.push_back({TOP, 0, 0}); break;
            case ERASE_R: for (i64 p : P) for (i64 c : C) if (in(p, m) && in(p + c, m)) args.push_back({p, p + c, 0}); break;
            case INSERT_N: case INSERT_R: for (i64 p : P) for (i64 c : C) if (in(p, m)) args.push_back({p, c, 0}); break;
            case RESIZE: case RESIZE_V: for (i64 c : edges()) args.push_back({c, 0, 0}); break;
            case RESERVE: for (i64 c : C) { args.push_back({c, 0, 0}); args.push_back({m + c, 0, 0}); } break;
            case REVERSE: case ROTATE: case FILL: for (i64 p : P) for (i64 q : P) if (in(p, m) && in(q, m) && p <= q) args.push_back({p, q, 0}); break;
            default: break;
            }
            for (auto& a : args) {
                if ((int)g.below(100) >= percent) continue;
                begin();
                // prep 0: made at this size; 1: shrunk from a larger one; 2: with reserved memory; 3: grown bit by bit; 4: all ones, shrunk
                switch (prep) {
                case 0: add(NEW_BITS, 1, tokens(m), m); break;
                case 1: { i64 k = m + g.pick<i64>({1, 7, 40, 64, 70}); add(NEW_BITS, 1, tokens(k), k); if (g.coin()) add(RESIZE, 1, m); else add(ERASE_R, 1, m, k); break; }
                case 2: add(NEW_BITS, 1, tokens(m), m); add(RESERVE, 1, m + g.pick<i64>({1, 8, 64, 100})); break;
                case 3: { i64 k = std::min<i64>(m, 5); add(NEW_BITS, 1, tokens(m - k), m - k); for (i64 i = 0; i < k; i++) add(PUSH, 1, token()); break; }
                default: { i64 k = m + g.pick<i64>({1, 7, 8, 64}); add(NEW_NV, 1, k, -2); for (i64 i = k; i > m && i > k - 8; i--) add(POP, 1); if (n[1] > m) add(RESIZE, 1, m); break; }
                }
                switch (op) {
                case INSERT: case SET: case AT_SET: case DATA_SET: add(op, 1, a[0], token()); break;
                case INSERT_N: add(op, 1, a[0], a[1], token()); break;
                case INSERT_R: { i64 lead = (i64)g.below(20); add(NEW_BITS, 2, tokens(lead + a[1]), lead + a[1]); add(op, 1, a[0], 2, lead, lead + a[1]); break; }
                case RESIZE_V: add(op, 1, a[0], token()); break;
                case ROTATE: add(op, 1, a[0], a[0] + (i64)g.below(a[1] - a[0] + 1), a[1]); break;
                case FILL: add(op, 1, a[0], a[1], (i64)g.below(2)); break;
                case PUSH: case FRONT_SET: case BACK_SET: add(op, 1, token()); break;
                default: add(op, 1, a[0], a[1]); break;
                }
                // leftovers must not show later
                if (g.coin()) add(PUSH, 1, token());
                if (g.below(3) == 0) add(RESIZE, 1, n[1] + g.pick<i64>({1, 9, 65}));
                if (g.below(4) == 0 && n[1]) { add(ERASE, 1, (i64)g.below(n[1])); add(RESIZE_V, 1, n[1] + 3, token()); }
                end();
            }
        }
    }
    void constructors(int reps) {
        for (int r = 0; r < reps; r++) for (int op = NEW; op <= NEW_MOVE_ALLOC; op++) for (int what = 0; what < 4; what++) {
            begin();
            if (op >= NEW_SLICE) { i64 k = size(300); add(NEW_BITS, 2, tokens(k), k); if (g.coin()) add(RESERVE, 2, k + 70); if (g.coin() && n[2]) { add(POP, 2); } }
            if (!construct(1, op, 300)) continue;
            switch (what) { // still a vector like any other
            case 0: for (int i = 0; i < 3; i++) add(PUSH, 1, token()); break;
            case 1: if (n[1]) add(ERASE, 1, pos(1)); add(RESIZE, 1, n[1] + g.pick<i64>({1, 10, 64, 100})); break;
            case 2: add(INSERT_N, 1, gap(1), g.pick<i64>({1, 9, 64}), token()); add(RESIZE_V, 1, size(200), token()); break;
            default: if (!unknown[2]) { add(NEW_COPY, 3, 1); if (live[2]) { add(PUSH, 2, token()); } if (n[1]) add(SET, 1, pos(1), token()); add(CLEAR, 1); } break;
            }
            if (live[2] && unknown[2]) { settle(2); if (live[2] && unknown[2]) add(DESTROY, 2); }
            end();
        }
    }
    // the k-th request for memory of one call is refused
    void failures(int reps) {
        static const int OPSF[] = {NEW_N, NEW_NV, NEW_BITS, NEW_BOOLS, NEW_WORDS, NEW_VALUES, NEW_BOOLLIST, NEW_WORDLIST, NEW_STR, NEW_SLICE, NEW_COPY, NEW_COPY_ALLOC,
            PUSH, PUSH_REF, INSERT, INSERT_N, INSERT_R, RESIZE, RESIZE_V, RESERVE, SHRINK, COPY_ASSIGN, NEW, CLEAR, POP, ERASE, ERASE_R, SET, SWAP, MOVE_ASSIGN, NEW_MOVE, NEW_MOVE_ALLOC};
        for (int r = 0; r < reps; r++) for (int op : OPSF) {
            begin();
            i64 k = size(200); add(NEW_BITS, 1, tokens(k), k);
            if (g.coin()) { i64 j = size(300); add(NEW_BITS, 2, tokens(j), j); }
            if (g.below(3) == 0) add(RESERVE, 1, k + g.pick<i64>({1, 8, 64}));
            if (g.below(3) == 0) add(SHRINK, 1);
            if (g.coin() && n[1]) add(g.coin() ? POP : CLEAR, 1);
            size_t at = cur.calls.size(); int s = op <= NEW_NV_HUGE ? 3 : 1;
            i64 n1 = n[1], n2 = n[2]; (void)n1; (void)n2;
            if (!(op <= NEW_NV_HUGE ? construct(3, op, 300) : step(1, op, 500)) || cur.calls.size() != at + 1) continue;
            cur.calls[at].fail = g.pick({1, 1, 1, 2, 3, -1, -1});
            // sizes are now known to the library only: use calls that are legal whatever they are
            bool swapped = op == SWAP || op == MOVE_ASSIGN;
            if (op <= NEW_NV_HUGE) { // the slot may or may not hold a vector: end here, with the others still in use
                add(PUSH, 1, token()); if (live[2]) add(RESIZE, 2, 70);
                cur.calls.resize(cur.calls.size()); out.push_back(cur); begin(); continue;
            }
            (void)s;
            if (!swapped) {
                switch (g.below(4)) { case 0: add(PUSH, 1, token()); break; case 1: add(INSERT_N, 1, 0, 5, token()); break; case 2: add(AT_GET, 1, 5); break; default: break; }
                add(RESIZE_V, 1, size(300), token()); if (n[1]) add(POP, 1);
            }
            for (int q = 1; q <= K; q++) if (live[q] && unknown[q]) add(DESTROY, q);
            end();
        }
    }
    void hugeness(int reps) {
        for (int r = 0; r < reps; r++) for (int op : {NEW_N_HUGE, NEW_NV_HUGE, RESERVE_HUGE, RESIZE_HUGE, INSERT_HUGE}) {
            begin(); i64 k = size(200); add(NEW_BITS, 1, tokens(k), k);
            if (op <= NEW_NV_HUGE) construct(2, op, 0); else step(1, op, 0);
            add(PUSH, 1, token()); add(INSERT_N, 1, gap(1), 9, token()); end();
        }
    }
    // thousands of bits, several reallocations
    void long_history(int len) {
        begin(); add(NEW, 1);
        for (int i = 0; i < len; i++) {
            switch (g.below(9)) {
            case 0: case 1: { i64 k = g.range(1, 700); if (n[1] + k > 12000) { add(ERASE_R, 1, 5, n[1] - 5); break; } if (live[2]) add(DESTROY, 2); add(NEW_BITS, 2, tokens(k), k); add(INSERT_R, 1, gap(1), 2, 0, k); break; }
            case 2: if (n[1] < 12000) add(INSERT_N, 1, gap(1), g.range(1, 3000), token()); break;
            case 3: { i64 x = gap(1), y = std::min(n[1], x + (i64)g.below(500)); add(ERASE_R, 1, x, y); break; }
            case 4: if (n[1]) add(ERASE, 1, pos(1)); break;
            case 5: add(INSERT, 1, gap(1), token()); break;
            case 6: add(RESIZE_V, 1, std::min<i64>(12000, n[1] + g.range(0, 900)), token()); break;
            case 7: step(1, g.pick({ROTATE, REVERSE, COPY_ASSIGN, SHRINK, RESERVE}), 12000); break;
            default: for (int k = 0; k < 3; k++) add(PUSH, 1, token());
            }
        }
        end();
    }
};

static std::vector<Sess> generate(u64 seed, bool thorough, const std::string& profile) {
    VecGen G(seed * 131 + profile[0] * 7 + ALLOC, thorough);
    const int k = thorough ? 8 : 1;
    VecGen::Weights W;
    const std::initializer_list<int> ctor = {NEW, NEW_N, NEW_NV, NEW_BITS, NEW_BOOLS, NEW_WORDS, NEW_VALUES, NEW_BOOLLIST, NEW_WORDLIST, NEW_STR, NEW_SLICE, NEW_COPY, NEW_COPY_ALLOC, NEW_MOVE, NEW_MOVE_ALLOC};
    const std::initializer_list<int> grow = {PUSH, PUSH_REF, INSERT, INSERT_N, INSERT_R, RESIZE, RESIZE_V};
    const std::initializer_list<int> shrink = {POP, ERASE, ERASE_R, CLEAR};
    const std::initializer_list<int> algo = {REVERSE, ROTATE, FILL, SHIFT_LEFT, SHIFT_RIGHT, COPY, COPY_BACKWARD, SWAP_RANGES, NOT, COPY_BITS};
    const std::initializer_list<int> elem = {SET, AT_SET, AT_GET, DATA_SET, FRONT_SET, BACK_SET, FLIP};
    const std::initializer_list<int> whole = {COPY_ASSIGN, MOVE_ASSIGN, SWAP, DESTROY};
    auto runs = [&](int count, int len) {
        for (int i = 0; i < count; i++) G.history(W, len, G.g.pick<i64>({40, 140, 140, 300, 700}));
    };
    auto all = [&](std::initializer_list<int> ops, int percent) { for (int op : ops) G.systematic(op, std::min(100, percent * (thorough ? 4 : 1))); };
    switch (profile[0]) {
    case 'H':
        W.set(ctor, 2); W.set(grow, 10); W.set(shrink, 6); W.set(algo, 3); W.set(elem, 3); W.set(whole, 3); W.set({RESERVE, SHRINK}, 3);
        runs(300 * k, 30);
        all({PUSH, POP, INSERT, INSERT_N, INSERT_R, ERASE, ERASE_R, CLEAR, PUSH_REF, REVERSE, ROTATE, FILL}, 25);
        for (int i = 0; i < 12 * k; i++) G.long_history(40);
        break;
    case 'G':
        W.set({NEW, NEW_N, NEW_NV, NEW_BITS, NEW_STR, NEW_BOOLS}, 1); W.set(grow, 6); W.set({RESIZE, RESIZE_V}, 20); W.set(shrink, 10); W.set({RESERVE, SHRINK}, 4); W.set({DESTROY}, 1);
        runs(250 * k, 25);
        all({RESIZE, RESIZE_V}, 60); all({INSERT_N, PUSH, INSERT}, 20);
        for (int i = 0; i < 6 * k; i++) G.long_history(30);
        break;
    case 'N':
        G.constructors(14 * k);
        break;
    case 'K':
        W.set({NEW, NEW_BITS, NEW_COPY, NEW_NV}, 1); W.set(grow, 6); W.set({PUSH, INSERT}, 16); W.set(shrink, 4); W.set({RESERVE, SHRINK}, 14); W.set(elem, 1); W.set({SWAP, MOVE_ASSIGN, COPY_ASSIGN, DESTROY}, 2);
        runs(250 * k, 30);
        all({RESERVE, SHRINK, PUSH, INSERT, POP, ERASE, RESIZE, CLEAR}, 40);
        for (int i = 0; i < 3 * k; i++) { G.begin(); G.add(NEW, 1); for (int j = 0; j < 400; j++) G.add(PUSH, 1, G.token()); G.end(); }
        break;
    case 'M':
        W.set(ctor, 1); W.set({NEW_COPY, NEW_COPY_ALLOC, NEW_MOVE, NEW_MOVE_ALLOC, NEW_SLICE}, 10); W.set(whole, 14); W.set(grow, 3); W.set(shrink, 2); W.set(elem, 3); W.set({RESERVE, SHRINK, COPY_BITS}, 2);
        runs(600 * k, 25);
        break;
    case 'E':
        W.set({NEW_BITS, NEW_NV, NEW_STR, NEW_COPY}, 2); W.set(elem, 14); W.set({PUSH, POP, RESIZE, ERASE, INSERT, CLEAR, PUSH_REF}, 3); W.set({DESTROY}, 1);
        runs(300 * k, 30);
        all({SET, AT_SET, AT_GET, DATA_SET, FRONT_SET, BACK_SET, FLIP, PUSH_REF}, 40);
        break;
    case 'F':
        G.failures(40 * k); G.hugeness(30 * k);
        break;
    case 'S':
        W.set(ctor, 2); W.set(grow, 10); W.set(shrink, 8); W.set(algo, 3); W.set(elem, 2); W.set(whole, 4); W.set({RESERVE, SHRINK}, 4);
        runs(160 * k, 30); G.constructors(3 * k);
        all({PUSH, POP, INSERT, INSERT_N, INSERT_R, ERASE, ERASE_R, RESIZE, RESIZE_V}, 8);
        for (int i = 0; i < 4 * k; i++) G.long_history(30);
        break;
    default: fprintf(stderr, "harness: profile\n"); exit(3);
    }
    return G.out;
}
