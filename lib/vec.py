"""Checks of bit_vector: spec/BitVec.tla against harness/vec.cpp."""
import json, os, random
from vlib import *


def falsify(evs, rnd):
    """The history up to some event, which is changed for the worse and marked."""
    k = rnd.randrange(len(evs))
    e = json.loads(evs[k])
    if e["x"] or e["f"] or e["o"].startswith("shift"):
        return None
    q = e["v"][e["s"] - 1]
    how = rnd.randrange(5)
    if how == 0 and e["r"] >= 0:
        e["r"] += 1
    elif how == 1:
        e["x"] = "memory fault"
    elif how == 2 and q["c"]:                 # loses or gains a bit
        if q["c"][-1][0] > 1:
            q["c"][-1][0] -= 1
        else:
            q["c"].pop()
    elif how == 3 and q["c"]:                 # another value of a bit
        i = rnd.randrange(len(q["c"]))
        l, kd, s, st = q["c"][i]
        new = [[1, {0: 1, 1: 0, 2: 3, 3: 2, 4: 2}[kd], s if kd < 2 else 0, 1 if kd < 2 else 0]]
        if l > 1:
            new.append([l - 1, kd, s + st if kd < 2 else 0, st])
        q["c"][i:i + 1] = new
    elif how == 4 and q["l"] and q["b"]:      # a block too small, or somebody else's
        others = [w["b"] for w in e["v"] if w is not q and w["b"]]
        if others:
            q["b"] = others[0]
        else:
            q["z"] = q["k"] - 1
    else:
        return None
    e["falsified"] = 1
    return list(evs[:k]) + [json.dumps(e, separators=(",", ":"))]


def negative_control(rep, work, sessions):
    rnd = random.Random(rep.seed)
    bad = [b for b in (falsify(rnd.choice(sessions), rnd) for _ in range(400)) if b][:150]
    events = [e for b in bad for e in b]
    r = validate(work, "BitVecTrace", "BitVecTrace.cfg", events).rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % events[r[0] - 1][:600])
    rep.add(falsified_recordings_rejected=len(bad))


# ---- the word-level design against the specification: spec/MCBitVec.tla

def mc_vec(slots, bits, d, tags, ops, flaw="none"):
    return ("SPECIFICATION Spec\nCONSTANTS\n D = %d\n Slots = %d\n MaxBits = %d\n Tags = {%s}\n Flaw = \"%s\"\n OpSet = {%s}\n"
            "INVARIANTS Refines WordsFit\nCHECK_DEADLOCK FALSE\n"
            % (d, slots, bits, ", ".join(map(str, tags)), flaw, ", ".join('"%s"' % o for o in ops.split())))


ONE = ("new new_n new_nv new_bits push pop insert insert_n erase erase_r resize resize_v clear reserve shrink set at_set flip push_ref "
       "destroy rotate")
GROW = "new_bits new_nv push push_ref pop insert insert_n erase erase_r resize resize_v clear shrink reserve"
TWO = "new_bits new_slice new_copy new_copy_alloc new_move new_move_alloc copy_assign move_assign swap destroy push pop clear insert_r copy_bits shrink"
MADE = "new new_n new_nv new_bits new_slice new_copy new_copy_alloc new_move new_move_alloc push pop destroy"
CAPA = "new_n new_bits push pop insert insert_n erase_r resize reserve shrink clear destroy"
ELEM = "new_bits set at_set flip push pop resize reserve"
FAIL = "new_n new_bits new_copy push insert insert_n insert_r resize_v reserve shrink copy_assign move_assign destroy"

# what to explore: (slots, bits, word size, allocators, calls, flaws to notice), in the quick and the thorough tier
MODELS = {
    "H": [(1, 5, 2, [0], ONE, ["late", "floor"])], "G": [(1, 5, 2, [0], GROW, ["leftover", "floor"])],
    "N": [(2, 2, 2, [1, 2], MADE, ["share", "moved"])], "K": [(1, 5, 2, [0], CAPA, ["floor", "late"])],
    "M": [(2, 2, 2, [1, 2], TWO, ["share", "moved"])], "E": [(1, 5, 2, [0], ELEM, ["at"])],
    "F": [(2, 2, 2, [1, 2], FAIL, ["late"])], "S": [(2, 2, 2, [0], TWO, ["share", "early"])],
}
DEEPER = {
    "H": [(1, 7, 3, [0], ONE, []), (1, 6, 2, [0], ONE, [])], "G": [(1, 7, 3, [0], GROW, [])], "N": [(2, 4, 2, [1, 2], MADE, [])],
    "K": [(1, 8, 3, [0], CAPA, [])], "M": [(2, 3, 2, [1, 2], TWO, [])], "E": [(1, 7, 3, [0], ELEM, [])],
    "F": [(2, 4, 2, [1], FAIL, [])], "S": [(2, 3, 2, [0], TWO, [])],
}


def models(rep, work, profile):
    for slots, bits, d, tags, ops, flaws in MODELS[profile] + (DEEPER[profile] if rep.tier == "thorough" else []):
        t = model_check(work, "MCBitVec", mc_vec(slots, bits, d, tags, ops), workers=4)
        rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct, model_transitions=t.generated)
        for f in flaws:
            t = Tlc(work, "MCBitVec", cfg_text=mc_vec(slots, max(bits, 3), d, tags, ops, f), workers=4)
            if "Invariant Refines is violated" not in t.out:
                raise Machinery("TLC does not notice the flaw %r of the design: %s" % (f, t.out[-1500:]))
            rep.add(flawed_designs_rejected=1)


# ---- histories from the specification: spec/GenBitVec.tla

G1 = "new new_n new_bits push push_ref pop insert erase insert_n erase_r resize resize_v reserve shrink clear rotate reverse"
G2 = "new_bits new_copy new_move new_slice copy_assign move_assign swap insert_r copy_bits destroy push pop"
# (slots, words, calls), how many histories in the quick tier
SCRIPTS = {"H": [(1, 3, G1, 3500)], "G": [(1, 3, "new_bits push pop insert insert_n erase erase_r resize resize_v clear reserve", 4000)],
           "K": [(1, 3, "new_bits push pop insert insert_n erase_r resize reserve shrink clear", 3000)],
           "M": [(2, 2, G2, 4000)], "S": [(1, 2, G1, 1500), (2, 2, G2, 1500)]}


def to_sizes(hist, W, rnd):
    """A history over classes of sizes as calls on vectors with words of W bits."""
    R = lambda c: c // 3 * W + (0, 1, W - 1)[c % 3]
    n, out = {}, []
    tok = lambda: rnd.choice([-1, -2]) if rnd.randrange(5) == 0 else rnd.randrange(4096)
    toks = lambda k: rnd.choice([-1, -2]) if rnd.randrange(8) == 0 else rnd.randrange(4096 - k)
    add = lambda o, s, *a: out.append("%s %d 0 0 %s" % (o, s, " ".join(map(str, a))))
    cl = {}  # classes
    for o, s, a in hist:
        c = cl.get(s, 0)
        if o == "new":
            add(o, s); cl[s] = 0
        elif o == "new_n":
            add(o, s, R(a[0])); cl[s] = a[0]
        elif o == "new_bits":
            add(o, s, toks(R(a[0])), R(a[0])); cl[s] = a[0]
        elif o in ("new_copy", "copy_assign"):
            add(o, s, a[0]); cl[s] = cl[a[0]]
        elif o == "new_move":
            add(o, s, a[0]); cl[s] = cl[a[0]]; cl[a[0]] = 0
        elif o == "move_assign":
            add(o, s, a[0]); add("clear", a[0]); cl[s] = cl[a[0]]; cl[a[0]] = 0
        elif o == "swap":
            add(o, s, a[0]); cl[s], cl[a[0]] = cl[a[0]], c
        elif o in ("new_slice", "copy_bits"):
            k = R(a[2] - a[1]); f = min(R(a[1]), R(cl[a[0]]) - k)
            if o == "new_slice":
                add(o, s, a[0], f, f + k); cl[s] = a[2] - a[1]
            else:
                add(o, s, a[0], f, f + k, min(R(a[3]), R(c) - k))
        elif o in ("push", "push_ref", "insert"):
            for i in range(R(c + 1) - R(c)):
                if o == "push": add(o, s, tok())
                elif o == "push_ref": add(o, s, R(a[0]))
                else: add(o, s, R(a[0]), tok())
            cl[s] = c + 1
        elif o in ("pop", "erase"):
            for i in range(R(c) - R(c - 1)):
                if o == "pop": add(o, s)
                else: add(o, s, min(R(a[0]), R(c) - i - 1))
            cl[s] = c - 1
        elif o == "insert_n":
            add(o, s, R(a[0]), R(a[1]) - R(c), tok()); cl[s] = a[1]
        elif o == "insert_r":
            k = R(a[2]) - R(c)
            if k > R(cl[a[1]]):
                return None
            f = rnd.randrange(R(cl[a[1]]) - k + 1)
            add(o, s, R(a[0]), a[1], f, f + k); cl[s] = a[2]
        elif o == "erase_r":
            k = R(c) - R(c - (a[1] - a[0])); f = min(R(a[0]), R(c) - k)
            add(o, s, f, f + k); cl[s] = c - (a[1] - a[0])
        elif o in ("resize", "resize_v"):
            add(o, s, R(a[0]), *([tok()] if o == "resize_v" else [])); cl[s] = a[0]
        elif o == "reserve":
            add(o, s, R(a[0]))
        elif o == "clear":
            add(o, s); cl[s] = 0
        elif o == "destroy":
            add(o, s); cl.pop(s)
        elif o in ("rotate", "reverse"):
            add(o, s, *map(R, a))
        else:
            add(o, s)
    # what is left over in the words must not show up later
    for s in sorted(cl):
        how = rnd.randrange(4)
        if how == 0: add("push", s, tok()); add("push", s, tok())
        elif how == 1: add("resize", s, R(cl[s]) + W + 1)
        elif how == 2: add("resize_v", s, R(cl[s]) + 3, tok())
        add("destroy", s)
    return " ; ".join(out)


def script(rep, work, profile):
    rnd = random.Random(rep.seed * 17 + ord(profile[0]))
    lines = []
    for slots, words, ops, quick in SCRIPTS[profile]:
        t = model_check(work, "GenBitVec", "SPECIFICATION Spec\nCONSTANTS\n Slots = %d\n MaxWords = %d\n OpSet = {%s}\nINVARIANT Sane\nCONSTRAINT Bounded\n"
                        "VIEW View\nCHECK_DEADLOCK FALSE\n" % (slots, words, ", ".join('"%s"' % o for o in ops.split())), workers=1)
        hs = t.printed("HISTORY")
        if len(hs) < 1000:
            raise Machinery("GenBitVec printed %d histories" % len(hs))
        rep.add(states=t.distinct, transitions=t.generated)
        if rep.tier == "thorough":
            todo = [(h, W) for h in hs for W in (8, 16, 32, 64)]
        else:
            todo = [(h, rnd.choice((8, 16, 32, 64))) for h in rnd.sample(hs, min(quick, len(hs)))]
        new = [l for l in (to_sizes(h, W, rnd) for h, W in todo) if l]
        rep.add(histories_from_specification=len(new))
        lines += new
    path = os.path.join(work, "script-" + profile)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return path


def vec_check(profile, configs, alloc_configs=()):
    def check(rep, work):
        tcs = []
        if usable(configs):
            tcs.append(TraceCheck(rep, work, "vec.cpp", ["-DALLOC=0"], configs, "BitVecTrace", args=["--profile", profile]))
        if usable(alloc_configs):
            tcs.append(TraceCheck(rep, work, "vec.cpp", ["-DALLOC=1"], alloc_configs, "BitVecTrace", args=["--profile", profile], tag="a"))
        rep.assumptions += [
            "calls satisfy the preconditions of the std::vector member of the same name",
            "configurations: " + "; ".join(CONFIGS[c][3] for c in configs)
            + ("; with stateful allocators: " + "; ".join(CONFIGS[c][3] for c in alloc_configs) if alloc_configs else "")]

        def from_spec():
            return script(rep, work, profile) if profile in SCRIPTS else None
        res = parallel([t.build for t in tcs] + [from_spec, lambda: models(rep, work, profile)])
        if not all(res[:len(tcs)]):
            return
        rep.phase("models and histories ready")
        if res[len(tcs)]:   # the histories of the specification, in the builds that exist
            s = TraceCheck(rep, work, "vec.cpp", ["-DALLOC=0"], tcs[0].configs[:1] if rep.tier == "quick" else tcs[0].configs, "BitVecTrace",
                           args=["--script", res[len(tcs)]], tag="s")
            s.exes = tcs[0].exes
            tcs.append(s)
        for t in tcs:
            t.run()
        if not rep.violations:
            for t in tcs:
                negative_control(rep, work, t.kept)
    return check
