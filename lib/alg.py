"""Checks of the bit algorithms: spec/BitOps.tla against harness/alg.cpp."""
import json, os, random
from vlib import *

OPS = """COPY MOVE COPYB FILL SHL SHR ROT REV SWAPR EQUAL FIND COUNT SORT U_NOT U_ID U_ZEROS U_ONES B_AND B_OR B_XOR
 B_ANDNOT B_NAND B_NOR B_XNOR B_ORNOT B_FIRST B_SECOND REVC ROTC BSET BFLIP BCOPY BSWAP BAND BOR BXOR BGET""".split()
NAMES = """copy move copy_backward fill shift_left shift_right rotate reverse swap_ranges equal find count sort not id zeros ones
 and or xor andnot nand nor xnor ornot first second reverse_copy rotate_copy bit_set bit_flip bit_copy bit_swap bit_and bit_or
 bit_xor bit_get""".split()
KINDS = {"scalar": (0, 1), "hwy": (2, 3), "avx2": (4, 0), "clang": (1, 2), "native": (0, 3), "asan": (0, 3), "o0": (2, 4)}
UN = ["U_NOT", "U_ID", "U_ZEROS", "U_ONES"]
BI = [o for o in OPS if o.startswith("B_")]
OWN = [o for o in OPS if o not in ("SORT", "REVC", "ROTC")]
STD = ["COPY", "MOVE", "COPYB", "FILL", "ROT", "REV", "SWAPR", "EQUAL", "FIND", "COUNT", "SORT", "U_NOT",
       "B_AND", "B_OR", "B_XOR", "REVC", "ROTC"]
BITS = ["BSET", "BFLIP", "BCOPY", "BSWAP", "BAND", "BOR", "BXOR", "BGET"]
FOUR = ["scalar", "hwy", "avx2", "clang"]


def mask(ops):
    return "(%dull)" % sum(1 << OPS.index(o) for o in ops)


def mc_cfg(ops, size):
    return ("SPECIFICATION Spec\nCONSTANTS\n  Size = %d\n  OpSet = {%s}\nINVARIANTS Agree Discerns Canonical\nCHECK_DEADLOCK FALSE\n"
            % (size, ", ".join('"%s"' % NAMES[OPS.index(o)] for o in ops)))


def corrupt(e, rnd):
    """The event with one thing about the outcome changed for the worse."""
    e = json.loads(e)
    if e["x"]:
        return None
    how = rnd.randrange(3)
    if how == 0 and isinstance(e["r"], int):
        e["r"] += rnd.choice([-1, 1])
    elif how == 1:
        e["x"] = "memory fault"
    else:  # another value for a bit outside what a shift may vacate
        n = e["n"]
        a = e["a"]
        while True:
            i = rnd.randrange(n)
            if not (e["o"].startswith("shift") and a[0] <= i < a[1]):
                break
        out, at = [], 0
        for l, k, s, st in e["p"]:
            if at <= i < at + l:
                d = i - at
                adv = lambda q: s + st * q
                out += [[d, k, s, st]] if d else []
                out += [[1, {0: 1, 1: 0, 2: 3, 3: 2, 4: 2}[k], adv(d) if k < 2 else 0, 1 if k < 2 else 0]]
                out += [[l - d - 1, k, adv(d + 1) if k < 2 else s, st]] if l - d - 1 else []
            else:
                out.append([l, k, s, st])
            at += l
        e["p"] = out
    return json.dumps(e, separators=(",", ":"))


def negative_control(rep, work, events, module="BitMemTrace"):
    rnd = random.Random(rep.seed)
    bad = [c for c in (corrupt(e, rnd) for e in (rnd.choice(events) for _ in range(150))) if c]
    t = validate(work, module, module + ".cfg", bad, env={"EXPECT": "reject"})
    r = t.rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % bad[r[0] - 1][:500])
    rep.add(falsified_recordings_rejected=len(bad))


def alg_check(ops, std=(), profile=0, configs=FOUR, mc_ops=None, mc_size=4):
    def check(rep, work):
        mc_ops_ = mc_ops if mc_ops is not None else sorted(set(ops) | set(std), key=OPS.index)
        size = mc_size + (1 if rep.tier == "thorough" else 0)
        defs = ["-DGROUP=" + mask(ops), "-DSTDOPS=" + mask(std), "-DPROFILE=%d" % profile]
        tc = TraceCheck(rep, work, "alg.cpp", defs, configs, "BitMemTrace",
                        cfg_defs={c: ["-DKIND0=%d" % KINDS[c][0], "-DKIND1=%d" % KINDS[c][1]] for c in configs})
        rep.assumptions += [
            "words are stored contiguously (pointers and vector iterators), as the README's containers provide",
            "calls satisfy the preconditions of the std:: algorithm of the same name",
            "configurations: " + "; ".join(CONFIGS[c][3] for c in tc.configs)]

        def mc():
            if not mc_ops_:
                return
            t = model_check(work, "MCBitOps", mc_cfg(mc_ops_, size), workers=4)
            rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct)
        ok, _ = parallel([tc.build, mc])
        if not ok:
            return
        tc.run()
        if not rep.violations:
            negative_control(rep, work, [evs[0] for evs in tc.kept])
    return check
