"""Checks that calls do nothing undefined: the harnesses of the other checks in builds that trap what the language leaves undefined
(and iterators that do not leave their words), what they record against the same specifications; the walks of spec/MCBitWalk.tla."""
import random
from vlib import *
from alg import OWN, STD, mask
import alg, cur, instr, single, text, vec


def mc(d, bits, flaw="none"):
    return ("SPECIFICATION Spec\nCONSTANTS\n D = %d\n MaxBits = %d\n Flaw = \"%s\"\nINVARIANTS FormedStay FollowedAre Done\n%sCHECK_DEADLOCK FALSE\n"
            % (d, bits, flaw, "PROPERTY Ends\n" if flaw == "none" else ""))


def models(rep, work):
    for d, bits in [(4, 18), (3, 14)] + ([(8, 60), (5, 40)] if rep.tier == "thorough" else []):
        t = model_check(work, "MCBitWalk", mc(d, bits), workers=2)
        rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct, model_transitions=t.generated)
    for flaw in ("end_followed", "before_first", "held_below"):
        t = Tlc(work, "MCBitWalk", cfg_text=mc(3, 10, flaw), workers=2)
        if not re.search("Invariant (FormedStay|FollowedAre) is violated", t.out):
            raise Machinery("TLC does not notice the flaw %r of the design: %s" % (flaw, t.out[-1500:]))
        rep.add(flawed_designs_rejected=1)


def ub_check(plain, simd):
    def check(rep, work):
        strict = ["-DKIND0=5", "-DKIND1=5"]

        def algs(configs, ops, std, profile, tag):
            return TraceCheck(rep, work, "alg.cpp", ["-DGROUP=" + mask(ops), "-DSTDOPS=" + mask(std), "-DPROFILE=%d" % profile] + strict, configs,
                              "BitMemTrace", tag=tag)

        def vecs(profile, alloc, tag):
            return TraceCheck(rep, work, "vec.cpp", ["-DALLOC=%d" % alloc, "-D_GLIBCXX_DEBUG"], plain, "BitVecTrace", args=["--profile", profile], tag=tag)
        deep = rep.tier == "thorough"
        tcs = [algs(plain + simd, OWN, [], 0, "0"), algs(plain, OWN, STD, 2, "2"), algs(simd, OWN, [], 3, "3"),
               vecs("H", 0, "H"),
               TraceCheck(rep, work, "cur.cpp", [], plain, "BitCursorTrace", args=["--kinds", "012345"]),
               TraceCheck(rep, work, "bits.cpp", [], plain, "BitScalarTrace"),
               TraceCheck(rep, work, "text.cpp", [], plain, "BitTextTrace"),
               TraceCheck(rep, work, "instr.cpp", [], plain, "BitInstrTrace"),
               TraceCheck(rep, work, "window.cpp", [], plain, "BitWindowTrace")]
        if deep:
            tcs += [algs(plain + simd, OWN, [], 1, "1"), vecs("M", 1, "M"), vecs("S", 0, "S"), vecs("G", 0, "G"), vecs("E", 0, "E"), vecs("N", 1, "N")]
        rep.assumptions += [
            "calls satisfy their preconditions", "unaligned loads, which the x86 machines allow, are not counted (the bundled libpopcnt makes them)",
            "configurations: " + "; ".join(CONFIGS[c][3] for c in usable(plain + simd))]
        done = parallel([t.build for t in tcs] + [lambda: models(rep, work)])
        if not all(done[:len(tcs)]):
            return
        for t in tcs:
            t.run()
            if rep.violations:
                return
        alg.negative_control(rep, work, [evs[0] for evs in tcs[0].kept])
        vec.negative_control(rep, work, tcs[3].kept)
        instr.negative_control(rep, work, tcs[7].kept)
    return check
