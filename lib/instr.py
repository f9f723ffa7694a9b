"""Checks of the word instructions: spec/BitInstr.tla against harness/instr.cpp."""
import json, random
from vlib import *

LOOPS = "popcnt lzcnt tzcnt bextr pdep pext byteswap bitswap".split()
MASKS = "blend_mask blend exch_mask exch exch2 shld shrd".split()
SUMS = "addcarry subborrow mulx".split()
FLAWS = [("unshifted", "lzcnt"), ("extract", "pext"), ("half", "bitswap"), ("width", "blend"), ("place", "exch2"), ("zero", "shld"), ("zero", "shrd"),
         ("carry", "addcarry"), ("borrow", "subborrow"), ("middle", "mulx")]


def mc(lb, nl, ops, flaw="none"):
    return ("SPECIFICATION Spec\nCONSTANTS\n LB = %d\n NL = %d\n OpSet = {%s}\n Flaw = \"%s\"\nINVARIANTS Refines Meaning\n%sCHECK_DEADLOCK FALSE\n"
            % (lb, nl, ", ".join('"%s"' % o for o in ops), flaw, "PROPERTY Ends\n" if flaw == "none" else ""))


def models(rep, work):
    todo = [(2, 2, LOOPS + MASKS + SUMS)]
    if rep.tier == "thorough":
        todo += [(2, 4, LOOPS + ["blend_mask"] + SUMS), (3, 2, LOOPS + ["addcarry", "subborrow", "mulx", "blend_mask"])]
    for lb, nl, ops in todo:
        t = model_check(work, "MCBitInstr", mc(lb, nl, ops), workers=4)
        rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct, model_transitions=t.generated)
    for flaw, op in FLAWS:
        t = Tlc(work, "MCBitInstr", cfg_text=mc(2, 2, [op], flaw), workers=2)
        if "Invariant Refines is violated" not in t.out:
            raise Machinery("TLC does not notice the flaw %r of the design: %s" % (flaw, t.out[-1500:]))
        rep.add(flawed_designs_rejected=1)


def falsify(event, rnd):
    e = json.loads(event)
    how = rnd.randrange(3)
    if how == 0 and e["w"]:
        w = rnd.choice(e["w"])
        w[rnd.randrange(len(w))] ^= 1 << rnd.randrange(8)
    elif how == 1 and e["k"] >= 0:
        e["k"] += rnd.choice([-1, 1])
    elif how == 2:
        e["x"] = "illegal instruction"
    else:
        return None
    e["falsified"] = 1
    return json.dumps(e, separators=(",", ":"))


def negative_control(rep, work, sessions):
    rnd = random.Random(rep.seed)
    bad = [b for b in (falsify(rnd.choice(rnd.choice(sessions)), rnd) for _ in range(400)) if b]
    r = validate(work, "BitInstrTrace", "BitInstrTrace.cfg", bad).rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % r[1][:600])
    rep.add(falsified_recordings_rejected=len(bad))


def instr_check(configs):
    def check(rep, work):
        tc = TraceCheck(rep, work, "instr.cpp", [], configs, "BitInstrTrace")
        rep.assumptions += ["fields of an exchange lie within the word", "carries are 0 or 1", "configurations: " + "; ".join(CONFIGS[c][3] for c in tc.configs)]
        ok, _ = parallel([tc.build, lambda: models(rep, work)])
        if not ok:
            return
        tc.run()
        if not rep.violations:
            negative_control(rep, work, tc.kept)
    return check
