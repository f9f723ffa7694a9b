"""Checks of references to single bits and of bit values: spec/BitScalar.tla against harness/bits.cpp."""
import json, random
from vlib import *


def mc(d, flaw="none"):
    return "SPECIFICATION Spec\nCONSTANTS\n D = %d\n Flaw = \"%s\"\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\n" % (d, flaw)


def models(rep, work):
    t = model_check(work, "MCBitScalar", mc(3 if rep.tier == "thorough" else 2), workers=4)
    rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct, model_transitions=t.generated)
    for flaw in ("lowmask", "xor_swap"):
        t = Tlc(work, "MCBitScalar", cfg_text=mc(2, flaw), workers=4)
        if "Invariant Refines is violated" not in t.out:
            raise Machinery("TLC does not notice the flaw %r of the design: %s" % (flaw, t.out[-1500:]))
        rep.add(flawed_designs_rejected=1)


def falsify(evs, rnd):
    """The history up to some event, which is changed for the worse and marked."""
    if len(evs) < 2:
        return None
    k = rnd.randrange(1, len(evs))
    e = json.loads(evs[k])
    if e["x"]:
        return None
    how = rnd.randrange(5)
    if how == 0 and e["r"]:
        i = rnd.randrange(len(e["r"]))
        e["r"][i] ^= 1
    elif how == 1:
        e["m"][rnd.randrange(len(e["m"]))] ^= 1 << rnd.randrange(16)
    elif how == 2:
        e["u"][rnd.randrange(len(e["u"]))] ^= 1
    elif how == 3 and any(i >= 0 for i in e["f"]):
        i = rnd.choice([i for i, x in enumerate(e["f"]) if x >= 0])
        e["f"][i] ^= 1
    elif how == 4:
        e["x"] = "memory fault"
    else:
        return None
    e["falsified"] = 1
    return list(evs[:k]) + [json.dumps(e, separators=(",", ":"))]


def negative_control(rep, work, sessions):
    rnd = random.Random(rep.seed)
    bad = [b for b in (falsify(rnd.choice(sessions), rnd) for _ in range(400)) if b][:200]
    r = validate(work, "BitScalarTrace", "BitScalarTrace.cfg", [e for b in bad for e in b]).rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % r[1][:600])
    rep.add(falsified_recordings_rejected=len(bad))


def single_check(configs):
    def check(rep, work):
        tc = TraceCheck(rep, work, "bits.cpp", [], configs, "BitScalarTrace")
        rep.assumptions += ["references are used while their words exist", "configurations: " + "; ".join(CONFIGS[c][3] for c in tc.configs)]
        ok, _ = parallel([tc.build, lambda: models(rep, work)])
        if not ok:
            return
        tc.run()
        if not rep.violations:
            negative_control(rep, work, tc.kept)
    return check
