"""Checks of bit iterators and bit pointers: spec/BitCursor.tla against harness/cur.cpp."""
import json, random
from vlib import *


def mc_cur(d, far, base, flaw="none"):
    return ("SPECIFICATION Spec\nCONSTANTS\n D = %d\n Far = %d\n SmallBase = %d\n Flaw = \"%s\"\nINVARIANTS Refines Laws WideIsRight\n"
            "CHECK_DEADLOCK FALSE\n" % (d, far, base, flaw))


def models(rep, work):
    todo = [(4, 13, 16), (2, 9, 4)] + ([(8, 25, 16), (3, 20, 8)] if rep.tier == "thorough" else [])
    for d, far, base in todo:
        t = model_check(work, "MCBitCursor", mc_cur(d, far, base), workers=4)
        rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct, model_transitions=t.generated)
    for flaw in ("trunc", "borrow", "diff", "less"):
        t = Tlc(work, "MCBitCursor", cfg_text=mc_cur(4, 9, 16, flaw), workers=4)
        if "Invariant Refines is violated" not in t.out:
            raise Machinery("TLC does not notice the flaw %r of the design: %s" % (flaw, t.out[-1500:]))
        rep.add(flawed_designs_rejected=1)


def falsify(evs, rnd):
    """The history up to some event, which is changed for the worse and marked."""
    k = rnd.randrange(len(evs))
    e = json.loads(evs[k])
    if e["x"]:
        return None
    shown = [q for q in e["v"] if q[0] == 2]
    how = rnd.randrange(4)
    if how == 0 and e["r"]:
        rnd.choice(e["r"])[1] ^= 1
    elif how == 1 and shown:
        q = rnd.choice(shown)
        q[rnd.choice((1, 2))][1] ^= 1
    elif how == 2:
        e["x"] = "memory fault"
    elif how == 3 and e["r"]:
        e["r"][0][0] += rnd.choice((1, -1))
    else:
        return None
    e["falsified"] = 1
    return list(evs[:k]) + [json.dumps(e, separators=(",", ":"))]


def negative_control(rep, work, sessions):
    rnd = random.Random(rep.seed)
    bad = [b for b in (falsify(rnd.choice(sessions), rnd) for _ in range(400)) if b][:150]
    events = [e for b in bad for e in b]
    r = validate(work, "BitCursorTrace", "BitCursorTrace.cfg", events).rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % events[r[0] - 1][:600])
    rep.add(falsified_recordings_rejected=len(bad))


def cur_check(kinds, configs):
    def check(rep, work):
        tc = TraceCheck(rep, work, "cur.cpp", [], configs, "BitCursorTrace", args=["--kinds", kinds])
        rep.assumptions += ["distances stay within difference_type", "configurations: " + "; ".join(CONFIGS[c][3] for c in tc.configs)]
        ok, _ = parallel([tc.build, lambda: models(rep, work)])
        if not ok:
            return
        tc.run()
        if not rep.violations:
            negative_control(rep, work, tc.kept)
    return check
