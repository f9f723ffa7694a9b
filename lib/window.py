"""Checks of the pieces algorithms are made of: spec/BitWindow.tla against harness/window.cpp."""
import json, random
from vlib import *

OPS = ("get", "put", "words_left", "words_right")
FLAWS = [("early", 2, 4, 3), ("offset", 2, 4, 4), ("position", 2, 4, 3), ("source", 2, 4, 3), ("length", 2, 4, 3), ("narrow", 3, 2, 2), ("forward", 2, 2, 4)]


def mc(d, t, words, flaw="none"):
    return ("SPECIFICATION Spec\nCONSTANTS\n D = %d\n TD = %d\n NW = %d\n OpSet = {%s}\n Flaw = \"%s\"\nINVARIANTS Meets InStorage OnlyNeeded\n%sCHECK_DEADLOCK FALSE\n"
            % (d, t, words, ", ".join('"%s"' % o for o in OPS), flaw, "PROPERTY Ends\n" if flaw == "none" else ""))


def models(rep, work):
    for d, t, words in [(2, 4, 3), (3, 2, 2), (2, 2, 4)] + ([(3, 2, 3), (2, 4, 4), (2, 6, 4), (4, 4, 3)] if rep.tier == "thorough" else []):
        r = model_check(work, "MCBitWindow", mc(d, t, words), workers=3)
        rep.add(states=r.distinct, transitions=r.generated, model_states=r.distinct, model_transitions=r.generated)
    for flaw, d, t, words in FLAWS:
        r = Tlc(work, "MCBitWindow", cfg_text=mc(d, t, words, flaw), workers=2)
        if not re.search("Invariant (Meets|InStorage|OnlyNeeded) is violated", r.out):
            raise Machinery("TLC does not notice the flaw %r of the design: %s" % (flaw, r.out[-1500:]))
        rep.add(flawed_designs_rejected=1)


def falsify(event, rnd):
    e = json.loads(event)
    how = rnd.randrange(5)
    if how == 0 and e["r"]:
        n = e["n"] if e["o"] == "get" else e["d"]
        if n == 0:
            return None
        i = rnd.randrange(n)
        e["r"][i // 8] ^= 1 << i % 8
    elif how == 1 and e["k"] >= 0:
        e["k"] += 1 if e["o"].startswith("w") and e["k"] == 0 else -1
    elif how == 2 and not e["o"].startswith("words"):
        i = rnd.randrange(len(e["m2"]))
        e["m2"][i] ^= 1 << rnd.randrange(8)
    elif how == 3 and e["p"] > 0:
        i = rnd.randrange(e["p"])
        e["m2"][i // 8] ^= 1 << i % 8
    elif how == 4:
        e["x"] = "memory fault"
    else:
        return None
    e["falsified"] = 1
    return json.dumps(e, separators=(",", ":"))


def negative_control(rep, work, sessions):
    rnd = random.Random(rep.seed)
    bad = [b for b in (falsify(rnd.choice(rnd.choice(sessions)), rnd) for _ in range(400)) if b]
    r = validate(work, "BitWindowTrace", "BitWindowTrace.cfg", bad).rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % r[1][:600])
    rep.add(falsified_recordings_rejected=len(bad))


def window_check(configs):
    def check(rep, work):
        tc = TraceCheck(rep, work, "window.cpp", [], configs, "BitWindowTrace")
        rep.assumptions += ["ranges are ordered; windows begin in a word of the storage and end in it", "configurations: " + "; ".join(CONFIGS[c][3] for c in tc.configs)]
        ok, _ = parallel([tc.build, lambda: models(rep, work)])
        if not ok:
            return
        tc.run()
        if not rep.violations:
            negative_control(rep, work, tc.kept)
    return check
