"""Checks of bits as text (streams, strings, debug_string): spec/BitText.tla against harness/text.cpp."""
import json, random
from vlib import *


def mc(text, bits, flaw="none"):
    return ("SPECIFICATION Spec\nCONSTANTS\n MaxText = %d\n MaxBits = %d\n Flaw = \"%s\"\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\n"
            % (text, bits, flaw))


def models(rep, work):
    big = (4, 10) if rep.tier == "thorough" else (3, 9)
    t = model_check(work, "MCBitText", mc(*big), workers=4)
    rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct, model_transitions=t.generated)
    for flaw in ("keep", "clobber", "silent"):
        t = Tlc(work, "MCBitText", cfg_text=mc(2, 3, flaw), workers=2)
        if "Invariant Refines is violated" not in t.out:
            raise Machinery("TLC does not notice the flaw %r of the design: %s" % (flaw, t.out[-1500:]))
        rep.add(flawed_designs_rejected=1)


def falsify(evs, rnd):
    """The history up to some event, which is changed for the worse and marked."""
    if len(evs) < 2:
        return None
    k = rnd.randrange(1, len(evs))
    e = json.loads(evs[k])
    if e["x"]:
        return None
    how = rnd.randrange(8)
    v = e["v"]
    if how == 0 and e["r"]:
        i = rnd.randrange(len(e["r"]))
        e["r"][i] ^= 1
    elif how == 1:
        v[0] = v[0] + [0]
    elif how == 2 and v[0]:
        v[0][rnd.randrange(len(v[0]))] ^= 1
    elif how == 3:
        v[1] ^= 1
    elif how == 4:
        v[2] += 2
    elif how == 5:
        v[rnd.choice([3, 5])] ^= 1
    elif how == 6:
        v[6] += 1
    elif how == 7:
        e["x"] = "memory fault"
    else:
        return None
    e["falsified"] = 1
    return list(evs[:k]) + [json.dumps(e, separators=(",", ":"))]


def negative_control(rep, work, sessions):
    rnd = random.Random(rep.seed)
    bad = [b for b in (falsify(rnd.choice(sessions), rnd) for _ in range(400)) if b][:200]
    r = validate(work, "BitTextTrace", "BitTextTrace.cfg", [e for b in bad for e in b]).rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % r[1][:600])
    rep.add(falsified_recordings_rejected=len(bad))


def text_check(configs):
    def check(rep, work):
        tc = TraceCheck(rep, work, "text.cpp", [], configs, "BitTextTrace")
        rep.assumptions += ["streams in the classic locale, buffers that keep the rules of std::basic_streambuf", "configurations: " + "; ".join(CONFIGS[c][3] for c in tc.configs)]
        ok, _ = parallel([tc.build, lambda: models(rep, work)])
        if not ok:
            return
        tc.run()
        if not rep.violations:
            negative_control(rep, work, tc.kept)
    return check
