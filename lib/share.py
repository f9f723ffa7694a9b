"""Checks of threads that share constant bits and change different words: spec/BitShareTrace.tla against harness/share.cpp."""
import json, random
from vlib import *


def mc(d, words, threads, flaw="none"):
    return ("SPECIFICATION Spec\nCONSTANTS\n D = %d\n Words = %d\n Threads = {%s}\n Flaw = \"%s\"\nINVARIANTS RaceFree SeesOwn Serial\nCHECK_DEADLOCK FALSE\n"
            % (d, words, ",".join(map(str, range(1, threads + 1))), flaw))


def models(rep, work):
    todo = [(2, 3, 2)] if rep.tier != "thorough" else [(2, 3, 2), (3, 3, 2), (2, 4, 2), (1, 3, 3)]
    for size in todo:
        t = model_check(work, "MCBitShare", mc(*size), workers=4)
        rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct, model_transitions=t.generated)
    for flaw in ("wide", "same"):
        for inv in ("RaceFree", "SeesOwn"):
            cfg = mc(2, 3, 2, flaw).replace("INVARIANTS RaceFree SeesOwn Serial", "INVARIANT " + inv)
            t = Tlc(work, "MCBitShare", cfg_text=cfg, workers=2)
            if "Invariant %s is violated" % inv not in t.out:
                raise Machinery("TLC does not notice the flaw %r of the design: %s" % (flaw, t.out[-1500:]))
        rep.add(flawed_designs_rejected=1)


def falsify(evs, rnd):
    """The history of one thread up to some event, which is changed for the worse and marked."""
    k = rnd.randrange(1, len(evs))
    e = json.loads(evs[k])
    if e["x"] or e["o"] in ("start", "v_start", "end"):
        return None
    how = rnd.randrange(4)
    if how == 0 and isinstance(e["r"], int):
        e["r"] += 1
    elif how == 1 and e["p"] and not e["o"].startswith("shift"):
        q = rnd.choice(e["p"])
        q[1] = 5 - q[1]
    elif how == 2 and e["p"]:
        e["p"][-1][0] += 1
    elif how == 3:
        e["x"] = "data race"
    else:
        return None
    e["falsified"] = 1
    first = max(i for i in range(k) if '"start"' in evs[i][:20] or '"v_start"' in evs[i][:20])
    return list(evs[first:k]) + [json.dumps(e, separators=(",", ":"))]


def negative_control(rep, work, sessions):
    rnd = random.Random(rep.seed)
    bad = [b for b in (falsify(rnd.choice(sessions), rnd) for _ in range(300)) if b][:100]
    r = validate(work, "BitShareTrace", "BitShareTrace.cfg", [e for b in bad for e in b]).rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % r[1][:600])
    rep.add(falsified_recordings_rejected=len(bad))


def share_check(configs):
    def check(rep, work):
        tc = TraceCheck(rep, work, "share.cpp", [], configs, "BitShareTrace")
        rep.assumptions += ["2 to 4 threads; ThreadSanitizer sees every access two of them make without an order between them, whatever the schedule of the run was",
                            "configurations: " + "; ".join(CONFIGS[c][3] for c in tc.configs)]
        ok, _ = parallel([tc.build, lambda: models(rep, work)])
        if not ok:
            return
        tc.run()
        if not rep.violations:
            negative_control(rep, work, tc.kept)
    return check
