"""Checks of ranges and vectors of more than 2^32 bits: spec/BitHuge.tla over Wide numbers against harness/huge.cpp."""
import json, random
from vlib import *

B = 1 << 30


def models(rep, work):
    size, bases = (6, (2, 3, 5)) if rep.tier == "thorough" else (4, (2, 3))
    for base in bases:
        t = model_check(work, "MCBitHuge", "SPECIFICATION Spec\nCONSTANTS\n Size = %d\n SmallBase = %d\nINVARIANTS Agree AsVector\nCHECK_DEADLOCK FALSE\n"
                        % (size, base), workers=3)
        rep.add(states=t.distinct, transitions=t.generated, model_states=t.distinct, model_transitions=t.generated)


def falsify(evs, rnd):
    """The history up to some event, which is changed for the worse and marked."""
    k = rnd.randrange(1, len(evs))
    e = json.loads(evs[k])
    if e["x"]:
        return None
    how = rnd.randrange(5)
    if how == 0 and isinstance(e["r"], list) and e["r"]:
        e["r"][0] += rnd.choice([-1, 1]) * rnd.choice([1, 4])       # off by 2^30 or 2^32
    elif how == 1 and isinstance(e["r"], list) and e["r"]:
        e["r"][1] ^= 1
    elif how == 2 and e["p"] and not e["o"].startswith("shift"):
        q = rnd.choice(e["p"])
        q[1] = 5 - q[1]
    elif how == 3 and e["p"]:
        e["p"][-1][0][0] += 4
    elif how == 4:
        e["x"] = "memory fault"
    else:
        return None
    e["falsified"] = 1
    return list(evs[:k]) + [json.dumps(e, separators=(",", ":"))]


def negative_control(rep, work, sessions):
    rnd = random.Random(rep.seed)
    bad = [b for b in (falsify(rnd.choice(sessions), rnd) for _ in range(200)) if b][:80]
    r = validate(work, "BitHugeTrace", "BitHugeTrace.cfg", [e for b in bad for e in b]).rejected()
    if r:
        raise Machinery("the specification accepts a falsified recording: %s" % r[1][:600])
    rep.add(falsified_recordings_rejected=len(bad))


def huge_check(configs):
    def check(rep, work):
        tc = TraceCheck(rep, work, "huge.cpp", [], configs, "BitHugeTrace")
        rep.assumptions += ["contents have few runs of equal bits", "storages of 2^33 to 2^38 bits, vectors of about 2^32 bits",
                            "configurations: " + "; ".join(CONFIGS[c][3] for c in tc.configs)]
        ok, _ = parallel([tc.build, lambda: models(rep, work)])
        if not ok:
            return
        tc.run(shards=5)        # each takes up to 2 GB of memory
        if not rep.violations:
            negative_control(rep, work, tc.kept)
    return check
