"""Bounded-exhaustive programs (spec/Exh.tla) for the properties that have a small space worth going through completely."""
import json, sys
from mbt import *

# property -> [(families with their depths in the quick and thorough tiers, configurations in the quick and thorough tiers)]
CQ, CT = ["c16", "c16a2x", "c16lo"], ["c16", "c16deep", "c16half", "c16a2x", "c16a3", "c16p3", "c16mix", "c16lo", "c16two", "c16onep", "c16a5"]
BQ, BT = ["b16", "b16a2"], ["b16", "b16deep", "b16a2", "b16a3s", "b16p3", "b16mix", "b16t97", "b16big"]
REG = ["reg-sk", "reg-pk", "reg-rlk", "reg-cjk", "reg-rot"]
FAMS = {
    "C01": [(dict(encs=(0, 0)), CQ, CT)],
    "C02": [(dict(sums=(0, 0)), CQ + BQ, CT + BT)],
    "C03": [(dict(products=(0, 0)), CQ + BQ, CT + BT)],
    "C04": [(dict(rots=(0, 0)), ["c16", "c16half", "b16"], CT + BT + ["c32", "b32"])],
    "C05": [(dict(conjs=(0, 0)), CQ + BQ, CT + BT)],
    "C06": [(dict(hoisted=(0, 0), rots=(0, 0)), ["c16", "b16"], CT + BT)],
    "C07": [(dict(calls=(0, 0)), ["c16"], CT[:6] + BT[:4]), (dict(cont=(1, 2)), ["c16", "b16"], ["c16", "b16", "c16a2x", "b16a2"])],
    "C08": [(dict(calls=(0, 0)), ["c16", "b16"], CT[:6] + BT[:4])],
    "C09": [(dict(scales=(0, 0)), ["c16", "c16mix", "c16lo", "c16a2x"], CT)],
    "C10": [(dict(pdec=(4, 5)), ["c16", "b16"], ["c16", "b16"])],
    "C11": [(dict(keys=(0, 0)), ["c16", "b16"], CT[:5] + BT[:4])],
    "C12": [({k: (3, 4) if k == "reg-rot" else (4, 5) for k in REG}, ["c16"], ["c16"])],
    "C13": [(dict(set=(3, 4), sets=(2, 3)), ["c16"], ["c16"]), (dict(cont=(2, 3)), ["c16", "b16"], ["c16"])],
    "C20": [(dict(consts=(0, 0)), ["c16", "c16a2x", "c16lo"], CT)],
    "C22": [(dict(products=(0, 0), conjs=(0, 0)), ["c16lo", "b16"], CT + BT), (dict(calls=(0, 0)), ["c16"], CT[:6] + BT[:4])],
}


def generate(work, prop, tier):
    """Every program of the property's families; the number of states and per-family counts."""
    progs, states, trans = [], 0, 0
    for g, (fams, quick, thorough) in enumerate(FAMS.get(prop, [])):
        d = os.path.join(work, "exh-%d" % g)
        os.makedirs(d, exist_ok=True)
        write_lines(d + "/cfgs", [CFGS[c] for c in (quick if tier == "quick" else thorough)])
        write_lines(d + "/fams", [dict(fam=f, depth=dp[0 if tier == "quick" else 1]) for f, dp in fams.items()])
        out = tlc(work, "Exh", SPEC_CFG, env={"CFGS": d + "/cfgs", "FAMS": d + "/fams"}, workers=CORES, heap="6g", tag="-%d" % g)
        if not tlc_ok(out):
            raise Broken("TLC failed on the exhaustive programs:\n" + out[-3000:])
        ps = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"PROG ')]
        t, s = tlc_counts(out)
        progs += sorted(ps, key=lambda p: json.dumps(p, sort_keys=True))
        states += s
        trans += t
    return progs, states, trans


if __name__ == "__main__":
    import collections, tempfile, time
    w = tempfile.mkdtemp(prefix="exh-")
    t = time.time()
    p, s, _ = generate(w, sys.argv[1], sys.argv[2])
    print(sys.argv[1], len(p), "programs,", sum(len(x["ops"]) for x in p), "operations,", s, "states, %.1f s" % (time.time() - t))
    print(collections.Counter((x["fam"], x["cfg"]) for x in p))
    print(collections.Counter((o["op"], o["want"]) for x in p for o in x["ops"]))
    shutil.rmtree(w)
