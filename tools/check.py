#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]    decides one property on /repo's working tree
   check.py replay FILE                   runs the program of a reported violation again"""
import collections, json, os, random, shutil, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbt import *
from props import CAMPAIGNS, FLOOR
import exh

MIN_SELFTEST = 60


def describe(t, dev):
    e = t["ev"][dev["i"] - 1]
    exp = dev["exp"]
    return dict(cfg=t["cfg"], op=e["o"], observed=e["r"], expected=exp, deviation=dev["tags"])


def short(e):
    o = {k: v for k, v in e["o"].items() if k not in ("val", "wit", "want")}
    r = {k: e["r"][k] for k in ("res", "ids", "lev", "sm", "sb", "db", "frame")}
    v = e["r"]["val"]
    return dict(op=o, observed=dict(r, val=v[:4] if isinstance(v, list) else v))


def campaign(prop, tier, seed, work, stats, mult):
    """One batch: generate, execute, validate, self-test.  Returns violations."""
    progs, gstates = generate(work, CAMPAIGNS[prop], seed, mult)
    log("generated %d programs, %d operations" % (len(progs), sum(len(p["ops"]) for p in progs)))
    if stats["todo"] is None:       # the bounded-exhaustive programs do not depend on the seed
        more, ms, mt = exh.generate(work, prop, tier)
        stats["exhaustive"] = dict(programs=len(more), operations=sum(len(p["ops"]) for p in more), states=ms,
                                   families=dict(collections.Counter("%s/%s" % (p["fam"], p["cfg"]) for p in more)))
        gstates += ms
        stats["todo"] = more
        if more:
            log("and %d exhaustive programs, %d operations" % (len(more), stats["exhaustive"]["operations"]))
    n = 0
    while stats["todo"] and n < 200000:
        progs.append(stats["todo"].pop())
        n += len(progs[-1]["ops"])
    exe = stats.setdefault("exe", None) or build(work)
    stats["exe"] = exe
    traces = run_driver(work, exe, progs)
    log("executed %d programs" % len(traces))
    if len(traces) < len(progs) and not any(t["ev"] and t["ev"][-1]["r"]["res"] in ("hang", "crash") for t in traces):
        raise Broken("the driver lost programs")
    bad, info = corrupted(traces, seed, max(MIN_SELFTEST, min(len(traces) // 3, 400)), 10 ** 6, 12 if prop == "C22" else 0)
    devs, unspec, focus, (gen, dist) = validate(work, traces + bad, prop)
    log("validated: %d states" % gen)
    if unspec:
        raise Broken("%d recorded operations are not specified" % unspec)
    byn = {t["n"]: t for t in traces}
    viol, other = [], 0
    hit = collections.defaultdict(set)
    for d in devs:
        if d["n"] >= 10 ** 6:
            hit[d["n"]].add((d["i"], d["mine"]))
        elif d["mine"]:
            viol.append((byn[d["n"]], d))
        else:
            other += 1
            stats["others"].append((byn[d["n"]], d))
    if prop == "C10":
        # an operation that goes wrong on other ciphertexts too is not about partial decryption
        also = {op for d in devs if d["n"] < 10 ** 6 and "after" not in {x[0] for x in d["tags"]} for k, op in d["tags"] if k in ("val", "noise", "db")}
        viol = [(t, d) for t, d in viol if {x[0] for x in d["tags"] if tuple(x) in focus} != {"after"} or not also & {x[1] for x in d["tags"]}]
    if prop == "C08" and not viol:
        viol = by_history(work, exe, [(byn[d["n"]], d) for d in devs if d["n"] < 10 ** 6])
    # self-test: of the corrupted copies whose corruption concerns this property, which are noticed?
    att, det = collections.Counter(), collections.Counter()
    for n, (k, op, i, src) in info.items():
        if (k, op) not in focus:
            continue
        att[k] += 1
        if any(j == i and mine for j, mine in hit[n]):
            det[k] += 1
    for k in att:
        stats["att"][k] += att[k]
        stats["det"][k] += det[k]
    for t in traces:
        stats["cfg"][t["cfg"]] += 1
        for e in t["ev"]:
            stats["op"][e["o"]["op"] + ("" if e["r"]["res"] == "ok" else "!" + e["r"]["res"])] += 1
            stats["ids"][len(e["r"]["ids"])] += 1
    stats["progs"] += len(traces)
    stats["states"] += gstates + dist
    stats["transitions"] += gstates + gen
    stats["other"] += other
    if not stats["samples"]:
        for t in traces[:2]:
            stats["samples"].append(dict(cfg=t["cfg"], trace=[short(e) for e in t["ev"][-3:]]))
    return viol


def by_history(work, exe, devs):
    """Deviations that are gone when their program is run in a process of its own: the outcome depended on
    programs run before, which share nothing with it but the process."""
    first = {}
    for t, d in devs:
        if t["n"] not in first or d["i"] < first[t["n"]][1]["i"]:
            first[t["n"]] = (t, d)
    todo = sorted(first.values(), key=lambda x: x[0]["n"])[:24]
    again = []
    for t, d in todo:
        prog = dict(cfg=t["cfg"], ops=[e["o"] for e in t["ev"]])
        alone = run_driver(work, exe, [prog], shards=1)
        for a in alone:
            again.append(dict(a, n=t["n"]))
    if not again:
        return []
    still = {(d["n"], d["i"]) for d in validate(work, again, "C08", tag="-alone")[0]}
    return [(t, dict(d, exp=dict(d["exp"], note="and so it is when the program runs in a process of its own: the outcome depends on what ran before")))
            for t, d in todo if (t["n"], d["i"]) not in still]


def new_stats():
    return dict(att=collections.Counter(), det=collections.Counter(), cfg=collections.Counter(), op=collections.Counter(), ids=collections.Counter(),
                progs=0, states=0, transitions=0, other=0, others=[], samples=[], exhaustive={}, todo=None)


def explored(prop, tier, st, quick_mult):
    """Was enough explored, and is what is wrong noticed?"""
    for k in SURE & set(st["att"]):
        if st["det"][k] < st["att"][k]:
            raise Broken("self-test: a corrupted observation (%s) was not noticed" % k)
    for k in ("val", "scale", "noise"):
        if st["att"][k] >= 8 and st["det"][k] * 3 < st["att"][k]:
            raise Broken("self-test: corrupted %s noticed in %d of %d cases only" % (k, st["det"][k], st["att"][k]))
    if sum(st["att"].values()) == 0:
        raise Broken("self-test: nothing was corrupted")
    if tier == "quick":
        for op, n in FLOOR.get(prop, {}).items():
            if st["op"][op] < n * quick_mult * 0.5:
                raise Broken("too little was exercised: %s %d times, at least %d expected" % (op, st["op"][op], n))


def programs(prop, tier, seed, work, quick_mult=1.0, minutes=25):
    """Returns (violations as dicts, coverage, notes)."""
    st = new_stats()
    viol, batches = [], 0
    end = time.time() + 60 * minutes
    while True:
        v = campaign(prop, tier, seed + 1000 * batches, work, st, quick_mult if tier == "quick" else 2.0)
        batches += 1
        viol += v
        if v or (not st["todo"] and (tier == "quick" or time.time() > end)):
            break
    out = [dict(describe(t, d), program=[e["o"] for e in t["ev"]], trace=t) for t, d in viol]
    if not viol:
        try:
            explored(prop, tier, st, quick_mult)
        except Broken as e:
            if not st["others"]:
                raise
            # the code deviates from the specification so that what the property is about was not reached
            out = [dict(describe(t, d), program=[e["o"] for e in t["ev"]], trace=t, what="the property could not be confirmed (%s)" % e) for t, d in st["others"]]
    cov = dict(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=st["progs"],
               operations=dict(st["op"]), configurations=dict(st["cfg"]), parties_involved=dict(st["ids"]), batches=batches,
               corrupted_observations_planted=dict(st["att"]), corrupted_observations_noticed=dict(st["det"]),
               exhaustive_programs=st["exhaustive"], deviations_concerning_other_properties=st["other"], samples=st["samples"])
    return out, cov


def report(prop, tier, seed, level, cov, viol, assumptions):
    kf = [k for k in known() if k["property"] == prop and k.get("status") == "known"]
    new, seen = [], set()
    for v in viol:
        hit = [k for k in kf if all(v.get("site", {}).get(a) == b for a, b in k["match"].items())]
        if hit:
            seen |= {k["id"] for k in hit}
        else:
            new.append(v)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    paths = []
    for i, v in enumerate(new[:5]):
        paths.append(save_replay(prop, seed, i, dict(property=prop, seed=seed, tier=tier, **v)))
    write_evidence(prop, tier, seed, level, cov, assumptions, [dict(replay=p, what=v.get("deviation", v.get("what"))) for p, v in zip(paths, new)])
    for i, (p, v) in enumerate(zip(paths, new)):
        if "op" in v:
            o = {k: x for k, x in v["op"].items() if k != "val"}
            log("  %s: %s\n      observed %s\n      expected %s" % (v["cfg"], json.dumps(o), json.dumps(v["observed"])[:600], json.dumps(v["expected"])[:600]))
        else:
            log("  " + str(v.get("what"))[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    if new:
        log("%d violations" % len(new))
        return 1
    log("property %s held on everything explored" % prop)
    return 0


ASSUME = ["the specification (spec/MKHE.tla) says what the library is for; it was written from the documentation, the tests and the code",
          "an observer of our own decrypts results with fresh decryptors; the lattigo ring and encoder are trusted",
          "values are compared after rounding to integers, where the specification says they are determined (precision, noise and level budget)"]


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = workdir()
    try:
        import special
        if prop in special.CHECKS:
            return special.CHECKS[prop](prop, tier, seed, work)
        import design
        des = design.run(prop, tier, work)
        viol, cov = programs(prop, tier, seed, work)
        if des:
            cov["algorithm_model"] = des
            cov["states"] += des["states"]
            cov["transitions"] += des["transitions"]
        if prop in ("C07", "C14"):
            import fresh
            name, what = ("generic", fresh.frames) if prop == "C07" else ("references", fresh.references)
            v, cov[name] = what(seed, tier, work)
            viol += v
            for k in ("states", "transitions"):
                cov[k] += cov[name][k]
        return report(prop, tier, seed, "model_checking", cov, viol, ASSUME)
    except Crash as e:
        return report(prop, tier, seed, "model_checking", dict(states=1, transitions=1, samples=[str(e)[:300]]), [dict(what="the code under test crashed: " + str(e), site=dict(kind="crash"))], [])
    except Broken as e:
        print("CHECK FAILED: " + str(e), flush=True)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    work = workdir()
    try:
        exe = build(work)
        prog = dict(cfg=d["trace"]["cfg"], ops=[e["o"] for e in d["trace"]["ev"]])
        tr = run_driver(work, exe, [prog], shards=1)
        devs, _, _, _ = validate(work, tr, d["property"], workers=1)
        for v in devs:
            print(json.dumps(describe(tr[0], v), indent=1)[:4000])
        print("deviations: %d, concerning %s: %d" % (len(devs), d["property"], sum(v["mine"] for v in devs)))
        return 1 if any(v["mine"] for v in devs) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
