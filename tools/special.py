"""Checks with machinery of their own."""
import collections, json, os, random, time

import mbt
from mbt import *
from props import prof, NAMES, CKS, BFS

CHECKS, NOTES = {}, {}


# ------------------------------------------------------------------ C18: concurrent use of separate contexts

THR_W = dict(add=5, sub=5, mul=8, mulh=5, mulks=4, hoist=4, rot=8, roth=4, conj=5, drop=4, dropin=1, resc=3, rescto=2, cmul=5, cmulin=1, pmul=4,
             enc=6, encode=4, reenc=2, encpt=4, encinto=1, dec=6, pdec=3, copy=3, pad=1, zero=1, get=2, gensk=2, genpk=2, genrlk=2, gencjk=2, genrot=3, keycopy=1)
BTHR_W = {k: v for k, v in THR_W.items() if k not in ("mulh", "drop", "dropin", "resc", "rescto", "cmul", "cmulin", "pmul")}
PRE_W = dict(enc=6, add=3, encode=3, hoist=3, mul=2, rot=2, drop=2, genpk=1, addcrs=1)
BPRE_W = {k: v for k, v in PRE_W.items() if k != "drop"}
COLD_W = dict(gensk=2, genpk=3, genrlk=3, gencjk=3, genrot=8, encode=1)
PAR = [
    (prof(PRE_W, wt=THR_W, thr=4, len=26, tlen=14, c0=4, p0=[2, 3], pref=15), ["c16", "c16a2x", "c16a3", "c16half", "c16p3"], 20),
    (prof(BPRE_W, wt=BTHR_W, thr=4, len=24, tlen=12, c0=4, p0=[2, 3], pref=15), ["b16", "b16deep", "b16a2", "b16p3"], 14),
    # from a cold start: nothing, or as good as nothing, has been computed before the threads start
    (prof(dict(gensk=1), wt=COLD_W, thr=4, len=18, tlen=16, c0=0, p0=[0], pref=5), ["c16", "c32", "b16", "c16a2x"], 10),
    (prof(dict(enc=1), wt=THR_W, thr=4, len=20, tlen=16, c0=2, p0=[2], pref=15), ["c16", "c16deep", "c16half"], 8),
    (prof(dict(enc=1), wt=BTHR_W, thr=4, len=18, tlen=14, c0=2, p0=[2], pref=15), ["b16", "b16a2"], 6),
]
PAR_FLOOR = dict(mul=60, rot=60, conj=40, enc=50, dec=40, mulks=25, hoist=15, genrot=10, genrlk=10)


# generic encryption and basis conversion, with shared plaintexts, ciphertexts, keys and parameters
SHARED = ["f32", "f42s", "f33l", "fb22"]
SHARED_RNS = ["t42", "t54", "tb44", "r42", "r54", "rb22"]


def shared(work, exes, seed, tier):
    """Returns (par traces, violations, counts)."""
    import fresh, rns, keys
    rng = random.Random("c18 shared %d" % seed)
    n = 3 if tier == "quick" else 6
    sets = [c for c in fresh.SETS if c["name"] in SHARED]
    hs, st = fresh.draw(work, sets, n * len(sets), 36, seed * 100 + 90, "-par")
    for i, h in enumerate(hs):
        h["w"], h["seed"] = i + 1, rng.randrange(1 << 60)
    ev, races = fresh.together(work, exes["keys"], hs, 3)
    wrong, _, _, (gen, _) = fresh.judge(work, "C24", ev, "-par")
    viol = []
    if wrong:           # what is wrong alone too is not about concurrency
        alone = fresh.perform(work, exes["keys"], [], hs)
        bad = fresh.judge(work, "C24", alone, "-alone")[0]
        also = {(e["w"], e["at"]) for e in alone if e["num"] in bad}
        for e in ev:
            if e["num"] in wrong and (e["w"], e["at"]) not in also:
                h = hs[e["w"] - 1]
                viol.append(dict(what="%s: %s by several threads at once, with contexts of their own: %s" % (e["cfg"], json.dumps(h["ops"][e["at"] - 1]), e["msg"] or "the result is wrong, or what they share changed"),
                                 site=dict(shared=e["k"]), history=h, event=e))
    traces = [dict(cfg="c16", n=2 * 10 ** 6 + i, ev=[dict(o=dict(op="par", n=r["threads"]), r=par_record(r["races"]))]) for i, r in enumerate(races)]
    rsets = [c for c in rns.SETS if c["name"] in SHARED_RNS]
    every, _ = rns.enumerate_calls(work, rsets, False)
    calls = [dict(c) for c in rns.choose(rng, every, rsets, dict(tiny=24, real=18) if tier == "quick" else dict(tiny=60, real=40))]
    for i, c in enumerate(calls):
        c["num"], c["seed"] = i + 1, rng.randrange(1 << 60)
    recs, rraces = rns.perform(work, exes["rns"], rsets, calls, 3)
    wrong, gen2, _ = rns.judge(work, recs, "-par")
    if wrong:
        bad = rns.judge(work, rns.perform(work, exes["rns"], rsets, calls), "-alone")[0]
        for n in wrong - bad:
            r = [r for r in recs if r["num"] == n][0]
            viol.append(dict(what="%s: %s by several threads at once: %s" % (r["cfg"], r["op"], r["msg"] or "the integer relation does not hold, or what they share changed"), site=dict(shared=r["op"]), call=calls[n - 1]))
    traces += [dict(cfg="c16", n=3 * 10 ** 6 + i, ev=[dict(o=dict(op="par", n=r["threads"]), r=par_record(r["races"]))]) for i, r in enumerate(rraces)]
    ops = collections.Counter(e["k"] for e in ev)
    ops.update(r["op"] for r in recs)
    return traces, viol, dict(histories=len(hs), calls=len(recs), ops=ops, states=st, transitions=st + gen + gen2)


def par_record(races):
    return dict(res="ok", msg="", ids=[], lev=0, sm=0, sb=0, val=[], frame=[], db=0, regs=[], uid=0, tags=[], sets=[], eq=True, nz=-1, slip=0, races=races or [])


def c18(prop, tier, seed, work):
    from check import new_stats, report, describe
    exe = build(work, flags=["-race"])
    exes = {p: build(work, p, flags=["-race"]) for p in ("keys", "rns")}
    os.environ["GORACE"] = "halt_on_error=0 exitcode=0 history_size=5 log_path=%s/race" % work
    st = collections.Counter()
    ops, sops = collections.Counter(), collections.Counter()
    viol, att, det, b = [], collections.Counter(), collections.Counter(), 0
    design = conc_model(work)
    end = time.time() + 60 * 25
    samples = []
    while True:
        progs, gst = generate(work, PAR, seed + 1000 * b, 1.0 if tier == "quick" else 2.0, per=8)
        log("generated %d concurrent programs" % len(progs))
        traces = run_driver(work, exe, progs, limit=60, shards=len(progs))      # a process for each: what is computed once per process is cold
        log("executed: %d traces" % len(traces))
        n = sum(1 for t in traces if t["ev"] and t["ev"][0]["o"]["op"] == "par")
        if n < len(progs) and not any(t["ev"][-1]["r"]["res"] in ("hang", "crash", "refused") for t in traces if t["ev"]):
            raise Broken("concurrent runs were lost: %d of %d" % (n, len(progs)))
        # self-test: a report that is made up, and results that differ from those of the thread alone
        rng, bad, info = random.Random(seed), [], {}
        for k in range(40):
            t = json.loads(json.dumps(rng.choice(traces)))
            t["n"] = 10 ** 6 + k
            if t["ev"][0]["o"]["op"] == "par":
                t["ev"][0]["r"]["races"] = ["made up"]
            else:
                j = [i for i, e in enumerate(t["ev"]) if "al" in e and e["r"]["res"] == "ok" and e["al"]["res"] == "ok"]
                if not j:
                    continue
                i = rng.choice(j)
                t["ev"][i]["al"]["lev"] += 1
                t["ev"] = t["ev"][:i + 1]
            bad.append(t)
        str_, sviol, scount = shared(work, exes, seed + 1000 * b, tier)
        viol += sviol
        log("shared: %d histories, %d calls" % (scount["histories"], scount["calls"]))
        devs, unspec, focus, (gen, dist) = validate(work, traces + str_ + bad, prop)
        if unspec:
            raise Broken("%d recorded operations are not specified" % unspec)
        byn = {t["n"]: t for t in traces + str_}
        noticed = {d["n"] for d in devs if d["mine"]}
        att["planted"] += len(bad)
        det["planted"] += sum(t["n"] in noticed for t in bad)
        for d in devs:
            if (d["n"] < 10 ** 6 or d["n"] >= 2 * 10 ** 6) and d["mine"]:
                t = byn[d["n"]]
                e = t["ev"][d["i"] - 1]
                p = progs[d["n"] % 100000 - 1] if d["n"] < 10 ** 6 else None
                if e["o"]["op"] == "par" and e["r"].get("races"):
                    for r in e["r"]["races"]:
                        viol.append(dict(cfg=t["cfg"], what="data race: " + r, site=dict(race=r), program=p, trace=t))
                else:
                    viol.append(dict(describe(t, d), what="differs from the thread's run alone", observed=dict(e["r"], alone=e.get("al")), program=p, trace=t))
        for t in traces:
            for e in t["ev"]:
                if "al" in e:
                    ops[e["o"]["op"]] += 1
        if not samples:
            samples = [dict(cfg=t["cfg"], thread=[e["o"]["op"] for e in t["ev"]]) for t in traces[1:4]]
        sops.update(scount["ops"])
        st.update(programs=len(progs), traces=len(traces), states=gst + dist + scount["states"], transitions=gst + gen + scount["transitions"], histories=scount["histories"], calls=scount["calls"])
        b += 1
        if viol or tier == "quick" or time.time() > end:
            break
    if not viol:
        if det["planted"] < att["planted"]:
            raise Broken("self-test: %d of %d planted deviations noticed" % (det["planted"], att["planted"]))
        for op, k in PAR_FLOOR.items():
            if ops[op] < k:
                raise Broken("too little was exercised: %s %d times, at least %d expected" % (op, ops[op], k))
        low = [k for k in ("enc", "dec", "pdec", "upQP", "downQ", "decomp", "ext") if sops[k] < 10]
        if low:
            raise Broken("too little was exercised: %s" % dict(sops))
    # one report per pair of sites
    uniq, seen = [], set()
    for v in viol:
        key = json.dumps(v.get("site") or [v["cfg"], v["what"], v.get("op", {}).get("op")])
        if key not in seen:
            seen.add(key)
            uniq.append(v)
    cov = dict(states=st["states"] + design["states"], transitions=st["transitions"] + design["transitions"], traces_validated_against_impl=st["traces"],
               concurrent_programs=st["programs"], threads_per_program=4, operations_in_threads=dict(ops), generic_histories=st["histories"], conversions=st["calls"], generic_operations=dict(sops), batches=b, design_model=design,
               planted=dict(att), noticed=dict(det), samples=samples)
    return report(prop, tier, seed, "model_checking", cov, uniq,
                  ["the race detector sees the conflicting accesses of the executed programs, for every schedule with the same order of synchronisation",
                   "observer code of the driver reads shared objects only"])


def conc_model(work):
    """The design: TLC explores every interleaving of Conc.tla; with scratch space in the registry it must find the race."""
    out = dict(states=0, transitions=0, runs=[])
    for owner, good in (("context", True), ("registry", False)):
        cfg = "SPECIFICATION Spec\nINVARIANTS NoRace Alone\nCONSTANTS\n  Threads = {t1, t2, t3}\n  Parties = {p1, p2}\n  Owner = \"%s\"\nCHECK_DEADLOCK FALSE\n" % owner
        o = tlc(work, "Conc", cfg, workers=CORES, heap="4g", tag="-" + owner)
        ok = "No error has been found" in o
        if ok != good or (not good and "is violated" not in o):
            raise Broken("the design model (scratch space owned by the %s) gave the wrong answer:\n%s" % (owner, o[-2000:]))
        g, d = tlc_counts(o)
        out["states"] += d
        out["transitions"] += g
        out["runs"].append(dict(scratch_owner=owner, states=d, transitions=g, race_found=not ok))
    return out


CHECKS["C18"] = c18
NOTES["C18"] = ("TLA+ model of contexts, scratch space and threads (Conc.tla, all interleavings) + concurrent programs generated from MKHE.tla and run "
                "under the race detector, every thread's trace validated by TLC against the specification and against its run alone; likewise generic encryption and conversions",
                 "TLC explores every interleaving of the design model; on the real code, the race detector judges the executed programs (4 threads, both schemes, "
                 "small rings) and TLC their results. Assumes Go's race detector; lattigo's encoder is used one per thread.", "model_checking")


# ------------------------------------------------------------------ C17: residue systems

import rns
CHECKS["C17"] = rns.c17
NOTES["C17"] = rns.NOTE


# ------------------------------------------------------------------ C19: the network's layers

import cnn
CHECKS["C19"] = cnn.c19
NOTES["C19"] = cnn.NOTE


# ------------------------------------------------------------------ C21: the relations of keys

import keys
CHECKS["C21"] = keys.c21
NOTES["C21"] = keys.NOTE


# ------------------------------------------------------------------ C15, C24: randomness, generic encryption

import fresh
CHECKS["C15"], CHECKS["C24"] = fresh.c15, fresh.c24
NOTES["C15"], NOTES["C24"] = fresh.NOTE15, fresh.NOTE24
