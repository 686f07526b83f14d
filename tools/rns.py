"""C17: conversions between residue systems, digit decomposition, external products."""
import collections, json, os, random, subprocess, time
import concurrent.futures as cf

from mbt import *

PR32 = [97, 193, 257, 353, 449, 577, 641, 673, 769, 929, 1153, 1217, 1249, 1409, 1601, 2017, 2081, 2113, 2273, 2593, 2657, 2689, 2753, 3041, 3137, 3169]


def tiny(name, nq, np, nm=0, t=0, off=0, mix=False):
    pr = PR32[off:off + nq + np + nm]
    if mix:                                       # large and small primes interleaved
        pr = [x for p in zip(pr, reversed(pr)) for x in p][:len(pr)]
    return dict(name=name, logn=4, q=pr[:nq], p=pr[nq:nq + np], qm=pr[nq + np:], t=t, nq=nq, np=np, nm=nm, tiny=True)


def real(name, qb, pb, qmb=(), t=0, logn=4):
    return dict(name=name, logn=logn, qb=list(qb), pb=list(pb), qmb=list(qmb), t=t, nq=len(qb), np=len(pb), nm=len(qmb), tiny=False)


SETS = [
    tiny("t31", 3, 1), tiny("t42", 4, 2, off=3), tiny("t25", 2, 5, off=1), tiny("t54", 5, 4, off=6, mix=True), tiny("t73", 7, 3, off=9), tiny("t56", 5, 6, off=4), tiny("t182", 18, 2, off=2),
    tiny("tb22", 2, 2, 2, 97, off=1), tiny("tb44", 4, 4, 4, 257, off=5), tiny("tb62", 6, 2, 6, 97, off=2, mix=True),
    real("r42", (55, 40, 40, 40), (50, 50)), real("r54", (60, 30, 58, 36, 59), (60, 57, 59, 45)), real("r35", (45, 45, 45), (46,) * 5), real("r46", (58,) * 4, (60,) * 6),
    real("r31", (50, 50, 50), (59,)), real("r8x2", (50,) * 8, (60,) * 2), real("r12x2", (45,) * 12, (55,) * 2),
    real("r9x4b", (61,) * 9, (61,) * 4), real("r12x2b", (61,) * 12, (61,) * 2), real("r3x18b", (61,) * 3, (61,) * 18),
    real("rb22", (50, 50), (50, 50), (50, 50), 257), real("rb34", (50,) * 4, (56,) * 4, (50,) * 4, 65537), real("rbx", (58, 40, 50), (59, 58), (58, 40, 50), 97), real("rb9b", (61,) * 9, (61, 61), (61,) * 9, 65537),
]
OPS = ("upQP", "upPQ", "downQ", "downQntt", "downP", "decomp", "ext", "upQR", "rescale", "quant", "decompR", "extR")
FLOOR = dict(upQP=60, upPQ=60, downQ=60, downQntt=60, downP=60, decomp=150, ext=30, upQR=12, rescale=12, quant=12, decompR=20, extR=8)
QUICK = dict(tiny=90, real=40)


def enumerate_calls(work, sets, dense):
    d = os.path.join(work, "rnsgen")
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", [{k: c[k] for k in ("name", "nq", "np", "nm", "tiny")} for c in sets])
    write_lines(d + "/prof", [dict(dense=dense)])
    out = tlc(work, "RNSGen", SPEC_CFG, env=dict(CFGS=d + "/cfgs", PROF=d + "/prof"), workers=4, heap="4g")
    calls = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"CASE ')]
    if not tlc_ok(out) or not calls:
        raise Broken("RNSGen failed:\n" + out[-3000:])
    calls.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return calls, tlc_counts(out)


def judge(work, recs, tag=""):
    """TLC judges the records; returns the numbers of the wrong ones."""
    d = os.path.join(work, "rnsval" + tag)
    os.makedirs(d, exist_ok=True)
    # one TLC process per core: initial states are evaluated by one thread only
    order = sorted(range(len(recs)), key=lambda i: -len(json.dumps(recs[i])))
    shards = [[] for _ in range(CORES)]
    for k, i in enumerate(order):
        shards[k % CORES].append(recs[i])

    def one(k):
        if not shards[k]:
            return [], 0, 0
        write_lines(d + "/c%d" % k, shards[k])
        out = tlc(work, "RNS", SPEC_CFG, env=dict(CASES=d + "/c%d" % k), workers=1, heap="3g", tag="%s-%d" % (tag, k))
        bad = [json.loads(json.loads(l)[4:])["n"] for l in out.splitlines() if l.startswith('"BAD ')]
        g, s = tlc_counts(out)
        if not tlc_ok(out) or s < 2 * len(shards[k]):
            raise Broken("TLC failed on the records:\n" + out[-3000:])
        return bad, g, s

    with cf.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(one, range(CORES)))
    return {n for b, _, _ in rs for n in b}, sum(r[1] for r in rs), sum(r[2] for r in rs)


def perform(work, exe, sets, calls, threads=0):
    d = os.path.join(work, "rnsrun%d" % threads)
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", sets)
    write_lines(d + "/calls", calls)
    drive([exe, "-cfgs", d + "/cfgs", "-in", d + "/calls", "-out", d + "/rec", "-j", str(CORES), "-par", str(threads)])
    recs = []
    if os.path.exists(d + "/rec"):
        for line in open(d + "/rec"):
            if line.endswith("\n"):
                recs.append(json.loads(line.replace(":null", ":[]")))
    if len(recs) != len(calls) * max(1, threads):
        raise Broken("%d of %d calls were recorded" % (len(recs), len(calls)))
    if threads:
        return recs, [json.loads(l) for l in open(d + "/rec.races")]
    return recs


def spoil(rng, rec):
    """One wrong observation in a copy."""
    r = json.loads(json.dumps(rec))
    k = rng.choice(["out", "out", "out", "res", "frame"])
    if k == "res":
        r["res"] = "failed"
    elif k == "frame":
        r["frame"] = ["input"]
    else:
        c = rng.choice(r["co"])
        o = c["out"]
        i = rng.randrange(len(o))
        if o[i]:
            j = rng.randrange(len(o[i]))
            o[i][j] = o[i][j] ^ (1 << rng.randrange(12))
            while o[i] and o[i][-1] == 0:
                o[i].pop()
        else:
            o[i] = [2]
    return r


def choose(rng, calls, sets, num):
    """A sample in which every kind of call of every set of primes is present."""
    groups = collections.defaultdict(list)
    for c in calls:
        groups[(c["cfg"], c["op"], c["how"])].append(c)
    out = []
    is_tiny = {c["name"]: c["tiny"] for c in sets}
    for name in is_tiny:
        gs = [g for k, g in sorted(groups.items()) if k[0] == name]
        for g in gs:
            rng.shuffle(g)
        n = num["tiny" if is_tiny[name] else "real"]
        i = 0
        while n > 0 and any(gs):
            for g in gs:
                if g and n > 0:
                    out.append(g.pop())
                    n -= 1
    return out


def c17(prop, tier, seed, work):
    from check import report
    exe = build(work, "rns")
    st, ops, hows, sty = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    viol, b = [], 0
    end = time.time() + 60 * 25
    samples = []
    every, (g0, d0) = enumerate_calls(work, SETS, tier != "quick")
    log("enumerated %d calls" % len(every))
    while True:
        rng = random.Random("c17 %d %d" % (seed, b))
        calls = [dict(c) for c in (choose(rng, every, SETS, QUICK) if tier == "quick" else every)]
        if tier != "quick":
            rng.shuffle(calls)
            calls = calls[:4000]
        for i, c in enumerate(calls):
            c["num"], c["seed"] = i + 1, rng.randrange(1 << 60)
        recs = perform(work, exe, SETS, calls)
        log("performed %d calls" % len(recs))
        good = [r for r in recs if r["res"] == "ok"]
        bad = []
        for k in range(60 if good else 0):
            r = spoil(rng, rng.choice(good))
            r["num"] = 10 ** 6 + k
            bad.append(r)
        wrong, gen, dist = judge(work, recs + bad)
        log("judged")
        st["planted"] += len(bad)
        st["noticed"] += sum(r["num"] in wrong for r in bad)
        for r in recs:
            ops[r["op"]] += 1
            hows[r["how"]] += 1
            sty[r["style"]] += 1
            st["coefficients"] += len(r["co"])
            if r["num"] in wrong:
                o = {k: r[k] for k in ("cfg", "op", "lq", "lp", "alpha", "blk", "style", "how", "seed")}
                viol.append(dict(what="%s: %s: %s" % (r["cfg"], json.dumps(o), r["msg"] or ("it changed " + ", ".join(r["frame"]) if r["frame"] else "the integer relation does not hold")),
                                 site=dict(op=r["op"]), call=o, record=r, set=[c for c in SETS if c["name"] == r["cfg"]][0]))
        st["states"] += dist
        st["transitions"] += gen
        if not samples:
            samples = [{k: r[k] for k in ("cfg", "op", "lq", "lp", "alpha", "blk", "style", "how")} for r in recs[:5]]
        b += 1
        if viol or tier == "quick" or time.time() > end:
            break
    if not viol:
        if st["noticed"] < st["planted"]:
            raise Broken("self-test: %d of %d corrupted records noticed" % (st["noticed"], st["planted"]))
        for op, k in FLOOR.items():
            if ops[op] < k * 0.5:
                raise Broken("too little was exercised: %s %d times" % (op, ops[op]))
    uniq, seen = [], set()
    for v in viol:
        if v["site"]["op"] not in seen:
            seen.add(v["site"]["op"])
            uniq.append(v)
    cov = dict(states=st["states"] + d0, transitions=st["transitions"] + g0, traces_validated_against_impl=sum(ops.values()), calls_enumerated=len(every),
               calls=dict(ops), ways=dict(hows), operands=dict(sty), coefficients_judged=st["coefficients"], prime_sets=[c["name"] for c in SETS], batches=b,
               corrupted_records_planted=st["planted"], corrupted_records_noticed=st["noticed"], samples=samples)
    return report(prop, tier, seed, "model_checking", cov, uniq,
                  ["integers and quotients come with the record as certificates; TLC checks the equations they make checkable",
                   "lattigo's transforms and Montgomery conversion are trusted where an operand is given in that representation"])


NOTE = ("TLA+ specification of the conversions over integers of any size (RNS.tla on BigNat.tla): TLC enumerates the calls, the real code performs them, TLC judges every "
        "coefficient of every recorded call",
        "All levels, block widths and representations of 22 sets of primes (from 7-bit to 61-bit) are enumerated; operands are drawn per call, with the edges of every modulus "
        "preferred; every coefficient is checked exactly. Bounded to ring degree 16.", "model_checking")
