"""C21: the defining relations of generated keys (and the histories of key generations C15 also uses)."""
import collections, json, os, random, subprocess, time
import concurrent.futures as cf

from mbt import *


def kc(name, qb, pb, qmb=(), t=0, logn=4, sigma=3.2):
    return dict(name=name, logn=logn, qb=list(qb), pb=list(pb), qmb=list(qmb), nm=len(qmb), t=t, sigma=sigma)


SETS = [
    kc("c32", (55, 45, 45), (58, 58)), kc("c54", (60, 30, 58, 36, 59), (60, 57, 59, 45)), kc("c33", (45, 45, 45), (46, 47, 48)), kc("c46", (58,) * 4, (60,) * 6), kc("c12", (50,), (55, 55)),
    kc("c42s", (40,) * 4, (41, 41), sigma=1.5), kc("c32n", (50, 40, 40), (50, 50), logn=5), kc("c22t", (20, 21), (22, 23)), kc("c12x2", (30,) * 12, (31, 31)), kc("c18t", (20,) * 17, (22, 22)),
    kc("b22", (50, 50), (50, 50), (50, 50), 257), kc("b44", (50,) * 4, (56,) * 4, (50,) * 4, 65537), kc("b42", (58, 40, 50, 45), (59, 58), (58, 40, 50, 45), 97), kc("b6x2", (40,) * 6, (41, 41), (40,) * 6, 97), kc("b22n", (45, 45), (45, 45), (45, 45), 257, logn=5),
]
KINDS = ("sk", "pk", "b", "d", "v", "rot", "cjk", "swk", "b1", "b2", "d1", "d2", "s1", "s2")


def draw(work, sets, n, length, seed, tag="", secrets=False):
    d = os.path.join(work, "keysgen" + tag)
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", [{k: c[k] for k in ("name", "logn", "nm")} for c in sets])
    write_lines(d + "/prof", [dict(len=length, secrets=secrets)])
    out = tlc(work, "KeysGen", SPEC_CFG, env=dict(CFGS=d + "/cfgs", PROF=d + "/prof"), args=["-simulate", "num=%d" % n, "-depth", "1000", "-seed", str(seed)], heap="2g", tag=tag)
    hs = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')]
    if len(hs) < n:
        raise Broken("%d of %d histories drawn:\n%s" % (len(hs), n, out[-3000:]))
    return hs, tlc_counts(out)[0]


def histories(work, per, length, seed):
    """The same number of histories for every set of parameters."""
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(draw, work, [c], per, length, seed * 100 + i, "-%d" % i) for i, c in enumerate(SETS)]
        rs = [f.result() for f in fs]
    hs = [h for r in rs for h in r[0]]
    for i, h in enumerate(hs):
        h["w"] = i + 1
    return hs, sum(r[1] for r in rs)


def perform(work, exe, hs):
    d = os.path.join(work, "keysrun")
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", SETS)
    write_lines(d + "/hists", hs)
    drive([exe, "-cfgs", d + "/cfgs", "-in", d + "/hists", "-out", d + "/rec", "-j", str(CORES)])
    rd = lambda f: [json.loads(l.replace(":null", ":[]")) for l in open(d + f)]
    worlds, cases = rd("/rec.worlds"), rd("/rec.cases")
    if len(worlds) != len(hs):
        raise Broken("%d of %d histories were recorded" % (len(worlds), len(hs)))
    cases.sort(key=lambda c: (c["w"], c["at"]))
    for i, c in enumerate(cases):
        c["num"] = i + 1
    return worlds, cases


def judge(work, worlds, cases, tag=""):
    d = os.path.join(work, "keysval" + tag)
    os.makedirs(d, exist_ok=True)
    size = lambda c: len(json.dumps(c["rows"]))
    by = collections.defaultdict(list)
    for c in cases:
        by[c["w"]].append(c)
    shards, load = [[] for _ in range(CORES)], [0] * CORES
    for w in sorted(by, key=lambda w: -sum(map(size, by[w]))):
        k = load.index(min(load))
        shards[k].append(w)
        load[k] += sum(map(size, by[w]))

    def one(k):
        mine = [c for w in shards[k] for c in by[w]]
        if not mine:
            return set(), 0, 0
        write_lines(d + "/w%d" % k, [w for w in worlds if w["w"] in shards[k]])
        write_lines(d + "/c%d" % k, mine)
        out = tlc(work, "Keys", SPEC_CFG, env=dict(WORLDS=d + "/w%d" % k, CASES=d + "/c%d" % k), workers=1, heap="3g", tag="%s-%d" % (tag, k))
        bad = {json.loads(json.loads(l)[4:])["n"] for l in out.splitlines() if l.startswith('"BAD ')}
        g, s = tlc_counts(out)
        if not tlc_ok(out) or s < 2 * len(mine):
            raise Broken("TLC failed on the keys:\n" + out[-3000:])
        return bad, g, s

    with cf.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(one, range(CORES)))
    return set().union(*(r[0] for r in rs)), sum(r[1] for r in rs), sum(r[2] for r in rs)


def spoil(rng, c):
    c = json.loads(json.dumps(c))
    ks = ["res", "frame", "tag"] + (["key", "key", "key", "e", "noise"] if c["rows"] else []) + (["s"] if c["s"] else []) + (["gad"] if c["gad"] else [])
    k = rng.choice(ks)
    if k == "res":
        c["res"] = "refused"
    elif k == "frame":
        c["frame"] = ["reference 0"]
    elif k == "tag":
        c["tagid"] += "x"
    elif k == "s":
        i = rng.randrange(len(c["s"]))
        c["s"][i] = c["s"][i] + 2 if c["s"][i] <= 0 else c["s"][i] - 2
    elif k == "gad":
        g = rng.choice(c["gad"])
        g[rng.choice(["g", "ti"])][0] ^= 1
    else:
        row = rng.choice(c["rows"])
        if k == "key":
            v = rng.choice(rng.choice(row["key"]))
            if v:
                v[0] = v[0] ^ (1 << rng.randrange(12))
                while v and v[-1] == 0:
                    v.pop()
            else:
                v.append(1)
        elif k == "e":
            row["e"][rng.randrange(len(row["e"]))] += rng.choice([-1, 1])
        else:
            row["e"] = [0] * len(row["e"])
    return c


def c21(prop, tier, seed, work):
    from check import report
    exe = build(work, "keys")
    st, kinds, per, hows = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    viol, b, samples = [], 0, []
    end = time.time() + 60 * 25
    while True:
        rng = random.Random("c21 %d %d" % (seed, b))
        hs, g0 = histories(work, 2 if tier == "quick" else 10, 14 if tier == "quick" else 30, seed * 1000 + b)
        log("drew %d histories" % len(hs))
        worlds, cases = perform(work, exe, hs)
        log("performed: %d keys" % len(cases))
        bad = []
        good = [c for c in cases if c["res"] == "ok" and len(c["rows"]) < 4]
        for k in range(60 if good else 0):
            c = spoil(rng, rng.choice(good))
            c["num"] = 10 ** 6 + k
            bad.append(c)
        wrong, gen, dist = judge(work, worlds, cases + bad)
        log("judged")
        st["planted"] += len(bad)
        st["noticed"] += sum(c["num"] in wrong for c in bad)
        st["states"] += dist + g0
        st["transitions"] += gen + g0
        hist = {h["w"]: h for h in hs}
        for c in cases:
            st[c["res"]] += 1
            if c["res"] == "ok":
                kinds[c["kind"]] += 1
                st["rows"] += len(c["rows"])
                st["coefficients"] += sum(len(p) for r in c["rows"] for p in r["key"])
                if c["kind"] == "sk":
                    hows[c["how"]] += 1
            per[hist[c["w"]]["cfg"]] += 1
            if c["num"] in wrong:
                viol.append(dict(what="%s: operation %d of history %d: %s of %r: %s" % (hist[c["w"]]["cfg"], c["at"], c["w"], c["kind"], c["id"], (c["msg"] or "refused") if c["res"] != "ok" else
                                      "it changed " + ", ".join(c["frame"]) if c["frame"] else "its defining relation, its tag or its noise is wrong"),
                                 site=dict(kind=c["kind"]), history=hist[c["w"]], record=c))
        if not samples:
            samples = [dict(cfg=h["cfg"], ops=h["ops"][:4]) for h in hs[:4]]
        b += 1
        if viol or tier == "quick" or time.time() > end:
            break
    if not viol:
        if st["noticed"] < st["planted"] or not st["planted"]:
            raise Broken("self-test: %d of %d corrupted records noticed" % (st["noticed"], st["planted"]))
        low = {k: kinds[k] for k in KINDS if kinds[k] < 1 and k not in ("s1", "s2")}
        if low or sum(kinds.values()) < 150:
            raise Broken("too little was exercised: %s" % dict(kinds))
    uniq, seen = [], set()
    for v in viol:
        if v["site"]["kind"] not in seen:
            seen.add(v["site"]["kind"])
            uniq.append(v)
    cov = dict(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(hs) * b, keys=dict(kinds), refused=st["refused"], secrets=dict(hows), key_rows=st["rows"],
               coefficients_judged=st["coefficients"], parameter_sets=dict(per), batches=b, corrupted_records_planted=st["planted"], corrupted_records_noticed=st["noticed"], samples=samples)
    return report(prop, tier, seed, "model_checking", cov, uniq,
                  ["secrets and noise come with the record as integers; TLC checks the relations that tie them to the key modulo every prime",
                   "lattigo's transforms and Montgomery conversion are trusted to bring keys and references to coefficients"])


NOTE = ("TLA+ specification of the defining relation of every kind of key (Keys.tla on BigNat.tla): TLC draws histories of key generations, the real code performs them, TLC checks the "
        "relation in every coefficient of every row modulo every prime",
        "12 sets of parameters (ring degrees 8 to 32, one to three primes per row, ragged rows, odd numbers of special primes, both schemes); histories with two generators, several parties, "
        "secrets of every distribution, added references, and refused amounts.", "model_checking")
