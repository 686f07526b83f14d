"""C15: fresh, non-zero noise of the configured size; C24: generic encryption and decryption."""
import collections, json, os, random, subprocess, time
import concurrent.futures as cf

from mbt import *
import keys
from keys import kc

# big enough that nothing repeats by chance
ALL = SETS = [
    kc("f32", (55, 45, 45), (58, 58), logn=7), kc("f54", (60, 30, 58, 36, 59), (60, 57, 59, 45), logn=7), kc("f42s", (40,) * 4, (41, 41), logn=7, sigma=1.5), kc("f33l", (45, 45, 45), (46, 47, 48), logn=7, sigma=8),
    kc("f12x2", (40,) * 12, (50, 50), logn=7), kc("fb22", (50, 50), (50, 50), (50, 50), 257, logn=7), kc("fb44", (50,) * 4, (56,) * 4, (50,) * 4, 65537, logn=7), kc("fb22s", (45, 45), (45, 45), (45, 45), 257, logn=7, sigma=1.5),
    kc("f32m", (55, 45, 45), (58, 58), logn=9),
]


def draw(work, sets, n, length, seed, tag="", refs=False):
    d = os.path.join(work, "freshgen" + tag)
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", [dict(name=c["name"], maxlev=len(c["qb"]) - 1, bfv=c["t"] > 0) for c in sets])
    write_lines(d + "/prof", [dict(len=length, refs=refs)])
    out = tlc(work, "FreshGen", SPEC_CFG, env=dict(CFGS=d + "/cfgs", PROF=d + "/prof"), args=["-simulate", "num=%d" % n, "-depth", "1000", "-seed", str(seed)], heap="2g", tag=tag)
    hs = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')]
    if len(hs) < n:
        raise Broken("%d of %d histories drawn:\n%s" % (len(hs), n, out[-3000:]))
    return hs, tlc_counts(out)[0]


def histories(work, prop, seed, tier):
    big = tier != "quick"
    per, length = ((20, 30) if not big else (40, 40)) if prop == "C24" else ((4, 30) if not big else (6, 30))
    with cf.ThreadPoolExecutor(CORES) as ex:
        # long chains make many references: C24 only
        SETS = [c for c in ALL if prop == "C24" or len(c["qb"]) < 10]
        fs = [ex.submit(draw, work, [c], per, length, seed * 100 + i, "-%d" % i) for i, c in enumerate(SETS)]
        ks = [] if prop == "C24" else [ex.submit(keys.draw, work, [c], 1 if not big else 3, 24, seed * 100 + 50 + i, "-f%d" % i) for i, c in enumerate(SETS)]
        if prop == "C15":               # many secrets of every kind
            ks += [ex.submit(keys.draw, work, [c], 1, 60 if c["logn"] < 8 else 20, seed * 100 + 70 + i, "-s%d" % i, True) for i, c in enumerate(SETS)]
        enc = [h for f in fs for h in f.result()[0]]
        key = [h for f in ks for h in f.result()[0]]
        st = sum(f.result()[1] for f in fs + ks)
    rng = random.Random("fresh %s %d" % (prop, seed))
    for i, h in enumerate(key + enc):
        h["w"] = i + 1
        h["seed"] = rng.randrange(1 << 60)
    return key, enc, st


def perform(work, exe, key, enc):
    d = os.path.join(work, "freshrun")
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", SETS)


    def part(k):                        # two processes: what they draw is fresh all the same
        write_lines(d + "/key%d" % k, key[k::2])
        write_lines(d + "/enc%d" % k, enc[k::2])
        drive([exe, "-cfgs", d + "/cfgs", "-in", d + "/key%d" % k, "-enc", d + "/enc%d" % k, "-m", "-out", d + "/rec%d" % k, "-j", str(CORES // 2)])
        return [json.loads(l.replace(":null", ":[]")) for l in open(d + "/rec%d.events" % k)]

    with cf.ThreadPoolExecutor(2) as ex:
        ev = [e for es in ex.map(part, range(2)) for e in es]
    for i, e in enumerate(ev):
        e["num"] = i + 1
    return ev


def together(work, exe, enc, threads, tag=""):
    """Every history in several threads at once: the events, and the reports of the race detector."""
    d = os.path.join(work, "freshpar" + tag)
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", SETS)
    write_lines(d + "/key", [])
    write_lines(d + "/enc", enc)
    drive([exe, "-cfgs", d + "/cfgs", "-in", d + "/key", "-enc", d + "/enc", "-par", str(threads), "-out", d + "/rec"])
    ev = [json.loads(l.replace(":null", ":[]")) for l in open(d + "/rec.events")]
    for i, e in enumerate(ev):
        e["num"] = i + 1
    return ev, [json.loads(l) for l in open(d + "/rec.races")]


FIELDS = dict(vec="k cls p hw sig v same pool", ref="k fp cnt hi pool", enc="k n sig pl cl cn res lev ntt ids need frame v same", dec="k n sig pl cl pn res lev ntt need keys frame v same", pdec="k n sig id cl cn res lev ntt ids need frame v same")


def judge(work, prop, ev, tag=""):
    d = os.path.join(work, "freshval" + tag)
    os.makedirs(d, exist_ok=True)
    keep = {"C14": ("ref",), "C15": ("vec", "ref"), "C24": ("enc", "dec", "pdec"), "C07": ("enc", "dec", "pdec")}[prop]
    mine = [{**{f: e[f] for f in FIELDS[e["k"]].split()}, "num": e["num"]} for e in ev if e["k"] in keep]
    write_lines(d + "/ev", mine)
    out = tlc(work, "Fresh", SPEC_CFG, env=dict(EVENTS=d + "/ev", PROP=prop), workers=1, heap="8g", tag=tag)
    bad = {json.loads(json.loads(l)[4:])["n"] for l in out.splitlines() if l.startswith('"BAD ')}
    pools = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"POOL ')]
    done = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"DONE ')]
    if not tlc_ok(out) or not done:
        raise Broken("TLC failed on the events:\n" + out[-3000:])
    return bad, pools, done[0], tlc_counts(out)


def spoil(rng, e, ev):
    """A wrong copy of an event."""
    e = json.loads(json.dumps(e))
    if e["k"] == "vec":
        k = rng.choice(["zero", "same", "size", "repeat", "negate"] if e["v"] else ["same"])
        if k == "zero":
            e["v"] = [0] * len(e["v"])
        elif k == "same":
            e["same"] = False
        elif k == "size":
            e["v"][rng.randrange(len(e["v"]))] = rng.choice([-1, 1]) * (2 if e["cls"] != "gauss" else 6 * e["sig"] // 10 + 1)
        elif k == "negate" and not (e["cls"] == "sparse" and e["hw"] < 24):
            e["v"] = [-x for x in e["v"]]
        elif e["cls"] == "sparse" and e["hw"] < 24:
            e["hw"] += 1
    elif e["k"] == "ref":
        pass
    else:
        ks = ["res", "frame"] + (["lev", "same", "ntt"] + (["noise"] if e["v"] else []) if e["res"] == "ok" else []) + (["ids"] if e["res"] == "ok" and e["k"] != "dec" else [])
        k = rng.choice(ks)
        if k == "res":
            e["res"] = "refused" if e["res"] == "ok" else "ok"
        elif k == "frame":
            e["frame"] = ["the plaintext"]
        elif k == "lev":
            e["lev"] += 1
        elif k == "noise":
            e["v"][rng.randrange(len(e["v"]))] = rng.choice([-1, 1]) * 10 ** 6
        elif k == "same":
            e["same"] = False
        elif k == "ntt":
            e["ntt"] = not e["ntt"]
        else:
            e["ids"] = e["ids"] + ["x"]
    e["pool"] = ""
    return e


def run(prop, tier, seed, work):
    from check import report
    exe = build(work, "keys")
    st, kinds, vias, per = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    viol, b, samples, stat = [], 0, [], {}
    end = time.time() + 60 * 25
    while True:
        s = seed * 1000 + b
        rng = random.Random("fresh %s %d" % (prop, s))
        key, enc, g0 = histories(work, prop, s, tier)
        log("drew %d histories" % len(key + enc))
        ev = perform(work, exe, key, enc)
        log("performed: %d events" % len(ev))
        want = ("vec", "ref") if prop == "C15" else ("enc", "dec", "pdec")
        pool = [e for e in ev if e["k"] in want]
        bad = []
        for k in range(60 if pool else 0):
            e = spoil(rng, rng.choice([e for e in pool if e["k"] == rng.choice(want)] or pool), ev)
            e["num"] = 10 ** 7 + k
            bad.append(e)
        with cf.ThreadPoolExecutor(2) as ex:            # copies apart from the record: they repeat its values
            f1 = ex.submit(judge, work, prop, ev)
            f2 = ex.submit(judge, work, prop, (ev if len(ev) < 3000 else [e for e in ev if e["k"] == "ref" or e["num"] % 3 == 0]) + bad, "-bad") if prop == "C24" else None
            wrong, pools, done, (gen, dist) = f1.result()
            noticed = f2.result()[0] if f2 else None
        if prop == "C15":
            # the original of every corrupted copy, and the copies
            orig = [e for e in pool if e["num"] <= 2000]
            noticed = judge(work, prop, pool + bad, "-bad")[0]
        log("judged")
        st["planted"] += len(bad)
        st["noticed"] += sum(e["num"] in noticed for e in bad)
        st["states"] += dist + g0
        st["transitions"] += gen + g0
        cfgof = {h["w"]: h for h in key + enc}
        for e in pool:
            kinds[e["pool"] if e["k"] == "vec" else e["k"] if e["k"] == "ref" or e["res"] == "ok" else e["k"] + " refused"] += 1
            per[e["cfg"]] += 1
            if e["k"] in ("enc",):
                vias[cfgof[e["w"]]["ops"][e["at"] - 1]["via"]] += 1
            if e["num"] in wrong:
                h = cfgof[e["w"]]
                o = h["ops"][e["at"] - 1] if e["at"] else "the references"
                viol.append(dict(what="%s, history %d, step %d (%s): %s" % (e["cfg"], e["w"], e["at"], json.dumps(o),
                                      ("%s repeats an earlier value, is zero, exceeds its bound or differs between primes" % (e["pool"],)) if prop == "C15" else
                                      e["msg"] or ("it changed " + ", ".join(e["frame"]) if e["frame"] else "the result, its level or representation, or its noise is wrong")),
                                 site=dict(kind=e["pool"] if prop == "C15" else e["k"]), history=h, event=e))
        for p in pools:
            viol.append(dict(what="the samples %r do not have the configured distribution: %s" % (p["pool"], json.dumps(p["s"])), site=dict(kind="distribution of " + p["pool"]), statistics=p))
        if not samples:
            samples = [dict(cfg=h["cfg"], ops=h["ops"][:3]) for h in (key + enc)[:5]]
            for e in pool:
                if e["k"] == "vec" and e["cls"] == "gauss":
                    x = stat.setdefault(e["pool"], [0, 0])
                    x[0] += len(e["v"])
                    x[1] += sum(y * y for y in e["v"])
        b += 1
        if viol or tier == "quick" or time.time() > end:
            break
    if not viol:
        if st["noticed"] < st["planted"] or not st["planted"]:
            raise Broken("self-test: %d of %d corrupted events noticed" % (st["noticed"], st["planted"]))
        low = [k for k in (("ref", "secret key", "key pk 32", "key b 32", "key rot 32", "key cjk 32", "encryption secret", "encryption noise 0 32") if prop == "C15" else ("enc", "dec", "pdec", "dec refused")) if kinds[k] < 3]
        if low:
            raise Broken("too little was exercised: %s" % dict(kinds))
    uniq, seen = [], set()
    for v in viol:
        if v["site"]["kind"] not in seen:
            seen.add(v["site"]["kind"])
            uniq.append(v)
    cov = dict(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(key + enc) * b, events=dict(kinds), parameter_sets=dict(per), batches=b,
               corrupted_events_planted=st["planted"], corrupted_events_noticed=st["noticed"], samples=samples)
    if prop == "C15":
        cov["standard_deviations"] = {k: [n, round((q / n) ** 0.5, 3)] for k, (n, q) in sorted(stat.items())}
    else:
        cov["ways"] = dict(vias)
    return report(prop, tier, seed, "model_checking", cov, uniq, [
        "the driver measures samples: encryption randomness through a public key made of the constant 2^20, key noise by the relations C21 checks",
        "lattigo's transforms, encoders and samplers are trusted"] if prop == "C15" else ["plaintexts made by lattigo's encoder are taken as given"])


def references(seed, tier, work):
    """C14: references for different amounts, in different parameters and processes, are independent of each other."""
    exe = build(work, "keys")
    sets = [c for c in ALL if len(c["qb"]) < 10 and c["logn"] < 8]
    n = 4 if tier == "quick" else 20
    with cf.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(lambda i: draw(work, [sets[i]], n, 12, seed * 100 + i, "-r%d" % i, True), range(len(sets))))
    hs = [h for r in rs for h in r[0]]
    for i, h in enumerate(hs):
        h["w"], h["seed"] = i + 1, i
    ev = [e for e in perform(work, exe, [], hs) if e["k"] == "ref"]
    wrong, pools, done, (gen, dist) = judge(work, "C14", ev, "-refs")
    copies = [dict(e, num=10 ** 7 + k, pool="") for k, e in enumerate(random.Random(seed).sample(ev, 20))]
    noticed = judge(work, "C14", ev + copies, "-refsbad")[0]
    if not wrong and (len(ev) < 2000 or not {e["num"] for e in copies} <= noticed):
        raise Broken("references: %d recorded, %d of 20 repeated ones noticed" % (len(ev), len([e for e in copies if e["num"] in noticed])))
    by = {h["w"]: h for h in hs}
    viol = [dict(what="%s, history %d, step %d: a reference repeats one for another amount or in other parameters" % (e["cfg"], e["w"], e["at"]),
                 site=dict(kind="repeated reference"), history=by[e["w"]], event=e) for e in ev if e["num"] in wrong]
    viol += [dict(what="the references are not uniform: " + json.dumps(p["s"]), site=dict(kind="distribution of references"), statistics=p) for p in pools]
    return viol[:1], dict(histories=len(hs), rows_of_references=len(ev), repeated_rows_planted=20, repeated_rows_noticed=20, states=dist + sum(r[1] for r in rs), transitions=gen + sum(r[1] for r in rs))


def frames(seed, tier, work):
    """C07: what generic encryption and decryption, in any representation, change besides their results."""
    exe = build(work, "keys")
    sets = [c for c in ALL if c["logn"] < 8]
    n = 5 if tier == "quick" else 25
    with cf.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(lambda i: draw(work, [sets[i]], n, 30, seed * 100 + i, "-c%d" % i), range(len(sets))))
    hs = [h for r in rs for h in r[0]]
    rng = random.Random("frames %d" % seed)
    for i, h in enumerate(hs):
        h["w"], h["seed"] = i + 1, rng.randrange(1 << 60)
    ev = [e for e in perform(work, exe, [], hs) if e["k"] in ("enc", "dec", "pdec")]
    bad = [dict(e, num=10 ** 7 + k, frame=["made up"]) for k, e in enumerate(rng.sample(ev, 20))]
    wrong, _, _, (gen, dist) = judge(work, "C07", ev + bad, "-frames")
    if not {e["num"] for e in bad} <= wrong:
        raise Broken("self-test: made up changes were not noticed")
    by = {h["w"]: h for h in hs}
    viol = [dict(what="%s, history %d, step %d (%s): it changed %s" % (e["cfg"], e["w"], e["at"], json.dumps(by[e["w"]]["ops"][e["at"] - 1]), ", ".join(e["frame"])),
                 site=dict(kind="generic " + e["k"]), history=by[e["w"]], event=e) for e in ev if e["num"] in wrong]
    cnt = collections.Counter(e["k"] for e in ev)
    if not viol and min(cnt[k] for k in ("enc", "dec", "pdec")) < 50:
        raise Broken("too little was exercised: %s" % dict(cnt))
    return viol[:1], dict(histories=len(hs), events=dict(cnt), states=dist + sum(r[1] for r in rs), transitions=gen + sum(r[1] for r in rs))


def c15(prop, tier, seed, work):
    return run("C15", tier, seed, work)


def c24(prop, tier, seed, work):
    return run("C24", tier, seed, work)


NOTE15 = ("TLA+ machine over histories of random draws (Fresh.tla): TLC draws histories of key generations, references and encryptions, the real code performs them, TLC checks that no "
          "value was drawn before, each sample's bounds, and the statistics of every kind of sample",
          "Ring degrees 128 and 512, three noise sizes, both schemes, three encryptors and two key generators per history. The statistical tests have seven standard deviations of room.", "model_checking")
NOTE24 = ("TLA+ specification of generic encryption and decryption (FreshGen.tla, Fresh.tla): TLC draws histories over representations, levels, reuse and contexts, the real code performs "
          "them, TLC judges level, representation, parties, refusals, frames and noise of every result",
          "Ring degrees 128 and 512; noise is judged against the worst case of truncated noise.", "model_checking")
