"""C19: the layers of the encrypted neural network."""
import collections, json, os, random, subprocess, time
import concurrent.futures as cf

from mbt import *
from cfgs import ckks

def net(name, logn, logslots=None, qb=(55, 45, 45, 45), pb=(58, 58), vmax=1 << 17, **kw):
    c = ckks(name, logn=logn, qb=qb, pb=pb, sb=45, logslots=logslots, **kw)
    c["vmax"] = vmax
    return c

DEEP = (55,) + (45,) * 6
SMALL = [net("n16", 4), net("n16h", 4, 2), net("n16a2", 4, pb=(58,) * 4), net("n16d", 4, qb=DEEP), net("n32", 5), net("n32h", 5, 3), net("n64", 6), net("n64d", 6, qb=DEEP),
         net("n128", 7), net("n512", 9), net("n512h", 9, 5), net("n512d", 9, qb=DEEP)]
LARGE = [net("n8192", 13), net("n4096", 12)]
HUGE = [net("n16384", 14)]
LAYERS = ["conv", "fc1", "fc2"]


def draw(work, cfgs, n, seed, layers=LAYERS, tag="", diags=(1, 9)):
    d = os.path.join(work, "cnngen" + tag)
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", cfgs)
    write_lines(d + "/prof", [dict(layers=layers, diags=list(diags), telling=len(cfgs) == 1)])
    out = tlc(work, "CNNGen", SPEC_CFG, env=dict(CFGS=d + "/cfgs", PROF=d + "/prof"), args=["-simulate", "num=%d" % n, "-depth", "5", "-seed", str(seed)], heap="3g", tag=tag)
    cases = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"CASE ')]
    if len(cases) < n:
        raise Broken("%d of %d cases drawn:\n%s" % (len(cases), n, out[-3000:]))
    return cases, tlc_counts(out)[0]


def perform(work, exe, cfgs, cases):
    d = os.path.join(work, "cnnrun")
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", cfgs)
    write_lines(d + "/cases", cases)
    drive([exe, "-cfgs", d + "/cfgs", "-in", d + "/cases", "-out", d + "/rec", "-j", str(CORES)])
    recs = [json.loads(l.replace(":null", ":[]")) for l in open(d + "/rec")]
    if len(recs) != len(cases):
        raise Broken("%d of %d cases were recorded" % (len(recs), len(cases)))
    return recs


def judge(work, cfgs, recs):
    d = os.path.join(work, "cnnval")
    os.makedirs(d, exist_ok=True)
    write_lines(d + "/cfgs", cfgs)
    recs = sorted(recs, key=lambda r: -len(r["v"]) * (len(r["ms"]) + 10))
    shards = [recs[k::CORES] for k in range(CORES)]

    def one(k):
        if not shards[k]:
            return {}, (0, 0)
        write_lines(d + "/c%d" % k, shards[k])
        out = tlc(work, "CNNJudge", SPEC_CFG, env=dict(CFGS=d + "/cfgs", CASES=d + "/c%d" % k), workers=1, heap="3g", tag="-%d" % k)
        v = dict(json.loads(json.loads(l)[8:]) for l in out.splitlines() if l.startswith('"VERDICT '))
        if not tlc_ok(out) or len(v) < len(shards[k]):
            raise Broken("TLC failed on the records:\n" + out[-3000:])
        return v, tlc_counts(out)

    with cf.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(one, range(CORES)))
    verdict = {}
    for v, _ in rs:
        verdict.update(v)
    return verdict, sum(c[0] for _, c in rs), sum(c[1] for _, c in rs)


def design(work, tier, seed):
    """The layers composed of the operations of MKHE.tla compute the same functions."""
    d = os.path.join(work, "cnndes")
    os.makedirs(d, exist_ok=True)
    # the design is about values and parties: noise is made small enough to determine every slot
    cfgs = [dict(net(*a), db=60, fb=1, rb=1, ksb=1, ksr=1) for a in (("d16", 4), ("d16h", 4, 2), ("d32", 5))]
    write_lines(d + "/cfgs", cfgs)
    n = 40 if tier == "quick" else 1000
    out = tlc(work, "CNNDesign", "SPECIFICATION Spec\nINVARIANT Computes\nCHECK_DEADLOCK FALSE\n", env=dict(CFGS=d + "/cfgs"),
              args=["-simulate", "num=%d" % n, "-depth", "5", "-seed", str(seed)], heap="3g", workers=2)
    if not tlc_ok(out):
        raise Broken("the layers composed of the specified operations do not compute the specified functions:\n" + out[-3000:])
    return dict(behaviours=n, states=tlc_counts(out)[0])


def spoil(rng, r):
    r = json.loads(json.dumps(r))
    k = rng.choice(["out", "out", "ids", "frame", "res", "err"])
    if k == "out":
        o = rng.choice(r["outs"])
        o[rng.randrange(len(o))][rng.randrange(2)] += rng.choice([-1, 1])
    elif k == "ids":
        rng.choice(r["ids"]).append("p9")
    elif k == "frame":
        r["frame"] = ["v"]
    elif k == "err":
        r["nano"] = (50000000 if r["layer"] == "net" else 100000) + rng.randrange(10 ** 8)
    else:
        r["res"] = "failed"
    return r


def c19(prop, tier, seed, work):
    from check import report
    cfgs = SMALL + LARGE + (HUGE if tier != "quick" else [])
    st, lay, per, own = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    viol, b, worst = [], 0, 0.0
    end = time.time() + 60 * 25
    samples = []
    while True:
        s = seed * 100000 + b * 1000 + 17
        with cf.ThreadPoolExecutor(CORES) as ex:
            fs = [ex.submit(draw, work, SMALL, 40 if tier == "quick" else 100, s + k, LAYERS, "-s%d" % k, (1, 20) if k == 3 else (1, 9)) for k in range(4)]
            fs += [ex.submit(draw, work, [c], 1, s + 50 + i * 10 + k, [l], "-l%d%d" % (i, k), (8, 9)) for i, c in enumerate(LARGE + (HUGE if tier != "quick" else [])) for k, l in enumerate(LAYERS)]
            fs += [ex.submit(draw, work, [LARGE[1]], 3, s + 90, ["fc1"], "-many", (10, 16))]
            fd = ex.submit(design, work, tier, s) if b == 0 else None
            fb = ex.submit(build, work, "cnn") if b == 0 else None
            cases = []
            for f in fs:
                c, g = f.result()
                cases += c
                st["states"] += g
            if b == 0:
                des, exe = fd.result(), fb.result()
        for i, c in enumerate(cases):
            c["num"] = i + 1
        log("drew %d cases" % len(cases))
        recs = perform(work, exe, cfgs, cases)
        log("evaluated %d" % len(recs))
        rng = random.Random(s)
        small = [r for r in recs if len(r["v"]) <= 64 and r["res"] == "ok"]
        bad = []
        for k in range(40 if small else 0):
            r = spoil(rng, rng.choice(small))
            r["num"] = 10 ** 6 + k
            bad.append(r)
        verdict, gen, dist = judge(work, cfgs, recs + bad)
        log("judged")
        st["states"] += dist
        st["transitions"] += gen
        for r in bad:
            if verdict[r["num"]] != "skipped":
                st["planted"] += 1
                st["noticed"] += verdict[r["num"]] == "wrong"
        for r in recs:
            v = verdict[r["num"]]
            st[v] += 1
            if v == "skipped":
                continue
            lay[r["layer"]] += 1
            per[r["cfg"]] += 1
            worst = max(worst, r["err"])
            own[len({r["pv"], *r["pks"], *r["pms"], r["pb1"], r["pm2"], r["pb2"]})] += 1
            if v == "wrong":
                o = {k: r[k] for k in ("cfg", "layer", "pv", "pks", "pms", "pb1", "pm2", "pb2", "neg", "dropv", "dropm", "again")}
                viol.append(dict(what="%s: %s" % (json.dumps(o), r["msg"] or ("it changed " + ", ".join(r["frame"]) if r["frame"] else "the slots or the parties are not those of the plaintext computation")),
                                 site=dict(layer=r["layer"]), record=r))
        if not samples:
            samples = [dict(cfg=r["cfg"], layer=r["layer"], out=r["outs"][0][:4] if r["outs"] else None) for r in recs[:4]]
        b += 1
        if viol or tier == "quick" or time.time() > end:
            break
    if not viol:
        if st["noticed"] < st["planted"] or st["planted"] == 0:
            raise Broken("self-test: %d of %d corrupted records noticed" % (st["noticed"], st["planted"]))
        for l, k in dict(conv=25, fc1=25, fc2=25, net=8).items():
            if lay[l] < k:
                raise Broken("too little was exercised: %s %d times" % (l, lay[l]))
    uniq, seen = [], set()
    for v in viol:
        if v["site"]["layer"] not in seen:
            seen.add(v["site"]["layer"])
            uniq.append(v)
    cov = dict(states=st["states"], transitions=st["transitions"] + st["states"], traces_validated_against_impl=sum(lay.values()), layers=dict(lay), configurations=dict(per),
               distinct_owners=dict(own), not_determined=st["skipped"], largest_distance_from_an_integer=worst, design_model=des, batches=b,
               corrupted_records_planted=st["planted"], corrupted_records_noticed=st["noticed"], samples=samples)
    return report(prop, tier, seed, "model_checking", cov, uniq,
                  ["results are compared after rounding to integers, with scales and data that keep the error far below one half",
                   "small rings wrap the layers' fixed rotation amounts around; the rings of 4096 and 8192 (thorough: 16384) coefficients run them as in the application"])


NOTE = ("TLA+ specification of the layers as functions on slots (CNN.tla); TLC checks that their composition from the operations of MKHE.tla computes these functions, draws cases, "
        "and judges every slot of what the real layers returned",
        "Data, owners, number of diagonals, levels, references and repetition are drawn by TLC; rings from 16 to 8192 (thorough: 16384) coefficients.", "model_checking")
