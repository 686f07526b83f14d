"""What every check explores: campaigns of random programs generated from spec/Gen.tla."""

NAMES = ["a", "bob", "user0", "00", "1", "-1", "", " ", "0 ", "user 1", "A", "O"]

CK = ["c16", "c16deep", "c16half", "c16one", "c32", "c64", "c16a2", "c16a2x", "c16a3", "c16a3y", "c16p3", "c16p5", "c16a4",
      "c16a5", "c16mix", "c16s30", "c16s45", "c128", "c16two", "c16onep", "c16q55", "c16lo"]
BF = ["b16", "b16deep", "b32", "b16t97", "b16t64k", "b16a2", "b16a2s", "b16a3", "b16a3s", "b16p3", "b16mix", "b64per",
      "b64blk", "b16big", "b16big40"]
CKS = ["c16", "c16deep", "c16half", "c16lo", "c32", "c16a2x", "c16mix", "c16a3", "c64"]
BFS = ["b16", "b16deep", "b32", "b16a2", "b16mix", "b64per", "b16t64k"]
BIG = ["c512", "b512per"]


def prof(w, **kw):
    d = dict(names=NAMES, gctx=3, nx=2, regs=1, recrs=0, mscale=1, len=32, p0=[1, 2, 3], c0=3, enc0=["enc"], pref=30, pbad=4, wide=0, bigc=5, oddc=0, thr=0, tlen=0, wt=[],
             w=[[k, v] for k, v in w.items()])
    d.update(kw)
    d["wt"] = [[k, v] for k, v in dict(d["wt"]).items()]
    return d


# (profile, configurations, programs in the quick tier)
ENC = dict(enc=8, encode=3, reenc=1, encpt=4, zero=1)
ADD = dict(add=6, sub=6)
CAMPAIGNS = {
    "C01": [
        (prof(dict(gensk=4, genpk=4, enc=12, encode=6, reenc=3, encpt=8, encinto=6, dec=8, join=2, drop=1, add=1, renew=1), c0=1, len=34), CK, 110),
        (prof(dict(gensk=4, genpk=4, enc=12, encode=6, reenc=3, encpt=8, encinto=6, dec=8, join=2, add=1, renew=1), c0=1, len=34), BF, 90),
    ],
    "C02": [
        (prof(dict(add=20, sub=20, enc=6, zero=3, drop=4, dropin=1, encode=3, reenc=1, encpt=4, cmul=3, mul=3, resc=2, rot=2, copy=2, pad=3, pdec=2, dec=2, join=1), c0=4), CK, 120),
        (prof(dict(add=20, sub=20, enc=6, zero=3, mul=3, rot=2, conj=1, copy=2, pad=3, pdec=2, dec=2, join=1, encode=1, reenc=1, encpt=1), c0=4), BF, 90),
    ],
    "C03": [
        (prof(dict(mul=24, mulks=5, enc=6, add=4, sub=3, drop=4, rot=3, conj=2, cmul=2, encode=2, reenc=1, encpt=2, zero=1, copy=3, pad=2, dec=1, join=1, resc=1), c0=4, len=26), CK, 120),
        (prof(dict(mul=20, mulks=5, enc=6, add=4, sub=3, rot=3, conj=2, zero=1, copy=3, pad=2, dec=1, join=1), c0=4, len=24), BF, 110),
    ],
    "C04": [
        (prof(dict(rot=26, enc=4, drop=5, add=3, mul=2, conj=1, addcrs=6, genrot=9, regrot=8, zero=1, pad=1, encpt=2, encode=1, reenc=1, join=1, renew=1, dec=1, cmul=1, resc=1), c0=3, len=40), CK, 110),
        (prof(dict(rot=26, enc=4, add=3, mul=2, conj=1, addcrs=6, genrot=9, regrot=8, zero=1, pad=1, join=1, renew=1, dec=1), c0=3, len=40), BF + ["b512per"], 90),
    ],
    "C05": [
        (prof(dict(conj=24, enc=5, drop=8, add=3, mul=2, rot=2, gencjk=3, reg=3, zero=1, pad=1, encpt=4, encode=2, reenc=1, join=1, renew=1, resc=2, dec=1), c0=3, len=34), CK, 110),
        (prof(dict(conj=24, enc=5, add=3, mul=2, rot=2, gencjk=3, reg=3, zero=1, pad=1, join=1, renew=1, dec=1), c0=3, len=34), BF, 90),
    ],
    "C06": [
        (prof(dict(hoist=10, mulh=16, roth=16, mulks=6, mul=3, rot=3, enc=3, drop=5, add=2, addcrs=4, genrot=5, regrot=5, conj=1, encpt=2, encode=1, reenc=1, copy=1), c0=4, len=36), CK, 120),
        (prof(dict(hoist=6, roth=12, mulks=14, mul=2, rot=3, enc=3, add=2, addcrs=4, genrot=5, regrot=5, conj=1), c0=4, len=28), BF, 80),
    ],
    "C07": [
        (prof(dict(add=5, sub=5, mul=5, mulh=3, mulks=2, hoist=4, rot=5, roth=4, conj=4, drop=4, dropin=2, resc=4, rescin=2, rescto=4, cmul=5, cmulin=2, pmul=3,
                   enc=4, encode=3, reenc=1, encpt=3, encinto=2, copy=3, pad=2, zero=2, scribble=6, dec=4, pdec=4, get=1, reg=1, genpk=1, genrlk=1, genrot=1, gencjk=1, gendef=1,
                   addcrs=1, setscale=1), c0=4, len=34, pref=60), CKS + ["c16one", "c16two", "c16p3"], 130),
        (prof(dict(add=6, sub=6, mul=6, mulks=4, hoist=3, rot=6, roth=4, conj=5, enc=4, encode=3, reenc=1, encpt=3, encinto=2, copy=3, pad=2, zero=2, scribble=6, dec=4, pdec=4,
                   get=1, reg=1, genpk=1, genrlk=1, genrot=1, gencjk=1, gendef=1, addcrs=1), c0=4, len=30, pref=60), BFS + ["b16p3"], 90),
    ],
    "C08": [
        (prof(dict(join=2, renew=2, add=4, sub=4, mul=7, mulh=5, mulks=3, hoist=4, rot=5, roth=4, conj=4, drop=4, dropin=1, resc=3, rescto=2, cmul=4, cmulin=1, pmul=8,
                   enc=5, encode=3, reenc=4, encpt=3, encinto=2, pad=1, zero=1, dec=6, pdec=4, reg=4, regnew=4, genrlk=3, gencjk=1, addcrs=1, genrot=1), regs=2, c0=4, p0=[2, 3], len=44, pref=60),
         CKS + ["c16p3", "c16one", "c16s45"], 130),
        (prof(dict(join=2, renew=2, add=5, sub=5, mul=8, mulks=5, hoist=3, rot=6, roth=4, conj=5, enc=5, encode=3, reenc=4, encpt=3, encinto=2, pad=1, zero=1, dec=6, pdec=4,
                   reg=4, regnew=4, genrlk=3, gencjk=1, addcrs=1, genrot=1), regs=2, c0=4, p0=[2, 3], len=36, pref=60), BFS + ["b16p3"], 90),
    ],
    "C09": [
        (prof(dict(drop=8, dropin=5, resc=10, rescin=5, rescto=6, mul=8, pmul=6, cmul=8, cmulin=3, add=6, sub=5, encode=5, reenc=2, encpt=6, enc=3, encinto=3, setscale=1, rot=2, conj=1, hoist=1, mulh=2, roth=1), c0=4, len=40, pref=40, pbad=12), CK, 170),
        (prof(dict(drop=6, resc=14, rescin=6, rescto=8, mul=12, cmul=12, pmul=8, encode=6, reenc=3, encpt=8, enc=3, add=6, sub=5), c0=4, len=40, pref=40, pbad=40), ["c16deep", "c16a4", "c16a2", "c16mix", "c16s45", "c16s30"], 60),
    ],
    "C10": [
        (prof(dict(pdec=14, pdecall=14, dec=10, enc=4, add=6, sub=5, mul=4, rot=5, conj=3, drop=3, copy=6, pad=3, zero=1, cmul=1, join=1), p0=[2, 3, 4], c0=4, len=40), CK, 110),
        (prof(dict(pdec=14, pdecall=14, dec=10, enc=4, add=6, sub=5, mul=4, rot=5, conj=3, copy=6, pad=3, zero=1, join=1), p0=[2, 3, 4], c0=4, len=40), BF, 80),
    ],
    "C11": [
        (prof(dict(dec=30, gensk=5, alias=4, renew=3, join=1, enc=6, genpk=3, add=6, sub=2, mul=3, rot=2, copy=1, pad=2, zero=1, pdec=3, drop=2), p0=[2, 3, 4], c0=4, len=40, pref=100), CK, 110),
        (prof(dict(dec=30, gensk=5, alias=4, renew=3, join=1, enc=6, genpk=3, add=6, sub=2, mul=3, rot=2, copy=1, pad=2, zero=1, pdec=3), p0=[2, 3, 4], c0=4, len=40, pref=100), BF, 80),
    ],
    "C12": [
        (prof({"get": 16, "del": 14, "reg": 10, "regnew": 10, "regrot": 4, "gensk": 3, "genpk": 3, "genrlk": 3, "gencjk": 3, "genrot": 4, "gendef": 2, "join": 1, "renew": 2, "addcrs": 2, "mul": 6, "rot": 6,
               "conj": 5, "mulh": 2, "hoist": 2, "roth": 3, "enc": 2, "add": 2, "drop": 1}, regs=2, c0=3, len=46, pref=100), CKS, 100),
        (prof({"get": 16, "del": 14, "reg": 10, "regnew": 10, "regrot": 4, "gensk": 3, "genpk": 3, "genrlk": 3, "gencjk": 3, "genrot": 4, "gendef": 2, "join": 1, "renew": 2, "addcrs": 2, "mul": 6, "rot": 6,
               "conj": 5, "hoist": 2, "roth": 3, "enc": 2, "add": 2}, regs=2, c0=3, len=42, pref=100), ["b16", "b32", "b16a2s", "b16p3"], 70),
    ],
    "C13": [
        (prof(dict(snew=4, sof=8, sadd=16, srem=10, scopy=8, sunion=10, sinter=10, pad=8, copy=8, zero=4, add=6, sub=4, mul=4, rot=3, conj=2, drop=2, pdec=5, dec=2, enc=4, scribble=3, encinto=1, hoist=1, mulh=1, cmul=1, join=1),
              p0=[2, 3, 4], c0=3, len=46, pref=60), CKS + ["c16one", "c16two"], 100),
        (prof(dict(snew=4, sof=8, sadd=16, srem=10, scopy=8, sunion=10, sinter=10, pad=8, copy=8, zero=4, add=6, sub=4, mul=4, rot=3, conj=2, pdec=5, dec=2, enc=4, scribble=3, encinto=1, join=1),
              p0=[2, 3, 4], c0=3, len=46, pref=60), BFS, 70),
    ],
    "C14": [
        (prof(dict(join=6, renew=5, gensk=3, genpk=3, genrlk=3, gencjk=3, genrot=6, gendef=2, reg=3, regnew=5, regrot=6, addcrs=4, enc=7, add=4, sub=3, mul=8, mulh=3, hoist=2, rot=8, roth=4, conj=5, dec=3, pdec=2),
              recrs=30, p0=[2, 3, 4], c0=3, len=48), CKS + ["c16p3", "c16half"], 110),
        (prof(dict(join=6, renew=5, gensk=3, genpk=3, genrlk=3, gencjk=3, genrot=6, gendef=2, reg=3, regnew=5, regrot=6, addcrs=4, enc=7, add=4, sub=3, mul=7, mulks=2, hoist=2, rot=8, roth=4, conj=5, dec=3, pdec=2),
              recrs=30, p0=[2, 3, 4], c0=3, len=44), BFS + ["b16p3", "b16a3s"], 80),
    ],
    "C16": [
        (prof(dict(enc=5, add=5, sub=4, mul=9, mulh=5, mulks=3, hoist=4, rot=7, roth=5, conj=5, drop=6, resc=2, cmul=4, pmul=3, encode=3, reenc=1, encpt=4, dec=3, pdec=2, genrot=2, regrot=2, addcrs=2, pad=1), c0=3, len=34), CK + ["c512"], 170),
        (prof(dict(enc=5, add=5, sub=4, mul=10, mulks=4, hoist=2, rot=8, roth=5, conj=6, encode=1, reenc=1, encpt=2, dec=3, pdec=2, genrot=2, regrot=2, addcrs=2, pad=1), c0=3, len=28), BF + ["b512per"], 130),
    ],
    "C20": [
        (prof(dict(cmul=24, cmulin=8, pmul=16, encode=8, reenc=4, encpt=4, enc=5, drop=6, dropin=1, add=4, sub=2, mul=3, rot=2, conj=2, resc=3, zero=1, join=1), c0=4, len=34), CK, 110),
        (prof(dict(cmul=24, cmulin=8, pmul=4, encode=8, reenc=4, encpt=4, enc=8, drop=6, dropin=1, add=4, sub=2, rot=2, conj=2, resc=3, zero=1), c0=4, len=34, mscale=4, bigc=30),
         CK, 110),
        (prof(dict(cmul=24, cmulin=8, pmul=4, encode=4, reenc=2, enc=8, drop=6, add=4, sub=2, rot=2, conj=2, resc=3), c0=4, len=30, mscale=15, oddc=80), CK, 70),
    ],
    "C22": [
        (prof(dict(enc=5, encode=5, reenc=2, encpt=3, add=8, sub=6, mul=12, mulh=5, mulks=4, hoist=5, rot=8, roth=5, conj=7, drop=4, dropin=1, resc=4, rescin=2, rescto=3, cmul=7, cmulin=2, pmul=14,
                   genrot=2, regrot=2, addcrs=2, copy=1, pad=1, pdec=1, encinto=1, zero=1, renew=1, join=1), c0=4, len=34), CK + ["c512", "c512"], 330),
        (prof(dict(enc=5, add=8, sub=6, mul=14, mulks=5, hoist=2, rot=9, roth=5, conj=8, encode=1, reenc=1, encpt=2, genrot=2, regrot=2, addcrs=2, copy=1, pad=1, pdec=1, zero=1, renew=1, join=1), c0=4, len=28), BF + ["b512per", "b512per"], 220),
    ],
}
# few contexts, several parties, ciphertexts of many parties, forms used again after other products: storage that is shared by mistake shows
DENSE = dict(nx=1, gctx=1, p0=[3], c0=3, wide=50)
CAMPAIGNS["C06"].append((prof(dict(hoist=10, mulh=10, roth=10, mulks=2, mul=12, rot=6, add=8, conj=4, drop=3), len=40, **DENSE), CKS, 60))
CAMPAIGNS["C07"].append((prof(dict(hoist=10, mulh=6, roth=6, mul=12, rot=6, conj=6, add=8, drop=2, copy=2, scribble=2, encinto=1, pmul=2, encode=1, reenc=1, cmul=2, resc=2, dec=2, pdec=2), len=40, **DENSE), CKS, 60))
CAMPAIGNS["C07"].append((prof(dict(mulks=10, mul=12, rot=8, conj=8, add=10, sub=4, copy=2, scribble=2, encinto=1, dec=3, pdec=3), len=36, **DENSE), BFS, 50))
CAMPAIGNS["C08"].append((prof(dict(hoist=6, mulh=6, roth=6, mul=12, mulks=4, rot=8, conj=8, add=8, drop=6, dec=3, pdec=2, resc=3, cmul=2, pmul=2, encode=2, reenc=1, encpt=2, enc=2), len=44, **DENSE), CKS, 60))
CAMPAIGNS["C08"].append((prof(dict(mul=14, mulks=6, rot=10, conj=8, add=10, sub=4, dec=4, pdec=3, enc=2, encpt=2, encode=2, reenc=1), len=36, **DENSE), BFS, 50))
LOW = (prof(dict(mul=14, mulks=3, mulh=5, hoist=5, rot=4, roth=3, conj=3, add=4, sub=2, drop=9, cmul=2, pmul=2, encode=1, reenc=1, enc=1), len=38, **DENSE), ["c16lo"], 30)
for p in ("C03", "C08", "C16", "C22"):
    CAMPAIGNS[p].append(LOW)
# registries at degrees where default rotations are many
BIGREG = {"get": 16, "del": 14, "reg": 10, "regrot": 4, "genrot": 4, "gendef": 3, "gensk": 2, "genpk": 2, "gencjk": 2, "addcrs": 2, "rot": 4, "conj": 2, "join": 1, "renew": 2}
CAMPAIGNS["C12"].append((prof(BIGREG, regs=2, c0=2, len=60, pref=100), ["c512"], 12))
CAMPAIGNS["C12"].append((prof(BIGREG, regs=2, c0=2, len=60, pref=100), ["b512per"], 8))
# many parties, and long chains of primes: beyond the sizes the tests use
EVALS = dict(add=6, sub=4, mul=8, mulks=2, mulh=4, hoist=5, rot=6, roth=4, conj=6, drop=4, dropin=1, resc=3, rescin=1, rescto=1, cmul=4, cmulin=1, pmul=3, enc=2, encode=2, reenc=1, encpt=2, copy=4, pad=3,
             zero=1, dec=5, pdec=5, sof=2, sunion=2, sinter=2, genrot=1, regrot=1, addcrs=1, scribble=1)
PREFER = {"C01": "enc encpt encinto dec encode", "C02": "add sub", "C03": "mul mulks", "C04": "rot genrot regrot", "C05": "conj", "C06": "mulh roth hoist mulks", "C07": "copy scribble mul rot", "C08": "dec pdec mul",
          "C09": "drop resc rescto rescin dropin", "C10": "pdec dec pdecall", "C11": "dec", "C13": "copy pad sof sunion sinter", "C14": "rot mul conj", "C16": "mul rot conj", "C20": "cmul cmulin pmul", "C22": "add mul rot conj mulh roth cmul pmul"}
BNOT = "mulh drop dropin resc rescin rescto cmul cmulin pmul".split()
for p, pref in PREFER.items():
    w = dict(EVALS, **{o: 12 for o in pref.split()})
    ck, bf = prof(w, p0=[6, 8], c0=8, wide=60, len=66, nx=1), None
    CAMPAIGNS[p].append((ck, ["c16", "c16a2x", "c32", "c16half"], 10))
    CAMPAIGNS[p].append((prof(w, p0=[1, 2], c0=3, len=34), ["c16long", "c16lon3", "c16q61", "c16q61w"], 20 if p in ("C03", "C06", "C16", "C22") else 12))
    w = {o: x for o, x in w.items() if o not in BNOT or (o in ("mulks",))}
    if p not in ("C09", "C20"):
        CAMPAIGNS[p].append((prof(w, p0=[6, 8], c0=8, wide=60, len=60, nx=1), ["b16", "b16a2", "b32"], 8))
        CAMPAIGNS[p].append((prof(w, p0=[1, 2], c0=3, len=30), ["b16long", "b16lon2", "b16q61"], 12))
    if p == "C16":
        CAMPAIGNS[p].append((prof(dict(w, drop=9, resc=3, cmul=3), p0=[1, 2], c0=3, len=26), ["c16max", "c16wide"], 8))
        CAMPAIGNS[p].append((prof(w, p0=[1, 2], c0=2, len=22), ["b16max", "b16wide"], 8))
# keys that were deleted again
for p in ("C03", "C04", "C05", "C06"):
    for c in CAMPAIGNS[p]:
        d = dict(map(tuple, c[0]["w"]))
        c[0]["w"] += [["del", 1]] + ([["reg", 1]] if "reg" not in d else [])
for p in CAMPAIGNS.values():
    for c in p:
        c[0]["w"] = [x for x in c[0]["w"] if x[1] > 0]

# operations that must occur (and succeed) at least so often in the quick tier, per property
FLOOR = {
    "C01": dict(enc=300, encpt=150, encinto=20, dec=150), "C02": dict(add=500, sub=500), "C03": dict(mul=500, mulks=100),
    "C04": dict(rot=800, genrot=200), "C05": dict(conj=800), "C06": dict(mulh=200, roth=300, mulks=200, hoist=200),
    "C07": dict(scribble=100, rescto=40, cmul=50, mul=100), "C08": dict(mul=200, rot=200, dec=100, enc=300),
    "C09": dict(resc=150, rescto=80, rescin=60, drop=150, mul=200), "C10": dict(pdec=600, dec=200), "C11": dict(dec=800),
    "C12": {"get": 500, "del": 300, "reg": 300, "mul": 100, "rot": 100}, "C13": dict(sadd=300, sunion=200, sinter=200, pad=200, copy=200),
    "C14": dict(join=300, mul=200, rot=200, conj=150), "C16": dict(mul=400, rot=400, conj=250), "C20": dict(cmul=800, pmul=300),
    "C22": dict(add=300, mul=500, mulks=150, rot=400, roth=150, conj=250, cmul=150, pmul=100),
}
