"""Parameter configurations: the fields the Go driver needs to build the parameters,
and the derived bounds the specification uses."""
import math

def clog2(x): return max(0, math.ceil(math.log2(x)))

def _base(name, scheme, logn, qb, pb, rep="full", n=None, logslots=None, t=0, sb=0, mag=6,
          qmul=None, rotk=(), tla_t=None, sigma=3.2):
    N = 1 << logn
    half = N // 2
    alpha = len(pb) // 2
    beta = -(-len(qb) // alpha)
    D = max(sum(qb[i:i + alpha]) for i in range(0, len(qb), alpha))
    P = sum(pb)
    if scheme == "ckks":
        slots = 1 << (logslots if logslots is not None else logn - 1)
        rows = 1
    else:
        slots = half
        rows = 2
        beta *= 2
    if n is None:
        n = slots
    acc, logq = 0, []
    for b in qb:
        acc += b
        logq.append(acc - 1)
    # relative distance of the primes from powers of two
    cnt = len(qb) + len(pb) + (len(qmul) if qmul else 0)
    db = min(b - (logn + 1) - clog2(b * cnt) for b in qb)
    # noise, as eight standard deviations, in bits (see spec/Noise.tla)
    dens = sigma * sigma + 0.1                       # secret keys are ternary or Gaussian
    Dm = max(max(sum(l[i:i + alpha]) for i in range(0, len(l), alpha)) for l in [list(qb), list(qmul or qb)])
    rnd = lambda k: (1 + k * N * dens) / 12
    ks1 = beta * N * 4.0 ** (Dm - P) / 3 * sigma ** 2
    rl1 = beta * N * 4.0 ** (2 * Dm - P) * (N * N / 48 + N / 9) * sigma ** 2
    bits = lambda v: max(1, math.ceil(math.log2(8 * math.sqrt(v) + 1)))
    noise = dict(nf=bits(sigma ** 2 * N * (dens + 1) + 1), hl=-(-logn // 2),
                 nk=[bits(k * ks1 + rnd(k)) for k in range(1, 11)], nr=[bits(rnd(k)) for k in range(1, 11)],
                 nl=[bits(k * k * 3 * N * dens * rl1 + 2 * k * ks1 + 3 * N * dens * k * rnd(k)) for k in range(1, 11)])
    return dict(
        name=name, scheme=scheme, logn=logn, half=half, n=n, rows=rows, slots=slots, rep=rep,
        t=(tla_t if tla_t is not None else t), T=t, tb=(t.bit_length() if t else 1),
        maxlev=len(qb) - 1, sb=sb, qb=list(qb), logq=logq, pb=list(pb), qmulb=list(qmul or []),
        logslots=(logslots if logslots is not None else logn - 1),
        db=db, fb=clog2(8 * sigma * sigma * N * 1.5), rb=logn + 5,
        ksb=max(2 * D + 3 * logn + 9 + clog2(beta) - P, logn + 8),
        ksr=max(D + 3 * logn + 9 + clog2(beta) - P, logn + 8),
        mag=mag, vmax=(min(t // 2 - 1, 1 << 28) if t else 0), rotk=list(rotk), sigma=sigma, **noise)

def ckks(name, logn=4, qb=(55, 40, 40, 40), pb=(50, 50), sb=40, **kw):
    return _base(name, "ckks", logn, qb, pb, sb=sb, **kw)

def bfv(name, logn=4, t=257, qb=(50, 50), pb=(50, 50), qmul=None, big=False, **kw):
    return _base(name, "bfv", logn, qb, pb, t=t, qmul=qmul or list(qb), tla_t=(0 if big else t), **kw)

CFGS = {c["name"]: c for c in [
    # approximate scheme
    ckks("c16", rotk=[3, 5]),
    ckks("c16deep", qb=(55, 40, 40, 40, 40, 40, 40), rotk=[6]),
    ckks("c16half", logslots=2, rotk=[3, 5, 7]),
    ckks("c16one", logslots=0, rotk=[3]),
    ckks("c32", logn=5, qb=(55, 40, 40, 40, 40), rotk=[3, 7, 11]),
    ckks("c64", logn=6, logslots=4, qb=(55, 40, 40, 40), rotk=[3, 13, 21]),
    ckks("c16a2", qb=(50, 40, 40, 40, 40, 40), pb=(50,) * 4),                 # width 2, count a multiple
    ckks("c16a2x", qb=(50, 40, 40, 40, 40), pb=(50,) * 4, rotk=[5]),          # width 2, ragged
    ckks("c16a3", qb=(50, 40, 40, 40, 40, 40, 40), pb=(50,) * 6),             # width 3, ragged by 1
    ckks("c16a3y", qb=(50, 40, 40, 40, 40), pb=(50,) * 6),                    # width 3, ragged by 2
    ckks("c16p3", qb=(50, 40, 40, 40), pb=(50,) * 3),                         # odd number of special primes
    ckks("c16p5", qb=(50, 40, 40, 40, 40), pb=(50,) * 5),
    ckks("c16a4", qb=(50, 40, 40, 40, 40, 40), pb=(50,) * 8),                 # width 4 > half the chain
    ckks("c16a5", qb=(50, 40, 40, 40), pb=(45,) * 10),                        # one digit: width > count
    ckks("c16mix", qb=(58, 34, 45, 38, 50, 36), pb=(59, 58), sb=38, rotk=[6]),    # unequal primes
    ckks("c16s30", qb=(45, 30, 30, 30), pb=(46, 46), sb=30, mag=4),
    ckks("c16s45", qb=(60, 45, 45, 45, 45), pb=(60, 60), sb=45),
    ckks("c128", logn=7, logslots=3, qb=(55, 40, 40), pb=(50, 50), rotk=[3, 33]),
    ckks("c512", logn=9, logslots=3, qb=(55, 40, 40), pb=(55, 55), rotk=[100]),
    ckks("c16two", qb=(55, 40), pb=(50, 50)),
    ckks("c16q55", qb=(59, 55, 55, 55), pb=(58, 58), sb=45),                  # large primes: constants times primes exceed 64 bits
    ckks("c16onep", qb=(55,), pb=(56, 56)),
    ckks("c16lo", qb=(60, 45, 45), pb=(60, 60), sb=26, mag=3, rotk=[7]),     # small scales: products fit at level zero
    ckks("c16long", qb=(55,) + (40,) * 17, pb=(50, 50), rotk=[3, 5]),        # eighteen primes
    ckks("c16lon3", qb=(50,) + (40,) * 12, pb=(50,) * 6, rotk=[3]),          # thirteen, width three
    ckks("c16q61", qb=(61,) * 14, pb=(61, 61), sb=45, rotk=[3]),             # the largest primes there are, many digits
    ckks("c16q61w", qb=(61,) * 10, pb=(61,) * 6, sb=45, rotk=[5]),           # width three, ragged
    ckks("c16max", qb=(60,) + (45,) * 33, pb=(55, 55), sb=45, rotk=[3]),     # as many primes as there can be
    ckks("c16wide", qb=(61,) * 18, pb=(61,) * 32, sb=45),                    # width sixteen
    # integer scheme
    bfv("b16", rotk=[3, 5]),
    bfv("b16deep", qb=(50,) * 4, pb=(50, 50), rotk=[6]),
    bfv("b32", logn=5, t=193, qb=(50,) * 3, rotk=[3, 7]),
    bfv("b16t97", t=97, qb=(45, 45), pb=(46, 46)),
    bfv("b16t64k", t=65537, qb=(55, 55, 55), pb=(56, 56)),
    bfv("b16a2", qb=(50,) * 4, pb=(50,) * 4),
    bfv("b16a2s", qb=(50,) * 2, pb=(50,) * 4, rotk=[7]),
    bfv("b16a3", qb=(45,) * 6, pb=(46,) * 6),
    bfv("b16a3s", qb=(45,) * 3, pb=(46,) * 6),
    bfv("b16p3", qb=(45,) * 3, pb=(46,) * 3),
    bfv("b16mix", qb=(58, 40, 50), pb=(59, 58), qmul=[58, 40, 50]),
    bfv("b64per", logn=6, t=257, n=8, rep="per", qb=(50,) * 3, rotk=[3, 20]),
    bfv("b64blk", logn=6, t=257, n=8, rep="blk", qb=(50,) * 2, rotk=[]),
    bfv("b16big", t=1073479681, big=True, mag=1000, qb=(55, 55, 55), pb=(56, 56)),
    bfv("b16big40", t=1099511480321, big=True, mag=1000, qb=(58,) * 4, pb=(59, 59)),
    bfv("b16long", qb=(50,) * 10, pb=(50, 50), rotk=[3]),
    bfv("b16lon2", qb=(50,) * 12, pb=(50,) * 4, rotk=[3]),
    bfv("b16q61", qb=(61,) * 9, pb=(61, 61), rotk=[3]),
    bfv("b16max", qb=(61,) * 17, pb=(61, 61)),
    bfv("b16wide", qb=(61,) * 16, pb=(61,) * 32),
    bfv("b512per", logn=9, t=12289, n=4, rep="per", qb=(55,) * 3, pb=(56, 56), rotk=[100]),
]}
