"""Shared machinery of the checks: building the driver from /repo's working tree, generating programs
with TLC, running them, validating the recorded traces with TLC, evidence, findings, verdicts."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from cfgs import CFGS

CORES = min(8, os.cpu_count() or 8)
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Broken(Exception):
    """The check itself failed: neither verdict is given."""


class Crash(Exception):
    """The code under test crashed the driver, again when run again."""


def drive(cmd, timeout=600):
    for again in (False, True):
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=goenv(), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("the driver took more than %d seconds" % timeout)
        if r.returncode == 0:
            return
        at = max(r.stderr.find("panic:"), r.stderr.find("fatal error:"))
        if at < 0 or "panic: driver:" in r.stderr:
            raise Broken("the driver failed: " + r.stderr[-3000:])
    raise Crash(r.stderr[at:at + 1500])


def workdir():
    return tempfile.mkdtemp(prefix="mkhe-check-")


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", ""), GOTOOLCHAIN="local", GOPROXY="off",
             GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod", GOFLAGS="-mod=mod")
    e.pop("GOROOT", None)
    return e


def build(work, pkg="driver", flags=()):
    out = os.path.join(work, pkg)
    # a private copy of the harness: go may want to touch go.mod and go.sum
    src = os.path.join(work, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(VERIF, "harness"), src)
    r = subprocess.run(["go", "build", *flags, "-o", out, "./" + pkg], cwd=src, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("the driver does not build against /repo:\n" + r.stderr[-4000:])
    return out


def tlc(work, module, cfg, env=None, args=(), workers=1, timeout=880, heap="2g", tag=""):
    """Runs TLC in a private copy of the specification; returns its output."""
    d = os.path.join(work, "tlc-%s%s" % (module, tag))
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(workers, 4)), "-Xss64m", "-Xmx" + heap, "-cp", TLA,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-config", module + ".cfg", *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    finally:
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r.stdout + r.stderr


def tlc_ok(out):
    return "Error:" not in out and ("Model checking completed" in out or "Finished in" in out)


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated(?:.*?([\d,]+) distinct states found)?", out)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
        return (int(m2[-1].replace(",", "")),) * 2 if m2 else (0, 0)
    g, d = m[-1]
    g = int(g.replace(",", ""))
    return g, int(d.replace(",", "")) if d else g


SPEC_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def write_lines(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")


# ------------------------------------------------------------------ generation

def generate(work, campaigns, seed, mult=1.0, per=24):
    """Programs for the campaigns, as a list of dicts; also the number of states TLC visited."""
    jobs = []
    for ci, (prof, cfgs, num) in enumerate(campaigns):
        n = max(1, round(num * mult))
        k = max(1, -(-n // per))
        for j in range(k):
            jobs.append((ci, j, prof, cfgs, n // k + (1 if j < n % k else 0)))

    def one(job):
        ci, j, prof, cfgs, n = job
        d = os.path.join(work, "gen-%d-%d" % (ci, j))
        os.makedirs(d, exist_ok=True)
        # every job gets all configurations of its campaign, in an order of its own
        order = list(cfgs)
        random.Random("%d %d %d" % (seed, ci, j)).shuffle(order)
        write_lines(d + "/cfgs", [CFGS[c] for c in order])
        write_lines(d + "/prof", [prof])
        s = int(hashlib.sha256(("%d/%d/%d/%s" % (seed, ci, j, json.dumps(prof, sort_keys=True))).encode()).hexdigest()[:8], 16)
        out = tlc(work, "Gen", SPEC_CFG, env={"CFGS": d + "/cfgs", "PROF": d + "/prof"},
                  args=["-simulate", "num=%d" % n, "-depth", "400", "-seed", str(s)], heap="1500m", tag="-%d-%d" % (ci, j))
        progs = []
        for line in out.splitlines():
            if line.startswith('"PROG '):
                progs.append(json.loads(json.loads(line)[5:]))
        if len(progs) < n:
            raise Broken("the generator produced %d of %d programs:\n%s" % (len(progs), n, out[-3000:]))
        return progs, tlc_counts(out)[0]

    progs, states = [], 0
    with cf.ThreadPoolExecutor(CORES) as ex:
        for p, st in ex.map(one, jobs):
            progs += p
            states += st
    return progs, states


# ------------------------------------------------------------------ execution

def run_driver(work, exe, progs, limit=40, shards=CORES, tag=""):
    d = os.path.join(work, "run" + tag)
    os.makedirs(d, exist_ok=True)
    used = sorted({p["cfg"] for p in progs})
    write_lines(d + "/cfgs", [CFGS[c] for c in used])
    write_lines(d + "/progs", progs)

    def one(i):
        out = d + "/tr%d" % i
        r = subprocess.run([exe, "-cfgs", d + "/cfgs", "-in", d + "/progs", "-out", out, "-shard", str(i), "-of", str(shards), "-limit", str(limit)],
                           capture_output=True, text=True, env=goenv())
        trs = []
        with open(out) as f:
            for line in f:
                if line.endswith("\n"):
                    trs.append(json.loads(line))
        if r.returncode == 3:
            raise Broken("driver: " + r.stderr[-2000:])
        if r.returncode != 0:
            # the process died: a fatal error in the code under test, at the recorded place
            n, k = map(int, open(out + ".at").read().split())
            p = progs[n - 1]
            pre = []
            if k > 0 and tag == "":
                q = dict(p, ops=p["ops"][:k], thr=[])
                pre = run_driver(work, exe, [q], limit, 1, "-pre%d" % i)[0]["ev"]
            ob = dict(res="crash", msg=r.stderr[:300], ids=[], lev=0, sm=0, sb=0, val=[], frame=[], db=0, regs=[], uid=0, tags=[], sets=[], eq=False, nz=-1, slip=0)
            trs.append(dict(cfg=p["cfg"], n=n, ev=pre + [dict(o=p["ops"][k], r=ob)] if k < len(p["ops"]) else [dict(o=dict(op="par", n=len(p["thr"])), r=ob)]))
        return trs

    with cf.ThreadPoolExecutor(min(shards, CORES)) as ex:
        out = [t for l in ex.map(one, range(shards)) for t in l]
    out.sort(key=lambda t: t["n"])
    return out


# ------------------------------------------------------------------ corrupted copies, for the self-test

REGOPS = {"reg", "del", "get", "gendef", "join"}
SETOPS = {"snew", "sof", "sadd", "srem", "scopy", "sunion", "sinter"}
SURE = {"res", "ids", "lev", "frame", "ct frame", "hst frame", "set frame", "reg frame", "regs", "sets", "keytag", "eq", "db", "uid", "slip"}


def corrupt(rng, ev, noise=0):
    """One wrong observation: returns (kind, changed event) or None."""
    r = ev["r"]
    if r["res"] not in ("ok", "refused"):
        return None
    kinds = ["res", "frame"]
    if r["res"] == "ok":
        kinds += ["eq"]
        if r["ids"] or r["sb"]:
            kinds += ["ids", "lev", "scale", "val", "val", "db"] + (["noise"] * noise if r["nz"] >= 0 else [])
        if ev["o"]["op"] in ("resc", "rescin", "rescto"):
            kinds += ["slip"]
        if r["regs"]:
            kinds += ["regs"]
        if r["sets"]:
            kinds += ["sets"]
        if r["tags"]:
            kinds += ["keytag"]
        if ev["o"]["op"] == "get":
            kinds += ["uid"]
        if ev["o"]["op"] == "dec" and r["val"]:
            kinds += ["val"]
    k = rng.choice(kinds)
    r = json.loads(json.dumps(r))
    if k == "res":
        r["res"] = "refused" if r["res"] == "ok" else "ok"
    elif k == "frame":
        w = rng.choice(["", "", "ct", "hst", "set", "reg"])
        r["frame"] = [(w or "key") + "1", "key1 shares storage with " + w + "2"][:1 if w != "hst" else 2]
        k = w + " frame" if w else k
    elif k == "eq":
        r["eq"] = False
    elif k == "ids":
        r["ids"] = r["ids"][1:] if r["ids"] else ["somebody"]
    elif k == "lev":
        r["lev"] += 1
    elif k == "scale":
        r["sb"] += 1
    elif k == "slip":
        r["slip"] = 700
    elif k == "db":
        r["db"] = 9999
    elif k == "noise":
        r["nz"] += 30
    elif k == "uid":
        r["uid"] += 1
    elif k == "val":
        i = rng.randrange(len(r["val"]))
        if isinstance(r["val"][i], list):
            r["val"][i][rng.randrange(2)] += rng.choice([-1, 1])
        else:
            r["val"][i] += 1
    elif k == "regs":
        r["regs"] = r["regs"][1:]
    elif k == "sets":
        i = rng.randrange(len(r["sets"]))
        r["sets"][i]["size"] += 1
    elif k == "keytag":
        r["tags"][0]["id"] += "x"
    return k, dict(o=ev["o"], r=r)


def corrupted(traces, seed, n, base, noise=0):
    rng = random.Random(seed)
    out, info = [], {}
    tries = 0
    while len(out) < n and tries < 20 * n and traces:
        tries += 1
        t = rng.choice(traces)
        if not t["ev"]:
            continue
        i = rng.randrange(len(t["ev"]))
        c = corrupt(rng, t["ev"][i], noise)
        if not c:
            continue
        m = base + len(out)
        out.append(dict(cfg=t["cfg"], n=m, ev=t["ev"][:i] + [c[1]]))
        info[m] = (c[0], t["ev"][i]["o"]["op"], i + 1, t["n"])
    return out, info


# ------------------------------------------------------------------ validation

def validate(work, traces, prop, workers=CORES, tag="", heap="8g", timeout=880):
    d = os.path.join(work, "val" + tag)
    os.makedirs(d, exist_ok=True)
    used = sorted({t["cfg"] for t in traces})
    write_lines(d + "/cfgs", [CFGS[c] for c in used])
    write_lines(d + "/traces", traces)
    out = tlc(work, "Trace", SPEC_CFG, env={"CFGS": d + "/cfgs", "TRACES": d + "/traces", "PROP": prop}, workers=workers, heap=heap,
              tag=tag, timeout=timeout)
    devs, unspec, focus = [], 0, set()
    for line in out.splitlines():
        if line.startswith('"DEV '):
            devs.append(json.loads(json.loads(line)[4:]))
        elif line.startswith('"UNSPEC '):
            unspec += 1
        elif line.startswith('"FOCUS '):
            focus = {tuple(x) for x in json.loads(json.loads(line)[6:])}
    if not tlc_ok(out) or not focus:
        raise Broken("TLC failed on the traces:\n" + out[-3000:])
    return devs, unspec, focus, tlc_counts(out)


# ------------------------------------------------------------------ findings and verdicts

def known():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def save_replay(prop, seed, k, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (prop, seed, k))
    with open(p, "w") as f:
        json.dump(data, f)
    return p


def write_evidence(prop, tier, seed, level, coverage, assumptions, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(time.time() - T0, 2),
                       assumptions=assumptions, violations=violations), f, indent=1)
        f.write("\n")
