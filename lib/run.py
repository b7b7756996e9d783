"""Runner of the checks.  usage: run.py <ID> | run.py --replay FILE

For a property: runs its exhaustive models (TLC on spec/MC_*.tla), generates behaviours with TLC where a
driver replays them, runs its drivers (which exercise the code of /repo and record traces), validates each
trace with TLC against the trace specification (spec/T_*.tla), and concludes.
Exit 0: held; 1: violated (VIOLATION line); 2: the machinery failed."""
import sys, os, json, re, subprocess, time, tempfile, shutil, concurrent.futures as cf, hashlib, threading

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, HERE)
from registry import PROPS

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
REPO = os.environ.get("VP_REPO", "/repo")
NW = int(os.environ.get("VP_WORKERS", "8"))
LIMIT = {"quick": 800.0, "thorough": 6000.0}[TIER]
T0 = time.time()


class Machinery(Exception):
    pass


def left():
    return LIMIT - (time.time() - T0)


def tlc(mod, cfg, scratch, env=None, extra=(), heap="2500m", workers="1", timeout=None):
    """run TLC; returns (rc, output)"""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + scratch, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", workers, "-config", cfg] + list(extra) + [mod]
    e = dict(os.environ)
    e.update(env or {})
    t = timeout or max(5.0, left())
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired as ex:
        raise Machinery("TLC timed out on %s" % mod)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf8", "replace")


def said(out):
    r = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            try:
                r.append(json.loads(json.loads(line)[2:]))
            except ValueError:
                raise Machinery("unreadable verdict: %s" % line[:200])
    return r


def counts(out):
    g = d = 0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "")) or \
        re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        g, d = (int(str(x).replace(",", "")) for x in m[-1])
    m = re.findall(r"Finished computing.*|(\d+) states generated", out)
    return g, d


class Result:
    def __init__(self):
        self.fails, self.known, self.inexact, self.notes = [], [], [], []
        self.states = self.trans = self.traces = self.cases = 0
        self.ops = {}
        self.samples = []
        self.models = []
        self.lock = threading.Lock()


def validate(path, spec, scratch, res, tag):
    """validate a trace file; total: a case on which evaluation fails is a failing case and the rest goes on"""
    lines = open(path).read().splitlines()
    ids = [json.loads(l)["id"] for l in lines]
    if len(set(ids)) != len(ids):
        raise Machinery("duplicate case ids in %s" % path)
    byid = dict(zip(ids, lines))
    start = 0
    bad = set()
    skip = set()
    nerr = 0
    while start < len(lines):
        f = path + ".part%d" % start
        with open(f, "w") as o:
            o.write("\n".join(lines[start:]) + "\n")
        rc, out = tlc(spec + ".tla", spec + ".cfg", scratch, env={"TRACE": f})
        os.unlink(f)
        msgs = said(out)
        g, d = counts(out)
        done = False
        last = None
        with res.lock:
            res.trans += g
            res.states += d
            for m in msgs:
                if m[0] == "FAIL":
                    res.fails.append((tag, m[1], m[2], m[3], byid[m[1]]))
                    bad.add(m[1])
                elif m[0] == "KNOWN":
                    res.known.append((tag, m[1], m[2], m[3]))
                elif m[0] == "INEXACT":
                    res.inexact.append((tag, m[1], m[2]))
                    skip.add(m[1])
                elif m[0] == "CFGBAD":
                    raise Machinery("bad configuration %s" % m[1])
                elif m[0] == "NOTE":
                    res.notes.append((tag,) + tuple(m[1:]))
                elif m[0] == "CASE":
                    last = m[1]
                elif m[0] == "END":
                    done = True
        if done and rc == 0:
            break
        if last is None or rc == 0:
            raise Machinery("TLC failed on %s (%s):\n%s" % (spec, tag, out[-3000:]))
        nerr += 1
        k = ids.index(last)
        with res.lock:
            if "verflow" in out:
                res.inexact.append((tag, last, -1))
                skip.add(last)
            elif "OutOfMemory" in out or "StackOverflow" in out:
                raise Machinery("TLC ran out of resources on %s" % last)
            else:
                msg = [l for l in out.splitlines() if "rror" in l or "ttempt" in l or "xception" in l][:3]
                if os.environ.get("VP_DEBUG"):
                    print(out[-3000:])
                res.fails.append((tag, last, -1, ["evaluation", " | ".join(msg)[:300]], byid[last]))
                bad.add(last)
        start = k + 1
        if nerr > 25:
            break
    with res.lock:
        for i, l in zip(ids, lines):
            res.cases += 1
            if i in bad or i in skip:
                continue
            res.traces += 1
            d = json.loads(l)
            for e in d.get("evs", []):
                res.ops[e.get("op", "?")] = res.ops.get(e.get("op", "?"), 0) + 1
        if lines and len(res.samples) < 3:
            d = json.loads(lines[len(lines) // 2])
            s = json.dumps(d)
            res.samples.append({"case": "%s/%s" % (tag, d["id"]), "spec": spec,
                                "ops": [e.get("op") for e in d.get("evs", [])][:40],
                                "trace": s[:1500] + ("..." if len(s) > 1500 else "")})


def run_driver(prop, job, shard, nshards, scratch, gen, res):
    drv, spec = job["driver"], job["spec"]
    d = os.path.join(scratch, "%s_%s_%d" % (drv, spec, shard))
    os.makedirs(d)
    out = os.path.join(d, "trace.ndjson")
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("OMPI_MCA") or k.startswith("PMIX"):
            env.pop(k)
    env.update(VP_PROP=prop, VP_SHARD=str(shard), VP_NSHARDS=str(nshards), VP_OUT=out, VERIF_SEED=str(SEED),
               VERIF_TIER=TIER, VP_JOB=json.dumps(job), VP_GEN=gen or "", VP_SCRATCH=d, VP_BUDGET=str(max(20.0, min(left() * 0.6, job.get("budget", {}).get(TIER, 1e9)))),
               PYTHONDONTWRITEBYTECODE="1", TMPDIR=d, VP_ROOT=ROOT)
    env["PYTHONPATH"] = HERE + ":" + os.path.join(ROOT, "drivers")
    boot = "import sys; sys.argv=['drv']; import importlib, vplib; importlib.import_module('%s').main(vplib.Ctx())" % drv
    try:
        p = subprocess.run([os.environ.get("PY", "/opt/venv/bin/python"), "-c", boot], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(20.0, left()), stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Machinery("driver %s/%d timed out" % (drv, shard))
    o = p.stdout.decode("utf8", "replace")
    if p.returncode != 0:
        raise Machinery("driver %s/%d failed:\n%s" % (drv, shard, o[-3000:]))
    td = time.time()
    if os.environ.get("VP_KEEP"):
        shutil.copy(out, os.path.join(os.environ["VP_KEEP"], "%s_%s_%d.ndjson" % (prop, drv, shard)))
    if os.path.getsize(out):
        validate(out, spec, scratch, res, "%s/%d" % (drv, shard))
    shutil.rmtree(d, ignore_errors=True)


def run_model(m, scratch, res):
    tier = m.get("tier")
    if tier == "thorough" and TIER != "thorough":
        return
    cfg = m.get("cfg_" + TIER, m.get("cfg", m["mod"])) + ".cfg"
    rc, out = tlc(m["mod"] + ".tla", cfg, scratch, workers=m.get("workers", "2"), heap=m.get("heap", "3000m"))
    g, d = counts(out)
    with res.lock:
        res.states += d
        res.trans += g
        res.models.append({"model": m["mod"], "cfg": cfg, "states": d, "transitions": g, "ok": rc == 0})
    if rc != 0:
        raise Machinery("model %s: specification does not satisfy its own properties:\n%s" % (m["mod"], out[-3000:]))
    if d == 0:
        raise Machinery("model %s explored nothing" % m["mod"])


def known_file():
    """lines  finding: property=<id> key=<key> <text>   |   fixed: property=<id> <commit> <text>"""
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


def main(prop):
    P = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    res = Result()
    try:
        gens = {}
        for g in P.get("gens", []):
            f = os.path.join(scratch, g["mod"] + ".json")
            cfg = g.get("cfg_" + TIER, g.get("cfg", g["mod"])) + ".cfg"
            ex = [x.replace("$SEED", str(SEED)) for x in g.get("extra_" + TIER, g.get("extra", []))]
            rc, out = tlc(g["mod"] + ".tla", cfg, scratch, workers="1" if ex else "4", heap="4000m", extra=ex)
            b = [m[1] for m in said(out) if m[0] == "GEN"]
            gg, dd = counts(out)
            res.states += dd
            res.trans += gg
            res.models.append({"model": g["mod"], "cfg": cfg, "states": dd, "transitions": gg, "ok": rc == 0, "behaviours": len(b)})
            if rc != 0 or not b:
                raise Machinery("generator %s failed:\n%s" % (g["mod"], out[-3000:]))
            if g["mod"] in gens:
                b = json.load(open(f)) + b
            json.dump(b, open(f, "w"))
            gens[g["mod"]] = f
        futs = []
        with cf.ThreadPoolExecutor(NW) as ex:
            for job in P.get("jobs", []):
                n = job.get("shards", NW)
                for s in range(n):
                    futs.append(ex.submit(run_driver, prop, job, s, n, scratch, gens.get(job.get("gen")), res))
            for m in P.get("models", []):
                futs.append(ex.submit(run_model, m, scratch, res))
            errs = []
            for f in futs:
                try:
                    f.result()
                except Machinery as e:
                    errs.append(str(e))
        kf = [k for k in known_file() if k[0] == prop]
        keys = {k[1]: k[2] for k in kf}
        # a deviation listed for another property is that property's finding:
        # the check of that property prints it
        elsewhere = {k[1] for k in known_file()} - set(keys)
        unlisted = []
        seen = set()
        for tag, cid, ev, cl in res.known:
            k = cl if isinstance(cl, str) else cl[0]
            if k in keys:
                seen.add(k)
            elif k not in elsewhere:
                unlisted.append((tag, cid, ev, ["known-clause-not-listed", k], ""))
        fails = res.fails + unlisted
        wall = time.time() - T0
        ev = {"property": prop, "tier": TIER, "seed": SEED, "level": P.get("level", "model_checking"),
              "coverage": {"states": res.states, "transitions": res.trans, "traces_validated_against_impl": res.traces,
                           "samples": res.samples or [{"note": "none"}], "cases": res.cases, "skipped_inexact": len(res.inexact),
                           "events_by_operation": res.ops, "exhaustive_models": res.models,
                           "known_findings_seen": sorted(seen)},
              "assumptions": P.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(fails)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, keys[k]))
        if os.environ.get("VP_FAILS"):
            json.dump([[t, c, e, cl, json.loads(l)["evs"][max(0, e - 1):e] if l else None] for t, c, e, cl, l in fails[:2000]],
                      open(os.environ["VP_FAILS"], "w"))
        if fails:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            done = set()
            for tag, cid, e, cl, line in fails:
                key = (tag, cid)
                if key in done:
                    continue
                done.add(key)
                if len(done) > 5:
                    continue
                name = "%s_%s_%s.json" % (prop, tag.replace("/", "_"), re.sub(r"\W", "_", str(cid)))
                p = os.path.join(ROOT, "replays", name)
                json.dump({"property": prop, "seed": SEED, "tier": TIER, "driver": tag, "case": cid, "event": e, "clause": cl,
                           "replay": "VERIF_SEED=%d VP_ONLY=%s ./check %s" % (SEED, cid, prop), "trace": json.loads(line) if line else None},
                          open(p, "w"))
                print("# %s case %s event %s clause %s" % (tag, cid, e, json.dumps(cl)[:300]))
                print("VIOLATION property=%s replay=%s" % (prop, p))
            print("# %d failing clauses in %d cases of %d" % (len(fails), len(done), res.cases))
            return 1
        if errs:
            print("\n".join(errs[:1])[:4000])
            return 2
        if res.cases and len(res.inexact) > 0.5 * res.cases:
            print("too many cases left undecided: %d of %d" % (len(res.inexact), res.cases))
            return 2
        if P.get("jobs") and not res.traces:
            print("no trace validated")
            return 2
        print("property %s held: %d traces, %d states, %d skipped, %.1f s" % (prop, res.traces, res.states, len(res.inexact), wall))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1]))
    except Machinery as e:
        print("MACHINERY: %s" % e)
        sys.exit(2)
