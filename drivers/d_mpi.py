"""The same runs and the same domains on several process grids, for spec/T_Sim.tla and spec/T_Geom.tla (C04).
The driver starts mpirun on itself; every process builds the same problem and the same data from the same seed; the
fields are assembled from what each process owns.  The run on one process is the reference trace of the case, the
other grids are recorded in its `alt` fields."""
import os, sys, json, subprocess, itertools, io, contextlib, time, traceback
import vplib as V
import numpy as np
import random


def world():
    import mpi4py.MPI as mpi
    return mpi.COMM_WORLD


# ---------------------------------------------------------------- assembling
class Layout:
    """who owns what: the cells of the process are the ones its domain says it owns (its coordinates)"""
    def __init__(self, p, dom):
        self.p = p
        self.comm = world()
        self.dim = p.dim
        r = []
        for i in range(p.dim):
            a = (float(dom.coords[i][0]) - float(p.org[i])) / float(p.dx) - 0.5
            b = (float(dom.coords[i][-1]) - float(p.org[i])) / float(p.dx) + 0.5
            r.append((int(round(a)), int(round(b))))
        self.region = r
        self.all = self.comm.allgather(r)
        # every cell belongs to exactly one process
        own = np.zeros(p.n[:p.dim], dtype=int)
        for q in self.all:
            own[tuple(slice(a, b) for a, b in q)] += 1
        self.partition = bool((own == 1).all()) and all(0 <= a < b <= p.n[i] for q in self.all for i, (a, b) in enumerate(q))

    def shape(self):
        return tuple(self.p.n[i] + 2 * self.p.h[i] for i in range(self.dim))

    def local(self, G, garbage=None):
        """the part of a global field (with halo) of this process; garbage: value of the halo inside the box"""
        h = self.p.h
        L = np.array(G[tuple(slice(a, b + 2 * h[i]) for i, (a, b) in enumerate(self.region))])
        if garbage is not None:
            for i, (a, b) in enumerate(self.region):
                s = [slice(None)] * self.dim
                if h[i] and a > 0:
                    s[i] = slice(0, h[i])
                    L[tuple(s)] = garbage
                if h[i] and b < self.p.n[i]:
                    s[i] = slice(-h[i], None)
                    L[tuple(s)] = garbage
        return L

    def assemble(self, L, shift=None):
        """global field with halo; the entry of a cell is taken from the process that owns the cell displaced by
        shift when it is in the box, or the nearest cell of the box.  L: local array with halo."""
        parts = self.comm.gather(np.asarray(L, dtype=float), root=0)
        if self.comm.rank:
            return None
        h, n = self.p.h, self.p.n
        G = np.full(self.shape(), np.nan)
        grid = np.indices(G.shape)
        cell = [grid[i] - h[i] for i in range(self.dim)]
        w = [c + (shift[i] if shift else 0) for i, c in enumerate(cell)]
        inside = np.ones(G.shape, dtype=bool)
        for i in range(self.dim):
            inside &= (w[i] >= 0) & (w[i] < n[i])
        own = [np.where(inside, w[i], np.clip(cell[i], 0, n[i] - 1)) for i in range(self.dim)]
        for q, part in zip(self.all, parts):
            if part.shape != tuple(b - a + 2 * h[i] for i, (a, b) in enumerate(q)):
                continue
            mine = np.ones(G.shape, dtype=bool)
            for i, (a, b) in enumerate(q):
                mine &= (own[i] >= a) & (own[i] < b)
            idx = tuple(cell[i][mine] - q[i][0] + h[i] for i in range(self.dim))
            G[mine] = part[idx]
        return G


class MpiRecorder(V.Recorder):
    def __init__(self, p, sim):
        V.Recorder.__init__(self, p, sim)
        self.lay = Layout(p, sim.domain)
        self.comm = self.lay.comm
        self.opname = ""

    def F(self):
        p, out = self.p, []
        for k in range(p.q):
            a = np.array(self.sim.F_halo[k])
            G = self.lay.assemble(a, p.vel[k] if self.opname == "bc" else None)
            if G is not None:
                out.append(V.enc(G, p.D).ravel().tolist())
        return out

    def call(self, op, fn, **kw):
        err, r = "", None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn()
        except (Exception, SystemExit) as e:
            err = "%s during %s: %s" % (type(e).__name__, op, str(e)[:120])
        errs = [e for e in self.comm.allgather(err) if e]
        if errs:
            self.evs.append({"op": "raise", "msg": errs[0]})
            return False
        if callable(kw.get("after")):
            f = kw.pop("after")
            kw.update(f(r))
        self.opname = op
        self.add(op, **kw)
        return True

    def rand_field(self, rng, lo=0, hi=3):
        return np.array([rng.randint(lo, hi) for _ in range(int(np.prod(self.lay.shape())))], dtype=float).reshape(self.lay.shape())

    def setF_all(self, rng, lo=0, hi=3):
        fs = [self.rand_field(rng, lo, hi) for _ in range(self.p.q)]

        def go():
            for k in range(self.p.q):
                self.sim.F_halo[k] = self.lay.local(fs[k], 7.0)
        return self.call("new", go, kind="any")

    def setM(self, rng, r, lo=0, hi=3):
        v = self.rand_field(rng, lo, hi)

        def go():
            self.sim.m_halo[self.syms[r]] = self.lay.local(v, 7.0)
        return self.call("setM", go, i=r + 1, val=V.enc(v, self.p.D).ravel().tolist())

    def read(self, r, key=None, order=0):
        p = self.p

        def go():
            a = np.array(self.sim.m[self.syms[r]])
            b = np.array(self.sim.m_halo[self.syms[r]])
            ins = tuple(slice(p.h[i], -p.h[i] if p.h[i] else None) for i in range(p.dim))
            if not np.array_equal(a, b[ins], equal_nan=True):
                b[ins] = np.nan
            return b

        def after(b):
            G = self.lay.assemble(b)
            if G is None:
                return {"inn": [], "halo": []}
            ins = tuple(slice(p.h[i], p.h[i] + p.n[i]) for i in range(p.dim))
            return {"inn": V.enc(G[ins], p.D).ravel().tolist(), "halo": V.enc(G, p.D).ravel().tolist()}
        return self.call("read", go, i=r + 1, after=after)

    def step(self):
        p = self.p

        def after(_):
            t = float(self.sim.t) * 64 * p.dt.denominator
            return {"nt": int(self.sim.nt), "t": int(round(t)) if abs(t - round(t)) < 1e-6 else V.BAD}
        return self.call("step", self.sim.one_time_step, after=after)


# ---------------------------------------------------------------- problems
def grids_for(rng, dim, n, h, nproc):
    """process grids of nproc processes whose sub-domains are at least as wide as the halo"""
    out = []
    for g in itertools.product(range(1, nproc + 1), repeat=dim):
        if int(np.prod(g)) == nproc and all(n[i] // g[i] >= max(1, h[i]) for i in range(dim)):
            out.append(list(g))
    return out


def sim_problem(ctx, i):
    rng = random.Random("mpi-sim/%s/%s/%s" % (ctx.seed, ctx.shard, i))

    def make():
        dim = rng.choice([1, 2, 2, 2, 3, 3])
        wide = rng.random() < 0.25
        p = V.gen_problem(rng, dim=dim, svals=rng.choice([[(0, 1), (1, 1), (1, 2)], [(0, 1), (1, 1), (2, 1)]]), src=rng.random() < 0.3, ncmax=2,
                          sizemax=5, wide=wide)
        p.n = V.pad([max(p.h[d], rng.randint(3, {1: 13, 2: 8, 3: 5}[dim])) for d in range(dim)], 1)
        if rng.random() < 0.75:
            V.gen_walls(rng, p, methods=("bb", "abb", "n", "bbb", "babb", "nx", "ny", "nz"), values=0.5, timed=0.5, obst=0.7, hw=rng.choice([(1, 2), (3, 10)]))
        return p
    p = V.until(rng, make, 4, 4, 2, extra=2)
    p.grids = {}
    for nproc in (1, 2, 3, 4, 6):
        gs = grids_for(rng, p.dim, p.n, p.h, nproc)
        if gs:
            p.grids[nproc] = rng.choice(gs)
    p.pick = [1] + rng.sample([k for k in p.grids if k > 1], min(3, len([k for k in p.grids if k > 1])))
    p.seed = rng.random()
    p.so = V.rand_sorder(rng, p.dim)
    return p


def argv_of(rng, grid, nproc):
    """the grid given on the command line, or left to the code"""
    return ["x"] + [a for i, g in enumerate(grid) for a in (["-npx", "-npy", "-npz"][i], str(g))]


def sim_case(ctx, pylbm, i, nproc):
    p = sim_problem(ctx, i)
    if nproc not in p.pick:
        return None
    rng = random.Random(p.seed)
    init, rows = rand_init(rng, p)
    sys.argv = argv_of(rng, p.grids[nproc], nproc)
    err, sim = "", None
    try:
        sim, _ = V.build(p, pylbm, sorder=p.so, init=init)
    except (Exception, SystemExit) as e:
        err = "%s at construction: %s" % (type(e).__name__, str(e)[:200])
    errs = [e for e in world().allgather(err) if e]
    base = {"grid": p.grids[nproc], "cfg": V.cfg(p), "sorder": p.so or []}
    if errs:
        return dict(base, evs=[{"op": "raise", "msg": errs[0]}])
    r = MpiRecorder(p, sim)
    if not r.lay.partition:
        return dict(base, evs=[{"op": "raise", "msg": "the sub-domains do not tile the box: %s" % (r.lay.all,)}])
    if list(sim.domain.mpi_topo.split) != p.grids[nproc]:
        return dict(base, evs=[{"op": "raise", "msg": "process grid %s" % (list(sim.domain.mpi_topo.split),)}])

    def go():
        r.init_event(p, "moments", rows)
        r.read(p.consrows[0])
        n = V.steps_allowed(p, 4, 4)
        for _ in range(min(2, n)):
            if not r.step():
                return
        r.setF_all(rng, 0, 2)
        for _ in range(2):
            for o in ("bc", "transport"):
                if not r.op(o):
                    return
        r.setF_all(rng, 0, 2)
        for _ in range(n):
            if not r.step():
                return
        r.read(p.consrows[-1])
    go()
    return dict(base, evs=r.evs)


def rand_init(rng, p):
    import d_sim
    return d_sim.rand_init(rng, p)


# ---------------------------------------------------------------- domains
class Fake:
    """a domain assembled from the ones of the processes"""


def dom_case(ctx, pylbm, i, nproc):
    import d_geom
    rng = random.Random("mpi-dom/%s/%s/%s" % (ctx.seed, ctx.shard, i))
    kind = "links"
    state = {}

    class Sink:
        def case(self, cid, **kw):
            state.update(kw, id=cid)

    class C:
        thorough = ctx.thorough
        out = Sink()

        def want(self, cid):
            return True
    real = pylbm.Domain

    class P:
        """pylbm with a Domain that gathers"""
        def __getattr__(self, a):
            return getattr(pylbm, a)

        def Domain(self, dico):
            return gathered(real, dico, nproc, i, state)
    d_geom.domain_case(C(), P(), "do%d" % i, rng, kind, dyadic=i % 5 != 0 or rng.random() < 0.5, big=False, dim=rng.choice([1, 2, 2, 3]) if i % 5 == 0 else None,
                       nel=0 if i % 5 == 0 else None)
    return state


def gathered(real, dico, nproc, i, state):
    comm = world()
    names = ["x", "y", "z"]
    dim = len([a for a in names if a in dico["box"]])
    dx = dico["space_step"]
    n = [int(round((dico["box"][names[k]][1] - dico["box"][names[k]][0]) / dx)) for k in range(dim)]
    rng = random.Random("grid/%d/%d" % (i, nproc))
    vel = [V.VEC[dim][k] for s in dico["schemes"] for k in s["velocities"]]
    h = [max(abs(v[k]) for v in vel) for k in range(dim)]
    gs = grids_for(rng, dim, n, h, nproc)
    if not gs:
        raise NoGrid()
    grid = rng.choice(gs)
    state["grid"] = grid
    sys.argv = argv_of(rng, grid, nproc)
    err, d = "", None
    try:
        d = real(dico)
    except (Exception, SystemExit) as e:
        err = "%s: %s" % (type(e).__name__, str(e)[:120])
    errs = [e for e in comm.allgather(err) if e]
    if errs:
        raise ValueError(errs[0])
    p = V.Problem()
    p.dim, p.n, p.h = dim, V.pad(n, 1), V.pad(h, 0)
    p.org = [dico["box"][names[k]][0] for k in range(dim)]
    p.dx = dx
    lay = Layout(p, d)
    if not lay.partition:
        raise ValueError("the sub-domains do not tile the box: %s" % (lay.all,))
    if list(d.mpi_topo.split) != grid:
        raise ValueError("process grid %s" % (list(d.mpi_topo.split),))
    f = Fake()
    # coordinates, from the processes along each axis
    f.coords, f.coords_halo = [], []
    for k in range(dim):
        X = np.broadcast_to(np.asarray(d.coords_halo[k]).reshape([-1 if j == k else 1 for j in range(dim)]), [len(c) for c in d.coords_halo])
        G = lay.assemble(X)
        if G is not None:
            idx = [0] * dim
            line = np.moveaxis(G, k, 0).reshape(G.shape[k], -1)
            same = (np.abs(line - line[:, :1]) < 1e-9).all()
            c = np.array(line[:, 0]) if same else np.full(G.shape[k], np.nan)
            f.coords_halo.append(c)
            f.coords.append(c[h[k]:len(c) - h[k]])
    f.in_or_out = lay.assemble(d.in_or_out)
    nv = d.stencil.unvtot
    f.distance = [lay.assemble(d.distance[k]) for k in range(nv)]
    f.flag = [lay.assemble(d.flag[k]) for k in range(nv)]
    nrm = [[lay.assemble(d.normal[k][..., a]) for a in range(dim)] for k in range(nv)]
    f.stencil = d.stencil
    if comm.rank:
        raise NotRoot()
    f.normal = [np.stack(x, axis=-1) for x in nrm]
    for k, a in enumerate(names[:dim]):
        setattr(f, a, f.coords[k])
        setattr(f, a + "_halo", f.coords_halo[k])
    f.shape_in = [len(c) for c in f.coords]
    f.shape_halo = [len(c) for c in f.coords_halo]
    f.get_bounds = lambda: (np.array([c[0] for c in f.coords]), np.array([c[-1] for c in f.coords]))
    f.get_bounds_halo = lambda: (np.array([c[0] for c in f.coords_halo]), np.array([c[-1] for c in f.coords_halo]))
    return f


class NoGrid(BaseException):
    pass


class NotRoot(BaseException):
    pass


# ---------------------------------------------------------------- worker and driver
CASES = {"sim": (6, 24), "dom": (10, 60)}


def worker(ctx, kind, nproc, first, path):
    pylbm = V.import_pylbm()
    comm = world()
    n = CASES[kind][1 if ctx.thorough else 0]
    out = open(path, "a") if comm.rank == 0 else None
    for i in range(first, n):
        try:
            r = (sim_case if kind == "sim" else dom_case)(ctx, pylbm, i, nproc)
        except NoGrid:
            r = None
        except NotRoot:
            r = None
        if out:
            out.write(json.dumps({"i": i, "r": r}) + "\n")
            out.flush()
        comm.Barrier()


def die_with_parent():
    """no process is left behind when the one that started it is killed"""
    import ctypes
    ctypes.CDLL(None).prctl(1, 15)


BOOT = "import sys; sys.argv=['drv']; import d_mpi; d_mpi.die_with_parent(); import vplib, %s as D; D.worker(vplib.Ctx(), %s)"


def mpirun(ctx, nproc, mod, args, log, stall=90, env=None):
    """runs worker(*args) on nproc processes; returns (returncode or None when it made no progress)"""
    cmd = [sys.executable, "-c", BOOT % (mod, ", ".join(repr(a) for a in args))]
    if nproc > 1:
        cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(nproc)] + cmd
    e = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VP_OUT=os.devnull, **(env or {}))
    p = subprocess.Popen(cmd, stdout=open(log, "ab"), stderr=subprocess.STDOUT, env=e, stdin=subprocess.DEVNULL, start_new_session=True,
                         preexec_fn=die_with_parent)
    path = args[-1]
    last, t = -1, time.time()
    while p.poll() is None:
        time.sleep(0.05)
        s = os.path.getsize(path) if os.path.exists(path) else 0
        if s != last:
            last, t = s, time.time()
        if time.time() - t > stall:
            p.terminate()
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
            return None
    return p.returncode


def collect(ctx, mod, kind, nproc, total):
    """results of all the cases on nproc processes; a case that kills the processes or blocks them is reported"""
    path = os.path.join(os.environ["VP_SCRATCH"], "%s_%d.out" % (kind, nproc))
    log = path + ".log"
    open(path, "w").close()
    res, first, bad = {}, 0, 0
    while first < total:
        rc = mpirun(ctx, nproc, mod, [kind, nproc, first, path], log)
        for l in open(path):
            d = json.loads(l)
            res[d["i"]] = d["r"]
        if rc == 0:
            break
        first = max(list(res) + [first - 1]) + 1
        tail = open(log, errors="replace").read()[-300:]
        res[first] = {"dead": "%s on %d processes: %s" % ("no progress" if rc is None else "exit %s" % rc, nproc, tail)}
        first += 1
        bad += 1
        if bad > 2 or (rc is None and not ctx.thorough):
            break               # a blocked grid costs a long wait: one is enough to conclude
    return res


def smoke():
    """the tools must work here at all"""
    t = subprocess.run(["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", "2", sys.executable, "-c",
                        "import mpi4py.MPI as m; assert m.COMM_WORLD.size == 2"], stdin=subprocess.DEVNULL)
    assert t.returncode == 0, "mpirun does not work"


def main(ctx):
    job = json.loads(os.environ["VP_JOB"])
    kind = job["kind"]
    smoke()
    total = CASES[kind][1 if ctx.thorough else 0]
    all_ = {}
    for n in (1, 2, 3, 4, 6):
        if sum("dead" in (r or ()) for a in all_.values() for r in a.values()) > 1:
            break
        all_[n] = collect(ctx, "d_mpi", kind, n, total)
    for i in range(total):
        cid = "%s%d_%d" % (kind[:2], ctx.shard, i)
        ref = all_[1].get(i)
        if not ref or not ctx.want(cid):
            continue
        alts = [(n, all_[n][i]) for n in all_ if n > 1 and all_[n].get(i)]
        if kind == "sim":
            merge_sim(ctx, cid, ref, alts)
        else:
            merge_dom(ctx, cid, ref, alts)


def merge_sim(ctx, cid, ref, alts):
    if "dead" in ref:
        return
    evs = ref["evs"]
    for e in evs:
        if e["op"] != "raise":
            e["alt"] = []
    end = []
    for n, a in alts:
        if "dead" in a:
            end.append({"op": "raise", "msg": a["dead"]})
            continue
        for e, b in zip(evs, a["evs"]):
            if b["op"] == "raise":
                end.append(dict(b, msg="grid %s: %s" % (a["grid"], b["msg"])))
                break
            x = {"grid": a["grid"], "F": b["F"]}
            for k in ("halo", "nt", "t"):
                if k in b:
                    x[k] = b[k]
            e["alt"].append(x)
    ctx.out.case(cid, cfg=ref["cfg"], evs=evs + end[:1], info={"sorder": ref["sorder"], "grids": [a.get("grid") or [] for _, a in alts]})


def merge_dom(ctx, cid, ref, alts):
    if "dead" in ref or not ref.get("cfg"):
        return
    c = dict(ref)
    c.pop("id", None)
    c.pop("grid", None)
    if c["kind"] != "raise":
        c["kind"] = "split"
        c["alt"] = [{"grid": a.get("grid", []), "obs": a.get("obs") or {"msg": str(a.get("dead"))}, "kind": a.get("kind", "raise")} for n, a in alts]
    ctx.out.case(cid, **c)
