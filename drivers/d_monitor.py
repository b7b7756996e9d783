"""Histories of calls of monitored functions, for spec/T_Monitor.tla: those generated by spec/MC_Monitor.tla and longer
random ones.  All the clocks of the process are replaced by one that moves only when the history says so."""
import time, io, contextlib, re
import mpi4py.MPI as mpi

NOW = [1000.0]
TICK = 1e-6             # seconds
REAL = (time.time, time.perf_counter)


def fake():
    return NOW[0]


class Boom(Exception):
    pass


class Machine:
    """interprets a history with real calls of the monitored functions"""
    def __init__(self, ops, funs, table):
        self.ops, self.funs, self.table = ops, funs, table
        self.pos, self.evs, self.depth = 0, [], 0
        self.last = self.cur = None

    def run(self):
        """operations of the current frame, until it ends"""
        while self.pos < len(self.ops):
            o, n = self.ops[self.pos]
            self.pos += 1
            if o == "call":
                self.evs.append({"op": "call", "f": n})
                a, b = object(), object()
                self.want = (a, b)
                self.depth += 1
                try:
                    r = self.funs[n - 1](self, a, key=b)
                    self.evs.append({"op": "ret", "same": r is self.last})
                except Boom as e:
                    self.evs.append({"op": "raise", "same": e is self.cur})
                    o = self.ops[self.pos][0]
                    self.pos += 1
                    if o == "prop":
                        # the events of a propagation are those of the frames it leaves
                        self.depth -= 1
                        raise
                    self.evs.append({"op": "catch"})
                self.depth -= 1
                if self.depth == 0:
                    self.evs.append({"op": "table", "rows": self.table()})
            elif o == "tick":
                NOW[0] += n * TICK
                self.evs.append({"op": "tick", "n": n})
            elif o == "ret":
                self.last = [object(), None, 0][n % 3] if n else object()
                return self.last
            elif o == "raise":
                self.cur = Boom(str(self.pos))
                raise self.cur


def body(machine, a, key=None):
    w = machine.want
    machine.evs.append({"op": "args", "same": a is w[0] and key is w[1]})
    return machine.run()


def make(pylbm, how):
    from pylbm.monitoring import monitor

    def f1(machine, a, key=None):
        return body(machine, a, key)

    def f2(machine, a, *, key):
        return body(machine, a, key)

    class C:
        def f3(self, machine, a, key=None):
            return body(machine, a, key)
    f1.__qualname__, f2.__qualname__, C.f3.__qualname__ = "vpf1", "vpf2", "vpf3"
    C.f3 = monitor(C.f3)
    f1, f2 = monitor(f1), monitor(f2)
    if how % 2:
        def wrapped(*a, **k):
            return f1(*a, **k)
        return [wrapped, f2, C().f3]
    return [f1, f2, C().f3]


def whole(x):
    return int(round(x)) if abs(x) < 1e9 and abs(x - round(x)) < 1e-2 else BAD


BAD = 1999999999


def table(nf=3):
    """what Monitor.print shows"""
    from pylbm import monitoring
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        monitoring.Monitor.print()
    rows = [[0, 0, 0, 0, 0] for _ in range(nf)]
    for l in s.getvalue().splitlines():
        m = re.search(r"^\s*(\S+)\s.*vpf(\d)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s*$", l)
        if m:
            pc, f, n, tot, slf, ml = m.groups()
            rows[int(f) - 1] = [whole(float(n)), whole(float(tot) / TICK), whole(float(slf) / TICK), whole(float(ml) * 100), whole(float(pc) * 10)]
    return rows


def random_history(rng, n, nf, maxdepth):
    ops, depth, exc = [], 0, False
    while len(ops) < n or depth or exc:
        if exc:
            if depth and rng.random() < 0.5:
                ops.append(["prop", 0])
                depth -= 1
            else:
                ops.append(["catch", 0])
                exc = False
            continue
        r = rng.random()
        if depth and (r < 0.25 or len(ops) >= n):
            if rng.random() < 0.35:
                ops.append(["raise", 0])
                exc = True
            else:
                ops.append(["ret", rng.randrange(3)])
            depth -= 1
        elif r < 0.55:
            ops.append(["tick", rng.choice([1, 2, 3, 5, 7, 11, 100])])
        elif depth < maxdepth:
            ops.append(["call", rng.randint(1, nf)])
            depth += 1
    return ops


def main(ctx):
    for n in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(time, n, fake)
    mpi.Wtime = fake
    import vplib as V
    pylbm = V.import_pylbm()
    funs = [make(pylbm, k) for k in range(2)]
    todo = [("g%d" % i, g) for i, g in enumerate(ctx.gen or []) if i % ctx.nshards == ctx.shard]
    rng = ctx.rng("mon")
    for i in range(60 if not ctx.thorough else 600):
        todo.append(("r%d_%d" % (ctx.shard, i), random_history(rng, rng.choice([5, 10, 20, 40]), 3, rng.choice([2, 4, 8]))))
    # something must have been called before the table is printed
    first = [["call", 1], ["tick", 1], ["ret", 0], ["call", 2], ["ret", 0], ["call", 3], ["ret", 0]]
    m = Machine(first, funs[0], lambda: [])
    m.run()
    import sympy as sp
    n = [1]
    for k, (cid, ops) in enumerate(todo):
        if k % 40 == 0:
            # the size is the one of the last simulation
            n = [rng.randint(2, 9) for _ in range(rng.choice([1, 2, 3]))]
            u = sp.Symbol("u")
            with contextlib.redirect_stdout(io.StringIO()):
                pylbm.Simulation({"box": dict(zip("xyz", [[0, x] for x in n]), label=-1), "space_step": 1, "scheme_velocity": 1, "generator": "numpy",
                                  "schemes": [{"velocities": [0, 1, 2], "conserved_moments": u, "polynomials": [1, sp.Symbol("X"), sp.Symbol("X") ** 2],
                                               "relaxation_parameters": [0, 1, 1], "equilibrium": [u, 0, 0]}] if len(n) == 1 else
                                  [{"velocities": [0, 1, 2], "conserved_moments": u, "polynomials": [1, sp.Symbol("X"), sp.Symbol("Y")],
                                    "relaxation_parameters": [0, 1, 1], "equilibrium": [u, 0, 0]}] if len(n) == 2 else
                                  [{"velocities": [0, 1, 2, 3, 5], "conserved_moments": u, "polynomials": [1, sp.Symbol("X"), sp.Symbol("Y"), sp.Symbol("Z"), sp.Symbol("Z") ** 2],
                                    "relaxation_parameters": [0, 1, 1, 1, 1], "equilibrium": [u, 0, 0, 0, 0]}],
                                  "init": {u: 1.0}})
        base = table()
        if not ctx.want(cid):
            continue
        m = Machine([list(o) for o in ops], funs[k % 2], table)
        try:
            m.run()
            evs = m.evs
        except Exception as e:
            evs = m.evs + [{"op": "lost", "msg": "%s: %s" % (type(e).__name__, str(e)[:150])}]
        ctx.out.case(cid, nf=3, n=n, base=base, evs=evs)
