"""Traces of real simulations on random problems, for spec/T_Sim.tla.  One mode per property."""
import json, os
import vplib as V
import numpy as np

F_ = V.F_


# ---------------------------------------------------------------- modes: (ctx, pylbm, i, gen)
def stream(ctx, pylbm, i, gen):
    """C01: bc + transport, periodic and not, any stencil, dimension, storage order"""
    rng = ctx.rng("stream", i, gen)
    p = V.gen_problem(rng, wide=True, asym=True, maxdet=10 ** 9, sizemax=6)
    if rng.random() < 0.3:
        V.gen_walls(rng, p, methods=("bb", "n"), values=0)

    def go(r):
        for _ in range(2):
            r.setF_all(rng, -3, 9)
            for _ in range(2):
                if not (r.op("bc") and r.op("transport")):
                    return
            k = rng.randrange(p.q)
            r.setF(rng, k, -5, 5)
            r.op("bc") and r.op("transport")
    V.run_case(ctx, "st%s%d" % (gen[0], i), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen)


def conserve(ctx, pylbm, i, gen):
    """C02: relaxation and whole steps conserve; periodic boxes and boxes with bounce-back walls and obstacles"""
    rng = ctx.rng("cons", i, gen)
    walls = rng.random() < 0.55
    def make():
        p = V.gen_problem(rng, quad=rng.random() < 0.5, svals=rng.choice([[(0, 1), (1, 1), (2, 1), (1, 2), (3, 2)], [(0, 1), (1, 1), (2, 1)]]),
                          wide=rng.random() < 0.3, ncmax=3, asym=not walls and rng.random() < 0.3, sizemax=6)
        if walls:
            V.gen_walls(rng, p, methods=("bb",), values=0, obst=0.8, force=True)
        return p
    p = V.until(rng, make, 2, 9 if ctx.thorough else 5, 2)
    cons = list(p.consrows)
    if walls:
        # bounce-back keeps the mass (the polynomial 1 is the first row of each scheme)
        cons = [p.ptr[s] for s in range(p.nsch)]
        if any(m != "bb" for ms in p.bcm.values() for m in ms):
            cons = []

    def go(r):
        r.setF_all(rng, 0, 2)
        r.read(p.consrows[0])
        r.op("relaxation")
        for c in p.consrows:
            r.read(c)
        r.op("m2f")
        r.setF_all(rng, 0, 2)
        for _ in range(V.steps_allowed(p, 2, 5 if not ctx.thorough else 9)):
            if not r.step():
                return
        # observation only: further steps, the totals are still compared
    V.run_case(ctx, "co%s%d" % (gen[0], i), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen, cfgkw={"cons": cons})


ALGOS = {"numpy": [("Pull", 0, 0), ("Pull", 0, 1), ("Base", 0, 0), ("Base", 0, 1), ("Pull", 1, 1), ("Base", 1, 1)],
         "cython": [("Pull", 1, 0), ("Pull", 0, 0), ("Pull", 0, 1), ("Base", 1, 0), ("Base", 0, 0), ("Base", 0, 1)]}


def algo(pylbm, a):
    from pylbm.algorithm import PullAlgorithm, BaseAlgorithm
    return {"name": {"Pull": PullAlgorithm, "Base": BaseAlgorithm}[a[0]], "settings": {"m_local": bool(a[1]), "split": bool(a[2])}}


def variants(ctx, pylbm, i, gen):
    """C03: the same problem and data with several variants; each must follow the specification.  The same index
    gives the same problem for the two backends."""
    rng = ctx.rng("var", i)
    def make():
        p = V.gen_problem(rng, quad=rng.random() < 0.4, svals=rng.choice([[(0, 1), (1, 1), (2, 1), (1, 2)], [(0, 1), (1, 1), (2, 1)]]),
                          src=rng.random() < 0.5, ncmax=3, sizemax=4)
        return V.gen_walls(rng, p, methods=("bb", "abb", "n", "bbb"), obst=0.4, values=0.5, hw=(1, 2))
    p = V.until(rng, make, 2, 4, 2)
    seed = rng.random()
    vs = ALGOS[gen]
    if gen == "cython":
        vs = [vs[(i + ctx.shard) % len(vs)]]
    else:
        vs = rng.sample(vs, 3)
    for j, a in enumerate(vs):
        r2 = ctx.rng("var-data", i)
        r3 = ctx.rng("var-so", i, j, gen)

        def go(r):
            r.setF_all(r2, 0, 2)
            r.read(p.consrows[-1])
            for o in ("source", "relaxation", "m2f", "bc", "transport", "f2m", "equilibrium"):
                if o == "source" and not p.src:
                    continue
                if not r.op(o):
                    return
            r.read(p.consrows[0])
            r.setF_all(r2, 0, 2)
            for _ in range(V.steps_allowed(p, 2, 4)):
                if not r.step():
                    return
            r.read(p.consrows[0])
        so = list(range(p.dim + 1))
        r3.shuffle(so)
        V.run_case(ctx, "va%s%d_%d" % (gen[0], i, j), p, go, pylbm, sorder=so, generator=gen, algo=algo(pylbm, a))


def bounds(ctx, pylbm, i, gen):
    """C08: the boundary condition phase alone, any methods, obstacles, distances"""
    rng = ctx.rng("bnd", i, gen)
    wide = rng.random() < 0.3
    p = V.gen_problem(rng, wide=wide, sizemax=7 if wide else 5, svals=[(1, 1)], maxdet=4, dim=rng.choice([1, 2, 2, 2, 3]))
    hw = rng.choice([(3, 4), (5, 8), (1, 4), (3, 8), (1, 2), (7, 16), (9, 16)] if max(p.h) == 1 else [(1, 4), (1, 4), (7, 16)])
    V.gen_walls(rng, p, methods=("bb", "abb", "bbb", "babb", "n", "nx", "ny", "nz"), pwall=0.7, obst=0.7, values=0.3, hw=hw, force=True)
    b = V.bouzidi(p)
    p.D = V.wall_den(p) * b * b
    if p.D > 2 ** 22:
        p.D = V.wall_den(p) * b

    def go(r):
        for _ in range(3):
            r.setF_all(rng, -4, 9)
            if not r.op("bc"):
                return
            r.setF(rng, rng.randrange(p.q), -9, 9)
            if not r.op("bc"):
                return
            r.op("transport")
            r.op("bc")
    V.run_case(ctx, "bo%s%d" % (gen[0], i), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen)


def directed_known(ctx, pylbm, i, gen):
    """C08: Bouzidi anti bounce-back at d = 1/4 around one obstacle (known finding)"""
    rng = ctx.rng("known", i)
    p = V.gen_problem(rng, dim=2, stencils=[[0, 1, 2, 3, 4]], la=1, sizes=[7, 7], dx=F_(1), svals=[(1, 1)], org=[0, 0, 0])
    p.sol = [0] * 49
    p.sol[3 * 7 + 3] = 1
    p.hw = (3, 4)
    p.bcm = {0: ["babb"]}
    p.D = 240

    def go(r):
        r.setF_all(rng, 1, 9)
        r.op("bc")
    V.run_case(ctx, "kn%s%d" % (gen[0], i), p, go, pylbm, generator=gen)


def prescribed(ctx, pylbm, i, gen):
    """C09: prescribed values depending on position and time, several labels, several steps"""
    rng = ctx.rng("val", i, gen)

    def make():
        p = V.gen_problem(rng, svals=[(1, 1), (0, 1)], sizemax=5, maxdet=2, ncmax=3, wide=rng.random() < 0.2, eqcoef=(-1, 1, 2),
                          dx=rng.choice([F_(1), F_(1, 2), F_(2)]))
        return V.gen_walls(rng, p, methods=("bb", "abb", "bbb", "babb", "bb", "abb"), pwall=0.8, obst=0.5, values=1.0, timed=0.7, hw=rng.choice([(1, 2), (1, 2), (1, 4), (3, 4), (1, 8)]), force=True)
    p = V.until(rng, make, 2, 5, 2)
    args = rng.random() < 0.5

    def go(r):
        r.setF_all(rng, 0, 2)
        r.op("bc")
        r.setF_all(rng, 0, 2)
        n = V.steps_allowed(p, 2, 5)
        for _ in range(n):
            if not r.step():
                return
            if rng.random() < 0.3:
                r.op("bc")
        if n == 0:
            r.op("bc")
    V.run_case(ctx, "pv%s%d" % (gen[0], i), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen, bcargs=args)


def access(ctx, pylbm, i, gen):
    """C10: random interleavings of phases, assignments, steps and reads"""
    rng = ctx.rng("acc", i, gen)

    def make():
        asym = rng.random() < 0.25      # velocities without their opposites: no boundary condition
        p = V.gen_problem(rng, svals=rng.choice([[(0, 1), (1, 1), (1, 2)], [(0, 1), (1, 1)]]), src=rng.random() < 0.4, ncmax=3, sizemax=4, eqcoef=(-1, 1),
                          wide=not asym and rng.random() < 0.3, asym=asym)
        if not asym and rng.random() < 0.5:
            V.gen_walls(rng, p, methods=("bb", "n"), values=0.3, timed=0)
        return p
    p = V.until(rng, make, 8, 3, 2)
    ops = None
    if ctx.gen:
        ops = ctx.gen[(ctx.shard + ctx.nshards * i) % len(ctx.gen)]
    drive_ops(ctx, pylbm, p, rng, "ac%s%d" % (gen[0], i), gen, ops)


def user_op(r, rng, p):
    calls = ["f2m-m", "f2m-f", "m2f-m", "m2f-f", "relaxation", "equilibrium"] + (["source"] if p.src else [])
    r.user(rng, rng.choice(calls))


def drive_ops(ctx, pylbm, p, rng, cid, gen, ops):
    def go(r):
        r.setF_all(rng, 0, 2)
        k = 14 if not ctx.thorough else 24
        todo = list(ops) if ops else None
        size = 2.0
        limit = 2.0 ** 22
        M, inv, den = V.matrices(p)
        g = float(V.bound_growth(p, 1, 2)) / 2 + 1
        while (todo if todo is not None else k > 0):
            k -= 1
            o = todo.pop(0) if todo is not None else rng.choice(
                ["read", "read", "readh", "setF", "setM", "bc", "transport", "f2m", "m2f", "relaxation", "equilibrium", "source", "step", "user", "user"])
            if todo is not None and rng.random() < 0.12 and r.evs[-1]["op"] != "raise":
                user_op(r, rng, p)
            if o == "user":
                user_op(r, rng, p)
            elif o in ("setFall",):
                r.setF_all(rng, 0, 2)
            elif o in ("read", "readh"):
                r.read(rng.choice(p.consrows), order=0 if o == "read" else 1)
            elif o == "setF":
                r.setF(rng, rng.randrange(p.q), 0, 2)
            elif o == "setM":
                r.setM(rng, rng.choice(p.consrows), 0, 2)
            elif o == "step":
                if V.steps_allowed(p, 8, 1) < 1 or sum(e["op"] == "step" for e in r.evs) >= p.steps:
                    continue
                r.step()
            elif o == "source" and not p.src:
                continue
            else:
                r.op(o)
            if r.evs[-1]["op"] == "raise":
                return
            if max(abs(x) for k_ in r.evs[-1]["F"] for x in k_ if abs(x) != V.BAD) > 4096:
                r.setF_all(rng, 0, 2)
        for c in p.consrows:
            r.read(c)
    V.run_case(ctx, cid, p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen)


def compose(ctx, pylbm, i, gen):
    """C11: whole steps against the documented succession, counters, postponed initialisation"""
    rng = ctx.rng("cmp", i, gen)

    fine = rng.random() < 0.2       # a time step with many digits

    def make():
        p = V.gen_problem(rng, svals=rng.choice([[(0, 1), (1, 1), (1, 2), (2, 1)], [(0, 1), (1, 1), (2, 1)]]), src=not fine and rng.random() < 0.6, ncmax=2, sizemax=5,
                          quad=rng.random() < 0.3, wide=rng.random() < 0.2, dx=F_(1, 256) if fine else None)
        if fine:
            p.lasym = rng.random() < 0.7
        elif rng.random() < 0.6:
            V.gen_walls(rng, p, methods=("bb", "abb", "n"), values=0.5, timed=0.5)
        return p
    p = V.until(rng, make, 16, 5, 3, extra=4)
    init, rows = rand_init(rng, p, forms=("const",) if fine else ("const", "fun", "funargs"))
    late = rng.random() < 0.5

    def go(r):
        if not late:
            r.init_event(p, "moments", rows)
            if rng.random() < 0.5:
                r.setF_all(rng, 0, 2)
        n = V.steps_allowed(p, 4, 5)
        if late:
            # the first step must initialise, exactly once
            r.evs.append({"op": "virtual", "kind": "moments", "rows": rows})
        for j in range(n):
            if not r.step():
                return
            if j == 0 and n > 1:
                F0 = np.array(r.sim.container.F.array)
        if rng.random() < 0.5 and n:
            r.setF_all(rng, 0, 2)
            for o in ["bc", "transport", "f2m"] + (["source"] if p.src else []) + ["relaxation"] + (["source"] if p.src else []) + ["m2f"]:
                if not r.op(o):
                    return
            r.step()
    V.run_case(ctx, "cm%s%d" % (gen[0], i), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen, init=init, initialize=not late)


def rand_init(rng, p, kind="moments", forms=("const", "fun", "funargs")):
    """random affine initial values; returns the pylbm dictionary and the rows for the spec"""
    syms = V.symbols_of(p)
    init, rows = {}, []
    keys = p.consrows if kind == "moments" else list(range(p.q))
    for r in keys:
        form = rng.choice(forms)
        c0 = rng.choice([0, 1, 2, -1])
        cx = [rng.choice([0, 1, -1, 2]) if d < p.dim and form != "const" else 0 for d in range(3)]
        key = syms[r] if kind == "moments" else r
        if form == "const":
            v = float(c0)
        elif form == "fun":
            v = V.affine_fun(c0, cx, p.dim)
        elif form == "funargs":
            v = (V.affine_fun_arg(p.dim), (c0, cx))
        init[key] = v
        rows.append({"i": r + 1, "c0": c0, "cx": cx})
    return init, rows


def initial(ctx, pylbm, i, gen):
    """C19: the state after construction"""
    rng = ctx.rng("ini", i, gen)
    p = V.until(rng, lambda: V.gen_problem(rng, svals=rng.choice([[(0, 1), (1, 1), (1, 2)], [(0, 1), (1, 1)]]), ncmax=3, sizemax=6,
                                           quad=rng.random() < 0.3, wide=rng.random() < 0.3, src=rng.random() < 0.3), 16, 2, 1, extra=4)
    kind = rng.choice(["moments", "moments", "distributions"])
    init, rows = rand_init(rng, p, kind)

    def go(r):
        r.init_event(p, kind, rows)
        for c in p.consrows:
            r.read(c)
        for _ in range(V.steps_allowed(p, 12, 2)):
            if not r.step():
                return
    V.run_case(ctx, "in%s%d" % (gen[0], i), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen, init=init,
               inittype=None if kind == "moments" and rng.random() < 0.5 else kind)


def matrices(ctx, pylbm, i, gen):
    """C12: moments of distributions and back, several schemes, scheme velocities"""
    rng = ctx.rng("mat", i, gen)
    dim = rng.choice([1, 2, 2, 3, 3])
    st = None
    if dim == 3 and rng.random() < 0.4:
        st = [rng.choice([V.D3Q15, V.D3Q19])]
    p = V.gen_problem(rng, dim=dim, wide=True, asym=rng.random() < 0.3, maxdet=50, ncmax=4, svals=[(0, 1), (1, 1)], sizemax=3, nsch=rng.choice([1, 2, 2]),
                      la=rng.choice([1, 2, 3]), stencils=st)
    p.D = V.matrices(p)[2]
    if p.D > 5000:
        p.D = 1

    def go(r):
        r.setF_all(rng, -3, 7)
        for c in p.consrows:
            r.read(c)
        r.op("m2f")
        r.op("f2m")
        r.setM(rng, p.consrows[0], -2, 5)
        r.op("m2f")
        for c in p.consrows:
            r.read(c)
        # any moment, by its row, when the code keeps the order of declaration
        if list(r.sim.scheme.consm.values()) == p.consrows:
            for c in rng.sample(range(p.q), min(p.q, 4)):
                r.read(c, key=c)
    V.run_case(ctx, "ma%s%d" % (gen[0], i), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen)


def phases(ctx, pylbm, i, gen):
    """C13: relaxation, equilibrium and source phases"""
    rng = ctx.rng("pha", i, gen)
    p = V.until(rng, lambda: V.gen_problem(rng, svals=rng.choice([[(0, 1), (1, 1), (2, 1), (1, 2), (3, 2), (5, 4)], [(0, 1), (1, 1), (2, 1), (-1, 1)]]),
                                           src=rng.random() < 0.8, ncmax=3, sizemax=3, quad=rng.random() < 0.7, maxdet=2, eqcoef=(-1, 1, 2)), 2, 1, 1)

    def go(r):
        for _ in range(3):
            r.setF_all(rng, -1, 2)
            for o in rng.sample(["relaxation", "equilibrium", "source", "source"], 3):
                if o == "source" and not p.src:
                    continue
                if not r.op(o):
                    return
                for c in p.consrows:
                    r.read(c)
            r.op("m2f")
            r.op("equilibrium")
            r.op("relaxation")
            r.op("m2f")
            if p.steps:
                # later times
                r.setF_all(rng, -1, 2)
                if not r.step():
                    return
    V.run_case(ctx, "ph%s%d" % (gen[0], i), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen)


def unambiguous(p):
    """conserved moments are recognised by their equilibrium: no other moment may have the same"""
    for r, e in enumerate(p.eq):
        if r not in p.consrows and len(e["t"]) == 1 and e["t"][0]["c"] == 1 and len(e["t"][0]["f"]) == 1:
            e["t"][0]["c"] = -1


def declare(ctx, pylbm, i, gen):
    """C14: permuted declarations of the same problem"""
    rng = ctx.rng("dec", i, gen)

    def make():
        p = V.gen_problem(rng, svals=[(0, 1), (1, 1), (2, 1)], src=rng.random() < 0.5, ncmax=3, sizemax=4, nsch=rng.choice([1, 2, 2, 3]),
                          dim=rng.choice([1, 2, 2]))
        unambiguous(p)
        if rng.random() < 0.5:
            V.gen_walls(rng, p, methods=("bb", "abb", "n"), values=0.5, timed=0.5)
        return p
    p = V.until(rng, make, 3, 3, 2, extra=4)
    nv = 3 if gen == "numpy" else 1
    for j in range(nv):
        r3 = ctx.rng("dec-perm", i, j, gen)
        perm = []
        for s in range(p.nsch):
            o = list(range(p.ptr[s + 1] - p.ptr[s]))
            r3.shuffle(o)
            perm.append(o)
        co = []
        for s in range(p.nsch):
            o = list(range(p.nc[s]))
            r3.shuffle(o)
            co.append(o)
        sp = list(range(p.nsch))
        if r3.random() < 0.6:
            r3.shuffle(sp)
        init, rows = rand_init(ctx.rng("dec-init", i), p)
        init = dict(sorted(init.items(), key=lambda _: r3.random()))
        kmap = [0] * p.q
        pos = 0
        for s in sp:
            for k in range(p.ptr[s], p.ptr[s + 1]):
                kmap[k] = pos
                pos += 1
        r2 = ctx.rng("dec-data", i)

        def go(r):
            r.kmap = kmap
            r.init_event(p, "moments", rows)
            for c in p.consrows:
                r.read(c)
            r.setF_all(r2, 0, 2)
            for c in p.consrows:
                r.read(c)
            r.setM(r2, r2.choice(p.consrows), 0, 3)
            for o in (["source"] if p.src else []) + ["relaxation", "m2f"]:
                r.op(o)
            r.setF_all(r2, 0, 2)
            for _ in range(V.steps_allowed(p, 2, 3)):
                if not r.step():
                    return
        V.run_case(ctx, "de%s%d_%d" % (gen[0], i, j), p, go, pylbm, sorder=V.rand_sorder(r3, p.dim), generator=gen, perm=perm, consorder=co,
                   schperm=sp, init=init, shuffle=r3)


def relative(ctx, pylbm, i, gen):
    """C15: relaxation in a moving frame, against its definition, or against the scheme without relative velocity
    when both must coincide"""
    rng = ctx.rng("rel", i, gen)
    kind = rng.choice(["zero", "equal", "const", "const", "moment", "moment"])

    def make():
        while True:
            p = V.gen_problem(rng, svals=rng.choice([[(0, 1), (1, 1), (2, 1)], [(0, 1), (1, 1), (1, 2), (3, 2)]] if kind != "moment" else [[(0, 1), (1, 1), (2, 1)]]),
                              ncmax=4, sizemax=4, src=kind in ("zero", "equal") and rng.random() < 0.5, dim=rng.choice([1, 1, 2, 2, 2, 3]),
                              quad=kind != "moment" and rng.random() < 0.3)
            if kind == "const":
                p.D = V.matrices(p)[2]
            if V.translation_closed(p) and any(n > 1 for n in p.nc) and (kind != "moment" or V.matrices(p)[2] == 1):
                break
        unambiguous(p)
        if kind == "equal":
            for s in range(p.nsch):
                v = rng.choice([(1, 1), (2, 1), (1, 2)])
                for r in range(p.ptr[s], p.ptr[s + 1]):
                    if r not in p.consrows:
                        p.s[r] = v
        if rng.random() < 0.4:
            V.gen_walls(rng, p, methods=("bb", "n"), values=0.3, timed=0)
        return p
    p = V.until(rng, make, 2, 3, 1)
    rel = []
    for d in range(3):
        t = []
        if d < p.dim and kind != "zero":
            t = [{"c": rng.choice([1, -1, 2, 0]), "f": []}]
            if kind == "moment" or (kind == "equal" and rng.random() < 0.5):
                t = [{"c": rng.choice([1, -1]), "f": [rng.choice(p.consrows)]}]
        rel.append({"den": 1, "t": t})
    p.relgiven = rel
    if kind in ("const", "moment"):
        p.rel = rel
    sym = rng.random() < 0.4

    def code(j, e, params):
        if e.is_number:
            v = int(e) if rng.random() < 0.5 else float(e)
            if sym:
                S = V.sp.Symbol("relu_%d" % j)
                params[S] = v
                return S
            return v
        return e
    p.relcode = code
    algs = ALGOS[gen]
    a = algs[(i + ctx.shard) % len(algs)]
    p.tag = "%s %s %s src=%d walls=%d" % (kind, a, rel[:p.dim], len(p.src), p.sol is not None or any(l != -1 for l in p.box))
    perm = None
    if rng.random() < 0.5:
        perm = []
        for s in range(p.nsch):
            o = list(range(p.ptr[s + 1] - p.ptr[s]))
            rng.shuffle(o)
            perm.append(o)

    def go(r):
        r.setF_all(rng, -1, 2 if kind != "moment" else 1)
        for c in p.consrows:
            r.read(c)
        n = V.steps_allowed(p, 2, 3)
        for j in range(max(n, 1)):
            if not r.step():
                return
            if j == 0 and p.sol is None and all(l == -1 for l in p.box):
                r.read(rng.choice(p.consrows))
            if kind == "moment" or rng.random() < 0.3:
                r.setF_all(rng, -1, 2 if kind != "moment" else 1)
        r.setF_all(rng, -1, 2 if kind != "moment" else 1)
        r.step()
        r.setF_all(rng, -1, 2 if kind != "moment" else 1)
        r.op("relaxation")
        r.op("m2f")
    p_cons = p.consrows if p.sol is None and all(l == -1 for l in p.box) and not p.src else []
    V.run_case(ctx, "re%s%d%s" % (gen[0], i, kind[0]), p, go, pylbm, sorder=V.rand_sorder(rng, p.dim), generator=gen, algo=algo(pylbm, a), perm=perm,
               cfgkw={"cons": p_cons})


MODES = {
    "C15": [("relative", 18, 1)],
    "C01": [("stream", 20, 1)], "C02": [("conserve", 30, 1)], "C03": [("variants", 8, 2)], "C08": [("bounds", 16, 1)],
    "C09": [("prescribed", 30, 1)], "C10": [("access", 30, 1)], "C11": [("compose", 30, 1)], "C12": [("matrices", 24, 1)],
    "C13": [("phases", 30, 1)], "C14": [("declare", 9, 2)], "C19": [("initial", 36, 1)],
}


def main(ctx):
    pylbm = V.import_pylbm()
    job = json.loads(os.environ["VP_JOB"])
    g = globals()
    if ctx.prop == "C08" and ctx.shard == 0:
        directed_known(ctx, pylbm, 0, "numpy")
    for mode, nn, nc in MODES[ctx.prop]:
        k = 6 if ctx.thorough else 1
        for i in range(nc * (4 if ctx.thorough else 1)):
            g[mode](ctx, pylbm, i, "cython")
        for i in range(nn * k):
            if ctx.left() < 0:
                break
            g[mode](ctx, pylbm, i, "numpy")
