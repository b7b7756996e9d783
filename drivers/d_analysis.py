"""Stability matrices, eigenvalues and equivalent equations of random schemes, for spec/T_Analysis.tla (C22)."""
import contextlib, io
import vplib as V
import numpy as np
import sympy as sp

F_ = V.F_


def make(rng, rel):
    while True:
        p = V.gen_problem(rng, svals=rng.choice([[(1, 1), (2, 1)], [(1, 1), (1, 2), (3, 2)]]), ncmax=4, quad=rng.random() < 0.5, sizemax=4,
                          wide=rng.random() < 0.2, eqcoef=(-1, 1, 2), asym=rng.random() < 0.2, maxdet=1 if rng.random() < 0.7 else 4)
        if p.q > 12:
            continue
        if rng.random() < 0.5:
            for e in p.eq:
                e["t"] = [t for t in e["t"] if len(t["f"]) == 1]
        for r in p.consrows:
            p.s[r] = rng.choice([(0, 1), (0, 1), (1, 1)])
        if rel and not V.translation_closed(p):
            continue
        # conserved moments are recognised by their equilibrium
        for r, e in enumerate(p.eq):
            if r not in p.consrows and len(e["t"]) == 1 and e["t"][0]["c"] == 1 and len(e["t"][0]["f"]) == 1:
                e["t"][0]["c"] = -1
        return p


def exact(x, scale):
    """scaled integer of a sympy number"""
    x = float(x) * scale
    return int(round(x)) if abs(x) < 10 ** 9 and abs(x - round(x)) < 1e-7 * max(1, abs(x)) else V.BAD


def case(ctx, pylbm, cid, rng):
    if not ctx.want(cid):
        return
    rel = rng.random() < 0.35
    p = make(rng, rel)
    M, inv, den = V.matrices(p)
    sden = V.lcm(*[x[1] for x in p.s])
    p.D = den ** 3 * sden
    W = [0] * p.q
    for r in p.consrows:
        W[r] = rng.choice([0, 1, -1, 2, 3])
    if rel:
        p.rel = []
        for d in range(3):
            t = []
            if d < p.dim:
                t = [{"c": rng.choice([1, -1, 2]), "f": rng.choice([[], [rng.choice(p.consrows)]])}]
                if t[0]["f"]:
                    W[t[0]["f"][0]] = rng.choice([1, -1])
            p.rel.append({"den": 1, "t": t})
        p.relgiven = p.rel
        p.relcode = lambda j, e, params: int(e) if e.is_number else e
    cfg = V.cfg(p)
    cfg["fixed"] = [r + 1 for r in p.consrows]
    evs = []
    try:
        perm = None
        if rng.random() < 0.5:
            perm = []
            for s in range(p.nsch):
                o = list(range(p.ptr[s + 1] - p.ptr[s]))
                rng.shuffle(o)
                perm.append(o)
        d = V.dico(p, pylbm, perm=perm)
        syms = V.symbols_of(p)
        with contextlib.redirect_stdout(io.StringIO()):
            sch = pylbm.Scheme(d)
            st = pylbm.Stability(sch)
            keys = list(sch.consm.keys())
            back = {s: r for r, s in syms.items()}
            order = [back[k] for k in keys]
            state = {syms[r]: W[r] for r in p.consrows}
            num = sp.Matrix(st.relax_mat_f)
            for _ in range(6):
                num = num.subs(state).subs(d.get("parameters", {}))
            R = [[exact(num[i, j], p.D) for j in range(p.q)] for i in range(p.q)]
            evs.append({"op": "matrix", "W": W, "R": R})
            # eigenvalues at wave vectors multiple of pi / 2
            late = rng.random() < 0.5
            vxi, eigs = st.eigenvalues([W[r] for r in order], 4 ** p.dim)
        norm = max(1, max(sum(abs(x) for x in r) for r in R))
        todo = rng.sample(range(vxi.shape[1]), min(vxi.shape[1], 5))
        for k in todo:
            w = vxi[:, k] / (np.pi / 2)
            wi = [int(round(x)) for x in w] + [0] * (3 - p.dim)
            tr = []
            for j in range(1, 5):
                if p.q * float(norm) ** j > 2 ** 29:
                    break
                z = np.sum((eigs[k] * p.D) ** j)
                tr.append([int(round(z.real)) if abs(z.real - round(z.real)) < 1e-3 else V.BAD, int(round(z.imag)) if abs(z.imag - round(z.imag)) < 1e-3 else V.BAD])
            if tr and np.allclose(w, wi[:p.dim]):
                evs.append({"op": "eig", "w": wi, "tr": tr, "verdict": int(st.is_stable_l2)})
        if len(todo) < vxi.shape[1] and len(set(map(tuple, np.round(vxi.T, 6)))) != 4 ** p.dim:
            evs.append({"op": "raise", "msg": "%d wave vectors" % vxi.shape[1]})
        # the lattice run by the matrix
        if all(len(t["f"]) == 1 for e in p.eq for t in e["t"]) and not rel:
            p2 = p
            so = V.rand_sorder(rng, p.dim)
            with contextlib.redirect_stdout(io.StringIO()):
                sim = pylbm.Simulation(d, sorder=so)
            shape = [p.n[i] + 2 * p.h[i] for i in range(p.dim)]
            F, G = [], []
            for k in range(p.q):
                v = np.array([rng.randint(-2, 3) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)
                sim.F_halo[k] = v
                F.append([int(x) for x in np.array(sim.F[k]).ravel()])
            with contextlib.redirect_stdout(io.StringIO()):
                sim.one_time_step()
            for k in range(p.q):
                G.append(V.enc(np.array(sim.F[k]), p.D).ravel().tolist())
            evs.append({"op": "run", "F": F, "G": G})
        # equivalent equation
        if not rel and all(p.s[r][0] for r in range(p.q) if r not in p.consrows):
            with contextlib.redirect_stdout(io.StringIO()):
                ee = pylbm.EquivalentEquation(sch)
            def sub(x):
                x = sp.sympify(x).subs(state)
                for _ in range(5):
                    x = x.subs(d.get("parameters", {}))
                return x
            sn = 1
            for r in range(p.q):
                if r not in p.consrows:
                    sn *= p.s[r][0]
            for a in range(p.dim):
                val = [0] * p.q
                for ic, r in enumerate(order):
                    val[r] = exact(sub(ee.coeff_order1[a][ic]), den)
                evs.append({"op": "flux", "W": W, "d": a + 1, "val": val})
                for b in range(p.dim):
                    m = [[0] * p.q for _ in range(p.q)]
                    for ic, r in enumerate(order):
                        for jc, r2 in enumerate(order):
                            m[r][r2] = exact(sub(ee.coeff_order2[a][b][ic, jc]), den * den * 2 * sn)
                    evs.append({"op": "order2", "W": W, "d": a + 1, "e": b + 1, "val": m})
    except (Exception, SystemExit) as e:
        evs.append({"op": "raise", "msg": "%s: %s" % (type(e).__name__, str(e)[:200])})
    ctx.out.case(cid, cfg=cfg, evs=evs, info={"rel": rel, "dim": p.dim, "nsch": p.nsch, "stencils": p.stencils})


def main(ctx):
    pylbm = V.import_pylbm()
    for i in range(9 if not ctx.thorough else 60):
        if ctx.left() < 0:
            break
        case(ctx, pylbm, "an%d" % i, ctx.rng("an", i))
