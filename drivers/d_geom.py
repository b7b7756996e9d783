"""Random domains (C05, C06, C07), for spec/T_Geom.tla."""
import itertools, math
import vplib as V
import numpy as np
F_ = V.F_
S = 4


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def dual(vs):
    """integer rows [a, b, c, e] with row_i . v_j = e_i delta_ij"""
    if len(vs) == 2:
        full = [vs[0], vs[1], [0, 0, 1]]
    else:
        full = vs
    det = dot(full[0], cross(full[1], full[2]))
    rows = []
    for i in range(len(vs)):
        r = cross(full[(i + 1) % 3], full[(i + 2) % 3])
        e = det
        if e < 0:
            r, e = [-x for x in r], -e
        g = math.gcd(*[abs(x) for x in r], e)
        rows.append([x // g for x in r] + [e // g])
    return rows


TRIADS = [([1, 0, 0], [0, 1, 0], [0, 0, 1]), ([1, 1, 0], [-1, 1, 0], [0, 0, 1]), ([2, 1, 0], [-1, 2, 0], [0, 0, 1]),
          ([1, 0, 0], [0, 1, 1], [0, -1, 1]), ([1, 0, 1], [0, 1, 0], [-1, 0, 1]), ([1, 0, 0], [0, 2, 1], [0, -1, 2])]


LONG = [([1, 1, 0], [-1, 1, 0], [0, 0, 1]), ([3, 1, 0], [-1, 3, 0], [0, 0, 1]), ([3, -2, 0], [2, 3, 0], [0, 0, 1])]


def gen_element(rng, dim, n, labels, fl=None, fine=True):
    """(spec record, function that builds the pylbm element from real coordinates)"""
    big = 4 * max(n[:dim])
    c = [rng.randrange(-6, S * n[i] + 7) if i < dim else 0 for i in range(3)]
    if rng.random() < 0.5:
        c = [min(max(x, 4), S * n[i] - 4) if i < dim else 0 for i, x in enumerate(c)]
    fl = int(rng.random() < 0.35) if fl is None else fl
    kind = rng.choice(["circle", "ellipse", "par", "par", "tri"] if dim == 2 else ["sphere", "ellipsoid", "cylc", "cyle", "cylt", "box", "box"])
    cyl, exact = 0, 0

    def rv(lo=2, hi=14):
        return [rng.choice([-1, 1]) * rng.randint(0, hi) if i < dim else 0 for i in range(3)]
    for _ in range(1000):
        if kind in ("circle", "sphere"):
            r = rng.randint(2, max(3, big // 2 + 2))
            vs = [[r if i == j else 0 for i in range(3)] for j in range(dim)]
            args = (r,)
            base, exact, nl = "ball", 1, 1
        elif kind in ("ellipse", "ellipsoid"):
            tr = [list(x) for x in rng.choice((TRIADS[:3] if fine else TRIADS[:3] + LONG) if dim == 2 else TRIADS)]
            if rng.random() < 0.4 and dim == 2:
                tr = [tr[1], tr[0], tr[2]]
            ks = [rng.randint(2, max(3, big // 3)) for _ in range(dim)]
            vs = [[k * x for x in t] for k, t in zip(ks, tr)]
            args = tuple(vs)
            base, nl = "ball", 1
        elif kind in ("par", "tri"):
            if rng.random() < 0.4:
                vs = [[rng.choice([-1, 1]) * rng.randint(3, 20), 0, 0], [0, rng.choice([-1, 1]) * rng.randint(3, 20), 0]]
            else:
                vs = [rv(), rv()]
            if rng.random() < 0.3:
                vs.reverse()
            if abs(vs[0][0] * vs[1][1] - vs[0][1] * vs[1][0]) < 30:
                continue
            args = tuple(vs)
            base, nl = ("box", 4) if kind == "par" else ("tri", 3)
        elif kind in ("cylc", "cyle"):
            tr = [list(x) for x in rng.choice(TRIADS)]
            k1 = rng.randint(2, max(3, big // 3))
            k2 = k1 if kind == "cylc" else rng.randint(2, max(3, big // 3))
            if rng.random() < 0.5:
                tr = tr[1:] + tr[:1]
            if kind == "cylc" and dot(tr[0], tr[0]) != dot(tr[1], tr[1]):
                continue
            w = [rng.randint(2, 8) * x for x in tr[2]]
            if rng.random() < 0.3:
                w = [x + rng.choice([-2, 0, 2]) for x in w]
            vs = [[k1 * x for x in tr[0]], [k2 * x for x in tr[1]], w]
            if rng.random() < 0.2:
                vs[2] = [-x for x in w]
            args = tuple(vs)
            base, nl, cyl = "ball", 3, 1
        elif kind in ("cylt", "box"):
            if rng.random() < 0.5:
                o = list(itertools.permutations(range(3)))[rng.randrange(6)]
                vs = [[rng.choice([-1, 1]) * 2 * rng.randint(2, 7) if i == j else 0 for i in range(3)] for j in o]
            else:
                vs = [rv(0, 10) for _ in range(3)]
                vs[2] = [2 * (x // 2) for x in vs[2]]
            if abs(dot(vs[0], cross(vs[1], vs[2]))) < 300:
                continue
            args = tuple(vs)
            base, nl, cyl = ("box", 6, 1) if kind == "box" else ("tri", 5, 1)
        cc = list(c)
        if kind == "box":
            # given by a corner; the spec's centre is in the middle of the height
            cc = [x + y // 2 for x, y in zip(c, vs[2])]
            vs = vs[:2] + [[x // 2 for x in vs[2]]]
        if dim == 3 and len(vs) == 3 and dot(vs[0], cross(vs[1], vs[2])) == 0:
            continue
        rows = dual(vs)
        nb = len(rows) - cyl
        L = math.lcm(*[r[3] for r in rows[:nb]])
        lim = 23000 if nb == 3 else 30000
        if L * (64 if fine else 1) > lim or max(abs(x) for r in rows for x in r) > 500:
            continue
        T = 512 if fine else 1
        while T > 1 and (T * L > lim and base == "ball" or T * max(sum(map(abs, r[:3])) for r in rows) * S * (max(n) + 8) > 2 ** 29 or \
                (base == "tri" and T * L * 20 > 2 ** 30)):
            T //= 2
        if T < (64 if fine else 1):
            continue
        break
    else:
        raise RuntimeError("no element")
    if rng.random() < 0.5 or nl == 1:
        l = rng.choice(labels)
        labs, lab = [l] * nl, l
    else:
        labs = [rng.choice(labels) for _ in range(nl)]
        lab = list(labs)
    if nl == 1 and rng.random() < 0.3:
        lab = [l]
    rec = {"base": base, "c": cc, "vs": vs, "rows": rows, "cyl": cyl, "labs": labs, "fl": fl, "exact": exact, "l": L}

    def make(pylbm, real, scal):
        cls = {"circle": pylbm.Circle, "sphere": pylbm.Sphere, "ellipse": pylbm.Ellipse, "ellipsoid": pylbm.Ellipsoid, "par": pylbm.Parallelogram,
               "tri": pylbm.Triangle, "cylc": pylbm.CylinderCircle, "cyle": pylbm.CylinderEllipse, "cylt": pylbm.CylinderTriangle,
               "box": pylbm.Parallelepiped}[kind]
        a = [scal(x) if isinstance(x, int) else [scal(y) for y in x[:dim]] for x in args]
        kw = {}
        if fl or rng.random() < 0.3:
            kw["isfluid"] = bool(fl)
        if lab != 0 or rng.random() < 0.3:
            kw["label"] = lab
        return cls(real(c)[:dim], *a, **kw)
    return rec, make, T, kind


def bbox(rec, dim):
    lo, up = list(rec["c"]), list(rec["c"])
    for j, v in enumerate(rec["vs"]):
        two = rec["base"] == "ball" or (rec["cyl"] and j == len(rec["vs"]) - 1)
        for i in range(dim):
            lo[i] += -abs(v[i]) if two else min(v[i], 0)
            up[i] += abs(v[i]) if two else max(v[i], 0)
    return lo, up


def apart(a, b, dim, gap=2):
    (l1, u1), (l2, u2) = bbox(a, dim), bbox(b, dim)
    return any(u1[i] + gap < l2[i] or u2[i] + gap < l1[i] for i in range(dim))


def gen_stencils(rng, dim, odd=True):
    if odd and rng.random() < 0.5:
        top = {1: 7, 2: 25, 3: 27}[dim]
        k = rng.randint(2, 6)
        return [rng.sample(range(top), k) for _ in range(rng.choice([1, 1, 2]))]
    return [list(rng.choice(V.STENCILS[dim] + V.WIDE[dim])) for _ in range(rng.choice([1, 1, 2]))]


def domain_case(ctx, pylbm, cid, rng, kind, dim=None, nel=None, dyadic=True, stencils=None, force=None, big=False):
    if not ctx.want(cid):
        return
    dim = dim or rng.choice([2, 2, 3])
    st = stencils or gen_stencils(rng, dim, odd=rng.random() < 0.4 if kind != "coords" else True)
    vels = sorted({V.VEC[dim][k] for s in st for k in s})
    h = [max(abs(v[i]) for v in vels) if i < dim else 0 for i in range(3)]
    if kind == "coords":
        n = [rng.randint(max(1, h[i]), 9 + h[i]) if i < dim else 1 for i in range(3)]
    elif big:
        n = [rng.randint(*{1: (20, 60), 2: (14, 30), 3: (6, 10)}[dim]) if i < dim else 1 for i in range(3)]
    else:
        n = [rng.randint(max(2, h[i]), 9 if dim == 2 else 5) if i < dim else 1 for i in range(3)]
        n = [max(a, b) if i < dim else 1 for i, (a, b) in enumerate(zip(n, h))]
    if dyadic:
        dx = rng.choice([F_(1), F_(1, 2), F_(1, 4), F_(2)])
        org = [F_(rng.choice([0, 0, 1, -2, 5]), rng.choice([1, 2])) for _ in range(3)]
    else:
        dx = rng.choice([F_(1, 10), F_(1, 3), F_(3, 100), F_(7, 5)])
        org = [F_(rng.choice([0, 1, -2]), rng.choice([1, 3, 10])) for _ in range(3)]
    labels = rng.sample(range(8), 4)
    box = []
    for i in range(dim):
        box += [-1, -1] if rng.random() < 0.35 else [rng.choice(labels), rng.choice(labels)]
    els, objs, T = [], [], 512
    names = ["x", "y", "z"]
    dico = {"box": {names[i]: [float(org[i]), float(org[i] + n[i] * dx)] for i in range(dim)},
            "space_step": float(dx), "schemes": [{"velocities": list(s)} for s in st]}
    real = lambda c: [float(org[i] + F_(c[i], S) * dx) for i in range(dim)]
    scal = lambda x: float(F_(x, S) * dx)
    if kind != "coords":
        k = nel if nel is not None else rng.choice([1, 1, 2, 2, 3, 4] if kind == "map" else [1, 1, 1, 2, 2, 9])
        mks = []
        for j in range(k):
            rec, mk, t, ek = gen_element(rng, dim, n, labels, fl=(0 if j == 0 and rng.random() < 0.8 else None) if force is None else force[j],
                                         fine=kind != "map")
            if not dyadic:
                rec["exact"] = 0
            if kind == "links" and j >= 2 and not all(apart(a, b, dim) for a in els + [rec] for b in els + [rec] if a is not b):
                continue        # more than two elements: separated (see the known finding hidden-border)
            T = min(T, t)
            els.append(rec)
            mks.append(mk)
    if len(set(box)) == 1 and rng.random() < 0.5:
        if box[0] != -1 or rng.random() < 0.5:
            dico["box"]["label"] = box[0]
    else:
        dico["box"]["label"] = list(box)
    cfg = {"dim": dim, "n": n, "h": h, "vel": [V.pad(v) for v in vels], "box": box + [-1] * (6 - 2 * dim), "els": els, "T": T}
    try:
        if els:
            dico["elements"] = [mk(pylbm, real, scal) for mk in mks]
        views = []
        if kind == "coords" and rng.random() < 0.5:
            views, d = views_of(pylbm, rng, dico, st, dim)
        else:
            d = pylbm.Domain(dico)
        uv = [tuple(int(x) for x in u.v) for u in d.stencil.unique_velocities]
        if sorted(uv) != vels:
            raise ValueError("unique velocities %s" % uv)
        cfg["vel"] = [V.pad(v) for v in uv]
        obs = observe(d, dim, T, org, dx, kind)
        obs["views"] = views
    except (Exception, SystemExit) as e:
        ctx.out.case(cid, kind="raise", cfg=cfg, obs={"msg": "%s: %s" % (type(e).__name__, str(e)[:200])}, evs=[{"op": "raise"}])
        return
    ctx.out.case(cid, kind=kind, cfg=cfg, obs=obs, evs=[{"op": kind}] + [{"op": ("fluid" if e["fl"] else "solid") + "-" + e["base"] + ("-cyl" if e["cyl"] else "")} for e in els])


def views_of(pylbm, rng, dico, st, dim):
    """the arrays of a simulation on this domain"""
    import sympy as sp
    X = [sp.Symbol(a) for a in "XYZ"]
    dd = dict(dico)
    sch = []
    ms = []
    for i, s in enumerate(st):
        vels = [V.VEC[dim][k] for k in s]
        B = V.gen_basis(rng, dim, vels, 1, 1, 10 ** 9)
        if B is None:
            d = pylbm.Domain(dico)
            return [], d
        u = sp.Symbol("u%d" % i)
        ms.append(u)
        sch.append({"velocities": list(s), "conserved_moments": u, "polynomials": [V.poly_expr(P) for P in B],
                    "relaxation_parameters": [0] + [1] * (len(s) - 1), "equilibrium": [u] + [0] * (len(s) - 1)})
    dd.update(schemes=sch, scheme_velocity=1, generator="numpy", init={u: 0.0 for u in ms})
    dd["box"] = dict(dico["box"], label=-1)
    sim = pylbm.Simulation(dd, sorder=V.rand_sorder(rng, dim))
    q = sum(map(len, st))
    v = [list(sim.m[u].shape) for u in ms] + [list(sim.F[k].shape) for k in range(q)] + [list(sim.m[k].shape) for k in range(q)]
    return v, sim.domain


def num2(a, o, dx):
    """(a - o) * 2 / dx as an integer"""
    r = []
    for x in np.asarray(a, dtype=float).ravel():
        y = (float(x) - float(o)) * 2 / float(dx)
        r.append(int(round(y)) if abs(y - round(y)) < 1e-6 else V.BAD)
    return r


def observe(d, dim, T, org, dx, kind):
    o = {"xc": [], "xh": [], "shin": [int(x) for x in d.shape_in], "shha": [int(x) for x in d.shape_halo]}
    px = [("x", "x_halo"), ("y", "y_halo"), ("z", "z_halo")]
    for i in range(dim):
        a = num2(getattr(d, px[i][0]), org[i], dx)
        b = num2(d.coords[i], org[i], dx)
        o["xc"].append(a if a == b else [V.BAD])
        a = num2(getattr(d, px[i][1]), org[i], dx)
        b = num2(d.coords_halo[i], org[i], dx)
        o["xh"].append(a if a == b else [V.BAD])
    for key, f in (("bounds", d.get_bounds), ("boundsh", d.get_bounds_halo)):
        lo, up = f()
        o[key] = [[num2([lo[i]], org[i], dx)[0] for i in range(dim)], [num2([up[i]], org[i], dx)[0] for i in range(dim)]]
    if kind == "coords":
        return o
    ioo = np.asarray(d.in_or_out)
    o["ioo"] = [0 if x == 999 else 1 if x == -1 else 3 for x in ioo.ravel().tolist()]
    if kind == "map":
        return o
    o["dist"], o["flag"], o["nrm"] = [], [], []
    for k in range(d.stencil.unvtot):
        D = []
        for x in d.distance[k].ravel().tolist():
            D.append(-1 if x == 999 else -2 if not 0 < x <= 1 + 1e-12 else int(math.floor(min(x, 1.0) * T)))
        o["dist"].append(D)
        o["flag"].append([int(x) for x in d.flag[k].ravel()])
        nn = np.nan_to_num(d.normal[k].reshape(-1, dim), nan=9.0, posinf=9.0, neginf=9.0)
        o["nrm"].append([V.pad([int(max(-9000, min(9000, round(1000 * y)))) for y in x]) for x in nn.tolist()])
    return o


def refuse_case(ctx, pylbm, cid, rng):
    if not ctx.want(cid):
        return
    dim = rng.choice([1, 2, 3])
    dx = rng.choice([F_(1), F_(1, 2), F_(1, 10), F_(1, 3), F_(3, 100)])
    lens = []
    bad = rng.choice([None, 0, 1, 2])
    for i in range(dim):
        b = rng.choice([2, 3, 7, 10, 50, 1000, 20000]) if i == bad else rng.choice([1, 1, 5])
        a = rng.randint(4 * b, 7 * b)
        if b >= 1000:
            a = b * rng.randint(4, 7) + rng.choice([-3, -1, 1, 2, 8])
        if i != bad:
            a = b * rng.randint(4, 7)
        lens.append([a, b])
    st = gen_stencils(rng, dim, odd=False)
    org = [F_(rng.choice([0, 1, -2])) for _ in range(dim)]
    names = ["x", "y", "z"]
    dico = {"box": {names[i]: [float(org[i]), float(org[i] + F_(*lens[i]) * dx)] for i in range(dim)}, "space_step": float(dx),
            "schemes": [{"velocities": s} for s in st]}
    try:
        pylbm.Domain(dico)
        ok = True
    except (Exception, SystemExit):
        ok = False
    ctx.out.case(cid, kind="refuse", len=lens, obs={"ok": ok}, evs=[{"op": "refuse"}])


def main(ctx):
    pylbm = V.import_pylbm()
    big = 20 if ctx.thorough else 3
    if ctx.prop == "C05":
        for i in range(40 * big):
            rng = ctx.rng("co", i)
            domain_case(ctx, pylbm, "co%d" % i, rng, "coords", dim=rng.choice([1, 2, 2, 3, 3]), dyadic=rng.random() < 0.5)
        for i in range(25 * big):
            refuse_case(ctx, pylbm, "re%d" % i, ctx.rng("re", i))
    elif ctx.prop == "C06":
        for i in range(60 * big):
            if ctx.left() < 0:
                break
            rng = ctx.rng("ma", i)
            domain_case(ctx, pylbm, "ma%d" % i, rng, "map", dyadic=rng.random() < 0.7, **({} if i % 2 else dict(
                big=True, dim=3 if i % 10 == 0 else 2, nel=rng.choice([1, 1, 2, 3, 4]), stencils=[[0, 1, 2, 3, 4][:rng.randint(2, 5)]])))
    else:
        for i in range(40 * big):
            if ctx.left() < 0:
                break
            rng = ctx.rng("li", i)
            domain_case(ctx, pylbm, "li%d" % i, rng, "links", dyadic=rng.random() < 0.8, dim=rng.choice([1, 2, 2, 2, 3, 3]) if i % 8 == 0 else None,
                        nel=0 if i % 8 == 0 else None)
