"""Velocities and stencils (C16, C17), for spec/T_Stencil.tla."""
import contextlib, io
import vplib as V
import numpy as np


def vel(pylbm, v):
    return pylbm.stencil.Velocity(**dict(zip(("vx", "vy", "vz"), v)))


def lv(x):
    return [int(a) for a in x]


def symlist(u, dim):
    """the symmetric of u about the origin and the axes"""
    return [u.get_symmetric()] + [u.get_symmetric(axis=a) for a in range(dim)]


def table(ctx, pylbm, dim, n, kmin=0):
    cid = "tab%d" % dim
    if not ctx.want(cid):
        return
    N = (2 * n + 1) ** dim
    try:
        us = [pylbm.stencil.Velocity(dim=dim, num=k) for k in range(N)]
        vec = [lv(u.v) for u in us]
        spec = V.numbering(dim, n)
        num = [int(vel(pylbm, v).num) for v in spec]
        sym = [[] for _ in range(dim + 1)]
        twice = [[] for _ in range(dim + 1)]
        for u in us:
            for a, w in enumerate(symlist(u, dim)):
                sym[a].append([int(w.num), lv(w.v)])
                twice[a].append(int(symlist(w, dim)[a].num))
        bad = []
        for a in (dim, -1):
            try:
                us[0].get_symmetric(axis=a)
                bad.append(False)
            except ValueError:
                bad.append(True)
        ctx.out.case(cid, kind="table", dim=dim, n=n, obs={"vec": vec, "num": num, "sym": sym, "twice": twice, "bad": bad},
                     evs=[{"op": "velocity"}] * N)
    except Exception as e:
        ctx.out.case(cid, kind="raise", dim=dim, n=n, obs={"msg": "%s: %s" % (type(e).__name__, e)}, evs=[])


def far(ctx, pylbm, i):
    rng = ctx.rng("far", i)
    cid = "far%d" % i
    if not ctx.want(cid):
        return
    out = []
    try:
        for _ in range(60):
            dim = rng.choice([1, 2])
            m = rng.choice([20, 100, 900])
            v = [rng.randint(-m, m) for _ in range(dim)]
            if dim == 2 and rng.random() < 0.3:
                v = rng.choice([[v[0], 0], [0, v[1]], [v[0], v[0]], [v[0], -v[0]]])
            u = vel(pylbm, v)
            out.append({"v": v, "num": int(u.num), "back": lv(pylbm.stencil.Velocity(dim=dim, num=u.num).v),
                        "sym": [[int(w.num), lv(w.v)] for w in symlist(u, dim)]})
        ctx.out.case(cid, kind="far", dim=0, n=0, obs={"far": out}, evs=[{"op": "far"}] * 60)
    except Exception as e:
        ctx.out.case(cid, kind="raise", dim=0, n=0, obs={"msg": "%s: %s" % (type(e).__name__, e)}, evs=[])


NORM = {1: 12, 2: 4, 3: 2}


def stencil(ctx, pylbm, i):
    rng = ctx.rng("sten", i)
    cid = "st%d" % i
    if not ctx.want(cid):
        return
    dim = rng.choice([1, 2, 2, 3])
    n = NORM[dim]
    VN = V.numbering(dim, n)
    idx = {tuple(v): k for k, v in enumerate(VN)}
    top = rng.choice([len(VN), (2 * 1 + 1) ** dim, len(VN)])
    lists = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        l = rng.sample(range(top), rng.randint(1, min(top, 9)))
        if rng.random() < 0.6:
            # closed under a symmetry
            add = rng.choice([lambda v: [-a for a in v]] * 3 + [lambda v: [v[0]] + [-a for a in v[1:]]])
            s = set(l)
            for k in l:
                s.add(idx[tuple(add(VN[k]))])
            if rng.random() < 0.15:
                s.discard(rng.choice(sorted(s)))
            l = sorted(s) or [0]
            if rng.random() < 0.7:
                rng.shuffle(l)
        if lists and rng.random() < 0.15:
            l = list(rng.choice(lists))
        if rng.random() < 0.1:
            l = list(range(rng.randint(1, 6)))
        lists.append(l)
    given = [list(range(len(l))) if l == list(range(len(l))) and False else l for l in lists]
    dico = {"dim": dim, "schemes": [{"velocities": list(l)} for l in given]}
    if rng.random() < 0.3:
        dico = {"box": {"x": [0, 1], "label": 0}, "schemes": dico["schemes"]}
        for a in ("y", "z")[: dim - 1]:
            dico["box"][a] = [0, 1]
    try:
        s = pylbm.Stencil(dico)
        o = {"dim": int(s.dim), "ns": int(s.nstencils), "len": len(s), "unum": lv(s.unum), "unvtot": int(s.unvtot),
             "uv": [lv(u.v) for u in s.unique_velocities], "uvc": [lv(x) for x in (s.uvx, s.uvy, s.uvz)[:dim]],
             "u2i": lv(s.unum2index[s.unum]), "nv": lv(s.nv), "ptr": lv(s.nv_ptr),
             "num": [lv(s.num[k]) for k in range(len(lists))], "num1": [lv(s[k].num) for k in range(len(lists))],
             "v": [[lv(u.v) for u in s.v[k]] for k in range(len(lists))],
             "vc": [[lv(x[k]) for x in (s.vx, s.vy, s.vz)[:dim]] for k in range(len(lists))],
             "n2i": lv(s.num2index), "all": [lv(v) for v in s.get_all_velocities()],
             "alls": [[lv(v) for v in s.get_all_velocities(k)] for k in range(len(lists))],
             "vmax": lv(s.vmax), "vmaxf": lv(s.vmax_full), "vmin": lv(s.vmin), "issym": bool(s.is_symmetric()), "sym": []}
        for a in [None] + list(range(dim)):
            try:
                o["sym"].append(lv(s.get_symmetric(a) if a is not None else s.get_symmetric()))
            except ValueError:
                o["sym"].append([])
        ctx.out.case(cid, kind="stencil", dim=dim, n=n, lists=lists, obs=o, evs=[{"op": "stencil"}])
    except (Exception, SystemExit) as e:
        ctx.out.case(cid, kind="raise", dim=dim, n=n, lists=lists, obs={"msg": "%s: %s" % (type(e).__name__, e)}, evs=[])


def main(ctx):
    pylbm = V.import_pylbm()
    t = ctx.thorough
    if ctx.prop == "C16":
        for d, n in ((1, 300 if t else 80), (2, 25 if t else 12), (3, 5 if t else 3)):
            if ctx.shard % 3 == d - 1 and ctx.shard < 3:
                table(ctx, pylbm, d, n)
        for i in range(20 if t else 3):
            far(ctx, pylbm, i)
    else:
        for i in range(400 if t else 60):
            stencil(ctx, pylbm, i)
