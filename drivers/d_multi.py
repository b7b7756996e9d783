"""Several simulations in one program (C21): schedules of MC_Interleave replayed on simulations which share
dictionaries, schemes, functions, labels or symbols.  Each is recorded separately and checked against T_Sim."""
import contextlib, copy, io, json, os
import vplib as V
import numpy as np
import sympy as sp
import d_sim

F_ = V.F_


def dump(x, path="", out=None, depth=0):
    """what the user put in the dictionary, one line per leaf, in order"""
    out = [] if out is None else out
    if depth > 12:
        return out
    if isinstance(x, dict):
        out.append("%s{%d" % (path, len(x)))
        for k, v in x.items():
            dump(v, "%s/%s" % (path, k), out, depth + 1)
    elif isinstance(x, (list, tuple)):
        out.append("%s%s%d" % (path, type(x).__name__, len(x)))
        for i, v in enumerate(x):
            dump(v, "%s/%d" % (path, i), out, depth + 1)
    elif isinstance(x, np.ndarray):
        out.append("%s=%s%s" % (path, x.dtype, x.tolist()))
    elif isinstance(x, (int, float, str, bool, type(None), sp.Basic)):
        out.append("%s=%s %s" % (path, type(x).__name__, x))
    elif isinstance(x, type) or callable(x):
        out.append("%s=%s" % (path, getattr(x, "__qualname__", type(x).__name__)))
    elif hasattr(x, "__dict__"):
        dump({k: v for k, v in sorted(vars(x).items())}, path + ":" + type(x).__name__, out, depth + 1)
    else:
        out.append("%s=%s" % (path, type(x).__name__))
    return out


def make1(rng, src=0.5):
    p = V.gen_problem(rng, svals=[(0, 1), (1, 1), (2, 1)], src=rng.random() < src, ncmax=3, sizemax=4, dim=rng.choice([1, 1, 2, 2, 3]),
                      quad=rng.random() < 0.3)
    if rng.random() < 0.7:
        V.gen_walls(rng, p, methods=("bb", "abb", "n"), values=0.6, timed=0.5, hw=(1, 4))
    return p


def relative(rng, p, kind):
    """another problem which shares things with p; returns (problem, how the dictionary is made)"""
    q = copy.copy(p)
    if kind == "same":
        return q
    if kind == "parameters":
        q.s = [tuple(rng.choice([(0, 1), (1, 1), (2, 1)])) for _ in p.s]
        nonc = [r for r in range(p.q) if r not in p.consrows]
        if nonc and all(q.s[r][0] == 0 for r in nonc) and rng.random() < 0.5:
            q.s[rng.choice(nonc)] = (1, 1)
    if kind == "box":
        # the dictionaries share everything but the box, the elements
        q.n = [max(p.h[i], k + rng.choice([0, 1, 2])) if i < p.dim else 1 for i, k in enumerate(p.n)]
        q.org = [o + rng.choice([0, 1, -1]) if i < p.dim else 0 for i, o in enumerate(p.org)]
        q.sol = None
    q.D = 1
    return q


def case(ctx, pylbm, cid, rng, sched, gens):
    if not ctx.want(cid):
        return
    ns = max(sched)
    length = len(sched) // ns
    kinds = [rng.choice(["same", "same", "parameters", "box", "other"]) for _ in range(ns - 1)]
    p0 = None
    for _ in range(40):
        p0 = make1(rng, 0.8 if "box" in kinds else 0.5)
        if "parameters" in kinds:
            p0.ssym = True
        if V.plan(p0, 2, 4, 4) < 2:
            continue
        ps, ok = [p0], True
        for k in kinds:
            q = make1(rng) if k == "other" else relative(rng, p0, k)
            if k != "same" and V.plan(q, 2, 4, 4) < 2:
                ok = False
            ps.append(q)
        if ok:
            break
    else:
        return
    # the same symbols are used by all; the dictionary of a related problem shares the objects of the first
    inits = [d_sim.rand_init(rng, p0)]
    bcargs = rng.random() < 0.5
    ds = [V.dico(p0, pylbm, init=inits[0][0], bcargs=bcargs, generator=gens[0])]
    for q, k, g in zip(ps[1:], kinds, gens[1:]):
        if k == "other":
            inits.append(d_sim.rand_init(rng, q))
            ds.append(V.dico(q, pylbm, init=inits[-1][0], bcargs=rng.random() < 0.5, generator=g))
            continue
        inits.append(inits[0])
        if k == "same" and g == gens[0]:
            ds.append(ds[0])
            continue
        d = dict(ds[0])
        d["generator"] = g
        e = V.dico(q, pylbm, init=inits[0][0], bcargs=bcargs, generator=g)
        if k == "parameters":
            d["parameters"] = e["parameters"]
        if k == "box":
            d["box"] = e["box"]
            d.pop("elements", None)
            used = set(d["box"]["label"])
            if "boundary_conditions" in d and not any(l >= 0 for l in used):
                d.pop("boundary_conditions")
        ds.append(d)
    before = [dump(d) for d in ds]
    sorders = [V.rand_sorder(rng, q.dim) for q in ps]
    recs = [None] * ns
    dead = [False] * ns
    done = [0] * ns
    evs = [[] for _ in range(ns)]
    side = ["Domain", "Scheme", "Geometry", "Stencil"]
    for s in sched:
        s -= 1
        p = ps[s]
        done[s] += 1
        if dead[s]:
            continue
        if recs[s] is None:
            try:
                if rng.random() < 0.3:
                    with contextlib.redirect_stdout(io.StringIO()):
                        str(getattr(pylbm, rng.choice(side))(ds[s]))
                with contextlib.redirect_stdout(io.StringIO()):
                    sim = pylbm.Simulation(ds[s], sorder=sorders[s])
                    rng.random() < 0.3 and str(sim)
                recs[s] = V.Recorder(p, sim)
                recs[s].init_event(p, "moments", inits[s][1])
            except (Exception, SystemExit) as e:
                evs[s].append({"op": "raise", "msg": "%s at construction: %s" % (type(e).__name__, str(e)[:200])})
                dead[s] = True
            continue
        r = recs[s]
        # a slot: a few operations, the last slot reads everything
        for _ in range(rng.choice([1, 2, 2, 3])):
            o = rng.choice(["set", "setF", "setM", "step", "step", "phase", "read"])
            if o == "set":
                r.setF_all(rng, 0, 2)
            elif o == "setF":
                r.setF(rng, rng.randrange(p.q), 0, 2)
            elif o == "setM":
                r.setM(rng, rng.choice(p.consrows), 0, 2)
            elif o == "read":
                r.read(rng.choice(p.consrows), order=rng.randrange(2))
            elif o == "step":
                if fits(r, p):
                    r.step()
            else:
                o = rng.choice(["bc", "transport", "f2m", "m2f", "relaxation", "equilibrium"] + (["source"] if p.src else []))
                fits(r, p) and r.op(o)
            if not fits(r, p):
                r.setF_all(rng, 0, 2)
        if done[s] == length:
            for c in p.consrows:
                r.read(c)
    for s in range(ns):
        r = recs[s]
        ev = (r.evs if r else []) + evs[s]
        if r:
            r.add("dict", before=before[s], after=dump(ds[s]))
        ctx.out.case("%s.%d" % (cid, s), cfg=V.cfg(ps[s]), evs=ev,
                     info={"schedule": sched, "kinds": kinds, "gens": gens, "sorder": sorders[s] or []})


def fits(r, p):
    """keep the values small enough to be exact"""
    e = r.evs[-1]
    if e["op"] == "raise":
        return True
    return max([abs(x) for k in e["F"] for x in k if abs(x) != V.BAD] + [0]) <= 8 * p.D


def main(ctx):
    pylbm = V.import_pylbm()
    todo = list(ctx.gen)
    mine = [(i, g) for i, g in enumerate(todo) if i % ctx.nshards == ctx.shard]
    rng = ctx.rng("order")
    two = [x for x in mine if max(x[1]) == 2]
    three = [x for x in mine if max(x[1]) == 3]
    rng.shuffle(three)
    rng.shuffle(two)
    # compiled pairs first
    for j in range(1 if not ctx.thorough else 3):
        i, g = rng.choice(two)
        kind = (ctx.shard + j) % 4
        case(ctx, pylbm, "mc%d_%d" % (j, i), ctx.rng("c", j), g, ["cython", "cython"] if kind % 2 == 0 else ["cython", "numpy"])
    n3 = 6 if not ctx.thorough else len(three)
    for rep in range(2 if not ctx.thorough else 4):
        for i, g in two + (three[:n3] if rep == 0 else []):
            if ctx.left() < 0:
                return
            case(ctx, pylbm, "mu%d_%d_%d" % (rep, max(g), i), ctx.rng("u", rep, i, max(g)), g, ["numpy"] * max(g))
