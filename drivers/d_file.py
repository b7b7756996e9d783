"""Files written by H5File on several process grids, for spec/T_File.tla (C18)."""
import os, sys, json, random, shutil, io, contextlib
import vplib as V
import numpy as np
import d_mpi as M
F_ = V.F_


def file_case(ctx, pylbm, i, nproc):
    rng = random.Random("file/%s/%s/%s" % (ctx.seed, ctx.shard, i))
    dim = rng.choice([1, 2, 2, 2, 3, 3])
    p = V.Problem()
    p.dim = dim
    p.n = V.pad([rng.randint(1, {1: 11, 2: 7, 3: 5}[dim]) for _ in range(dim)], 1)
    st = rng.choice({1: [[0, 1, 2], [0, 1, 2, 3, 4]], 2: [[0, 1, 2, 3, 4], [1, 2, 3, 4, 9, 10, 11, 12], [0, 1, 3]], 3: [[0, 1, 2, 3, 4, 5, 6]]}[dim])
    p.h = V.pad([max(abs(V.VEC[dim][k][d]) for k in st) for d in range(dim)], 0)
    p.n = [max(a, b) for a, b in zip(p.n, p.h)]
    p.dx = rng.choice([F_(1), F_(1, 2), F_(2)])
    p.org = [rng.choice([0, 1, -3]) for _ in range(dim)]
    gr = {}
    for k in (1, 2, 3, 4, 6):
        g = M.grids_for(rng, dim, p.n, p.h, k)
        if g:
            gr[k] = rng.choice(g)
    pick = [1] + rng.sample([k for k in gr if k > 1], min(2, len([k for k in gr if k > 1])))
    if nproc not in pick:
        return None
    rng = random.Random("file-data/%s/%s/%s" % (ctx.seed, ctx.shard, i))
    names3 = ["x", "y", "z"]
    sys.argv = M.argv_of(rng, gr[nproc], nproc)
    comm = M.world()
    dico = {"box": {names3[d]: [float(p.org[d]), float(p.org[d] + p.n[d] * p.dx)] for d in range(dim)},
            "space_step": float(p.dx), "schemes": [{"velocities": st}]}
    dico["box"]["label"] = -1
    base = os.path.join(os.environ["VP_SCRATCH"], "h5_%d_%d" % (i, nproc))
    if comm.rank == 0:
        shutil.rmtree(base, ignore_errors=True)
        os.mkdir(base)
    comm.Barrier()
    sub = rng.choice(["", "out", ".", "abs"])
    step = rng.choice([None, 0, 3, 12])
    name = rng.choice(["run", "lbm.h5", "a_b"])
    cid = {"n": p.n[:dim], "o": [int(2 * p.org[d] * 2) for d in range(dim)], "d": int(p.dx * 2), "grid": gr[nproc],
           "file": os.path.splitext(name)[0] + ("_%d" % step if step is not None else "") + ".h5"}
    fields = []
    shape = p.n[:dim]
    nf = rng.randint(1, 4)
    for f in range(nf):
        kind = rng.choice(["scalar", "scalar", "vector"])
        nc = 1 if kind == "scalar" else rng.choice([dim, dim, 3, 1, 2])
        top = rng.choice([99, 99, 9 * 10 ** 8])       # the second needs the precision announced by the file
        vals = [np.array([rng.randint(-top, top) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape) for _ in range(nc)]
        fields.append((kind, rng.choice(["rho", "q", "velocity", "m", "Z"]) + str(f), vals, rng.choice(["array", "fun", "view", "order", "int"]), top))
    if rng.random() < 0.5:
        rng.shuffle(fields)
    gridpos = 0
    evs = []
    err = ""
    old = os.getcwd()
    os.chdir(base)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            dom = pylbm.Domain(dico)
            lay = M.Layout(p, dom)
            sl = tuple(slice(a, b) for a, b in lay.region)
            path = os.path.join(base, "abs") if sub == "abs" else sub
            kw = {} if sub == "" and rng.random() < 0.7 else {"path": path}
            if step is not None:
                kw["timestep"] = step
            h5 = pylbm.H5File(dom.mpi_topo, name, **kw)
            h5.set_grid(*[getattr(dom, a) for a in names3[:dim]])
            for kind, nm, vals, form, top in fields:
                loc = [np.array(v[sl]) for v in vals]
                if form == "view":      # the interior of a larger array, as the moments of a simulation
                    big = [np.full([s + 2 for s in x.shape], 1e5) for x in loc]
                    for b, x in zip(big, loc):
                        b[tuple([slice(1, -1)] * dim)] = x
                    loc = [b[tuple([slice(1, -1)] * dim)] for b in big]
                elif form == "order":
                    loc = [np.asfortranarray(x) for x in loc]
                elif form == "int":
                    loc = [x.astype(rng.choice(["int64", "int32", "float32"] if top < 100 else ["int64", "int32"])) for x in loc]
                if kind == "scalar":
                    if form == "fun":
                        h5.add_scalar(nm, lambda a, b: a + b, loc[0] - 1, np.ones(loc[0].shape))
                    else:
                        h5.add_scalar(nm, loc[0])
                elif form == "fun":
                    h5.add_vector(nm, lambda *a: list(a), *loc)
                else:
                    h5.add_vector(nm, loc)
            h5.save()
    except (Exception, SystemExit) as e:
        err = "%s: %s" % (type(e).__name__, str(e)[:150])
    finally:
        os.chdir(old)
    errs = [e for e in comm.allgather(err) if e]
    evs.append({"op": "grid"})
    for kind, nm, vals, form, top in fields:
        evs.append({"op": kind, "name": nm, "val": [v.astype(int).ravel().tolist() for v in vals]})
    if errs:
        evs.append({"op": "raise", "msg": errs[0]})
    elif comm.rank == 0:
        try:
            evs.append(read_back(os.path.join(base, sub), cid["file"], dim))
        except Exception as e:
            evs.append({"op": "raise", "msg": "reading back: %s: %s" % (type(e).__name__, str(e)[:150])})
    if comm.rank == 0:
        shutil.rmtree(base, ignore_errors=True)
    return dict(cid, evs=evs)


def ints(a, scale=1):
    a = np.asarray(a, dtype=float).ravel() * scale
    return [int(x) if np.isfinite(x) and x == int(x) and abs(x) < 1e9 else V.BAD for x in a]


def read_back(d, fname, dim):
    import h5py
    import xml.etree.ElementTree as ET
    sets = []
    with h5py.File(os.path.join(d, fname), "r") as f:
        for k in f:
            sets.append({"name": k, "shape": list(f[k].shape), "val": ints(f[k][...], 4 if k.startswith("x_") else 1)})
    t = ET.parse(os.path.join(d, os.path.splitext(fname)[0] + ".xdmf")).getroot()

    def item(e):
        ref = e.text.strip().split(":/")
        return {"name": ref[-1], "file": ref[0], "dims": [int(x) for x in e.get("Dimensions").split()]}
    items = [item(e) for e in t.iter("DataItem")]
    attrs = [{"name": a.get("Name"), "type": a.get("AttributeType"), "ref": item(a.find("DataItem"))["name"]} for a in t.iter("Attribute")]
    return {"op": "save", "sets": sets, "xml": {"items": items, "attrs": attrs, "geom": [item(e)["name"] for e in t.find(".//Geometry").iter("DataItem")],
                                                "topo": [int(x) for x in t.find(".//Topology").get("NumberOfElements").split()]}}


N = (12, 80)


def worker(ctx, kind, nproc, first, path):
    pylbm = V.import_pylbm()
    comm = M.world()
    out = open(path, "a") if comm.rank == 0 else None
    for i in range(first, N[1 if ctx.thorough else 0]):
        r = file_case(ctx, pylbm, i, nproc)
        if out:
            out.write(json.dumps({"i": i, "r": r}) + "\n")
            out.flush()
        comm.Barrier()


def main(ctx):
    M.smoke()
    total = N[1 if ctx.thorough else 0]
    dead = 0
    for n in (1, 2, 3, 4, 6):
        if dead > 1:
            break
        res = M.collect(ctx, "d_file", "file", n, total)
        for i in sorted(res):
            cid = "fi%d_%d_%d" % (ctx.shard, i, n)
            r = res[i]
            if not r or not ctx.want(cid):
                continue
            if "dead" in r:
                dead += 1
                r = {"n": [1], "o": [0], "d": 1, "file": "", "evs": [{"op": "raise", "msg": r["dead"]}]}
            ctx.out.case(cid, **r)
