"""Dictionaries given to the classes of pylbm: well-formed ones in every documented form, and their single and double
mutations, for spec/T_Valid.tla (C23)."""
import contextlib, copy, hashlib, io, logging, os, signal, sys, traceback, types
import vplib as V
import numpy as np
import sympy as sp
from d_multi import dump

X, Y, Z, LA, U, W, S1, CC = sp.symbols("X Y Z LA U W S1 CC")
RHO, QX, QY = sp.symbols("RHO QX QY")
CLASSES = ("Stencil", "Scheme", "Geometry", "Domain", "Simulation")


def f_init1(x):
    return 1.0 + 0 * x


def f_initn(*a):
    return 1.0 + 0 * sum(a)


def bc1(f, m, *a):
    m[U] = 1.0


def bct(f, m, t, *a):
    m[U] = 1.0 + t


def bcr(f, m, *a):
    m[RHO] = 1.0


def bcrt(f, m, t, *a):
    m[RHO] = 1.0 + t


def feq_u(v, u):
    return sp.Matrix([u / len(v) for _ in v])


class Other:
    pass


class Timeout(BaseException):
    pass


def seq(rng, *a):
    return list(a) if rng.random() < 0.5 else tuple(a)


def base(rng, pylbm, name, scratch):
    """a well-formed dictionary for the class name, in one of its documented forms; a third is about vectorial problems"""
    dim = rng.choice([1, 1, 2, 2, 3])
    two = rng.random() < 0.4
    d = {}
    names = ["x", "y", "z"][:dim]
    if name in ("Stencil", "Scheme") and rng.random() < 0.4:
        d["dim"] = dim
    else:
        d["box"] = {k: seq(rng, *rng.choice([(0.0, 1.0), (0, 1), (-1.0, 1)])) for k in names}
    walls = rng.random() < 0.6 and "box" in d
    labs = []
    if "box" in d:
        r = rng.random()
        if walls:
            if r < 0.5:
                d["box"]["label"], labs = 0, [0]
            else:
                l = [rng.choice([0, 1]) for _ in range(2 * dim)]
                d["box"]["label"], labs = l, sorted(set(l))
        elif r < 0.4:
            d["box"]["label"] = -1
        elif r < 0.7:
            d["box"]["label"] = [-1] * (2 * dim)
    params = {}
    if name in ("Domain", "Simulation") or rng.random() < 0.3:
        d["space_step"] = rng.choice([0.25, 0.5, 1]) if name != "Simulation" else rng.choice([0.25, 0.125])
        if name == "Domain" and d["space_step"] == 1:
            d["space_step"] = 0.5
    if name != "Geometry" or rng.random() < 0.3:
        lasym = rng.random() < 0.5
        la = LA if lasym else 1
        if lasym:
            params[LA] = rng.choice([1, 1.0])
        if name in ("Scheme", "Simulation") or rng.random() < 0.4:
            d["scheme_velocity"] = LA if lasym else rng.choice([1, 1.0])
        vel = {1: [0, 1, 2], 2: [0, 1, 2, 3, 4], 3: list(range(7))}[dim]
        pol = {1: [1, X, X ** 2], 2: [1, X, Y, X ** 2 + Y ** 2, X ** 2 - Y ** 2],
               3: [1, X, Y, Z, X ** 2 + Y ** 2 + Z ** 2, X ** 2 - Y ** 2, X ** 2 - Z ** 2]}[dim]
        schemes = []
        for k, u in enumerate([U, W][:1 + two]):
            s = {"velocities": list(vel)}
            if name in ("Scheme", "Simulation") or rng.random() < 0.3:
                full = dict(
                    conserved_moments=rng.choice([u, [u]]),
                    relaxation_parameters=[rng.choice([0, 0.0])] + [rng.choice([1, 1.5, S1]) for _ in vel[1:]],
                    source_terms={u: rng.choice([u, 0, -0.5 * u, 1.0])})
                if rng.random() < 0.7:
                    full.pop("source_terms")
                if S1 in full["relaxation_parameters"]:
                    params[S1] = 1.5
                if rng.random() < 0.3 and not two:
                    full["M"] = sp.Matrix([[sp.Poly(p, X, Y, Z).eval(dict(zip((X, Y, Z), v))) if p != 1 else 1 for v in vecs(pylbm, dim, vel)] for p in pol])
                    if lasym:
                        params[CC] = 1
                        full["M"][1, :] = CC * full["M"][1, :]
                else:
                    full["polynomials"] = list(pol)
                if rng.random() < 0.3:
                    full["feq"] = seq(rng, feq_u, seq(rng, u))
                else:
                    full["equilibrium"] = [u] + [rng.choice([0, 0.0, u / 2, u]) for _ in vel[1:]]
                s.update(full)
            schemes.append(s)
        d["schemes"] = schemes
        if params or rng.random() < 0.3:
            if rng.random() < 0.2:
                params["time"] = tau = sp.Symbol("tau")
                for s in schemes:
                    if "source_terms" in s:
                        s["source_terms"] = {k: tau * k for k in s["source_terms"]}
            d["parameters"] = params
        if name == "Simulation" and rng.random() < 0.2 and not any("M" in s for s in schemes):
            d["relative_velocity"] = [rng.choice([0, 0.0, sp.Integer(0)]) for _ in range(dim)]
    if name == "Simulation" or rng.random() < 0.2:
        inittype = rng.choice([None, None, "moments", "distributions"]) if name == "Simulation" else None
        val = lambda: rng.choice([1, 0.5, f_initn, seq(rng, f_initn, seq(rng, 0.5)), seq(rng, f_initn, seq(rng)), seq(rng, f_initn, seq(rng, 1, 2.0))])
        if inittype:
            d["inittype"] = inittype
        if inittype == "distributions":
            d["init"] = {k: val() for k in range(rng.choice([1, sum(len(s["velocities"]) for s in d["schemes"])]))}
        else:
            d["init"] = {u: val() for u in [U, W][:1 + two]}
    elab = []
    if dim > 1 and "box" in d and rng.random() < 0.3:
        elab = [rng.choice([2, 3])]
        # away from the sides
        cl = [0.5] * dim
        d["elements"] = [(pylbm.Circle if dim == 2 else pylbm.Sphere)(cl, 0.2, label=elab[0])]
    elif rng.random() < 0.2:
        d["elements"] = []
    labs = sorted(set(labs + elab))
    if labs and (name == "Simulation" or rng.random() < 0.3):
        bcs = {}
        for l in labs:
            v = rng.choice([None, bc1, seq(rng, bc1, seq(rng, 0.5)), seq(rng, bc1, None), seq(rng, bc1, seq(rng))])
            timed = rng.random() < 0.3
            if timed and v is not None:
                v = bct if v is bc1 else type(v)([bct, v[1]])
            b = {"method": {k: rng.choice([pylbm.bc.BounceBack, pylbm.bc.AntiBounceBack, pylbm.bc.BouzidiBounceBack])
                            for k in range(1 + two)}}
            if v is not None:
                b["value"] = v
            if timed or rng.random() < 0.2:
                b["time_bc"] = timed
            bcs[l] = b
        d["boundary_conditions"] = bcs
    if name == "Simulation" or rng.random() < 0.2:
        d["generator"] = "numpy" if name == "Simulation" else rng.choice(["numpy", "cython", "loopy"])
        if rng.random() < 0.2:
            d["codegen_option"] = {"directory": os.path.join(scratch, "gen")}
            if rng.random() < 0.5:
                d["codegen_option"]["generate"] = True
        if rng.random() < 0.2:
            d["show_code"] = rng.random() < 0.5
        if rng.random() < 0.2:
            d["lbm_algorithm"] = rng.choice([{"name": pylbm.algorithm.PullAlgorithm}, {"name": pylbm.algorithm.BaseAlgorithm, "settings": {}},
                                             {"name": pylbm.algorithm.PullAlgorithm, "settings": {"m_local": False}}, {"settings": {}}])
    return shuffle(rng, d) if rng.random() < 0.7 else d


def vecs(pylbm, dim, nums):
    return [tuple(list(pylbm.stencil.Velocity(dim=dim, num=n).v) + [0] * (3 - dim)) for n in nums]


def shuffle(rng, x):
    if isinstance(x, dict):
        k = list(x)
        rng.shuffle(k)
        return {a: shuffle(rng, x[a]) for a in k}
    if type(x) in (list, tuple):
        return type(x)(shuffle(rng, a) for a in x)
    return x


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(clone(v) for v in x)
    return x


# ------------------------------------------------------------------ the form of a dictionary, for the specification
def kind(x, pylbm):
    if x is None:
        return "none"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, float):
        return "float"
    if isinstance(x, str):
        return "str"
    if isinstance(x, (sp.Symbol, sp.IndexedBase)):
        return "symbol"
    if isinstance(x, sp.Expr):
        return "expr"
    if isinstance(x, sp.MatrixBase):
        return "matrix"
    if isinstance(x, pylbm.elements.base.Element):
        return "element"
    if isinstance(x, types.FunctionType):
        return "function"
    if isinstance(x, type):
        return "method" if issubclass(x, pylbm.boundary.BoundaryMethod) else "algorithm" if issubclass(x, pylbm.algorithm.BaseAlgorithm) else "class"
    return "object"


def form(x, pylbm):
    if isinstance(x, dict):
        return {"t": "dict", "e": [{"k": form(k, pylbm), "v": form(v, pylbm)} for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return {"t": "list", "e": [form(v, pylbm) for v in x]}
    t = kind(x, pylbm)
    n = {"int": lambda: max(-10 ** 6, min(10 ** 6, x)), "float": lambda: -1 if x < 0 else min(int(x), 10 ** 6)}.get(t, lambda: 0)()
    return {"t": t, "s": str(x) if t in ("str", "symbol") else "", "n": n}


# ------------------------------------------------------------------ mutations
def paths(x, p=()):
    yield p
    if isinstance(x, dict):
        for k in x:
            yield from paths(x[k], p + (k,))
    elif type(x) in (list, tuple):
        for i, v in enumerate(x):
            yield from paths(v, p + (i,))


def get(x, p):
    for k in p:
        x = x[k]
    return x


def put(x, p, f):
    """x with f applied to the node at p (copied on the way)"""
    if not p:
        return f(x)
    if isinstance(x, dict):
        return {k: put(v, p[1:], f) if k == p[0] and type(k) is type(p[0]) else v for k, v in x.items()}
    return type(x)(put(v, p[1:], f) if i == p[0] else v for i, v in enumerate(x))


def mutations(d, pylbm):
    pool = [3, -1, 2.5, -0.5, True, "word", None, sp.Symbol("aa"), sp.Symbol("aa") + 1, sp.eye(2), pylbm.Circle([0, 0], 1.0), f_initn,
            pylbm.bc.BounceBack, pylbm.algorithm.PullAlgorithm, Other, Other(), [], {}, [1], ["word"], {"word": 1}, {3: 4}, {U: 1},
            [f_initn, [1]], [f_initn, 3], [f_initn], [[f_initn], 1]]
    for p in list(paths(d)):
        node = get(d, p)
        if p:
            for i, v in enumerate(pool):
                if v is True and (type(node) is int or "label" in p or "dim" in p):
                    continue      # True is an integer
                yield ("set", p, i), lambda v=v, p=p: put(d, p, lambda _: v)
            if isinstance(get(d, p[:-1]), dict):
                yield ("remove", p), lambda p=p: put(d, p[:-1], lambda m: {k: v for k, v in m.items() if k != p[-1]})
                for i, nk in enumerate(["word", 7, sp.Symbol("aa"), U + 1, "x", "z", "dim", "time", 2.5, None]):
                    yield ("rename", p, i), lambda nk=nk, p=p: put(d, p[:-1], lambda m: {(nk if k == p[-1] else k): v for k, v in m.items()})
            else:
                yield ("remove", p), lambda p=p: put(d, p[:-1], lambda m: type(m)(v for i, v in enumerate(m) if i != p[-1]))
        if isinstance(node, dict):
            for i, (k, v) in enumerate([("word", 1), (3, 1), (sp.Symbol("bb"), 1), ("dim", 2), ("label", 0), ("box", {"x": [0, 1]}), ("time_bc", False),
                                        ("M", sp.eye(3)), ("polynomials", [1, X, X ** 2]), ("feq", [feq_u, [U]]), ("equilibrium", [U, U, U]), ("generate", True),
                                        ("show_code", False), ("elements", []), ("method", {}), ("z", [0, 1]), ("settings", {}), (3, {"method": {}}), (4, f_initn)]):
                if k not in node:
                    yield ("add", p, i), lambda k=k, v=v, p=p: put(d, p, lambda m: {**m, k: v})
        elif type(node) in (list, tuple):
            for i, v in enumerate(["word", 1, None, sp.Symbol("aa"), {}, f_initn]):
                yield ("append", p, i), lambda v=v, p=p: put(d, p, lambda m: type(m)(list(m) + [v]))


# ------------------------------------------------------------------ what the code does with a dictionary
class Record(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.seen = 0

    def emit(self, r):
        self.seen += 1


def outcome(pylbm, name, d, limit=20):
    h = Record()
    lg = logging.getLogger("pylbm")
    lvl = lg.level
    root = os.path.dirname(os.path.abspath(pylbm.__file__))

    def late(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)
    handlers, lg.handlers = lg.handlers, [h]
    logging.disable(logging.WARNING)
    lg.setLevel(logging.ERROR)
    err = io.StringIO()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
            try:
                getattr(pylbm, name)(d)
                return "built", ""
            except Timeout:
                return None, "timeout"
            except (Exception, SystemExit) as e:
                fr = [f.filename for f in traceback.extract_tb(e.__traceback__)]
                mine = [os.path.relpath(f, root) for f in fr if os.path.abspath(f).startswith(root)]
                said = h.seen or err.getvalue() or not isinstance(e, SystemExit) or e.code
                msg = "%s: %s" % (type(e).__name__, str(e)[:120])
                first = [m for m in mine if m == "validator.py"] or (isinstance(e, SystemExit) and len(mine) == 1)
                return ("refused" if said else "mute") if first else "late", msg
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        lg.handlers = handlers
        lg.setLevel(lvl)
        logging.disable(logging.CRITICAL)


def digest(d):
    return hashlib.md5("\n".join(dump(d)).encode()).hexdigest()


def observe(pylbm, name, d, full, what):
    b = digest(d)
    tree = form(d, pylbm)
    o, msg = outcome(pylbm, name, d)
    if o is None:
        return None
    return {"op": name, "name": name, "tree": tree, "outcome": o, "full": full, "before": b, "after": digest(d), "what": what, "msg": msg}


def main(ctx):
    pylbm = V.import_pylbm()
    scratch = os.environ["VP_SCRATCH"]
    for i in range(4 if not ctx.thorough else 60):
        for name in CLASSES:
            cid = "%s%d" % (name, i)
            if ctx.left() < 0:
                return
            if not ctx.want(cid):
                continue
            rng = ctx.rng("valid", name, i)
            d = base(rng, pylbm, name, scratch)
            evs = [observe(pylbm, name, d, True, "base"), observe(pylbm, name, shuffle(rng, d), True, "shuffled")]
            muts = list(mutations(d, pylbm))
            rng.shuffle(muts)
            for what, f in muts[:(90 if name != "Simulation" else 60) if not ctx.thorough else 600]:
                if ctx.left() < 0:
                    break
                m = f()
                if name == "Simulation" and "generator" not in m:
                    continue      # would be built with the default generator, at length
                w = str(what)
                if rng.random() < 0.25:
                    ms = list(mutations(m, pylbm))
                    what2, g = rng.choice(ms)
                    m, w = g(), w + " then " + str(what2)
                    if name == "Simulation" and "generator" not in m:
                        continue
                if not isinstance(m, dict):
                    continue
                evs.append(observe(pylbm, name, shuffle(rng, m) if rng.random() < 0.3 else m, False, w))
            ctx.out.case(cid, evs=[e for e in evs if e])
