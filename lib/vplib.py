"""Shared driver library: random lattice Boltzmann problems with exact integer data, their translation to
pylbm dictionaries, and the recording of calls on the real Simulation as trace events.

Nothing here is compared with pylbm: the oracle is the TLA+ specification (spec/LBM.tla)."""
import os, sys, math, json, random, itertools, fractions, copy, io, contextlib, traceback, time
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np
import sympy as sp
import logging
F_ = fractions.Fraction

BAD = 1999999999


def quiet():
    logging.disable(logging.CRITICAL)


def import_pylbm():
    argv, sys.argv = sys.argv, ["x"]
    import pylbm
    assert os.path.realpath(pylbm.__file__).startswith(os.path.realpath(REPO)), pylbm.__file__
    sys.argv = argv
    os.environ.get("VP_LOUD") or quiet()
    return pylbm


# ------------------------------------------------------------------ velocity numbering (documented convention)
def _perm3(k, i, j):
    return sorted(set(itertools.permutations((k, i, j))))


def numbering(dim, n):
    """first velocities in the documented order, as a list of vectors up to max norm n"""
    if dim == 1:
        out = [(0,)]
        for k in range(1, n + 1):
            out += [(k,), (-k,)]
        return out
    if dim == 2:
        out = [(0, 0)]
        for k in range(1, n + 1):
            out += [(k, 0), (0, k), (-k, 0), (0, -k)]
            out += [(k, k), (-k, k), (-k, -k), (k, -k)]
            for j in range(1, k):
                out += [(k, j), (j, k), (-j, k), (-k, j), (-k, -j), (-j, -k), (j, -k), (k, -j)]
        return out
    out = []
    for k in range(n + 1):
        for i in range(k + 1):
            for j in range(i + 1):
                for p in _perm3(k, i, j):
                    for s in itertools.product(*[(1, -1) if a else (1,) for a in p]):
                        out.append(tuple(a * b for a, b in zip(p, s)))
    return out


VEC = {d: numbering(d, {1: 4, 2: 3, 3: 2}[d]) for d in (1, 2, 3)}
NUM = {d: {v: i for i, v in enumerate(VEC[d])} for d in (1, 2, 3)}


def pad(v, x=0):
    return (list(v) + [x] * 3)[:3]


# ------------------------------------------------------------------ polynomials
# a polynomial is (den, [(coef, ex, ey, ez), ...])
def mono(*e, c=1):
    return (1, [(c,) + tuple(pad(e))])


def peval(P, v, la):
    s = 0
    for (c, a, b, d) in P[1]:
        s += c * (la * v[0]) ** a * (la * v[1]) ** b * (la * v[2]) ** d
    return F_(s, P[0])


def padd(P, Q, a=1):
    den = P[0] * Q[0]
    d = {}
    for t in P[1]:
        d[t[1:]] = d.get(t[1:], 0) + t[0] * Q[0]
    for t in Q[1]:
        d[t[1:]] = d.get(t[1:], 0) + a * t[0] * P[0]
    return (den, [(c,) + e for e, c in sorted(d.items()) if c] or [(0, 0, 0, 0)])


def det_frac(M):
    M = [r[:] for r in M]
    n = len(M)
    det = F_(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return F_(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            det = -det
        det *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            if f:
                M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return det


def inverse_frac(M):
    n = len(M)
    A = [list(map(F_, r)) + [F_(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return None
        A[i], A[p] = A[p], A[i]
        x = A[i][i]
        A[i] = [a / x for a in A[i]]
        for r in range(n):
            if r != i and A[r][i]:
                f = A[r][i]
                A[r] = [a - f * b for a, b in zip(A[r], A[i])]
    return [r[n:] for r in A]


def lcm(*a):
    return math.lcm(*[int(x) for x in a])


POOL1 = [mono(0), mono(1), mono(2), (2, [(1, 2, 0, 0), (1, 1, 0, 0)]), (2, [(1, 2, 0, 0), (-1, 1, 0, 0)]), mono(3), mono(4)]


def pool(dim, vels, la):
    """candidate polynomials; the half-integer ones are integer valued only when la is 1"""
    uni = [[(1, {0: 1}), (1, {1: 1}), (1, {2: 1})] for _ in range(dim)]
    if la == 1:
        for u in uni:
            u += [(2, {2: 1, 1: 1}), (2, {2: 1, 1: -1})]
    if max(abs(x) for v in vels for x in v) > 1:
        for u in uni:
            u.append((1, {3: 1}))
            u.append((1, {4: 1}))
    out = []
    for comb in itertools.product(*uni):
        den = 1
        terms = {(0, 0, 0): 1}
        for ax, (d, t) in enumerate(comb):
            den *= d
            new = {}
            for e, c in terms.items():
                for p, cc in t.items():
                    ee = list(e)
                    ee[ax] += p
                    new[tuple(ee)] = new.get(tuple(ee), 0) + c * cc
            terms = new
        out.append((den, [(c,) + e for e, c in sorted(terms.items())]))
    return out


def gen_basis(rng, dim, vels, la, ncons=1, maxdet=1, tries=60):
    """polynomials whose values at the velocities form an invertible integer matrix of small determinant.
    The first ones are 1 and then coordinates (the usual conserved moments)."""
    n = len(vels)
    pl = pool(dim, vels, la)
    vp = [pad(v) for v in vels]
    best = None
    for _ in range(tries):
        chosen = [mono(0)]
        first = [mono(*[int(i == d) for i in range(3)]) for d in range(dim)]
        rest = pl[:]
        rng.shuffle(rest)
        # prefer low degree
        rest.sort(key=lambda P: max(sum(t[1:]) for t in P[1]) + rng.random() * 1.5)
        for P in first + rest:
            if len(chosen) == n:
                break
            R = [[peval(Q, v, la) for v in vp] for Q in chosen + [P]]
            if rank(R) == len(R):
                chosen.append(P)
        if len(chosen) < n:
            continue
        M = [[peval(Q, v, la) for v in vp] for Q in chosen]
        if any(x.denominator != 1 for r in M for x in r):
            continue
        d = abs(det_frac(M))
        # random unimodular mixing of the non conserved rows
        if rng.random() < 0.6 and n > ncons + 1:
            for _k in range(rng.randint(1, 3)):
                i = rng.randrange(ncons, n)
                j = rng.randrange(0, n)
                if i != j:
                    chosen[i] = padd(chosen[i], chosen[j], rng.choice([-1, 1]))
        if best is None or d < best[0]:
            best = (d, chosen)
        if d <= maxdet:
            return chosen
    return best[1] if best else None


def rank(R):
    R = [r[:] for r in R]
    rk = 0
    for c in range(len(R[0])):
        p = next((i for i in range(rk, len(R)) if R[i][c] != 0), None)
        if p is None:
            continue
        R[rk], R[p] = R[p], R[rk]
        for i in range(rk + 1, len(R)):
            if R[i][c]:
                f = R[i][c] / R[rk][c]
                R[i] = [a - f * b for a, b in zip(R[i], R[rk])]
        rk += 1
    return rk


STENCILS = {
    1: [[0, 1, 2], [1, 2], [0, 1, 2, 3, 4], [2, 0, 1], [2, 1]],
    2: [[1, 2, 3, 4], [0, 1, 2, 3, 4], list(range(9)), [3, 1, 0, 4, 2], [5, 6, 7, 8], [0, 5, 6, 7, 8], [4, 2, 3, 1]],
    3: [[1, 2, 3, 4, 5, 6], [0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0]],
}
WIDE = {
    1: [list(range(7)), [0, 3, 4], [3, 4], [0, 5, 6, 1, 2]],
    2: [[0, 9, 10, 11, 12], [0, 1, 2, 3, 4, 9, 10, 11, 12], [1, 2, 3, 4, 13, 14, 15, 16], [0, 17, 18, 19, 20, 21, 22, 23, 24]],
    3: [[0] + [NUM[3][v] for v in [(2, 0, 0), (-2, 0, 0), (0, 2, 0), (0, -2, 0), (0, 0, 2), (0, 0, -2)]]],
}
D3Q15 = [NUM[3][v] for v in VEC[3][:27] if sum(map(abs, v)) in (0, 1, 3)]
D3Q19 = [NUM[3][v] for v in VEC[3][:27] if sum(map(abs, v)) in (0, 1, 2)]


class Problem:
    """abstract description of a problem; .cfg() for the spec, .dico() for pylbm"""
    pass


def lin_terms(rng, rows, coefs=(-1, 1, 2), maxn=2):
    k = rng.randint(0, min(maxn, len(rows)))
    return [{"c": rng.choice(coefs), "f": [r]} for r in rng.sample(rows, k)]


def gen_problem(rng, dim=None, nsch=None, stencils=None, sizes=None, la=None, quad=False, svals=None, src=False,
                box=None, D=1, ncmax=2, maxdet=1, dx=None, wide=False, asym=False, sizemax=5, org=None, eqcoef=(-1, 1)):
    p = Problem()
    p.dim = dim = dim or rng.choice([1, 2, 2, 3])
    pool_st = STENCILS[dim] + (WIDE[dim] if wide else [])
    nsch = nsch or rng.choice({1: [1, 1, 2, 3], 2: [1, 1, 2, 2, 3], 3: [1, 1, 1, 2]}[dim])
    for _try in range(50):
        if stencils:
            p.stencils = stencils
        else:
            p.stencils = []
            for _ in range(nsch):
                if asym and rng.random() < 0.7:
                    top = {1: 7, 2: 13, 3: 7}[dim]
                    st = rng.sample(range(top), rng.randint(2, min(5, top)))
                else:
                    small = [x for x in pool_st if len(x) <= 7 - 2 * (nsch == 3)] if nsch > 2 - (dim == 3) else []
                    st = list(rng.choice(small or pool_st))
                    if rng.random() < 0.3:
                        rng.shuffle(st)
                p.stencils.append(st)
        p.la = la or rng.choice([1, 1, 1, 2])
        p.P, ok = [], True
        p.nc = []
        for st in p.stencils:
            vels = [VEC[dim][k] for k in st]
            nc = rng.randint(1, min(ncmax, max(1, len(st) - 1)))
            B = gen_basis(rng, dim, vels, p.la, nc, maxdet)
            if B is None:
                ok = False
                break
            p.P.append(B)
            p.nc.append(nc)
        if ok:
            break
    else:
        raise RuntimeError("no basis")
    p.nsch = len(p.stencils)
    p.vel = [pad(VEC[dim][k]) for st in p.stencils for k in st]
    p.sch = [s + 1 for s, st in enumerate(p.stencils) for _ in st]
    p.ptr = [0]
    for st in p.stencils:
        p.ptr.append(p.ptr[-1] + len(st))
    p.q = p.ptr[-1]
    p.h = [max(abs(v[i]) for v in p.vel) for i in range(3)]
    for i in range(dim, 3):
        p.h[i] = 0
    sm = {1: max(sizemax + 3, 6), 2: sizemax, 3: max(3, sizemax - 2)}[dim]
    p.n = list(sizes) if sizes else [max(p.h[i], rng.randint(2, sm)) if i < dim else 1 for i in range(3)]
    p.n = pad(p.n, 1)
    p.dx = dx or rng.choice([F_(1), F_(1), F_(1, 2), F_(2)])
    p.org = org or [rng.choice([0, 0, 1, -2]) if i < dim else 0 for i in range(3)]
    p.dt = p.dx / p.la
    # conserved rows: the first nc of each scheme
    p.consrows = [p.ptr[s] + i for s in range(p.nsch) for i in range(p.nc[s])]
    p.names = ["u%d_%d" % (s, i) for s in range(p.nsch) for i in range(p.nc[s])]
    if rng.random() < 0.3:
        pool = ["rho", "E", "S", "N", "I", "Q", "beta", "T", "u", "phi", "zeta", "q_x", "C1", "pi", "rho_1"]
        if len(p.names) <= len(pool):
            p.names = rng.sample(pool, len(p.names))
    p.eq = []
    p.s = []
    svals = svals or [(0, 1), (1, 1), (2, 1)]
    for r in range(p.q):
        if r in p.consrows:
            p.eq.append({"den": 1, "t": [{"c": 1, "f": [r]}]})
            p.s.append(tuple(rng.choice([(0, 1), (0, 1), (1, 1)])))
        else:
            t = lin_terms(rng, p.consrows, eqcoef)
            if quad and rng.random() < 0.5:
                t.append({"c": rng.choice([-1, 1]), "f": [rng.choice(p.consrows), rng.choice(p.consrows)]})
            if rng.random() < 0.15:
                t.append({"c": rng.choice([1, -1, 2]), "f": []})
            p.eq.append({"den": 1, "t": t})
            p.s.append(tuple(rng.choice(svals)))
    nonc = [r for r in range(p.q) if r not in p.consrows]
    if nonc and all(p.s[r][0] == 0 for r in nonc) and rng.random() < 0.6:
        p.s[rng.choice(nonc)] = tuple(rng.choice([x for x in svals if x[0]] or [(1, 1)]))
    p.src = []
    if src:
        # rhs with even coefficients when dt/2 is not an integer
        dth = p.dt / 2
        mult = dth.denominator
        for r in rng.sample(p.consrows, rng.randint(1, len(p.consrows))):
            t = [{"c": rng.choice([-1, 1]) * mult, "f": [rng.choice(p.consrows)]} for _ in range(rng.randint(1, 2))]
            t = [x for i, x in enumerate(t) if x["f"] not in [y["f"] for y in t[:i]]]
            if rng.random() < 0.3:
                t.append({"c": mult, "f": []})
            if quad and rng.random() < 0.4:
                t.append({"c": mult, "f": [rng.choice(p.consrows), rng.choice(p.consrows)]})
            e = {"i": r, "den": 1, "t": t, "cx": [0, 0, 0], "ct": 0, "fx": None}
            if rng.random() < 0.45:
                # (cx . position + ct * time), possibly times a moment
                e["cx"] = [rng.choice([0, 1, -1, 2]) * mult if d < dim else 0 for d in range(3)]
                e["ct"] = rng.choice([0, 1, -1, 2]) * mult
                e["fx"] = rng.choice(p.consrows) if rng.random() < 0.35 else None
                if rng.random() < 0.3:
                    e["t"] = []
            p.src.append(e)
    p.box = box if box is not None else [-1] * (2 * dim)
    p.D = D
    p.sol = None
    p.hw = (3, 10)
    p.bcm = {}     # label -> list of method names per scheme
    p.bcval = {}   # label -> list of {i, c0, cx, ct}
    p.bctime = {}  # label -> bool
    p.lasym = rng.random() < 0.4
    # equilibria given by the distributions; moments given by their matrix
    p.feq = [not p.lasym and len(st) <= 9 and rng.random() < 0.25 for st in p.stencils]
    p.bymatrix = p.nsch == 1 and not p.lasym and rng.random() < 0.2
    p.ssym = rng.random() < 0.4
    # parameters given by other parameters, in any order of the dictionary
    p.pnest = rng.choice([0, 0, 1, 2, 3, -1, -2, -3]) if p.ssym else 0
    p.xyz, p.tsym = XYZ, sp.Symbol("t")
    if rng.random() < 0.2:
        # names of the space and of the time chosen by the user
        p.xyz, p.tsym = sp.symbols("xi eta om"), sp.Symbol("tau")
    return p


def varies(e):
    return bool(e["ct"] or any(e["cx"]))


def src_den(p):
    """denominator of the positions and times used by the sources"""
    return lcm((p.dx / 2).denominator, p.dt.denominator) if any(varies(e) for e in p.src) else 1


def degree(e):
    return max([len(t["f"]) for t in e["t"]] + [0] + [2 if e.get("fx") is not None and varies(e) else 0])


def matrices(p):
    M = [[F_(0)] * p.q for _ in range(p.q)]
    for s in range(p.nsch):
        a, b = p.ptr[s], p.ptr[s + 1]
        for i in range(a, b):
            for k in range(a, b):
                M[i][k] = peval(p.P[s][i - a], p.vel[k], p.la)
    inv = inverse_frac(M)
    den = lcm(*[x.denominator for r in inv for x in r])
    return M, inv, den


def bound_growth(p, steps, f0):
    """upper bound of the absolute values after each of the phases of some steps; None if beyond 2^28 / D"""
    M, inv, den = matrices(p)
    rowM = max(sum(abs(x) for x in r) for r in M)
    rowI = max(sum(abs(x) for x in r) for r in inv)

    def pe(e, b):
        far = 0
        if varies(e) if "cx" in e else False:
            far = sum(abs(a) * (abs(o) + (n + 1) * p.dx) for a, o, n in zip(e["cx"], p.org, p.n)) + abs(e["ct"]) * (steps + 2) * p.dt
            far *= b if e["fx"] is not None else 1
        return sum(abs(t["c"]) * b ** len(t["f"]) for t in e["t"]) / F_(e["den"]) + far
    f = F_(f0)
    peak = f
    for _ in range(steps):
        # boundary values may combine two values and a wall value
        if any(l != -1 for l in p.box) or p.sol:
            f = 2 * f + 4 * getattr(p, "wallmax", 0)
        m = rowM * f
        for phase in range(3):
            if phase in (0, 2):
                m2 = m
                for s_ in p.src:
                    m2 = max(m2, m + abs(p.dt / 2) * pe(s_, m))
                m = m2
            else:
                m2 = m
                for e, s_ in zip(p.eq, p.s):
                    s = F_(*s_)
                    m2 = max(m2, abs(1 - s) * m + abs(s) * pe(e, m))
                m = m2
            peak = max(peak, m)
        f = rowI * m
        peak = max(peak, f, m * rowI)
    return peak


def exact_den(p, steps):
    """denominator that makes `steps` whole steps on integer distributions exact"""
    M, inv, den = matrices(p)
    sden = lcm(*[F_(*x).denominator for x in p.s])
    quad = max([degree(e) for e in p.eq + p.src] + [1])
    sd = src_den(p) if any(e["fx"] is not None and varies(e) for e in p.src) else 1
    dth = (p.dt / 2).denominator
    g = src_den(p)
    for _ in range(steps):
        if bouzidi(p):
            g *= bouzidi(p)
        for e in (p.src and dth * sd, sden, p.src and dth * sd):
            if e:
                g = lcm(g, g ** quad * e) if e != 1 or quad > 1 else g
        g *= den
        if g > 2 ** 26:
            return None
    return g


def bouzidi(p):
    """denominator brought by interpolation"""
    if not any(m in ("bbb", "babb") for ms in p.bcm.values() for m in ms):
        return 1
    W = max(p.h)
    ds = {F_(2 * j + 1, 2 * w) for w in range(1, W + 1) for j in range(w)} if any(l >= 0 for l in p.box) else set()
    if p.sol:
        for w in range(1, W + 1):
            ds.add(1 - F_(*p.hw) / w)
    return lcm(1, *[(2 * d).denominator if 2 * d < 1 else (1 / (2 * d)).denominator for d in ds])


def wall_den(p):
    """denominator of prescribed values"""
    if not any(p.bcval.values()):
        return 1
    W = max(p.h)
    ds = {F_(2 * j + 1, 2 * w) for w in range(1, W + 1) for j in range(w)}
    if p.sol:
        for w in range(1, W + 1):
            ds.add(1 - F_(*p.hw) / w)
    g = lcm(*[(p.dx * d * w).denominator for d in ds for w in range(1, W + 1)], (p.dx / 2).denominator, p.dt.denominator)
    quad = max([len(t["f"]) for e in p.eq for t in e["t"]] + [1])
    return g ** quad * matrices(p)[2]


def plan(p, f0, maxsteps, extra=1):
    """the number of whole steps (at most maxsteps) that stay exact within 32-bit integers; sets p.D"""
    p.steps = 0
    base = lcm(extra, p.D)
    best = None
    for k in range(0, maxsteps + 1):
        g = exact_den(p, max(k, 1))
        if g is None:
            break
        D = lcm(base, g * wall_den(p))
        room = D * 8 * lcm(*[x[1] for x in p.s]) * matrices(p)[2] * max(1, (p.dt / 2).denominator, (p.dt / 2).numerator)
        if max([degree(e) for e in p.eq + p.src] + [1]) > 1:
            room *= D
        if bound_growth(p, max(k, 1), f0) * room > 2 ** 30:
            break
        best = (k, D)
    if best is None:
        p.D = lcm(base, wall_den(p))
        d = lcm(p.D, matrices(p)[2] * src_den(p))
        if d <= 2 ** 12:
            p.D = d
        return -1
    p.steps, p.D = best
    return best[0]


def until(rng, make, f0, maxsteps, minsteps=1, extra=1, tries=60):
    """problems are drawn until one admits minsteps exact steps"""
    best = None
    for _ in range(tries):
        p = make()
        n = plan(p, f0, maxsteps, extra)
        if n >= min(maxsteps, minsteps):
            return p
        if best is None or n > best.steps:
            best = p
    return best


def steps_allowed(p, f0, maxsteps):
    return min(getattr(p, "steps", 0), maxsteps)


def translation_closed(p):
    """do the polynomials of each scheme, and its conserved ones, span spaces stable by translation?"""
    for s in range(p.nsch):
        for n in (p.nc[s], len(p.P[s])):
            polys = [{t[1:]: F_(t[0], P[0]) for t in P[1] if t[0]} for P in p.P[s][:n]]
            ders = []
            for P in polys:
                for d in range(p.dim):
                    D = {}
                    for e, c in P.items():
                        if e[d]:
                            f = list(e)
                            f[d] -= 1
                            D[tuple(f)] = D.get(tuple(f), 0) + c * e[d]
                    ders.append(D)
            mons = sorted(set(m for P in polys + ders for m in P))
            rows = [[P.get(m, F_(0)) for m in mons] for P in polys + ders]
            if not mons or rank(rows) != n:
                return False
    return True


def opposite(p):
    out = []
    for k, v in enumerate(p.vel):
        w = [-a for a in v]
        o = [j for j in range(p.q) if p.vel[j] == w and p.sch[j] == p.sch[k]]
        out.append(o[0] + 1 if o else 0)
    return out


def cfg(p, cons=(), bnd=2 ** 24):
    M, inv, den = matrices(p)
    labs = sorted(set(list(p.bcm) + [l for l in p.box if l >= 0]))
    nl = (max(labs) + 1) if labs else 0
    dth = p.dt / 2
    c = {
        "dim": p.dim, "n": p.n, "h": p.h, "vel": p.vel, "sch": p.sch, "opp": opposite(p),
        "sol": p.sol if p.sol else [0] * (p.n[0] * p.n[1] * p.n[2]), "hw": list(p.hw),
        "box": pad_box(p.box),
        "P": [{"den": P[0], "t": [list(t) for t in P[1]]} for B in p.P for P in B],
        "msch": p.sch, "la": p.la,
        "inv": {"den": den, "a": [[int(x * den) for x in r] for r in inv]},
        "eq": [{"den": e["den"], "t": [{"c": t["c"], "f": [r + 1 for r in t["f"]]} for t in e["t"]]} for e in p.eq],
        "s": [list(x) for x in p.s],
        "src": [{"i": s["i"] + 1, "den": s["den"], "t": [{"c": t["c"], "f": [r + 1 for r in t["f"]]} for t in s["t"]],
                 "cx": list(s["cx"]), "ct": s["ct"], "fx": 0 if s["fx"] is None else s["fx"] + 1} for s in p.src],
        "dth": [dth.numerator, dth.denominator], "dt": [p.dt.numerator, p.dt.denominator],
        "dx": [p.dx.numerator, p.dx.denominator], "org": p.org,
        "bcm": [p.bcm.get(l, ["none"] * p.nsch) for l in range(nl)],
        "bcval": [[{"i": a["i"] + 1, "c0": a["c0"], "cx": pad(a["cx"]), "ct": a.get("ct", 0)} for a in p.bcval.get(l, [])] for l in range(nl)],
        "cons": [r + 1 for r in cons], "D": p.D, "bnd": int(bnd), "tscale": 64 * p.dt.denominator,
    }
    if getattr(p, "rel", None):
        c["rel"] = [{"den": 1, "t": [{"c": t["c"], "f": [r + 1 for r in t["f"]]} for t in e["t"]]} for e in p.rel]
        c["fixed"] = [r + 1 for r in p.consrows]
    return c


def pad_box(b):
    return list(b) + [-1] * (6 - len(b))


METHODS = {"bb": "BounceBack", "abb": "AntiBounceBack", "bbb": "BouzidiBounceBack", "babb": "BouzidiAntiBounceBack",
           "n": "Neumann", "nx": "NeumannX", "ny": "NeumannY", "nz": "NeumannZ"}
XYZ = sp.symbols("X Y Z")


def term_expr(e, syms):
    out = sp.Integer(0)
    for t in e["t"]:
        x = sp.Integer(t["c"])
        for r in t["f"]:
            x = x * syms[r]
        out = out + x
    return out / e["den"]


def src_expr(p, e, syms):
    v = sum(sp.Integer(a) * x for a, x in zip(e["cx"], p.xyz)) + sp.Integer(e["ct"]) * p.tsym
    return term_expr(e, syms) + v * (1 if e["fx"] is None else syms[e["fx"]])


def poly_expr(P, xyz=XYZ):
    e = sp.Integer(0)
    for (c, a, b, d) in P[1]:
        e += sp.Integer(c) * xyz[0] ** a * xyz[1] ** b * xyz[2] ** d
    return e / sp.Integer(P[0])


def symbols_of(p):
    return {r: sp.Symbol(nm) for r, nm in zip(p.consrows, p.names)}


def affine_fun(c0, cx, dim):
    """a plain function of dim coordinates"""
    if dim == 1:
        def f(x):
            return c0 + cx[0] * x
    elif dim == 2:
        def f(x, y):
            return c0 + cx[0] * x + cx[1] * y
    else:
        def f(x, y, z):
            return c0 + cx[0] * x + cx[1] * y + cx[2] * z
    return f


def affine_fun_arg(dim):
    if dim == 1:
        def f(x, c0, cx):
            return c0 + cx[0] * x
    elif dim == 2:
        def f(x, y, c0, cx):
            return c0 + cx[0] * x + cx[1] * y
    else:
        def f(x, y, z, c0, cx):
            return c0 + cx[0] * x + cx[1] * y + cx[2] * z
    return f


def wall_fun(p, label, withargs, vals=None):
    vals = vals or p.bcval[label]
    syms = symbols_of(p)
    dim = p.dim
    time_dep = p.bctime.get(label, False)

    def setm(m, t, xs, extra):
        for a in vals:
            v = a["c0"] * extra + sum(a["cx"][d] * xs[d] for d in range(dim)) + a.get("ct", 0) * t
            m[syms[a["i"]]] = v
    if time_dep:
        if withargs:
            def fun(f, m, t, *xs):
                setm(m, t, xs[:-1], xs[-1])
        else:
            def fun(f, m, t, *xs):
                setm(m, t, xs, 1)
    else:
        if withargs:
            def fun(f, m, *xs):
                setm(m, 0, xs[:-1], xs[-1])
        else:
            def fun(f, m, *xs):
                setm(m, 0, xs, 1)
    return fun


def elements(p, pylbm):
    """one small square (cube) per solid cell"""
    out = []
    if not p.sol:
        return out
    a = F_(*p.hw)
    n = p.n
    for idx, lab in enumerate(p.sol):
        if not lab:
            continue
        x = [idx // (n[1] * n[2]), (idx // n[2]) % n[1], idx % n[2]]
        lo = [float(p.org[i] + p.dx * (x[i] + F_(1, 2) - a)) for i in range(p.dim)]
        w = float(p.dx * 2 * a)
        if p.dim == 2:
            out.append(pylbm.Parallelogram(lo, [w, 0.0], [0.0, w], label=lab - 1))
        else:
            out.append(pylbm.Parallelepiped(lo, [w, 0.0, 0.0], [0.0, w, 0.0], [0.0, 0.0, w], label=lab - 1))
    return out


def feq_of(p, s, syms):
    """the equilibrium of a scheme given as a function of the velocities and of the conserved moments"""
    inv = matrices(p)[1]
    a, b = p.ptr[s], p.ptr[s + 1]
    rats = [[sp.Rational(x.numerator, x.denominator) for x in inv[k][a:b]] for k in range(a, b)]
    holes = {r: sp.Symbol("arg_%d" % i) for i, r in enumerate(syms)}
    meq = [term_expr(p.eq[i], holes) for i in range(a, b)]
    of = {tuple(p.vel[k][:p.dim]): sum(x * e for x, e in zip(rats[k - a], meq)) for k in range(a, b)}

    def fun(v, *args):
        rep = dict(zip(holes.values(), args))
        return sp.Matrix([sp.expand(sp.sympify(of[tuple(int(x) for x in row)]).subs(rep, simultaneous=True)) for row in v])
    return [fun, [syms[r] for r in syms]]


def chain(p, params, S, k, value):
    """the parameter S of this value, through abs(p.pnest) other parameters"""
    nest = getattr(p, "pnest", 0)
    new = []
    for j in range(abs(nest)):
        T = sp.Symbol("pn_%d_%d" % (k, j))
        c = (k + j) % 3 - 1
        if (k + j) % 2:
            new.append((S, 2 * T + c))
            value = (value - c) / 2
        else:
            new.append((S, c - T))
            value = c - value
        S = T
    new.append((S, value))
    params.update(new if nest >= 0 else new[::-1])


def dico(p, pylbm, generator="numpy", perm=None, init=None, inittype=None, bcargs=False, algo=None, comm=None,
         consorder=None, schperm=None, shuffle=None):
    """the pylbm dictionary of a problem.
    perm: per scheme, a permutation of the rows; consorder: per scheme, order in which conserved moments are listed"""
    syms = symbols_of(p)
    names3 = ["x", "y", "z"]
    d = {"box": {names3[i]: [float(p.org[i]), float(p.org[i] + p.dx * p.n[i])] for i in range(p.dim)},
         "space_step": float(p.dx), "generator": generator}
    d["box"]["label"] = list(p.box)
    LA = sp.Symbol("LA")
    params = {}
    if p.xyz is not XYZ:
        params.update(zip(["space_x", "space_y", "space_z"][:p.dim], p.xyz))
        params["time"] = p.tsym
    if p.lasym:
        d["scheme_velocity"] = LA
        params[LA] = float(p.la) if p.la == 3 else int(p.la)
    else:
        d["scheme_velocity"] = p.la
    schemes = []
    for s in (schperm or range(p.nsch)):
        a, b = p.ptr[s], p.ptr[s + 1]
        order = list(perm[s]) if perm else list(range(b - a))
        cons = [r for r in p.consrows if a <= r < b]
        corder = [cons[i] for i in consorder[s]] if consorder else cons
        rel = []
        for i in order:
            sv = sp.Rational(*p.s[a + i])
            fl = float(sv) if sv.q != 1 else int(sv)
            if p.ssym:
                S = sp.Symbol("sr_%d" % (a + i))
                rel.append(S)
                chain(p, params, S, a + i, fl)
            else:
                rel.append(fl)
        cm = [syms[r] for r in corder]
        sd = {
            "velocities": list(p.stencils[s]),
            "conserved_moments": cm if (len(cm) > 1 or p.ssym) else cm[0],
            "polynomials": [poly_expr(p.P[s][i], p.xyz) for i in order],
            "relaxation_parameters": rel,
            "equilibrium": [term_expr(p.eq[a + i], syms) for i in order],
        }
        if p.feq[s] and not p.lasym:
            del sd["equilibrium"]
            sd["feq"] = feq_of(p, s, syms)
        if p.bymatrix and not p.lasym and getattr(p, "relcode", None) is None:
            del sd["polynomials"]
            M = matrices(p)[0]
            sd["M"] = sp.Matrix([[sp.Rational(x.numerator, x.denominator) for x in M[i]] for i in order])
        srcs = {syms[x["i"]]: src_expr(p, x, syms) for x in p.src if a <= x["i"] < b}
        if srcs:
            sd["source_terms"] = srcs
        schemes.append(sd)
    d["schemes"] = schemes
    if getattr(p, "relcode", None) is not None:
        d["relative_velocity"] = [p.relcode(i, term_expr(e, syms), params) for i, e in enumerate(p.relgiven[:p.dim])]
    if params:
        d["parameters"] = params
    if init is not None:
        d["init"] = init
    else:
        d["init"] = {syms[r]: 0.0 for r in p.consrows}
    if inittype:
        d["inittype"] = inittype
    el = elements(p, pylbm)
    if el:
        d["elements"] = el
    labs = sorted(set([l for l in p.box if l >= 0] + [x - 1 for x in (p.sol or []) if x]))
    if labs:
        bc = {}
        shared = None
        if getattr(p, "bcshare", None):
            bcargs = bcargs or p.bcshare0[2]
            shared = wall_fun(p, p.bcshare0[0], bcargs, p.bcshare0[1])
        for l in labs:
            e = {"method": {s: getattr(pylbm.bc, METHODS[p.bcm[l][(schperm or list(range(p.nsch)))[s]]]) for s in range(p.nsch)}}
            if p.bcval.get(l):
                f = shared or wall_fun(p, l, bcargs)
                e["value"] = (f, (p.bcmul[l] if shared else 1,)) if bcargs else f
                if p.bctime.get(l):
                    e["time_bc"] = True
            bc[l] = e
        d["boundary_conditions"] = bc
    if algo:
        d["lbm_algorithm"] = algo
    if shuffle:
        items = list(d.items())
        shuffle.shuffle(items)
        d = dict(items)
    return d


# ------------------------------------------------------------------ observation
def enc(a, D):
    """exact integers (scaled by D) or BAD"""
    a = np.asarray(a, dtype=float) * D
    with np.errstate(all="ignore"):
        r = np.rint(a)
        ok = np.isfinite(a) & (np.abs(a - r) <= 1e-7 * np.maximum(1.0, np.abs(a))) & (np.abs(r) < 1.0e9)
    out = np.where(ok, r, BAD)
    return out.astype(np.int64)


class Recorder:
    def __init__(self, p, sim):
        self.p, self.sim, self.evs = p, sim, []
        self.syms = symbols_of(p)
        self.kmap = list(range(p.q))

    def F(self):
        """the distributions with halo; both views must show the same interior values"""
        p = self.p
        out = []
        ins = tuple(slice(p.h[i], p.h[i] + p.n[i]) for i in range(p.dim))
        for k in self.kmap:
            a = np.array(self.sim.F_halo[k])
            e = enc(a, p.D)
            b = np.array(self.sim.F[k])
            if a.shape != tuple(p.n[i] + 2 * p.h[i] for i in range(p.dim)):
                raise ValueError("F_halo has shape %s" % (a.shape,))
            if b.shape != a[ins].shape or not np.array_equal(a[ins], b, equal_nan=True):
                e[ins] = BAD
            out.append(e.ravel().tolist())
        return out

    def add(self, op, **kw):
        ev = {"op": op}
        ev.update(kw)
        if op != "raise":
            ev["F"] = self.F()
        self.evs.append(ev)

    def init_event(self, p, kind, rows):
        """the state right after construction"""
        self.call("new", lambda: None, kind=kind, rows=rows)

    def call(self, op, fn, **kw):
        """perform fn, record; returns False when the implementation raised"""
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn()
            if callable(kw.get("after")):
                f = kw.pop("after")
                kw.update(f(r))
            self.add(op, **kw)
            return True
        except (Exception, SystemExit) as e:
            self.evs.append({"op": "raise", "msg": "%s during %s: %s" % (type(e).__name__, op, str(e)[:120])})
            return False

    def rand_field(self, rng, lo=0, hi=3):
        p = self.p
        shape = [p.n[i] + 2 * p.h[i] for i in range(p.dim)]
        return np.array([rng.randint(lo, hi) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)

    # elementary operations
    def setF_all(self, rng, lo=0, hi=3):
        fs = [self.rand_field(rng, lo, hi) for _ in range(self.p.q)]

        def go():
            for k in range(self.p.q):
                self.sim.F_halo[self.kmap[k]] = fs[k]
        return self.call("new", go, kind="any")

    def setF(self, rng, k, lo=0, hi=3):
        v = self.rand_field(rng, lo, hi)

        def go():
            self.sim.F_halo[self.kmap[k]] = v
        return self.call("setF", go, k=k + 1, val=enc(v, self.p.D).ravel().tolist())

    def setM(self, rng, r, lo=0, hi=3):
        v = self.rand_field(rng, lo, hi)

        def go():
            self.sim.m_halo[self.syms[r]] = v
        return self.call("setM", go, i=r + 1, val=enc(v, self.p.D).ravel().tolist())

    def read(self, r, key=None, order=0):
        p = self.p
        key = self.syms[r] if key is None else key

        def go():
            if order == 0:
                a = np.array(self.sim.m[key])
                b = np.array(self.sim.m_halo[key])
            else:
                b = np.array(self.sim.m_halo[key])
                a = np.array(self.sim.m[key])
            return a, b
        return self.call("read", go, i=r + 1,
                         after=lambda ab: {"inn": enc(ab[0], p.D).ravel().tolist(), "halo": enc(ab[1], p.D).ravel().tolist()})

    def op(self, name):
        s = self.sim
        fn = {"bc": s.boundary_condition, "transport": s.transport, "f2m": s.f2m, "m2f": s.m2f,
              "relaxation": s.relaxation, "equilibrium": s.equilibrium, "source": s.source_term}[name]
        return self.call(name, fn)

    def moment_rows(self):
        """row of each moment in the arrays of the simulation: found by the row of the moment matrix"""
        p, sch = self.p, self.sim.scheme
        code = np.array(sch.M.subs(list(sch.param.items())).tolist(), dtype=float)
        mine = np.zeros((p.q, p.q))
        for i, r in enumerate(matrices(p)[0]):
            for k, x in enumerate(r):
                mine[i, self.kmap[k]] = float(x)
        rows = [int(np.argmin(np.abs(code - r).sum(axis=1))) for r in mine]
        if sorted(rows) != list(range(p.q)):
            raise ValueError("the moment matrix is not the one of the polynomials")
        return rows

    def user(self, rng, call, lo=0, hi=2):
        """a phase applied to an array of the user"""
        from pylbm.storage import Array
        s, p = self.sim, self.p
        cont = s.container
        a = Array(p.q, list(s.domain.global_size), s.domain.stencil.vmax, cont.sorder, s.domain.mpi_topo)
        a.set_conserved_moments(s.scheme.consm)
        val = [self.rand_field(rng, lo, hi) for _ in range(p.q)]
        rows = self.kmap
        if call[-2:] != "-f":
            rows = self.moment_rows()
        for k in range(p.q):
            a.swaparray[rows[k]] = val[k]
        which, arg = {"f2m-m": (s.f2m, "m_user"), "f2m-f": (s.f2m, "f_user"), "m2f-m": (s.m2f, "m_user"), "m2f-f": (s.m2f, "f_user"),
                      "relaxation": (s.relaxation, "m_user"), "equilibrium": (s.equilibrium, "m_user"), "source": (s.source_term, "m_user")}[call]
        return self.call("user", lambda: which(**{arg: a}), call=call, val=[enc(v, p.D).ravel().tolist() for v in val],
                         after=lambda _: {"res": [enc(a.swaparray[rows[k]], p.D).ravel().tolist() for k in range(p.q)]})

    def step(self):
        p = self.p

        def after(_):
            t = float(self.sim.t) * 64 * p.dt.denominator
            return {"nt": int(self.sim.nt), "t": int(round(t)) if abs(t - round(t)) < 1e-6 else BAD}
        return self.call("step", self.sim.one_time_step, after=after)


def build(p, pylbm, sorder=None, initialize=True, **kw):
    d = dico(p, pylbm, **kw)
    with contextlib.redirect_stdout(io.StringIO()):
        sim = pylbm.Simulation(d, sorder=sorder, initialize=initialize)
    return sim, d


class Out:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def case(self, cid, **kw):
        self.f.write(json.dumps(dict(id=cid, **kw)) + "\n")
        self.f.flush()
        self.n += 1


class Ctx:
    """parameters of a driver process, from the environment"""
    def __init__(self):
        e = os.environ
        self.prop = e["VP_PROP"]
        self.shard = int(e["VP_SHARD"])
        self.nshards = int(e["VP_NSHARDS"])
        self.tier = e.get("VERIF_TIER", "quick")
        self.seed = int(e.get("VERIF_SEED", "1") or 1)
        self.budget = float(e.get("VP_BUDGET", "40"))
        self.t0 = time.time()
        self.out = Out(e["VP_OUT"])
        self.thorough = self.tier == "thorough"
        self.gen = json.load(open(e["VP_GEN"])) if e.get("VP_GEN") else None

    def rng(self, *tag):
        return random.Random("%s/%s/%s/%s" % (self.prop, self.seed, self.shard, "/".join(map(str, tag))))

    def want(self, cid):
        o = os.environ.get("VP_ONLY")
        return not o or o == cid

    def left(self):
        return self.budget - (time.time() - self.t0)


# ------------------------------------------------------------------ walls and obstacles
def has_opp(p, s):
    st = [tuple(v) for v, sc in zip(p.vel, p.sch) if sc == s + 1]
    return all(tuple(-a for a in v) in st for v in st)


def gen_walls(rng, p, methods=("bb", "abb", "n", "bbb", "babb"), pwall=0.6, obst=0.5, labels=3, values=0.6, timed=0.4, hw=None,
              force=False):
    """adds walls, obstacles, methods and prescribed values to a problem"""
    dim = p.dim
    box = []
    for i in range(dim):
        if p.h[i] and all(has_opp(p, s) for s in range(p.nsch)) and (rng.random() < pwall or (force and i == 0)):
            box += [rng.randrange(labels), rng.randrange(labels)]
        else:
            box += [-1, -1]
    p.box = box
    W = max(p.h)
    p.hw = hw or (3, 10)
    n = p.n
    if dim > 1 and all(has_opp(p, s) for s in range(p.nsch)) and rng.random() < obst:
        sol = [0] * (n[0] * n[1] * n[2])
        lab = {}
        big = 2 * p.hw[0] >= p.hw[1]

        def ok(x):
            m = W if (W > 1 or big) else 0
            for i in range(dim):
                d = min(x[i], n[i] - 1 - x[i])
                # away from periodic sides, and from every side when long links are considered
                lim = max(m, 1 if box[2 * i] == -1 else 0)
                if p.h[i] and d < max(lim, W if box[2 * i] == -1 else 0):
                    return False
            if W > 1 or big:
                for y in lab:
                    if max(abs(a - b) for a, b in zip(x, y)) <= 2 * W:
                        return False
            return True
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            x = tuple(rng.randrange(n[i]) if i < dim else 0 for i in range(3))
            if ok(x):
                lab[x] = rng.randrange(labels)
        for x, l in lab.items():
            sol[(x[0] * n[1] + x[1]) * n[2] + x[2]] = l + 1
        if lab and len(lab) < n[0] * n[1] * n[2]:
            p.sol = sol
    labs = sorted(set([l for l in box if l >= 0] + [x - 1 for x in (p.sol or []) if x]))
    p.bcm, p.bcval, p.bctime = {}, {}, {}
    axes = ["nx", "ny", "nz"][:dim]
    for l in labs:
        p.bcm[l] = []
        for s in range(p.nsch):
            ms = [m for m in methods if m in ("n",) or m in axes or (m in ("bb", "abb", "bbb", "babb") and has_opp(p, s))]
            p.bcm[l].append(rng.choice(ms or ["n"]))
        if rng.random() < values:
            p.bctime[l] = rng.random() < timed
            p.bcval[l] = []
            for r in rng.sample(p.consrows, rng.randint(1, len(p.consrows))):
                p.bcval[l].append({"i": r, "c0": rng.choice([1, 2, -1, 3]), "cx": [rng.choice([0, 1, -1, 2]) if i < dim else 0 for i in range(3)],
                                   "ct": rng.choice([1, 2, -1, 3]) if p.bctime[l] else 0})
    p.bcshare, p.bcmul = {}, {}
    if p.bcval and rng.random() < 0.45:
        # the same function object for all the labels, with another extra argument for each label
        l0 = rng.choice(sorted(p.bcval))
        vals, timed_, mul = p.bcval[l0], p.bctime[l0], rng.random() < 0.4
        for l in labs:
            k = rng.choice([1, 2, 3, -1]) if mul else 1
            p.bcmul[l], p.bctime[l], p.bcshare[l] = k, timed_, l0
            p.bcval[l] = [dict(a, c0=a["c0"] * k) for a in vals]
            if rng.random() < 0.6:
                p.bcm[l] = p.bcm[l0]
        p.bcshare0 = (l0, vals, mul)
    M, inv, den = matrices(p)
    rowI = max(sum(abs(x) for x in r) for r in inv)
    wm = 0
    for l, vs in p.bcval.items():
        for a in vs:
            wm = max(wm, abs(a["c0"]) + sum(abs(c) * (abs(o) + (k + 2) * p.dx) for c, o, k in zip(a["cx"], p.org, p.n)) + abs(a["ct"]) * 8 * p.dt)
    em = max([sum(abs(t["c"]) * max(wm, 1) ** len(t["f"]) for t in e["t"]) for e in p.eq] + [1])
    p.wallmax = rowI * em if wm else 0
    return p


def run_case(ctx, cid, p, fn, pylbm, sorder=None, cfgkw=None, initialize=True, **kw):
    """build the simulation of p, let fn(recorder) drive it, write the case.  What the code raises is an event."""
    if not ctx.want(cid):
        return
    r = None
    try:
        sim, d = build(p, pylbm, sorder=sorder, initialize=initialize, **kw)
        r = Recorder(p, sim)
    except (Exception, SystemExit) as e:
        ctx.out.case(cid, cfg=cfg(p, **(cfgkw or {})), evs=[{"op": "raise", "msg": "%s at construction: %s" % (type(e).__name__, str(e)[:200])}],
                     info={"sorder": sorder or [], "gen": kw.get("generator", "numpy")})
        return
    fn(r)
    ctx.out.case(cid, cfg=cfg(p, **(cfgkw or {})), evs=r.evs, info={"sorder": sorder or [], "gen": kw.get("generator", "numpy"), "stencils": p.stencils, "tag": getattr(p, "tag", "")})


def rand_sorder(rng, dim, plain=0.3):
    so = list(range(dim + 1))
    if rng.random() > plain:
        rng.shuffle(so)
        return so
    return None
