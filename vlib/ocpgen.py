"""Random optimal control problems with polynomial functions, and the real OCP objects for them.

A problem is a plain dict (see spec/Ocp.tla); polynomials are [[coef, [[var, power], ...]], ...]
with 1-based variable numbers."""
import random
from .core import enc

INF = float("inf")


def dy(r, a, b, den=16):
    return round(r.uniform(a, b) * den) / den


def poly(r, nv, nterms=None, maxdeg=2, must=None):
    """A random polynomial in nv variables; `must`: variables that all occur."""
    out = []
    vs = list(must or [])
    r.shuffle(vs)
    for _ in range(nterms or r.randint(1, 3)):
        f = {}
        for _ in range(r.randint(0, maxdeg)):
            v = r.randint(1, nv)
            f[v] = f.get(v, 0) + 1
        out.append([dy(r, -2, 2) or 0.5, sorted([v, e] for v, e in f.items())])
    while vs:
        f = [[v, 1] for v in sorted(vs[:2])]
        vs = vs[2:]
        out.append([dy(r, 0.25, 2), f])
    return out


def evalpoly(p, v):
    s = 0
    for c, fs in p:
        m = c
        for k, e in fs:
            for _ in range(e):
                m = m * v[k - 1]
        s = s + m
    return s


def bounds(r, n, style):
    """n lower and upper bounds; style: none, full, lower, upper, mixed."""
    lo, hi = [], []
    for i in range(n):
        st = style if style != "mixed" else r.choice(["none", "full", "lower", "upper"])
        a = dy(r, -4, 0)
        b = dy(r, 0.25, 5)
        lo.append(a if st in ("full", "lower") else -INF)
        hi.append(b if st in ("full", "upper") else INF)
    return lo, hi


def problem(r, np_=None, nx=None, nu=None, na=None, scaled=None, **kw):
    """A random problem; every dimension may be fixed by the caller."""
    c = {}
    P = c["np"] = np_ or r.choice([1, 1, 2, 2, 3, 4])
    nx = c["nx"] = nx or r.choice([1, 2, 2, 3, 4])
    nu = c["nu"] = nu or r.choice([1, 1, 2, 3])
    na = c["na"] = na if na is not None else r.choice([0, 0, 1, 2, 3])
    scaled = r.random() < 0.75 if scaled is None else scaled
    sc = lambda n: [r.choice([0.5, 2.0, 0.25, 3.0, 0.1, 10.0, 1.0]) if scaled else 1.0 for _ in range(n)]
    c["scx"], c["scu"], c["sca"], c["sct"] = sc(nx), sc(nu), sc(na), sc(1)[0]
    nv = nx + nu + 1 + na
    nt = 2 * nx + 2 + na
    allv = list(range(1, nv + 1))
    allt = list(range(1, nt + 1))
    tt = kw.get("maxterms", 3)
    c["dyn"] = [[poly(r, nv, r.randint(1, tt), must=allv if r.random() < .5 else [nx + nu + 1]) for _ in range(nx)] for _ in range(P)]
    c["path"] = [[poly(r, nv, must=allv if r.random() < .5 else None) for _ in range(r.choice([0, 1, 2, 3]))] for _ in range(P)]
    c["term"] = [[poly(r, nt, must=allt if r.random() < .6 else None) for _ in range(r.choice([0, 1, 2, 3]))] for _ in range(P)]
    c["lagr"] = [poly(r, nv, must=allv if r.random() < .5 else None) if r.random() < .8 else [] for _ in range(P)]
    c["mayer"] = [poly(r, nt, must=allt if r.random() < .5 else None) if r.random() < .8 else [] for _ in range(P)]
    for nm, n in (("x", nx), ("u", nu), ("a", na)):
        st = [r.choice(["none", "full", "full", "lower", "upper", "mixed"]) for _ in range(P)]
        b = [bounds(r, n, s) for s in st]
        c["lb" + nm], c["ub" + nm] = [x[0] for x in b], [x[1] for x in b]
    c["lbt0"] = [0.0 if p == 0 and r.random() < .5 else dy(r, 0, 2) for p in range(P)]
    c["ubt0"] = [c["lbt0"][p] + r.choice([0.0, 0.5, 3.0, INF]) for p in range(P)]
    c["lbtf"] = [dy(r, 2, 4) for p in range(P)]
    c["ubtf"] = [c["lbtf"][p] + r.choice([0.0, 0.5, 3.0, INF]) for p in range(P)]
    g = lambda n: [[dy(r, -3, 3) for _ in range(n)] for _ in range(P)]
    c["x00"], c["xf0"], c["u00"], c["uf0"], c["a0"] = g(nx), g(nx), g(nu), g(nu), g(na)
    c["t00"] = [dy(r, 0, 2) for _ in range(P)]
    c["tf0"] = [c["t00"][p] + r.choice([0.0, 1.0, 2.5]) for p in range(P)]
    for p in range(P):      # functions that happen to vanish at the guess
        if r.random() < .2:
            for k in ("x00", "xf0", "u00", "uf0", "a0"):
                c[k][p] = [0.0] * len(c[k][p])
            c["t00"][p] = c["tf0"][p] = 0.0
            for k in ("path", "term"):
                c[k][p] = [[m for m in q if m[1]] or [[1.0, [[1, 1]]]] for q in c[k][p]]
            for k in ("lagr", "mayer"):
                c[k][p] = [m for m in c[k][p] if m[1]]
    links = [[i, i + 1] for i in range(1, P)]
    if P > 2 and r.random() < .5:
        links = r.choice([links[::-1], links[:-1], [[1, k] for k in range(2, P + 1)], [[P, 1]] + links[1:]])
    c["links"] = links
    # one row of jump bounds per link, shaped n_phases-1 rows in the problem object
    c["lbe"] = [[r.choice([0.0, dy(r, -2, 0), -INF]) for _ in range(nx)] for _ in range(P - 1)]
    c["ube"] = [[r.choice([0.0, dy(r, 0, 2), INF]) for _ in range(nx)] for _ in range(P - 1)]
    on = lambda q: [1 if r.random() < q else 0 for _ in range(P)]
    c["diffu"], c["midu"], c["ducont"] = on(.4), on(.6), on(.4)
    c["lbdu"] = [-r.choice([15, 1.5, 3, 0.25]) for _ in range(P)]
    c["ubdu"] = [r.choice([15, 2.5, 4, 0.75]) for _ in range(P)]
    return c


INTERVALS = [(-1, 1), (-1, 1), (-1, 1), (0, 1), (0, 1), (-2, 3), (-1, 0)]


def mesh(r, c, maxnodes=24, nseg=None, maxdeg=None):
    k = nseg or r.choice([1, 1, 2, 2, 3, 4, 5, 11])
    md = maxdeg or max(1, min(6, maxnodes // k))
    style = r.random()
    if style < .3:
        o = [r.randint(1, md)] * k
    else:
        o = [r.randint(1, md) for _ in range(k)]
    if k == 1 and r.random() < .15 and maxdeg is None:
        o = [r.randint(7, 12)]
    c["orders"] = o
    c["scheme"] = r.choice(["LGR", "LGR", "LGL", "CGL"])
    # the code keeps basis polynomials in powers of the normalised time: high degrees lose
    # digits on intervals that are not centred
    c["lo"], c["hi"] = (-1, 1) if max(o) > 7 else r.choice(INTERVALS)
    c["method"] = "numerical" if r.random() < .25 else "symbolic"
    return c


def widths(r, k, style=None):
    """k positive widths, exactly dyadic, summing to one (k >= 1)."""
    style = style or r.choice(["equal", "free", "free", "free"])
    if style == "equal":
        return [1.0 / k] * k
    q = [r.randint(1, 9) for _ in range(k)]
    s = sum(q)
    den = 1024
    w = [max(1, int(den * x / s)) for x in q]
    w[0] += den - sum(w)
    return [x / den for x in w]


def nnodes(c):
    return sum(c["orders"]) + 1


def phase_len(c, adaptive):
    return (c["nx"] + c["nu"]) * nnodes(c) + 2 + c["na"] + (len(c["orders"]) if adaptive else 0)


def trajectory(r, c, adaptive=False, amp=2.0, wid=None):
    """A random vector of unknowns (scaled) with t0 < tf and positive widths, and the widths."""
    z, w = [], []
    N, k = nnodes(c), len(c["orders"])
    for p in range(c["np"]):
        for i in range(c["nx"]):
            z += [dy(r, -amp, amp, 64) * c["scx"][i] for _ in range(N)]
        for i in range(c["nu"]):
            z += [dy(r, -amp, amp, 64) * c["scu"][i] for _ in range(N)]
        t0 = dy(r, 0, 1.5, 64)
        z += [t0 * c["sct"], (t0 + dy(r, 0.5, 2, 64)) * c["sct"]]
        z += [dy(r, -amp, amp, 64) * c["sca"][i] for i in range(c["na"])]
        h = wid[p] if wid else widths(r, k)
        if adaptive:
            z += h
        else:
            w += h
    return z, w


def make_ocp(c, style=0):
    """The real OCP object.  style varies how values are given (arrays, numbers, tuples)."""
    import numpy as np
    from mpopt import mp
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]
    o = mp.OCP(n_states=nx, n_controls=nu, n_phases=P, n_params=na) if na else mp.OCP(n_states=nx, n_controls=nu, n_phases=P)
    seq = tuple if style % 2 else list

    def node(ps):
        if not ps:
            return (lambda x, u, t: None) if na == 0 else (lambda x, u, t, a: None)
        def vals(x, u, t, a=()):
            v = [x[i] for i in range(nx)] + [u[i] for i in range(nu)] + [t] + [a[i] for i in range(na)]
            return seq(evalpoly(p, v) for p in ps)
        return (lambda x, u, t: vals(x, u, t)) if na == 0 else (lambda x, u, t, a: vals(x, u, t, a))

    def end(ps):
        if not ps:
            return (lambda xf, tf, x0, t0: None) if na == 0 else (lambda xf, tf, x0, t0, a: None)
        def vals(xf, tf, x0, t0, a=()):
            v = [xf[i] for i in range(nx)] + [tf] + [x0[i] for i in range(nx)] + [t0] + [a[i] for i in range(na)]
            return seq(evalpoly(p, v) for p in ps)
        return (lambda xf, tf, x0, t0: vals(xf, tf, x0, t0)) if na == 0 else (lambda xf, tf, x0, t0, a: vals(xf, tf, x0, t0, a))

    def first(f):
        return (lambda x, u, t: f(x, u, t)[0]) if na == 0 else (lambda x, u, t, a: f(x, u, t, a)[0])

    def firste(f):
        return (lambda x, u, t, s: f(x, u, t, s)[0]) if na == 0 else (lambda x, u, t, s, a: f(x, u, t, s, a)[0])
    for p in range(P):
        o.dynamics[p] = node(c["dyn"][p])
        if c["path"][p]:
            o.path_constraints[p] = node(c["path"][p])
        if c["term"][p]:
            o.terminal_constraints[p] = end(c["term"][p])
        if c["lagr"][p]:
            o.running_costs[p] = first(node([c["lagr"][p]]))
        if c["mayer"][p]:
            o.terminal_costs[p] = firste(end([c["mayer"][p]]))
        for k in ("lbx", "ubx", "lbu", "ubu", "lba", "uba", "x00", "xf0", "u00", "uf0", "a0"):
            getattr(o, k)[p] = c[k][p]
        for k in ("lbt0", "ubt0", "lbtf", "ubtf", "t00", "tf0"):
            getattr(o, k)[p] = c[k][p]
    o.scale_x, o.scale_u, o.scale_a, o.scale_t = np.array(c["scx"]), np.array(c["scu"]), np.array(c["sca"]), c["sct"]
    o.phase_links = [(i - 1, j - 1) for i, j in c["links"]]
    for l in range(P - 1):
        o.lbe[l], o.ube[l] = c["lbe"][l], c["ube"][l]
    for p in range(P):
        o.diff_u[p], o.midu[p], o.du_continuity[p] = c["diffu"][p], c["midu"][p], c["ducont"][p]
    o.lbdu, o.ubdu = np.array(c["lbdu"], dtype=float), np.array(c["ubdu"], dtype=float)
    return o


def tla_problem(c, adaptive=False, lbh=None, ubh=None, tolr=None, midres=True):
    """The problem in the encoding of spec/Ocp.tla."""
    d = {k: enc(c[k]) for k in ("scx", "scu", "sca", "sct", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0",
                                "lbtf", "ubtf", "x00", "xf0", "u00", "uf0", "t00", "tf0", "a0", "lbe", "ube",
                                "lbdu", "ubdu", "lo", "hi")}
    tp = lambda p: [[enc(co), fs] for co, fs in p]
    for k in ("dyn", "path", "term"):
        d[k] = [[tp(q) for q in ps] for ps in c[k]]
    for k in ("lagr", "mayer"):
        d[k] = [tp(q) for q in c[k]]
    for k in ("np", "nx", "nu", "na", "scheme", "orders", "links"):
        d[k] = c[k]
    for k in ("diffu", "midu", "ducont"):
        d[k] = [bool(v) for v in c[k]]
    P = c["np"]
    d.update(adaptive=adaptive, lbh=enc(lbh or [1e-4] * P), ubh=enc(ubh or [1.0] * P),
             tolr=enc(tolr or [1e-3] * P), midres=midres)
    return d
