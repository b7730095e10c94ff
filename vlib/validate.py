"""C23: validation of problems with and without deviations from the sizes implied."""
import copy, random
from .core import enc
from . import ocpgen as og

RULE = ("random problems of 1-5 phases, valid ones in many forms (defaults, tuples, arrays, casadi values, equal and infinite bounds, zero "
        "costs) and with one or two deviations in any list, size, function value or pair of bounds")
ASSUMPTIONS = ["deviations keep the documented types (arrays, lists of functions, sequences of values)"]
NAMES = ["x00", "xf0", "u00", "uf0", "a0", "t00", "tf0", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf", "lbe", "ube"]
PAIRS = [("lbx", "ubx"), ("lbu", "ubu"), ("lba", "uba"), ("lbt0", "ubt0"), ("lbtf", "ubtf"), ("lbe", "ube")]
LISTS = ["dynamics", "running_costs", "terminal_costs", "path_constraints", "terminal_constraints"]


def fault(r, c):
    """A deviation: [what, where, how]."""
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]
    k = r.choice(["list", "scale", "size", "size", "size", "dyn", "run", "end", "path", "term", "cross", "cross", "cross"])
    if k == "list":
        return [k, r.choice(LISTS), r.choice([-1, 1])]
    if k == "scale":
        n = r.choice(["scale_x", "scale_u", "scale_a"])
        return [k, n, 1 if n == "scale_a" and na == 0 else r.choice([-1, 1])]
    if k == "size":
        nm = r.choice(NAMES)
        return [k, nm, [r.choice([-1, 1]), 0] if r.random() < .5 or nm in ("lba", "uba", "a0") and na == 0 else [0, r.choice([-1, 1])]]
    if k == "dyn":
        return [k, r.randrange(P), r.choice([-1, 1, -nx])]
    if k in ("run", "end", "path", "term"):
        return [k, r.randrange(P), 0]
    n = r.choice([p for p in PAIRS if (p[0] != "lba" or na) and (p[0] != "lbe" or P > 1)])
    w = dict(lbx=nx, lbu=nu, lba=na, lbt0=1, lbtf=1, lbe=nx)[n[0]]
    rows = P - 1 if n[0] == "lbe" else P
    return [k, n[0], [r.choice([rows - 1, r.randrange(rows)]), r.choice([w - 1, r.randrange(w)]), r.choice([1e-9, 1.0, 50.0])]]


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    for i in range(dict(quick=24, thorough=200)[tier]):
        calls = []
        for j in range(25):
            c = og.problem(r, np_=[1, 2, 3, 1, 5][j % 5], maxterms=1, scaled=False)
            nf = [0, 1, 1, 1, 2][(i + j) % 5]
            calls.append(dict(c={k: c[k] for k in ("np", "nx", "nu", "na")}, seed=r.randrange(10**9), faults=[fault(r, c) for _ in range(nf)],
                              form=r.choice(["list", "tuple", "array", "dm"]), dflt=r.random() < .2))
        out.append(dict(calls=calls))
    return out


def problem(q):
    """The real problem with its deviations, and its description."""
    import numpy as np
    import casadi as ca
    from mpopt import mp
    c, r = q["c"], random.Random(q["seed"])
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]
    o = mp.OCP(n_states=nx, n_controls=nu, n_phases=P, n_params=na)
    fun = [dict(ndyn=nx, run=True, end=True, path=-1, term=-1) for _ in range(P)]
    if not q["dflt"]:
        for nm in ("x00", "xf0", "u00", "uf0", "a0"):
            v = getattr(o, nm)
            setattr(o, nm, np.array([[og.dy(r, -3, 3) for _ in row] for row in v]).reshape(v.shape))
        for a, b in PAIRS:
            for p in range(len(getattr(o, a))):
                for i in range(len(getattr(o, a)[p])):
                    lo = r.choice([-np.inf, og.dy(r, -3, 3)])
                    hi = r.choice([np.inf, lo, max(lo, og.dy(r, 0, 5))])
                    getattr(o, a)[p][i], getattr(o, b)[p][i] = lo, hi
        for p in range(P):
            fun[p].update(path=r.choice([-1, 1, 2]), term=r.choice([-1, 1, 3]))
    for k, w, h in q["faults"]:
        if k == "dyn":
            fun[w]["ndyn"] = nx + h
        elif k in ("run", "end"):
            fun[w][k] = False
        elif k in ("path", "term"):
            fun[w][k] = 0
    wrap = dict(list=list, tuple=tuple, array=np.array, dm=list)[q["form"]]
    one = (lambda v: ca.DM([v])) if q["form"] == "dm" else (lambda v: v)

    def node(n, zero):
        f = lambda x, u, t, a=None: None if n is None else one(0.0 if zero else x[0] + u[nu - 1]) if n == 0.5 else wrap([one(x[nx - 1] * (k + 1)) for k in range(n)])
        return f if na else (lambda x, u, t: f(x, u, t))

    def end(n, zero):
        f = lambda xf, tf, x0, t0, a=None: None if n is None else one(0 if zero else xf[0] - x0[nx - 1]) if n == 0.5 else wrap([one(xf[nx - 1] * (k + 1)) for k in range(n)])
        return f if na else (lambda xf, tf, x0, t0: f(xf, tf, x0, t0))
    touched = {k for k, _, _ in q["faults"]}
    if not q["dflt"] or touched & {"dyn", "run", "end", "path", "term"}:
        for p in range(P):
            f = fun[p]
            o.dynamics[p] = node(f["ndyn"], False)
            o.running_costs[p] = node(0.5 if f["run"] else None, r.random() < .3)
            o.terminal_costs[p] = end(0.5 if f["end"] else None, r.random() < .3)
            o.path_constraints[p] = node(None if f["path"] < 0 else f["path"], False)
            o.terminal_constraints[p] = end(None if f["term"] < 0 else f["term"], False)
    for k, w, h in q["faults"]:
        if k == "list":
            l = getattr(o, w)
            setattr(o, w, l[:-1] if h < 0 else l + l[-1:])
        elif k == "scale":
            v = list(getattr(o, w))
            setattr(o, w, np.array(v[:-1] if h < 0 else v + [1.0]))
        elif k == "size":
            v = getattr(o, w)
            if v.ndim < 2:
                v = v.reshape(len(v), nx)
            v = v[:max(v.shape[0] + min(h[0], 0), 0), :max(v.shape[1] + min(h[1], 0), 0)]
            if h[0] > 0:
                v = np.vstack([v, v[-1:] if len(v) else np.zeros((1, v.shape[1]))])
            if h[1] > 0:
                v = np.hstack([v, v[:, -1:] if v.shape[1] else np.zeros((v.shape[0], 1))])
            setattr(o, w, v)
        elif k == "cross":
            a, b = getattr(o, w), getattr(o, "ub" + w[2:])
            if h[0] < min(len(a), len(b)) and h[1] < min(a.shape[1], b.shape[1]):
                y = b[h[0]][h[1]] if np.isfinite(b[h[0]][h[1]]) else 2.0
                b[h[0]][h[1]] = y
                a[h[0]][h[1]] = y + h[2]
    shape = {}
    for nm in NAMES:
        v = getattr(o, nm)
        shape[nm] = list(v.shape) if v.ndim == 2 else [v.shape[0], 0]
    bound = []
    for a, b in PAIRS:
        x, y = getattr(o, a), getattr(o, b)
        for p in range(min(len(x), len(y))):
            for i in range(min(len(x[p]), len(y[p]))):
                bound.append([float(x[p][i]), float(y[p][i])])
    d = dict(np=P, nx=nx, nu=nu, na=na, nfun=[len(getattr(o, l)) for l in LISTS], fun=fun,
             scale=[len(o.scale_x), len(o.scale_u), len(o.scale_a)], shape=shape, bound=enc(bound))
    return o, d


def snap(o):
    return {k: (v.tolist() if hasattr(v, "tolist") else [id(x) for x in v] if isinstance(v, list) else v) for k, v in vars(o).items()}


def execute(s):
    import traceback
    out = []
    for q in s["calls"]:
        o, d = problem(q)
        before = snap(o)
        tb = ""
        try:
            o.validate()
            res = "ok"
        except AssertionError:
            res, tb = "assertion", traceback.format_exc()[-600:]
        except Exception as e:
            res, tb = f"{type(e).__name__}: {e}"[:150], traceback.format_exc()[-1500:]
        out.append(dict(p=d, out=res, same=repr(snap(o)) == repr(before), _tb=tb))
    return dict(calls=out)


def encode(s, rec):
    return dict(calls=[dict(p=q["p"], out=q["out"], same=q["same"]) for q in rec.get("calls", [])])


def features(s):
    return sorted({"deviation " + f[0] for q in s["calls"] for f in q["faults"]} | {"values as " + q["form"] for q in s["calls"]})


def sample(s, c):
    return [dict(sizes=q["c"], deviations=q["faults"]) for q in s["calls"][:4]]
