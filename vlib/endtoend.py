"""C25: whole solves with the real NLP solver of problems with a known solution or a known feasible trajectory."""
import contextlib, random
from .core import enc
from . import nlp, ocpgen as og

RULE = ("random problems built around a trajectory that is polynomial in time: tracking (the trajectory is the only solution), bang-bang "
        "(bounds, caps and parameters active) and constrained convex problems (the trajectory is feasible); all schemes, meshes, widths, "
        "scalings, intervals and optimiser kinds, cold, warm and repeated; non-trivial: at least two nodes and one solve")
ASSUMPTIONS = ["ipopt as installed; its success flag is taken as reported", "solutions agree up to 2e-3, costs up to 1e-4, constraints up to 1e-5 (relative)",
               "constrained problems are convex for fixed times and widths, so a stationary point is the best one"]
INF = float("inf")
OPTIONS = {"ipopt.tol": 1e-10, "ipopt.acceptable_tol": 1e-8, "ipopt.constr_viol_tol": 1e-10, "ipopt.max_iter": 500, "ipopt.print_level": 0, "print_time": 0,
           "ipopt.sb": "yes"}


# polynomials in time: lists of coefficients
def pt(p):
    return [[c, [[1, k]] if k else []] for k, c in enumerate(p) if c] or []


def at(p, t):
    return sum(c * t ** k for k, c in enumerate(p))


def d(p):
    return [k * c for k, c in enumerate(p)][1:] or [0.0]


def add(*ps):
    n = max(len(p) for p in ps)
    return [sum(p[k] if k < len(p) else 0.0 for p in ps) for k in range(n)]


def mul(a, b):
    out = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def sc(p, a):
    return [a * c for c in p]


def var(p, n, k):
    """Terms of the time polynomial p as variable number n times the power 1 of variable k (if any)."""
    return [[c, ([[n, i]] if i else []) + ([[k, 1]] if k else [])] for i, c in enumerate(p) if c]


def rough(p, t0, t1):
    ts = [t0 + (t1 - t0) * k / 16 for k in range(17)]
    v = [at(p, t) for t in ts]
    return min(v), max(v)


def q4(r, a, b):
    return og.dy(r, a, b, 4)


def square(p, v, w):
    """Terms of w*(variable v - p)^2, with p a time polynomial in variable tv."""
    P, tv = p
    return [[w, [[v, 2]]]] + [[-2 * w * c, sorted(([[tv, k]] if k else []) + [[v, 1]])] for k, c in enumerate(P) if c] + \
        [[w * c, [[tv, k]] if k else []] for k, c in enumerate(mul(P, P)) if c]


def blank(r, P, nx, nu, na):
    c = og.problem(r, np_=P, nx=nx, nu=nu, na=na)
    c["term"], c["path"], c["mayer"], c["lagr"] = [[] for _ in range(P)], [[] for _ in range(P)], [[] for _ in range(P)], [[] for _ in range(P)]
    sel = lambda n: [r.choice([1.0, 1.0, 0.5, 2.0, 0.25, 4.0, 0.1, 10.0]) for _ in range(n)]
    c["scx"], c["scu"], c["sca"], c["sct"] = sel(nx), sel(nu), sel(na), r.choice([1.0, 1.0, 0.5, 2.0, 0.1])
    c["links"] = [[i, i + 1] for i in range(1, P)]
    if r.random() < .4:
        r.shuffle(c["links"])
    return c


def guesses(r, c, known, close=False):
    P = c["np"]
    for p in range(P):
        t0, t1 = known["ts"][p]
        j = lambda v: v + (q4(r, -.5, .5) if not close else 0.0)
        c["x00"][p] = [j(at(x, t0)) for x in known["xs"][p]]
        c["xf0"][p] = [j(at(x, t1)) for x in known["xs"][p]]
        c["u00"][p] = [j(at(u, t0)) for u in known["us"][p]]
        c["uf0"][p] = [j(at(u, t1)) for u in known["us"][p]]
        c["a0"][p] = [j(a) for a in known["as"][p]]
        c["t00"][p], c["tf0"][p] = t0, t1
    c["x00"][0] = [at(x, known["ts"][0][0]) for x in known["xs"][0]]


def around(r, c, family, md):
    """A known trajectory, the problem's dynamics through it, and the jumps at the links."""
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]
    ts, t = [], r.choice([0.0, 0.0, 0.5, -1.0])
    for p in range(P):
        ts.append([t, t + r.choice([0.5, 1.0, 1.0, 1.5, 2.0])])
        t = ts[-1][1]
    ax = r.randint(1, min(3, md))
    poly = lambda n: [q4(r, -1, 1) for _ in range(n + 1)]
    xs = [[poly(r.randint(0, ax)) for _ in range(nx)] for _ in range(P)]
    us = [[poly(r.randint(0, max(0, min(2, md)))) for _ in range(nu)] for _ in range(P)]
    as_ = [[q4(r, -1, 1) for _ in range(na)] for _ in range(P)]
    for i, j in sorted(c["links"]):          # controls are continuous across links
        for k in range(nu):
            T = ts[i - 1][1]
            us[j - 1][k][0] += at(us[i - 1][k], T) - at(us[j - 1][k], T)
    known = dict(xs=xs, us=us, ts=ts, **{"as": as_})
    tv = nx + nu + 1
    for p in range(P):
        for i in range(nx):
            terms, f = [], d(xs[p][i])
            for k in range(nx):
                a = r.choice([0.0, 0.0, -0.5, 0.5, -1.0, 0.25])
                if a:
                    terms.append([a, [[k + 1, 1]]])
                    f = add(f, sc(xs[p][k], -a))
            for k in range(nu):
                b = r.choice([1.0, -1.0, 0.5, 2.0]) if k == i else (r.choice([0.0, 0.25]) if i > k else 0.0)
                if b:
                    terms.append([b, [[nx + k + 1, 1]]])
                    f = add(f, sc(us[p][k], -b))
            for k in range(na):
                g = r.choice([0.0, 1.0, -0.5])
                if g:
                    terms.append([g, [[tv + k + 1, 1]]])
                    f = add(f, [-g * as_[p][k]])
            if family == "tracking" and r.random() < .25:   # a mild nonlinearity that vanishes nowhere else
                e = r.choice([0.125, -0.125])
                k = r.randrange(nx)
                terms.append([e, [[k + 1, 2]]])
                f = add(f, sc(mul(xs[p][k], xs[p][k]), -e))
            c["dyn"][p][i] = terms + var(f, tv, 0)
    for l, (i, j) in enumerate(c["links"]):
        T = ts[i - 1][1]
        for k in range(nx):
            J = at(xs[j - 1][k], ts[j - 1][0]) - at(xs[i - 1][k], T)
            e = 0.0 if family == "tracking" else r.choice([0.0, 0.5, INF])
            c["lbe"][l][k], c["ube"][l][k] = J - e, J + (e if r.random() < .7 else 0.0)
    return known


def limits(r, c, known, slack):
    """Bounds around the known trajectory; slack: distances to choose from."""
    for p in range(c["np"]):
        t0, t1 = known["ts"][p]
        for nm, ps in (("x", known["xs"][p]), ("u", known["us"][p])):
            for i, f in enumerate(ps):
                lo, hi = rough(f, t0, t1)
                s1, s2 = r.choice(slack), r.choice(slack)
                c["lb" + nm][p][i], c["ub" + nm][p][i] = lo - s1, hi + s2
        for i, a in enumerate(known["as"][p]):
            s1, s2 = r.choice(slack), r.choice(slack)
            c["lba"][p][i], c["uba"][p][i] = a - s1, a + s2
        m = [rough(d(f), t0, t1) for f in known["us"][p]]
        c["lbdu"][p] = min([0.0] + [v[0] for v in m]) - 0.25 - r.choice(slack[:1] + [1.0, 8.0])
        c["ubdu"][p] = max([0.0] + [v[1] for v in m]) + 0.25 + r.choice(slack[:1] + [1.0, 8.0])


def fixed_times(c, known, p):
    c["lbt0"][p] = c["ubt0"][p] = known["ts"][p][0]
    c["lbtf"][p] = c["ubtf"][p] = known["ts"][p][1]


def tracking(r, c, md):
    known = around(r, c, "tracking", md)
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]
    tv = nx + nu + 1
    limits(r, c, known, [2.0, 4.0, INF])
    loose = r.random() < .35
    for p in range(P):
        t0, t1 = known["ts"][p]
        fixed_times(c, known, p)
        if loose and r.random() < .6:                 # times held by constraints instead of bounds
            c["lbtf"][p], c["ubtf"][p] = t0 + 0.25 * (t1 - t0), t1 + r.choice([1.0, 2.0])
            c["term"][p].append([[1.0, [[nx + 1, 1]]], [-t1, []]])
            if p or r.random() < .5:
                c["lbt0"][p], c["ubt0"][p] = t0 - 0.5, t0 + 0.25 * (t1 - t0)
                if not p:
                    c["term"][p].append([[1.0, [[2 * nx + 2, 1]]], [-t0, []]])
        for i in range(nx):
            c["lagr"][p] += square((known["xs"][p][i], tv), i + 1, r.choice([1.0, 0.5, 4.0]))
        for i in range(nu):
            c["lagr"][p] += square((known["us"][p][i], tv), nx + i + 1, r.choice([1.0, 2.0, 0.25]))
        for i in range(na):
            c["mayer"][p] += square(([known["as"][p][i]], nx + 1), 2 * nx + 3 + i, r.choice([1.0, 2.0]))
        if r.random() < .5:
            i = r.randrange(nx)
            lo, hi = rough(known["xs"][p][i], t0, t1)
            top = max(v * v for v in rough(known["us"][p][0], t0, t1))
            c["path"][p].append([[1.0, [[i + 1, 1]]], [1.0, [[nx + 1, 2]]], [-(hi + top + 5.0), []]])
        if r.random() < .3:
            i = r.randrange(nx)
            c["term"][p].append([[1.0, [[i + 1, 1]]], [-at(known["xs"][p][i], t1), []]])
    guesses(r, c, known, r.random() < .3)
    return known


def bang(r, c, md):
    """x1' = k u1 (times a parameter) with u1 as large as it may be."""
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]
    tv = nx + nu + 1
    ub, cap = q4(r, 1, 2), r.random() < .4
    k = [q4(r, .5, 2) for _ in range(P)]
    a = [[q4(r, .5, 1.5) for _ in range(na)] for _ in range(P)]
    x0, ts, t, xs = q4(r, -1, 1), [], r.choice([0.0, 0.5]), []
    for p in range(P):
        ts.append([t, t + r.choice([.5, 1.0, 2.0])])
        rate = k[p] * ub * (a[p][0] if na else 1.0)
        xs.append([[x0 - rate * t, rate]] + [[q4(r, -1, 1) if p == 0 else xs[0][i][0]] for i in range(1, nx)])
        x0 += rate * (ts[p][1] - t)
        t = ts[p][1]
    known = dict(xs=xs, us=[[[ub]] + [[0.0]] * (nu - 1) for _ in range(P)], ts=ts, **{"as": a})
    goal = r.choice(["time", "time", "clock", "range"])
    limits(r, c, known, [2.0, 4.0, INF])
    for p in range(P):
        c["dyn"][p][0] = [[k[p], [[nx + 1, 1]] + ([[tv + 1, 1]] if na else [])]]
        for i in range(1, nx):
            c["dyn"][p][i] = [[1.0, [[nx + 2, 1]]]] if nu > 1 and i == 1 else []
        fixed_times(c, known, p)
        c["lbu"][p][0], c["ubu"][p][0] = r.choice([-1.0, 0.0, -INF]), ub if not cap else ub + 1.0
        if cap:
            c["path"][p].append([[1.0, [[nx + 1, 1]]], [-ub, []]])
        c["lbx"][p], c["ubx"][p] = [-INF] * nx, [INF] * nx
        for i in range(na):
            c["lba"][p][i], c["uba"][p][i] = 0.25, a[p][i] if i == 0 else a[p][i] + 1.0
            if i:
                c["mayer"][p] += square(([a[p][i]], nx + 1), 2 * nx + 3 + i, 1.0)
        for i in range(1, nu):               # the other controls are wanted at zero
            c["lagr"][p].append([1.0, [[nx + i + 1, 2]]])
    e = P - 1
    if goal == "range":
        c["mayer"][e].append([-1.0, [[1, 1]]])
    else:
        c["term"][e].append([[1.0, [[1, 1]]], [-x0, []]])
        c["lbtf"][e], c["ubtf"][e] = ts[e][0] + .125, ts[e][1] + r.choice([1.0, 3.0])
        if goal == "time":
            c["mayer"][e].append([1.0, [[nx + 1, 1]]])
        else:
            c["lagr"][e].append([1.0, []])
    for l in range(P - 1):
        c["lbe"][l], c["ube"][l] = [0.0] * nx, [0.0] * nx
    guesses(r, c, known, True)
    return known


def feasible(r, c, md):
    known = around(r, c, "feasible", md)
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]
    tv = nx + nu + 1
    limits(r, c, known, [0.0625, 0.25, 1.0])
    for p in range(P):
        t0, t1 = known["ts"][p]
        fixed_times(c, known, p)
        for i in range(nx):
            if r.random() < .7:
                c["lagr"][p] += square(([q4(r, -2, 2), q4(r, -1, 1)], tv), i + 1, r.choice([1.0, 0.5]))
            if r.random() < .4:
                c["mayer"][p].append([q4(r, -1, 1), [[r.choice([i + 1, nx + 1 + i + 1]), 1]]])
        for i in range(nu):
            c["lagr"][p] += square(([q4(r, -2, 2)], tv), nx + i + 1, r.choice([1.0, 0.5, 2.0]))
        for i in range(na):
            c["mayer"][p] += square(([q4(r, -2, 2)], nx + 1), 2 * nx + 3 + i, 1.0)
        for _ in range(r.choice([0, 1, 2])):  # a linear path constraint that holds with little room
            vs = [[q4(r, -1, 1), [[v, 1]]] for v in range(1, nx + nu + 1)]
            f = [0.0]
            for v, (b, _) in enumerate(vs):
                f = add(f, sc(known["xs"][p][v] if v < nx else known["us"][p][v - nx], b))
            vs += [[q4(r, -1, 1), [[tv, 1]]]]
            f = add(f, [0.0, vs[-1][0]])
            c["path"][p].append(vs + [[-(rough(f, t0, t1)[1] + r.choice([0.0625, 0.25, 1.0])), []]])
        for _ in range(r.choice([0, 0, 1])):
            i = r.randrange(nx)
            c["term"][p].append([[1.0, [[i + 1, 1]]], [-at(known["xs"][p][i], t1), []]])
    guesses(r, c, known)
    return known


FAMILIES = dict(tracking=tracking, bang=bang, feasible=feasible)
KINDS = ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt", "mpopt_ph_adaptive", "solve"]


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    for i in range(dict(quick=168, thorough=2400)[tier]):
        family = ["tracking", "bang", "feasible"][i % 3]
        kind = KINDS[i // 3 % len(KINDS)]
        P = [1, 2, 1, 3][i // 5 % 4]
        c = blank(r, P, r.choice([1, 1, 2, 3]), 1, r.choice([0, 0, 1, 2]))
        if c["nx"] > 1 and r.random() < .4:
            c["nu"] = 2
            c = blank(r, P, c["nx"], 2, c["na"])
        og.mesh(r, c, maxnodes=10, nseg=r.choice([1, 2, 2, 3, 4]))
        if kind == "mpopt_ph_adaptive":
            c["orders"] = [max(2, o) for o in c["orders"]]
        if family == "bang":                # every control is decided by the cost or the dynamics
            if c["scheme"] != "LGR":
                c["orders"] = [r.randint(1, 6)]
            c = {**blank(r, P, c["nu"], c["nu"], c["na"]), **{k: c[k] for k in ("orders", "scheme", "lo", "hi", "method")}}
        known = FAMILIES[family](r, c, min(c["orders"]))
        S = len(c["orders"])
        # free times make a problem non-convex, more states than controls its equations dependent
        must = family == "bang" or family == "tracking" and c["nu"] >= c["nx"] and all(c[a] == c[b] for a, b in (("lbt0", "ubt0"), ("lbtf", "ubtf")))
        # with as many equations as unknowns ipopt does not look at the cost
        nn = sum(c["orders"]) + 1
        eqs = P * c["nx"] * nn + sum(map(len, c["term"])) + len(c["links"]) * (c["nx"] + c["nu"] + 1)
        best = P * nn * (c["nx"] + c["nu"]) - c["nx"] + P * c["na"] > eqs
        runs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            q = dict(scaling=r.random() < .2, fine=r.randrange(10**6))
            if kind in ("mpopt", "solve") and r.random() < .6:
                q["w"] = sum((og.widths(r, S) for _ in range(P)), [])
            if kind == "mpopt_h_adaptive":
                q.update(limit=r.choice([1, 2, 3]), m=r.choice([["residual", "equal_area"], ["residual", "merge_split"], ["control_slope", ""], ["default", ""]]))
            if kind == "mpopt_ph_adaptive":
                q["limit"] = r.choice([1, 2, 3])
            if runs:
                q["start"] = r.choice(["x", "x0", "all", "none"])
                q["again"] = r.random() < .4
            runs.append(q)
        if kind == "solve":
            runs = runs[:1]
        out.append(dict(kind=kind, family=family, must=must, best=best, c=c, known=known, runs=runs, style=r.randrange(2), lbh=[1e-2] * P, ubh=[1.0] * P,
                        tolr=[r.choice([1e-2, 1e-3]) for _ in range(P)], midres=r.random() < .6, plain=r.random() < .3))
    return out


@contextlib.contextmanager
def watching():
    """The real solvers, with what they report."""
    from .recorder import replaced
    log = []

    class Spy:
        def __init__(self, s):
            self.s = s

        def __call__(self, *a, **kw):
            out = self.s(*a, **kw)
            log.append(bool(self.s.stats()["success"]))
            return out

        def __getattr__(self, n):
            return getattr(self.s, n)

    with replaced(lambda orig: lambda *a, **kw: Spy(orig(*a, **kw))):
        yield log


def retrieve(opt, post, s, q):
    import numpy as np
    c = s["c"]
    r = random.Random(q["fine"])
    rows = lambda m, n: np.array(m, dtype=float).reshape(-1, n).tolist()
    phases, fine = [], []
    for p in range(c["np"]):
        x, u, t, a = post.get_original_data([p])
        phases.append(dict(x=rows(x, c["nx"]), u=rows(u, c["nu"]), t=np.array(t, dtype=float).flatten().tolist(),
                           a=np.array(a, dtype=float).flatten().tolist()))
        x, u, t, a = post.get_data(phases=[p], interpolate=True)
        n = np.array(t, dtype=float).size
        k = sorted(r.sample(range(n), min(9, n)) + [0, n - 1])
        fine.append(dict(x=[rows(x, c["nx"])[j] for j in k], u=[rows(u, c["nu"])[j] for j in k], t=[np.array(t, dtype=float).flatten().tolist()[j] for j in k]))
    return dict(phases=phases, fine=fine)


def execute(s):
    import traceback
    from mpopt import mp
    c = s["c"]
    runs, sol, opt, fs = [], None, None, []
    own = {"nlp_solver_options": OPTIONS}
    with watching() as log:
        if s["kind"] == "solve":
            nlp.build({**s, "kind": "mpopt"})
            ocp = og.make_ocp(c, s["style"])
        elif s["kind"] == "mpopt_ph_adaptive":
            nlp.build({**s, "kind": "mpopt"})
            ocp = og.make_ocp(c, s["style"])
            o = list(c["orders"])
            opt = mp.mpopt_ph_adaptive(ocp, len(o), o, c["scheme"], max_residual=1e-2, poly_order_min=min(o), poly_order_max=max(o) + 3)
        else:
            opt, ocp = nlp.build(s)
        for q in s["runs"]:
            log.clear()
            kw = dict(own)
            if "w" in q:
                kw["mpopt_options"] = {"nlp_sw_params": list(q["w"])}
            if q.get("start", "none") != "none":
                kw["initial_solution"] = {"all": sol, "x": {"x": sol["x"]}, "x0": {"x0": sol["x"]}}[q["start"]]
            if q.get("again"):
                kw["reinitialize_nlp"] = True
            if s["kind"] == "mpopt_h_adaptive":
                kw["max_iter"] = q["limit"]
                if q["m"][0] != "default":
                    kw["mpopt_options"] = {"method": q["m"][0], **({"sub_method": q["m"][1]} if q["m"][1] else {})}
            rec = dict(raised="")
            try:
                if s["kind"] == "solve":
                    o = c["orders"]
                    opt, post = mp.solve(ocp, n_segments=len(o), poly_orders=o[0] if len(set(o)) == 1 and s["style"] else list(o), scheme=c["scheme"], plot=False,
                                         solve_dict=kw, residual_dx=False)
                    sol = post.solution
                else:
                    if s["kind"] == "mpopt_ph_adaptive":
                        kw.pop("initial_solution", 0)
                        kw.pop("reinitialize_nlp", 0)
                        sol = opt.solve_ph(max_iter=q["limit"], solve_dict=kw)
                    else:
                        sol = opt.solve(**kw)
                    pk = {} if s["plain"] else dict(scaling=q["scaling"])
                    post = opt.process_results(sol, plot=False, residual_x=False, residual_dx=False, **pk)
                    if pk.get("scaling"):   # scaled results are C14's
                        post = opt.process_results(sol, plot=False, residual_x=False, residual_dx=False, scaling=False)
                log[:0] = [runs[-1]["success"]] if runs and not log else []
                rec.update(success=all(log[-1:]) and bool(log), orders=[int(o) for o in opt.poly_orders], f=float(sol["f"]) if "f" in sol else fs[-1])
                fs.append(rec["f"])
                rec.update(retrieve(opt, post, s, q))
            except Exception as e:
                rec.update(raised=f"{type(e).__name__}: {e}"[:200], _tb=traceback.format_exc()[-1500:])
            runs.append(rec)
            if rec["raised"]:
                break
    return dict(runs=runs, _tb=runs[-1].get("_tb", ""))


def encode(s, rec):
    runs = []
    for q in rec.get("runs", []):
        e = {k: enc(v) for k, v in q.items() if k not in ("orders", "_tb")}
        if "orders" in q:
            e["orders"] = q["orders"]
        else:
            e.update(orders=s["c"]["orders"], success=False)
        # with unknown widths, starting at a solution is starting in a valley of solutions
        e["must"] = s["must"] and not (s["kind"] == "mpopt_adaptive" and s["runs"][len(runs)].get("start", "none") != "none")
        e["best"] = s["best"]
        runs.append(e)
    k = s["known"]
    tp = lambda p: [[enc(a), m] for a, m in pt(p)]
    known = dict(xs=[[tp(f) for f in ps] for ps in k["xs"]], us=[[tp(f) for f in ps] for ps in k["us"]], ts=enc(k["ts"]), **{"as": enc(k["as"])})
    return dict(c=og.tla_problem(s["c"], False), family=s["family"], known=known, runs=runs)


def features(s):
    c = s["c"]
    return [s["kind"], s["family"], f"{c['np']} phases", f"{len(c['orders'])} segments", c["scheme"], f"{c['nu']} controls", f"{c['na']} parameters"] + \
        ["start " + q["start"] for q in s["runs"] if "start" in q]


def sample(s, c):
    return dict(kind=s["kind"], family=s["family"], orders=s["c"]["orders"], scheme=s["c"]["scheme"], known=s["known"],
                final=[dict(orders=q["orders"], f=q.get("f")) for q in c["runs"]])
