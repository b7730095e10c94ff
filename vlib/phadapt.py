"""C24: histories of degree-and-width refinement with scripted solver answers."""
import random
from .core import enc
from . import ocpgen as og

RULE = ("histories of 1-2 degree-and-width refinement runs; solver answers with prescribed residual troubles at positions of each "
        "phase that grow, shrink, move or vanish from call to call; limits of degrees, tolerances, residual grids, 1-3 phases; settings given or left unset")
ASSUMPTIONS = ["the solver is a stand-in that answers with prescribed trajectories", "residuals are those reported by a second "
               "optimiser on the same mesh (their truth is C18)", "residuals are not exactly at the tolerance"]


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    for i in range(dict(quick=56, thorough=450)[tier]):
        P = [1, 2, 1, 3][i % 4]
        c = og.problem(r, np_=P, nx=[1, 2, 2][i % 3], nu=1, na=r.choice([0, 0, 1]), maxterms=1)
        n = [1, 2, 3, 2, 4][i % 5]
        og.mesh(r, c, maxnodes=14, nseg=n, maxdeg=4)
        c["lo"], c["hi"], c["method"] = -1, 1, "symbolic"
        c["dyn"] = [[[[r.choice([1.0, -1.5, 0.5]), []]] for _ in range(c["nx"])] for _ in range(P)]
        lo, hi = r.choice([(3, 16), (2, 6), (1, 4), (4, 7), (2, 12), (5, 5), (1, 2), (2, 3)])
        tol = r.choice([1e-2, 1e-3, 1e-4])
        runs = []
        for j in range(r.choice([1, 1, 1, 2])):
            limit = r.choice([1, 2, 2, 3] if n < 4 else [1, 2])
            # troubles: position in a phase, linear and curved part, per call
            calls = []
            style = r.choice(["all", "fade", "walk", "mixed", "late", "mixed"])
            spots = [(r.randrange(P), round(r.random(), 4), r.randrange(c["nx"])) for _ in range(r.randint(1, 3))]
            for k in range(2 * limit):
                if style == "walk" or (style == "mixed" and r.random() < .5):
                    spots = [(r.randrange(P), round(r.random(), 4), r.randrange(c["nx"])) for _ in range(r.randint(1, 3))]
                good = (style == "fade" and k >= 1 + r.randrange(2 * limit)) or (style == "late" and k == 2 * limit - 1)
                t = []
                for p, y, x in spots:
                    a = r.choice([6, 20, 60]) * tol
                    if good:
                        a = 0.1 * tol
                    t.append([p, y, x, r.choice([a, -a]), r.choice([0, 0, 1, 1.5, 3]) if k % 2 else r.choice([0, 1, 1])])
                calls.append(t)
            runs.append(dict(limit=limit, calls=calls, widths=r.choice(["none", "none", "own"]) if j == 0 else "none",
                             start=r.random() < .3, opts=r.random() < .3))
        wid = [og.widths(r, n) for _ in range(P)]
        ngrid, gt = r.choice([3, 4, 6]), r.choice(["spectral", "spectral", "mid-points", "fixed"])
        if i % 8 == 5:          # a segment so short that only a grid of many points sees into it
            gt, ngrid = "fixed", r.choice([2, 3, 60, 20])
            n, j = 3, r.randrange(3)
            c["orders"] = [r.randint(max(lo, 1), max(lo, 1, min(hi, 2))) for _ in range(n)]
            thin = {60: 0.03125, 20: 0.0625}.get(ngrid, 0.125)
            wid = [[thin if s == j else (1 - thin) / 2 for s in range(n)] for _ in range(P)]
            pos = sum(wid[0][:j])
            for q in runs:
                q["widths"] = "own" if q is runs[0] else "none"
                q["calls"] = [[[p, pos + thin / 2, x, *rest] for p, _, x, *rest in t] for t in q["calls"]]
        thr = r.choice([1.05, 1.05, 0.5, 2.0])
        if i % 8 in (3, 4):     # every state bends in the same segment, and bends more or less than before
            q = runs[0]
            q["limit"] = 2
            y, big = [(p, round(r.random(), 4)) for p in r.sample(range(P), min(P, r.choice([1, 1, 2])))], r.choice([1, 1, 4])
            rise = [[thr * r.choice([.6, .9, .9, 1.1, 1.3] if x == 0 else [.6, .8, .9, 1.1]) for x in range(c["nx"])] for _ in y]
            q["calls"] = [[[p, at, x, 20 * tol * r.choice([1, -1]), (big if x else 1) * (f[x] if k % 2 else 1)]
                           for (p, at), f in zip(y, rise) for x in range(c["nx"])] for k in range(4)]
            c["orders"] = [max(2, o) for o in c["orders"]]
        unset = [k for k in ("tol", "degrees", "grid", "limit") if r.random() < .15 and i % 8 != 5]
        if i % 8 in (3, 4):
            unset = [k for k in unset if k not in ("limit", "grid")]
            if thr == 1.05:
                unset.append("threshold")
        if i % 8 == 5 and ngrid == 20:
            unset = ["count"]
        if "tol" in unset:      # nothing said: 1e-4 on 20 inner nodes per segment, degrees 3 to 16, one iteration
            f, tol = 1e-4 / tol, 1e-4
            for q in runs:
                q["calls"] = [[[p, y, x, f * a, b] for p, y, x, a, b in t] for t in q["calls"]]
        if "tol" in unset or i % 8 == 6:    # troubles about as large as is tolerated
            near = random.Random(f"{seed}/near/{i}")
            for q in runs:
                q["calls"] = [[[p, y, x, (1 if a > 0 else -1) * tol * near.uniform(.5, 2.5), b] for p, y, x, a, b in t] for t in q["calls"]]
        if "degrees" in unset:
            lo, hi = 3, 16
            if i % 8 in (0, 2, 6):
                c["orders"][0] = r.choice([11, 12, 14, 15])
        if "grid" in unset:
            gt, ngrid = "spectral", 20
        if "limit" in unset:
            for q in runs:
                q["limit"] = 1
        out.append(dict(unset=unset, c=c, style=r.randrange(2), lo=lo, hi=hi, tol=tol, runs=runs, wid=wid, ngrid=ngrid, gt=gt, thr=thr))
    return out


def vector(c, orders, w, troubles, taus):
    """Unknowns: exact lines, with the prescribed deviations in the segments of the troubles."""
    z = []
    S = len(orders)
    for p in range(c["np"]):
        x = []
        t0, tf = 0.25 * p, 0.25 * p + 1 + p
        wp = w[p * S:(p + 1) * S]
        for i in range(c["nx"]):
            slope = c["dyn"][p][i][0][0] * c["scx"][i]
            v, pos = 0.7 * c["scx"][i], 0.0
            row = [v]
            for s in range(S):
                H = wp[s] * (tf - t0)
                lin = cur = 0.0
                for q, y, j, a, b in troubles:
                    if q == p and j == i and pos <= y < pos + wp[s] + 1e-12:
                        lin += a * c["scx"][i]
                        cur += a * b * c["scx"][i]
                for tau in taus(orders[s])[1:]:
                    e = (tau + 1) / 2
                    row.append(v + slope * H * e + lin * e + cur * e * (1 - e))
                v = row[-1]
                pos += wp[s]
            x += row
        N = sum(orders) + 1
        z += x + [0.1] * (c["nu"] * N) + [t0 * c["sct"], tf * c["sct"]] + [0.5] * c["na"]
    return z


def maxima(s, orders, w, z):
    """Largest relative state residual per phase and segment, as a plain optimiser reports them on this mesh."""
    import numpy as np
    from mpopt import mp
    from .recorder import recording
    c = s["c"]
    t = mp.mpopt(og.make_ocp(c, s["style"]), len(orders), list(orders), c["scheme"])
    t._MAX_GRID_POINTS = s["ngrid"]
    t.grid_type = [s["gt"]] * c["np"]
    with recording(lambda *_: z):
        sol = t.solve(mpopt_options={"nlp_sw_params": list(w)})
    _, _, _, r = t.get_states_residuals(sol, residual_type="relative")
    return [[0.0 if q is None or len(q) == 0 else float(np.abs(np.array(q, dtype=float)).max()) for q in r[p]] for p in range(c["np"])]


def execute(s):
    import traceback
    import numpy as np
    import casadi as ca
    from mpopt import mp
    from .recorder import recording
    c = s["c"]
    P = c["np"]
    mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = c["lo"], c["hi"]
    mp.Collocation.D_MATRIX_METHOD = c["method"]
    mp.mpopt._MUTE_ = True
    ocp = og.make_ocp(c, s["style"])
    o0 = list(c["orders"])
    opt = mp.mpopt_ph_adaptive(ocp, len(o0), list(o0), c["scheme"], **{
        k: v for k, v, f in (("grid_type", s["gt"], "grid"), ("max_residual", s["tol"], "tol"), ("poly_order_min", s["lo"], "degrees"),
                             ("poly_order_max", s["hi"], "degrees"), ("n_grid_points", s["ngrid"], "count"), ("non_smooth_threshold", s["thr"], "threshold"))
        if f not in s["unset"] and not (f == "count" and "grid" in s["unset"])})
    limits = min([s["lo"]] + o0), max([s["hi"]] + o0)
    state = {}

    def answer(solver, call):
        q = state["q"]
        o, w = [int(d) for d in opt.poly_orders], list(call["p"])
        k = min(len(state["rec"]), len(q["calls"]) - 1)
        z = vector(c, o, w, q["calls"][k], lambda d: [float(v) for v in np.array(opt.collocation._taus_fn(d))])
        if len(state["rec"]) > 2 * q["limit"] + 2:
            raise RuntimeError("does not terminate")
        state["rec"].append(dict(o=o, p=w, z=z))
        return z
    runs = []
    wnow = [[1.0 / len(o0)] * len(o0)] * P
    with recording(answer):
        for q in s["runs"]:
            state.update(q=q, rec=[])
            o0 = [int(d) for d in opt.poly_orders]
            S = len(o0)
            kw = {}
            w0 = [[1.0 / S] * S] * P
            if q["widths"] == "own":
                w0 = s["wid"]
                kw["mpopt_options"] = {"nlp_sw_params": [v for h in w0 for v in h]}
            if q["start"]:
                kw["initial_solution"] = {"x": ca.DM(vector(c, o0, [v for h in w0 for v in h], [], lambda d: [0.0] * (d + 1)))}
            if q["opts"]:
                kw["nlp_solver_options"] = {"ipopt.max_iter": 7}
            rec = dict(limit=q["limit"], o0=o0, w0=w0)
            try:
                at = {} if "limit" in s["unset"] else dict(max_iter=q["limit"])
                sol = opt.solve_ph(**at, **(dict(solve_dict=kw) if kw else {})) if at == {} else opt.solve_ph(max_iter=q["limit"], solve_dict=kw) if kw or q["opts"] else opt.solve_ph(q["limit"])
                x = np.array(sol["x"], dtype=float).flatten().tolist()
                hit = [j + 1 for j, d in enumerate(state["rec"]) if d["z"] == x]
                rec.update(returned=hit[-1] if hit else 0, o1=[int(d) for d in opt.poly_orders], n1=int(opt.n_segments))
                try:
                    post = opt.process_results(sol, plot=False, scaling=False, residual_x=False, residual_dx=False)
                    rec["times"] = np.array(post.get_data(phases=list(range(P)))[2], dtype=float).flatten().tolist()
                except Exception as e:
                    rec["lost"] = f"{type(e).__name__}: {e}"[:200]
            except Exception as e:
                rec.update(raised=f"{type(e).__name__}: {e}"[:200], _tb=traceback.format_exc()[-1500:])
                runs.append(rec)
                break
            rec["calls"] = state["rec"]
            runs.append(rec)
    for rec in runs:
        for d in rec.get("calls", []):
            S = len(d["o"])
            d["w"] = [d["p"][p * S:(p + 1) * S] for p in range(P)]
            d["r"] = maxima(s, d["o"], d.pop("p"), d["z"])
    return dict(runs=runs, limits=limits, _tb=runs[-1].get("_tb", ""))


def encode(s, rec):
    runs = []
    for q in rec.get("runs", []):
        if "raised" in q:
            runs.append(dict(raised=q["raised"], calls=[], limit=q["limit"]))
            continue
        d = {k: q[k] for k in ("limit", "o0", "o1", "n1", "returned", "lost") if k in q}
        d.update(lo=rec["limits"][0], hi=rec["limits"][1], tol=enc(s["tol"]), thr=enc(1.05 if "threshold" in s["unset"] else s["thr"]), w0=enc(q["w0"]))
        if "times" in q:
            d["times"] = enc(q["times"])
        d["calls"] = [dict(o=e["o"], w=enc(e["w"]), z=enc(e["z"]), r=enc(e["r"])) for e in q["calls"]]
        runs.append(d)
    return dict(c=og.tla_problem(s["c"], False), runs=runs)


def features(s):
    return ["not set: " + k for k in s["unset"]] + [f"{s['c']['np']} phases", f"{len(s['c']['orders'])} segments at first", s["c"]["scheme"], "grid " + s["gt"], f"degrees {s['lo']}-{s['hi']}"] + \
        [f"limit {q['limit']}" for q in s["runs"]]


def sample(s, c):
    return dict(orders=s["c"]["orders"], tol=s["tol"], limits=[s["lo"], s["hi"]],
                runs=[dict(limit=q["limit"], meshes=[d["o"] for d in q["calls"]]) for q in c["runs"]])
