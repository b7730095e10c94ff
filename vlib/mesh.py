"""C19: refinement rules, alone (random inputs) and inside the iteratively refining optimiser."""
import random
from .core import enc
from . import ocpgen as og
from . import nlp

RULE = ("random residual vectors, widths, tolerances, control slopes for each refinement function, and refinements asked of the "
        "optimiser after scripted solves (all methods, 1-4 phases, mixed degrees); non-trivial: residuals not all zero")
ASSUMPTIONS = ["residual values are at least one part in a thousand away from the tolerance", "residuals inside the optimiser are those "
               "reported by a second optimiser on the same mesh (their truth is C17)", "times of steep slopes are distinct"]
METHODS = [("residual", "merge_split"), ("residual", "equal_area"), ("control_slope", ""), ("residual", "equal_area"), ("nothing", "")]


def level(r, tol):
    """A residual size, clearly in or out of tolerance."""
    return tol * (r.choice([0.0, 0.1, 0.5, 0.9, 0.99]) if r.random() < .5 else r.choice([1.01, 1.5, 3, 40, 1e4]))


def static(r):
    fn = r.choice(["merge", "merge", "area", "times", "max", "refine"])
    n = r.choice([1, 2, 3, 4, 5, 7, 11]) if fn in ("merge", "area") else r.choice([2, 3, 4, 5, 7])
    tol = r.choice([1e-3, 1e-2, 0.5])
    wid = og.widths(r, n)
    if fn == "merge":
        return dict(fn=fn, max=[level(r, tol) for _ in range(n)], old=wid, tol=tol, dflt=tol == 1e-3 and r.random() < .5)
    if fn == "area":
        m = r.choice([3, 5, 17, 40, 2 * n + 1])
        res = [r.choice([0.0, 0.0, 1e-6, r.random(), 10 * r.random(), 100.0]) for _ in range(m)]
        if r.random() < .3:
            res = [0.0] * m
            res[r.randrange(m)] = 2.5
        if not any(res):
            res[0] = 1.0
        return dict(fn=fn, res=res, n=n)
    if fn == "times":
        t0 = og.dy(r, -1, 3)
        tf = t0 + r.choice([0.5, 1, 4])
        m = r.choice([1, 2, n - 2, n - 1, n, n + 3, 12])
        q = r.sample(range(1, 255), max(1, m))
        return dict(fn=fn, times=[t0 + (tf - t0) * k / 256 for k in q], n=n, t0=t0, tf=tf)
    if fn == "max":
        m = r.choice([3, 4, 9, 15])
        t = sorted(r.sample(range(0, 400), m))
        nu = r.choice([1, 2, 3])
        return dict(fn=fn, t=[x / 16 for x in t], du=[[r.uniform(0, 1) * r.choice([0, .1, 1, 5]) for _ in range(nu)] for _ in t],
                    threshold=r.choice([0, 0.1, 0.9]), dflt=False)
    k = r.choice([1, 2, 3])
    rs = []
    for _ in range(n):
        m = r.choice([0, 1, 2, 4])
        a = level(r, tol)
        rs.append([[a * r.uniform(-1, 1) if j or i else a for i in range(k)] for j in range(m)])
    if not any(rs):
        rs[0] = [[3 * tol] * k]
    if not any(v for s in rs for p in s for v in p):
        rs[[bool(s) for s in rs].index(True)][0][0] = 3 * tol
    return dict(fn=fn, r=rs, old=wid, tol=tol, method=r.choice(["merge_split", "equal_area"]))


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    nst, nse = dict(quick=(60, 96), thorough=(400, 500))[tier]
    for i in range(nst):
        out.append(dict(kind="static", calls=[static(r) for _ in range(8)]))
    for i in range(nse):
        P = [1, 2, 1, 3][i % 4]
        c = og.problem(r, np_=P, nx=[1, 2, 1][i % 3], nu=[1, 2, 3][i % 3])
        og.mesh(r, c, maxnodes=16, nseg=[2, 3, 4, 5, 1, 7][i % 6] if i % 6 != 4 or i % 4 == 0 else 3)
        if max(c["orders"]) > 7:
            c["orders"] = [min(o, 5) for o in c["orders"]]
        zs = []
        for _ in range(3):
            z, _w = og.trajectory(r, c)
            zs.append(z)
        # some phases within tolerance: tolerances far above or far below what random trajectories give
        tolr = [r.choice([1e-2, 1.0, 3.0, 1e5]) for _ in range(P)]
        if all(t == 1e5 for t in tolr):
            tolr[0] = 1e-2
        out.append(dict(kind="mpopt_h_adaptive", c=c, style=r.randrange(2), zs=zs, tolr=tolr, gt=[r.choice(["fixed", "fixed", "mid-points", "spectral"]) for _ in range(P)],
                        first=r.choice(METHODS), asks=[METHODS[(i + i // 4) % 4], r.choice(METHODS)], start=r.random() < .3, iters=r.choice([1, 2, 3])))
        own = i % 12 == 3 or any(m[0] == "control_slope" for m in out[-1]["asks"]) and r.random() < .6
        S = len(c["orders"])
        out[-1].update(own=own, lbh=[r.choice([1e-5, 1 / 64, 1 / 16, 0.9 / S]) if own else 1e-5 for _ in range(P)],
                       ubh=[r.choice([1.0, 0.6, 1.05 / S if S > 1 else 1.0]) if own else 1.0 for _ in range(P)])
    return out


def run_static(q):
    import numpy as np
    from mpopt import mp
    H = mp.mpopt_h_adaptive
    if q["fn"] == "merge":
        a = (list(q["max"]), list(q["old"]))
        new = H.merge_split_segments_based_on_residuals(*a) if q["dflt"] else H.merge_split_segments_based_on_residuals(*a, ERR_TOL=q["tol"])
    elif q["fn"] == "area":
        new = H.get_roots_wrt_equal_area(np.array(q["res"]), q["n"])
    elif q["fn"] == "times":
        new = H.compute_segment_widths_at_times(np.array(q["times"]), q["n"], q["t0"], q["tf"])
    elif q["fn"] == "max":
        new = H.compute_time_at_max_values(np.array(q["t"])[1:-1], np.array(q["t"]), np.array(q["du"]), threshold=q["threshold"])
    else:
        ocp = mp.OCP(n_states=1, n_controls=1)
        opt = H(ocp, len(q["old"]), 2)
        new = opt.refine_segment_widths_based_on_residuals([np.array(s) if s else None for s in q["r"]], list(q["old"]),
                                                           ERR_TOL=q["tol"], method=q["method"])
    return [float(v) for v in np.array(new, dtype=float).flatten()]


def residuals(s, sol, w, cache):
    """Residuals another optimiser reports for this solution on the fixed mesh w."""
    from .recorder import recording
    from .retrieve import seglist
    import numpy as np
    if "twin" not in cache:
        cache["twin"] = nlp.build({**s, "kind": "mpopt"})[0]
        cache["twin"].grid_type = list(s["gt"])
        cache["answer"] = None
        with recording(lambda *_: cache["answer"]):
            cache["answer"] = [0.0] * len(s["zs"][0])
            cache["twin"].solve(mpopt_options={"nlp_sw_params": list(w)})
    t = cache["twin"]
    cache["answer"] = np.array(sol["x"], dtype=float).flatten().tolist()
    mine = t.solve(mpopt_options={"nlp_sw_params": list(w)})
    _, r = t.get_dynamics_residuals(mine)
    return [seglist(r[p], s["c"]["nx"]) for p in range(s["c"]["np"])]


def opts(m):
    return dict(method=m[0], sub_method=m[1]) if m[1] else dict(method=m[0])


def execute(s):
    import traceback
    import numpy as np
    if s["kind"] == "static":
        out = []
        for q in s["calls"]:
            try:
                out.append(dict(new=run_static(q)))
            except Exception as e:
                out.append(dict(raised=f"{type(e).__name__}: {e}"[:200], _tb=traceback.format_exc()[-1500:]))
        return dict(answers=out)
    from .recorder import recording
    opt, ocp = nlp.build(s)
    opt.tol_residual = list(s["tolr"])
    opt.grid_type = list(s["gt"])
    if s["own"]:
        opt.lbh, opt.ubh = list(s["lbh"]), list(s["ubh"])
    k = [0]

    def answer(solver, call):
        k[0] += 1
        return s["zs"][min(k[0], len(s["zs"])) - 1]
    cache = {}
    out = []
    with recording(answer) as log:
        sol = opt.solve(max_iter=s["iters"], mpopt_options=opts(s["first"]))
        calls = [e[2] for e in log if e[0] == "call"]
    w = calls[-1]["p"]
    for m in s["asks"]:
        try:
            new, err = opt.get_segment_width_parameters(sol, options=opts(m))
            out.append(dict(new=[float(v) for v in np.array(new, dtype=float).flatten()], err=None if err is None else float(err),
                            old=w, z=np.array(sol["x"], dtype=float).flatten().tolist(), r=residuals(s, sol, w, cache), m=list(m)))
        except Exception as e:
            out.append(dict(raised=f"{type(e).__name__}: {e}"[:200], _tb=traceback.format_exc()[-1500:]))
    return dict(answers=out)


def encode(s, rec):
    calls = []
    if s["kind"] == "static":
        for q, a in zip(s["calls"], rec.get("answers", [])):
            calls.append(dict(fn=q["fn"], raised=a["raised"]) if "raised" in a else
                         {**{k: (v if k == "n" else enc(v)) for k, v in q.items() if k != "dflt"}, "new": enc(a["new"])})
        return dict(calls=calls)
    for a in rec.get("answers", []):
        calls.append(dict(fn="widths", raised=a["raised"]) if "raised" in a else
                     dict(fn="widths", method=a["m"][0], sub=a["m"][1] or "equal_area", old=enc(a["old"]), new=enc(a["new"]), z=enc(a["z"]),
                          r=enc(a["r"]), err="none" if a["err"] is None else enc(a["err"])))
    return dict(c=og.tla_problem(s["c"], False, s["lbh"], s["ubh"], s["tolr"]), calls=calls)


def features(s):
    if s["kind"] == "static":
        return sorted({"function " + q["fn"] for q in s["calls"]})
    return nlp.features(s) + ["method " + "/".join(m) for m in s["asks"]]


def sample(s, c):
    return c["calls"][0] if s["kind"] == "static" else dict(orders=s["c"]["orders"], tolerances=s["tolr"], methods=s["asks"])
