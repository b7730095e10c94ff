"""C20: histories of iterative width refinement with scripted solver answers."""
import random
from .core import enc
from . import ocpgen as og
from . import nlp, mesh

RULE = ("histories of 1-2 refinement runs with scripted error sequences (falling, stagnating, oscillating, within tolerance at "
        "some iteration) and residual shapes, all methods, limits 1-10, 1-3 phases; non-trivial: at least two segments in most; settings given or left unset")
ASSUMPTIONS = ["the solver is a stand-in that answers with prescribed trajectories", "residuals are those reported by a second "
               "optimiser on the same mesh (their truth is C17)", "errors are not exactly at the tolerance or the stagnation limit"]
METHODS = [("residual", "equal_area"), ("residual", "merge_split"), ("control_slope", ""), ("default", "")]


def targets(r, tol, n):
    """Largest residuals of the answers, relative to the smallest tolerance."""
    st = r.choice(["fall", "fall", "stay", "stay", "late", "swing", "jump", "creep"])
    if st == "fall":
        q = r.choice([0.2, 0.5, 0.7])
        return [tol * 20 * q ** k for k in range(n)]
    if st == "stay":
        return [tol * 7 * (1 + 0.01 * (k % 3)) for k in range(n)]
    if st == "late":
        return [tol * (30 - 3 * k if k < 3 else 11) * (1 + 0.004 * (k % 2)) for k in range(n)]
    if st == "swing":
        return [tol * 9 * (1.3 if k % 2 else 0.8) for k in range(n)]
    if st == "creep":
        return [tol * 9 * 0.93 ** k for k in range(n)]
    j = r.randrange(n)
    return [tol * (0.7 if k == j else r.uniform(2, 90)) for k in range(n)]


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    for i in range(dict(quick=120, thorough=900)[tier]):
        P = [1, 1, 2, 3][i % 4]
        c = og.problem(r, np_=P, nx=[1, 2, 1][i % 3], nu=[1, 2, 1][i % 3], na=r.choice([0, 0, 1]))
        og.mesh(r, c, maxnodes=14, nseg=[2, 3, 4, 3, 1, 5][i % 6] if i % 6 != 4 or i % 8 == 4 else 2)
        c["orders"] = [min(o, 4) for o in c["orders"]]
        # x' = u (plus nothing): with constant states the residuals are the controls times the length
        c["dyn"] = [[[[r.choice([1.0, -2.0]), [[c["nx"] + 1 + j % c["nu"], 1]]]] for j in range(c["nx"])] for _ in range(P)]
        tol = r.choice([1e-2, 1e-3])
        tolr = [tol * (1 if p == 0 or r.random() < .6 else r.choice([10, 100])) for p in range(P)]
        r.shuffle(tolr)
        runs = []
        long = i % 2 == 0
        if long and len(c["orders"]) < 3:
            c["orders"] = [2, 1, 3]
        for j in range(r.choice([1, 1, 2])):
            runs.append(dict(start=r.choice(["none", "none", "foreign"]) if j == 0 else r.choice(["none", "last", "last", "foreign"]),
                             m=r.choice(METHODS) if not long else METHODS[0], limit=r.choice([6, 7, 8, 10, 12] if long else [1, 2, 3, 5, 6, 8, 10]),
                             targets=targets(r, tol, 12),
                             start_target=tol * r.choice([0.5, 3, 40]),
                             shape=[r.choice(["rand", "rand", "flat", "peak", "same"] if not long else ["rand", "peak"]) for _ in range(12)]))
        gt = [r.choice(["fixed", "fixed", "mid-points", "spectral"]) for _ in range(P)]
        unset = [k for k in ("tolr", "gt", "limit") if r.random() < .2]
        if "tolr" in unset:      # nothing said: one percent, at equally spread points, at most ten solves
            f = 1e-2 / tol
            tol, tolr = 1e-2, [1e-2] * P
            for q in runs:
                q.update(targets=[f * t for t in q["targets"]], start_target=f * q["start_target"])
        if "gt" in unset:
            gt = ["fixed"] * P
        if "limit" in unset:
            for q in runs:
                q["limit"] = 10
        out.append(dict(unset=unset, kind="mpopt_h_adaptive", c=c, style=r.randrange(2), tolr=tolr, tol=tol, seed=r.randrange(10**9),
                        gt=gt, runs=runs, zs=[[0.0] * (og.phase_len(c, False) * P)]))
    return out


class Script:
    """Answers with constant states and controls whose largest residual is the wanted one."""

    def __init__(self, s, cache):
        self.s, self.cache, self.r, self.last = s, cache, random.Random(s["seed"]), None

    def answer(self, w, shape, target):
        import numpy as np
        s, c = self.s, self.s["c"]
        N, S, P, r = og.nnodes(c), len(c["orders"]), c["np"], self.r
        if shape == "same" and self.last is not None:
            pat, t = self.last
        else:
            pat = []
            for p in range(P):
                rows = []
                for j in range(c["nu"]):
                    v, big = [], r.randrange(S)
                    for k in range(S):
                        m = c["orders"][k] + (k == 0)
                        if shape == "flat":
                            v += [1.0 / w[p * S + k]] * m
                        elif shape == "peak":
                            v += [r.uniform(.5, 1) if k == big else r.uniform(0, .01) for _ in range(m)]
                        else:
                            v += [r.uniform(-1, 1) for _ in range(m)]
                    rows.append(v)
                pat.append(rows)
            t = [(og.dy(r, 0, 1), og.dy(r, 1.5, 4)) for _ in range(P)]
        self.last = (pat, t)
        if not hasattr(self, "pscale"):
            self.pscale = [1.0] + [self.r.choice([1.0, 0.2, 0.001]) for _ in range(P - 1)]
            self.r.shuffle(self.pscale)

        def z(a):
            out = []
            for p in range(P):
                for i in range(c["nx"]):
                    out += [0.5 * (i + 1)] * N
                for j in range(c["nu"]):
                    out += [a * self.pscale[p] * v for v in pat[p][j]]
                out += [t[p][0] * c["sct"], t[p][1] * c["sct"]] + [0.25] * c["na"]
            return out
        res = mesh.residuals(s, dict(x=np.array(z(1.0))), w, self.cache)
        e1 = max(abs(v) for rp in res for rs in rp for row in rs for v in row)
        return z(target / e1)


def execute(s):
    import traceback
    import numpy as np
    from .recorder import recording
    c = s["c"]
    opt, ocp = nlp.build(s)
    if "tolr" not in s["unset"]:
        opt.tol_residual = list(s["tolr"])
    if "gt" not in s["unset"]:
        opt.grid_type = list(s["gt"])
    cache = {}
    sc = Script(s, cache)
    state = {}

    def answer(solver, call):
        q, k = state["q"], state["k"]
        state["k"] += 1
        return sc.answer(call["p"], q["shape"][k % 12], q["targets"][k % 12])
    S, P = len(c["orders"]), c["np"]
    runs, sol, w = [], None, [1.0 / S] * (S * P)
    with recording(answer) as log:
        for q in s["runs"]:
            rec = dict(m=list(q["m"]), limit=q["limit"])
            start = None
            if q["start"] == "last":
                start = sol
            elif q["start"] == "foreign":
                z = sc.answer(w, "rand", q["start_target"])
                import casadi as ca
                start = {"x": ca.DM(z)}
            rec["start"] = "none" if start is None else "given"
            if start is not None:
                rec["z0"] = np.array(start["x"], dtype=float).flatten().tolist()
                rec["r0"] = mesh.residuals(s, start, w, cache)
            state.update(q=q, k=0)
            log.clear()
            kw = {} if "limit" in s["unset"] else dict(max_iter=q["limit"])
            if q["m"][0] != "default":
                kw["mpopt_options"] = mesh.opts(q["m"])
            if start is not None:
                kw["initial_solution"] = start
            try:
                sol = opt.solve(**kw)
                calls = [e for e in log if e[0] == "call"]
                rec["calls"] = [dict(p=e[2]["p"], x0=e[2]["x0"], lx=e[2].get("lam_x0", []), lg=e[2].get("lam_g0", [])) for e in calls]
                answers = e_answers(log)
                for a, d in zip(answers, rec["calls"]):
                    d.update(a)
                    d["r"] = mesh.residuals(s, dict(x=np.array(d["z"])), d["p"], cache)
                x = np.array(sol["x"], dtype=float).flatten().tolist()
                hit = [k + 1 for k, d in enumerate(rec["calls"]) if d["z"] == x]
                rec["returned"] = hit[-1] if hit else 0 if start is not None and x == rec["z0"] else -1
                if rec["calls"]:
                    w = rec["calls"][-1]["p"]
                post = opt.process_results(sol, plot=False, scaling=False, residual_x=False, residual_dx=False)
                rec["times"] = np.array(post.get_data(phases=list(range(P)))[2], dtype=float).flatten().tolist()
                o = mesh.opts(q["m"] if q["m"][0] != "default" else METHODS[0])
                rec["after"] = [float(v) for v in np.array(opt.get_segment_width_parameters(sol, options=o)[0]).flatten()]
            except Exception as e:
                rec = dict(m=rec["m"], limit=q["limit"], start="none", raised=f"{type(e).__name__}: {e}"[:200], _tb=traceback.format_exc()[-1500:], calls=[])
                runs.append(rec)
                break
            runs.append(rec)
    return dict(runs=runs, _tb=runs[-1].get("_tb", ""))


def e_answers(log):
    """The answers the stand-in gave, in order."""
    return [e[2] for e in log if e[0] == "answer"]


def encode(s, rec):
    runs = []
    for q in rec.get("runs", []):
        m = q["m"] if q["m"][0] != "default" else METHODS[0]
        d = {k: enc(v) for k, v in q.items() if k not in ("m", "limit", "start", "returned", "_tb")}
        d.update(method=m[0], sub=m[1] or "equal_area", limit=q["limit"], start=q["start"])
        if "returned" in q:
            d["returned"] = q["returned"]
        if "raised" in q:
            d["raised"] = q["raised"]
        runs.append(d)
    return dict(c=og.tla_problem(s["c"], False, [1e-5] * s["c"]["np"], None, s["tolr"]), runs=runs)


def features(s):
    return nlp.features(s) + ["not set: " + k for k in s["unset"]] + ["method " + "/".join(q["m"]) for q in s["runs"]] + ["start " + q["start"] for q in s["runs"]]


def sample(s, c):
    return dict(orders=s["c"]["orders"], tolerances=s["tolr"], runs=[dict(method=q["m"], limit=q["limit"], targets=q["targets"][:q["limit"]], start=q["start"]) for q in s["runs"]],
                calls=[len(q["calls"]) for q in c["runs"]])
