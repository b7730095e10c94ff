"""C14-C18, C26, C28: question-and-answer sessions with solved problems (the solver is a stand-in that returns
a prescribed vector, so that any trajectory can be asked about)."""
import random
from .core import enc
from . import ocpgen as og
from . import nlp

RULE = ("random problems, meshes, widths, solution vectors and sequences of questions (node data, interpolation, grids, "
        "residuals, curvature) to one optimiser; non-trivial: every session asks at least one question of the property")
ASSUMPTIONS = ["user functions are polynomials", "residual points are at most 6 per segment where states are integrated on "
               "given points (built-in grids as they are)", "widths are dyadic"]
PRIMARY = dict(C14="orig", C15="interp", C16="grid", C17="dynres", C18="xres", C26="times", C28="curv")


def grid_points(r, c, empties=True, mx=4):
    """Increasing positions per segment of one phase, some segments without any."""
    lo, L = c["lo"], c["hi"] - c["lo"]
    out, base = [], None
    alike = r.random() < .4
    for _ in c["orders"]:
        if alike and base and r.random() < .6:  # as another segment but for one point
            q = list(base)
            q[r.randrange(len(q))] = r.choice([x for x in range(1, 128) if x not in q])
            out.append(sorted(q))
            continue
        n = 0 if empties and r.random() < .25 else r.randint(1, mx)
        q = sorted(r.sample(range(1, 128), n))
        if n and r.random() < .2:
            q[-1] = 128
        if n and r.random() < .1:
            q[0] = 0
        base = q or base
        out.append(q)
    if not any(out):
        out[0] = [32]
    return [[lo + L * k / 128 for k in q] for q in out]


def question(r, op, c):
    P = c["np"]
    S = len(c["orders"])
    if op == "times":
        op = r.choice(["orig", "interp", "dynres", "xres", "curv"])
    ph = [r.randint(1, P) for _ in range(r.choice([1, 1, 2, P]))] if r.random() < .4 else r.sample(range(1, P + 1), r.randint(1, P))
    if op == "orig":
        q = dict(op=op, phases=ph, scaled=r.random() < .3, via=r.choice(["data", "orig", "traj", "default"]))
        if q["via"] == "traj":
            q["phases"] = ph[:1]
        if q["via"] == "default":
            q["phases"] = list(range(1, P + 1))
        return q
    if op == "interp":
        d = r.random() < .4
        q = dict(op=op, phases=ph, scaled=r.random() < .3, default=d, taus=[] if d else grid_points(r, c))
        if r.random() < .2:  # asked of the optimiser itself, which answers in scaled units
            return dict(op=op, phases=ph[:1], scaled=True, default=False, taus=grid_points(r, c), via="opt",
                        src=r.choice(["given", "type", "own"]), type=r.choice(["fixed", "mid-points", "spectral"]))
        if d and r.random() < .3:
            q["phases"] = list(range(1, P + 1))
            q["nophases"] = True
        return q
    if op == "grid":
        if r.random() < .5:
            return dict(op="grid", phase=r.randint(1, P), type=r.choice(["fixed", "mid-points", "spectral"]),
                        own=r.random() < .4)
        k = r.randint(1, 6)
        wid = og.widths(r, k)
        lo, hi = r.choice(og.INTERVALS)
        cum = [sum(wid[:j]) for j in range(k + 1)]
        ys = sorted({r.randint(0, 256) / 256 for _ in range(r.randint(1, 12))} | {y for y in cum if r.random() < .5})
        return dict(op="dist", lo=lo, hi=hi, wid=wid, ys=ys, dflt=(lo, hi) == (0, 1))
    if op in ("dynres", "xres", "curv"):
        src = r.choice(["given", "given", "type", "own"])
        q = dict(op=op, src=src, relative=r.random() < .35,
                 type=r.choice(["fixed", "mid-points", "spectral"]), phases=list(range(1, P + 1)),
                 nodes=[grid_points(r, c, mx=6) for _ in range(P)] if src == "given" else [])
        if op == "xres" and src == "type":
            q["src"] = "own"
        if op == "xres" and r.random() < .4:
            q["phases"] = sorted(r.sample(range(1, P + 1), r.randint(1, P)))
        if op == "curv" and q["relative"] or not q["relative"] and r.random() < .25:
            q["single"] = True
            q["phases"] = [r.randint(1, P)]
        elif op == "curv" and src == "own":
            q["src"] = "type"
        return q


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    n = dict(quick=64, thorough=500)[tier]
    out = []
    for i in range(n):
        kind = ["mpopt", "mpopt" if i % 2 else "mpopt_ph_adaptive", "mpopt_adaptive"][i % 3]
        kw = {}
        if i % 4 == 1:
            kw["np_"] = [2, 3][i % 8 == 1]
        c = og.problem(r, nx=[1, 2, 3, 2][i % 4] if prop in ("C17", "C18") else None, **kw)
        og.mesh(r, c, maxnodes=14, nseg=[1, 2, 3, 4, 2, None][i % 6], maxdeg=None if i % 7 else 2)
        if i % (4 if prop == "C16" else 9) == 3:     # more nodes than the fixed grid has at least
            k = r.choice([4, 5, 7, 9])
            c["orders"] = [r.randint(1, 6 if k < 6 else 4) for _ in range(k)]
            c["orders"][r.randrange(k)] += max(0, 17 - sum(c["orders"]))
            if max(c["orders"]) > 7:
                c["orders"] = [4] * k
        if kind == "mpopt_ph_adaptive":   # its grids have 20 points per segment: too many for monomial coefficients
            c["method"] = "symbolic"
        if prop == "C14" and i % 2:
            c["na"] = 0 or c["na"]
        P, S = c["np"], len(c["orders"])
        gt = [r.choice(["fixed", "mid-points", "spectral"]) for _ in range(P)]
        n_q = 3
        calls = [question(r, PRIMARY[prop], c) for _ in range(n_q)]
        others = [o for o in ("orig", "interp", "grid", "dynres", "xres", "curv")]
        calls.insert(r.randint(0, len(calls)), question(r, r.choice(others), c))
        if max(c["orders"]) > 7:
            calls = [q for q in calls if q["op"] != "curv" or prop == "C28"]
        wid = [og.widths(r, S) for _ in range(P)]
        amp = 2.0
        z, w = og.trajectory(r, c, kind == "mpopt_adaptive", amp, wid)
        if r.random() < .15:  # a state and its dynamics that vanish
            N = og.nnodes(c)
            p, i0 = r.randrange(P), r.randrange(c["nx"])
            o = p * og.phase_len(c, kind == "mpopt_adaptive") + i0 * N
            z[o:o + N] = [0.0] * N
            c["dyn"][p][i0] = []
        first = r.sample(range(1, P + 1), r.randint(1, P)) if r.random() < .4 else []   # the user's own group of phases to plot
        for q in calls:
            if first and (q.get("via") == "default" or q.get("nophases")):
                q["phases"] = list(first)
        out.append(dict(plotted=[[p - 1 for p in first], [0]] if first else None, kind=kind, c=c, style=r.randrange(2), z=z, w=w, wid=wid, calls=calls, gt=gt, expose=False, seed=0,
                        lbh=[1e-4] * P, ubh=[1.0] * P, tolr=[1e-3] * P, midres=False, wlist=r.random() < .5))
    return out


def rows(m, n):
    """A retrieved array as rows of n numbers."""
    import numpy as np
    m = m.full() if hasattr(m, "full") else np.array(m, dtype=float)
    return m.reshape(-1, n).tolist() if n else [[] for _ in m]


def seglist(v, n):
    import numpy as np
    out = []
    for s in v:
        if s is None or len(s) == 0:
            out.append([])
        elif n is None:
            out.append([float(x) for x in np.array(s, dtype=float).flatten()])
        else:
            out.append(np.array([np.array(x, dtype=float).flatten() for x in s]).reshape(-1, n).tolist())
    return out


def ask(opt, sol, q, c, gt, posts):
    import numpy as np
    from mpopt import mp
    arr = lambda t: [np.array(x, dtype=float) for x in t]
    op = q["op"]
    first = lambda p: [p] if p or len(gt) == 2 else []      # the first phase is meant where none is named
    nx, nu = c["nx"], c["nu"]
    if q.get("via") == "opt":
        p = q["phases"][0] - 1
        kw = dict(given=dict(target_nodes=arr(q["taus"])), type=dict(grid_type=q["type"]), own={})[q["src"]]
        if q["src"] != "given":
            g = opt.get_residual_grid_taus(p, grid_type=q["type"] if q["src"] == "type" else gt[p])
            q["taus"] = [np.array(s, dtype=float).flatten().tolist() for s in g]
        x, u, t, a = opt.interpolate_single_phase(sol, *first(p), **kw)[:4]
        return dict(taus=q["taus"], x=rows(x, nx), u=rows(u, nu), t=np.array(t, dtype=float).flatten().tolist(),
                    a=np.array(a, dtype=float).flatten(order="F").tolist())
    if op in ("orig", "interp"):
        key = q["scaled"]
        if key not in posts:
            posts[key] = opt.process_results(sol, plot=False, scaling=key, residual_x=False, residual_dx=False)
        post = posts[key]
        ph = [p - 1 for p in q["phases"]]
        if op == "orig":
            x, u, t, a = dict(data=lambda: post.get_data(phases=ph) if len(ph) == 1 else post.get_data(phases=ph, interpolate=False), orig=lambda: post.get_original_data(ph),
                              traj=lambda: post.get_trajectories(*first(ph[0])), default=lambda: post.get_data() if len(gt) % 2 else post.get_original_data())[q["via"]]()
        elif q["default"]:
            x, u, t, a = post.get_data(interpolate=True) if q.get("nophases") else post.get_data(phases=ph, interpolate=True)
        else:
            x, u, t, a = post.get_interpolated_data(ph, arr(q["taus"]))
        return dict(x=rows(x, nx), u=rows(u, nu), t=np.array(t, dtype=float).flatten().tolist(),
                    a=np.array(a, dtype=float).flatten(order="F").tolist())
    if op == "grid":
        if q["own"]:
            opt.grid_type[q["phase"] - 1] = q["type"]
            g = opt.get_residual_grid_taus(q["phase"] - 1)
            opt.grid_type[q["phase"] - 1] = gt[q["phase"] - 1]
        else:
            g = opt.get_residual_grid_taus(q["phase"] - 1, grid_type=q["type"])
        return [np.array(s, dtype=float).flatten().tolist() for s in g]
    if op == "dist":
        L = q["hi"] - q["lo"]
        nodes = np.array([q["lo"] + L * y for y in q["ys"]])
        f = opt.compute_interpolation_taus_corresponding_to_original_grid
        g = f(nodes, q["wid"]) if q["dflt"] else f(nodes, q["wid"], tau0=q["lo"], tau1=q["hi"])
        return [np.array(s, dtype=float).flatten().tolist() for s in g]
    P = c["np"]
    given = q["src"] == "given"
    nodes = [arr(n) for n in q["nodes"]] if given else None
    typ = (lambda p: q["type"]) if q["src"] == "type" else (lambda p: gt[p])
    per = [q["nodes"][p - 1] if given else
           [np.array(s, dtype=float).flatten().tolist() for s in opt.get_residual_grid_taus(p - 1, grid_type=typ(p - 1))]
           for p in q["phases"]]
    kw = {}
    if q["relative"] and op != "curv":
        kw["residual_type"] = "relative"
    if q["src"] == "type":
        kw["grid_type"] = q["type"]
    ph = [p - 1 for p in q["phases"]]
    if op == "dynres":
        if q.get("single"):
            p = ph[0]
            t, r, f = opt.get_dynamics_residuals_single_phase(sol, *first(p), target_nodes=nodes[p] if given else arr(per[0]))
            t, r = {p: t}, {p: r}
        else:
            t, r = opt.get_dynamics_residuals(sol, nodes=nodes, **kw)
        return dict(per=per, t=[seglist(t[p], None) for p in ph], r=[seglist(r[p], nx) for p in ph])
    if op == "xres":
        if q.get("single"):
            p = ph[0]
            x, u, t, r = [{p: v} for v in opt.compute_states_from_solution_dynamics(sol, *first(p), nodes=nodes[p] if given else None)]
        else:
            if len(ph) < P:
                kw["phases"] = ph
            x, u, t, r = opt.get_states_residuals(sol, nodes=nodes, **kw)
        return dict(per=per, t=[seglist(t[p], None) for p in ph], r=[seglist(r[p], nx) for p in ph], x=[seglist(x[p], nx) for p in ph])
    if op == "curv":
        if q.get("single"):
            p = ph[0]
            at = dict(given=dict(nodes=nodes and nodes[p]), type=dict(grid_type=q["type"]), own={})[q["src"]]
            t, x, u = [{p: v} for v in opt.get_state_second_derivative_single_phase(sol, *first(p), **at, **(dict(residual_type="relative") if q["relative"] else {}))]
        else:
            t, x, u = opt.get_state_second_derivative(sol, nodes=nodes, **kw)
        return dict(per=per, t=[seglist(t[p], None) for p in ph], x=[seglist(x[p], nx) for p in ph], u=[seglist(u[p], nu) for p in ph])


def solved(s, opt):
    """The optimiser after a solve whose solver returned the prescribed vector."""
    from .recorder import recording
    with recording(lambda *_: s["z"]):
        if s["kind"] in ("mpopt", "mpopt_ph_adaptive"):
            import numpy as np
            w = list(s["w"]) if s["wlist"] else np.array(s["w"])
            return opt.solve(mpopt_options={"nlp_sw_params": w})
        return opt.solve()


def execute(s):
    import traceback
    opt, ocp = nlp.build(s)
    opt.grid_type = list(s["gt"])
    sol = solved(s, opt)
    out, posts = [], {}
    for q in s["calls"]:
        try:
            out.append(dict(res=ask(opt, sol, q, s["c"], s["gt"], posts)))
        except Exception as e:
            out.append(dict(raised=f"{type(e).__name__}: {e}"[:200], _tb=traceback.format_exc()[-1500:]))
    return dict(answers=out)


def encode(s, rec):
    calls = []
    for q, a in zip(s["calls"], rec.get("answers", [])):
        if "raised" in a:
            calls.append(dict(op=q["op"], raised=a["raised"]))
            continue
        d = {k: q[k] for k in ("op", "phases", "scaled", "default", "phase", "type", "relative") if k in q}
        for k in ("taus", "wid", "ys", "lo", "hi"):
            if k in q:
                d[k] = enc(q[k])
        res = dict(a["res"]) if isinstance(a["res"], dict) else a["res"]
        if isinstance(res, dict) and "per" in res:
            d["per"] = enc(res.pop("per"))
        if isinstance(res, dict) and "taus" in res:
            d["taus"] = enc(res.pop("taus"))
        d["res"] = enc(res)
        calls.append(d)
    ad = s["kind"] == "mpopt_adaptive"
    return dict(c=og.tla_problem(s["c"], ad, s["lbh"], s["ubh"], s["tolr"], s["midres"]), z=enc(s["z"]),
                w=enc(s["w"]), calls=calls, least=20 if s["kind"] == "mpopt_ph_adaptive" else 15)


def features(s):
    return nlp.features(s) + sorted({"asks " + q["op"] for q in s["calls"]})


def sample(s, c):
    return dict(kind=s["kind"], orders=s["c"]["orders"], scheme=s["c"]["scheme"], widths=s["wid"],
                questions=[{k: v for k, v in q.items() if k not in ("nodes", "taus")} for q in s["calls"]])
