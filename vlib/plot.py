"""C27: sessions of drawing requests; the lines of the figures against the retrieved data."""
import random
from .core import enc
from . import ocpgen as og
from . import nlp, retrieve as rt
from .life import freeze

RULE = ("random problems, meshes, solution vectors and sequences of 4-7 drawing requests (whole phases, components of states or controls, "
        "one's own arrays, residuals, drawing while processing results), onto new or existing figures, for any list of phases and any "
        "grouping of components; non-trivial: every request draws at least one curve")
ASSUMPTIONS = ["the solver is a stand-in that returns a prescribed vector", "what is drawn is read from the lines of the matplotlib axes",
               "retrieved data are those of C14, C15, residuals those of C17, C18"]


def groups(r, n):
    """Components per panel, counted from 1; none at all means all in one panel."""
    q = r.random()
    if q < .3:
        return [], False
    idx = r.sample(range(1, n + 1), r.randint(1, n))
    if q < .6:
        return [idx], False
    k = r.randint(1, len(idx))
    cut = sorted(r.sample(range(1, len(idx)), k - 1))
    return [idx[a:b] for a, b in zip([0] + cut, cut + [len(idx)])], True


def phase_list(r, P, none=.3):
    if r.random() < none:
        return []
    return [r.randint(1, P) for _ in range(r.randint(1, 3))] if r.random() < .3 else r.sample(range(1, P + 1), r.randint(1, P))


def request(r, s, figs):
    c = s["c"]
    P, nx, nu = c["np"], c["nx"], c["nu"]
    e = r.choice(["phases", "phases", "phase", "all", "x", "x", "u", "u", "single", "curve", "norms", "process", "process", "report", "report"])
    op = dict(e=e, on=0, phases=phase_list(r, P), fine=r.random() < .6, res=False, name="", named=True, groups=[], nested=False,
              var=r.choice("xu"), yl="", axis=r.choice([0, 1]), tics=r.random() < .3)
    n = 0
    if e == "report":        # residuals and curvatures drawn by the optimiser itself
        n = 1
        op.update(var=r.choice("xxdc"), rel=r.random() < .4, gt=r.choice(["", "fixed", "fixed", "mid-points", "spectral"]), alone=r.random() < .4)
        if op["var"] != "x":
            op["phases"] = []
    elif e in ("phases", "phase", "all"):
        n = 2
        if e == "phases":
            op.update(res=r.random() < .5, name=r.choice(["", "", "my "]))
        if e == "phase":
            op.update(phases=[r.randint(1, P)], res=True)
        if e == "all":
            op.update(named=r.random() < .8, phases=op["phases"] or [1])
    elif e in ("x", "u", "single"):
        var = e if e != "single" else op["var"]
        op["groups"], op["nested"] = groups(r, nx if var == "x" else nu)
        if e == "single" and not op["groups"]:
            op["groups"] = [list(range(1, (nx if var == "x" else nu) + 1))]
        n = len(op["groups"]) or 1
        if e == "single":
            op.update(name=r.choice(["", "thing"]), yl=r.choice(["", "what"]), phases=op["phases"] or [1])
        if e == "u":
            op.update(name=r.choice(["control", "control", "thrust"]), yl=r.choice(["Control variables", "N"]))
    elif e == "curve":
        n = 1
        op.update(name=r.choice(["", "q"]), yl=r.choice(["", "v"]), phases=op["phases"] or [1])
    elif e == "norms":
        n = 1
        op.update(var=r.choice("xu"), name=r.choice(["", "d"]), phases=op["phases"] or [1])
    else:
        rx, rdx = r.random() < .4, r.random() < .4
        op.update(rx=rx, rdx=rdx, res=rx or rdx, scaled=r.random() < .4)
        if s["kind"] == "mpopt" and r.random() < .6:     # in one go: solved and drawn
            op.update(direct=True, scaled=False)
            if set(s["gt"]) != {"fixed"}:
                op.update(rx=False, rdx=False, res=False)
        figs += [0] * len(s["groups"])
        return op
    # onto an existing figure with as many panels
    if e != "process" and r.random() < .35:
        old = [i + 1 for i, k in enumerate(figs) if k == n]
        if old:
            op["on"] = r.choice(old)
    shows = e in ("phases", "phase") and op["res"] and (s["rx"] or s["rdx"])
    if op.get("alone"):
        op["on"] = 0
    if not op["on"] or shows:
        figs.append(0 if shows or op.get("alone") else n)
    return op


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    for i in range(dict(quick=96, thorough=700)[tier]):
        kind = ["mpopt", "mpopt" if i % 8 < 4 else "mpopt_ph_adaptive", "mpopt_adaptive", "mpopt_h_adaptive"][i % 4]
        c = og.problem(r, np_=[1, 2, 3, 2][i // 4 % 4], nx=[1, 2, 3][i % 3], nu=[1, 2, 3, 2][i % 4])
        og.mesh(r, c, maxnodes=9, nseg=[1, 2, 3][i % 3], maxdeg=4)
        P, S = c["np"], len(c["orders"])
        wid = [og.widths(r, S) if kind != "mpopt_h_adaptive" else [1 / S] * S for _ in range(P)]
        if S > 1 and kind != "mpopt_h_adaptive" and r.random() < .4:      # a segment between the points of a grid
            j = r.randrange(S)
            wid = [[1 / 64 if k == j else (1 - 1 / 64) / (S - 1) for k in range(S)] for _ in range(P)]
        z, w = og.trajectory(r, c, kind == "mpopt_adaptive", 2.0, wid)
        q = r.random()
        grp = [list(range(1, P + 1))] if q < .4 else [[p] for p in range(1, P + 1)] if q < .7 else [phase_list(r, P, 0) for _ in range(r.randint(1, 2))]
        s = dict(kind=kind, c=c, style=r.randrange(2), z=z, w=w, wid=wid, expose=False, seed=0, lbh=[1e-4] * P, ubh=[1.0] * P, tolr=[1e-3] * P,
                 midres=False, wlist=True, groups=grp, ownphases=q >= .4, tuples=r.random() < .5, gt=[r.choice(["fixed", "mid-points", "spectral"]) for _ in range(P)] if r.random() < .6 else ["fixed"] * P,
                 scaled=r.random() < .3, rx=r.random() < .35, rdx=r.random() < .5, npts=r.choice([2, 3, 4]))
        if kind == "mpopt_h_adaptive":   # residuals drawn while refining
            s["evolve"] = dict(limit=r.choice([1, 2, 3]), start=r.random() < .3, m=r.choice([["residual", "equal_area"], ["residual", "merge_split"], ["control_slope", ""]]),
                               zs=[og.trajectory(r, c, False, 2.0, wid)[0] for _ in range(4)])
        figs = []
        s["ops"] = [request(r, s, figs) for _ in range(r.randint(4, 7))]
        out.append(s)
    return out


def columns(m, n):
    return [list(col) for col in zip(*rt.rows(m, n))]


def residual_lists(t, res, P, nx):
    """[phase][segment]: times and rows."""
    out = []
    for p in range(P):
        out.append([dict(t=a, r=b) for a, b in zip(rt.seglist(t[p], None), rt.seglist(res[p], nx))])
    return out


def data_of(post, c):
    import numpy as np
    out = []
    for p in range(c["np"]):
        d = {}
        for kind, fine in (("node", False), ("fine", True)):
            x, u, t, a = post.get_data(phases=[p], interpolate=fine)
            d[kind] = dict(t=np.array(t, dtype=float).flatten().tolist(), x=columns(x, c["nx"]), u=columns(u, c["nu"]))
        out.append(d)
    return out


def evolve(s, opt):
    """Iterative refinement that draws the residuals of every answer it refines from."""
    import casadi as ca, numpy as np
    from mpopt import mp
    from .recorder import recording
    e, c = s["evolve"], s["c"]
    answers = []

    def answer(solver, call):
        answers.append(dict(z=e["zs"][len(answers) + 1], w=list(call["p"])))
        return answers[-1]["z"]
    opt.plot_residual_evolution = True
    kw = {}
    S = len(c["orders"])
    if e["start"]:
        kw["initial_solution"] = {"x": ca.DM(e["zs"][0])}
    with recording(answer):
        opt.solve(max_iter=e["limit"], mpopt_options={"method": e["m"][0], **({"sub_method": e["m"][1]} if e["m"][1] else {})}, **kw)
    opt.plot_residual_evolution = False
    if e["start"]:
        answers.insert(0, dict(z=e["zs"][0], w=[1 / S] * (S * c["np"]), first=True))
    reps, names, n = [], [], 0
    for a in answers:
        ref = mp.mpopt(og.make_ocp(c, s["style"]), S, list(c["orders"]), c["scheme"])
        ref.grid_type = list(s["gt"])
        if hasattr(opt, "_MAX_GRID_POINTS"):
            ref._MAX_GRID_POINTS = opt._MAX_GRID_POINTS
        with recording(lambda *_: a["z"]):
            sol = ref.solve(mpopt_options={"nlp_sw_params": list(a["w"])})
        t, q = ref.get_dynamics_residuals(sol)
        reps.append(residual_lists(t, q, c["np"], c["nx"]))
        names.append(f"Iter {n}")
        n += not a.get("first")
    curves = [dict(x=np.array(l.get_xdata(), dtype=float).flatten().tolist(), y=np.array(l.get_ydata(), dtype=float).flatten().tolist(),
                   label="" if str(l.get_label()).startswith("_") else str(l.get_label()).strip()) for ax in opt.fig.axes for l in ax.lines]
    import matplotlib.pyplot as plt
    plt.close("all")
    return dict(reps=reps, names=names, curves=curves)


def execute(s):
    import numpy as np, matplotlib.pyplot as plt
    from mpopt import mp
    c = s["c"]
    P, nx, nu = c["np"], c["nx"], c["nu"]
    plt.close("all")
    plt.rcParams["figure.max_open_warning"] = 0
    evolution = None
    seq = tuple if s["tuples"] else list
    plotted = [seq(p - 1 for p in g) for g in s["groups"]] if s["ownphases"] else None
    opt, ocp = nlp.build({**s, "plotted": plotted})
    opt.grid_type = list(s["gt"])
    if hasattr(mp.post_process, "_INTERPOLATION_NODES_PER_SEG"):
        mp.post_process._INTERPOLATION_NODES_PER_SEG = s["npts"]
    if s["kind"] == "mpopt_h_adaptive":
        from .recorder import recording
        if len(c["orders"]) > 1:
            evolution = evolve(s, opt)
        with recording(lambda *_: s["z"]):
            sol = opt.solve(max_iter=1, reinitialize_nlp=True)
    else:
        sol = rt.solved(s, opt)
    plain = lambda scaled: opt.process_results(sol, plot=False, scaling=scaled, residual_x=False, residual_dx=False)
    post = opt.process_results(sol, plot=False, scaling=s["scaled"], residual_x=s["rx"], residual_dx=s["rdx"])
    ref = {k: data_of(plain(k), c) for k in (False, True)}
    _, _, tx, rx = opt.get_states_residuals(sol)
    td, rd = opt.get_dynamics_residuals(sol)
    resx, resdx = residual_lists(tx, rx, P, nx), residual_lists(td, rd, P, nx)
    session = lambda scaled, a, b: dict(data=ref[scaled], nx=nx, nu=nu, groups=s["groups"], rx=a, rdx=b, resx=resx, resdx=resdx)
    handles, events = [], []   # figures in order of creation, with the axes that were returned

    def pos(ax):
        ss = ax.get_subplotspec()
        g = ss.get_gridspec()
        return [int(g.nrows), int(g.ncols), int(ss.num1) + 1]

    def text(x):
        return "" if x is None or str(x).startswith("_") else str(x).strip()

    def panels(fig):
        out = []
        for ax in fig.axes:
            lg = ax.get_legend()
            out.append(dict(pos=pos(ax), yl=text(ax.get_ylabel()), xl=text(ax.get_xlabel()),
                            legend=[text(t.get_text()) for t in lg.get_texts()] if lg else [],
                            curves=[dict(x=np.array(l.get_xdata(), dtype=float).flatten().tolist(), y=np.array(l.get_ydata(), dtype=float).flatten().tolist(),
                                         label=text(l.get_label())) for l in ax.lines]))
        return out

    def draw(o, kw):
        ph = [p - 1 for p in o["phases"]]
        g = [[i - 1 for i in q] for q in o["groups"]]
        dims = None if not g else g if o["nested"] else g[0]
        tics = dict(tics=["--", "o", ":", "x", "-.", "+"] * 3) if o["tics"] else {}
        usual = dict(phases=[0] if o["e"] == "norms" else None, interpolate=True, residuals=True, dims=None, axis=1, legend=True) | (
            dict(name="control", ylabel="Control variables") if o["e"] == "u" else dict(name=None, ylabel=None))

        def some(**given):       # what is meant anyway is said in half of the requests only
            return {k: v for k, v in given.items() if (len(ph) + o["fine"] + len(s["z"])) % 2 or k not in usual or v != usual[k]}
        if o["e"] == "phases":
            return post.plot_phases(**(some(phases=ph or None) | some(interpolate=o["fine"], residuals=o["res"]) | ({} if not o["name"] and o["fine"] else dict(name=o["name"]))), **tics, **kw)
        if o["e"] == "phase":
            return post.plot_phase(**({} if ph[0] == 0 else dict(phase=ph[0])), **some(interpolate=o["fine"]), **kw)
        if o["e"] == "x":
            return post.plot_x(**some(dims=dims, phases=ph or None, axis=o["axis"], interpolate=o["fine"]), **tics, **kw)
        if o["e"] == "u":
            return post.plot_u(**some(dims=dims, phases=ph or None, axis=o["axis"], interpolate=o["fine"], name=o["name"], ylabel=o["yl"]), **tics, **kw)
        if o["e"] == "norms":
            t, q = (tx, rx) if o["var"] == "x" else (td, rd)
            return mp.post_process.plot_residuals(t, q, **some(phases=ph, name=o["name"] or None), **tics, **kw)
        if o["e"] == "report":
            if not kw and not o["alone"]:
                kw = dict(zip(("fig", "axs"), plt.subplots(1, 1)))
            rel = dict(residual_type="relative") if o["rel"] else {}
            gt = dict(grid_type=o["gt"]) if o["gt"] else {}
            if o["var"] == "x":
                _, _, t, q = opt.get_states_residuals(sol, phases=ph or None, plot=True, **rel, **kw)
            elif o["var"] == "d":
                t, q = opt.get_dynamics_residuals(sol, plot=True, **rel, **gt, **kw)
            else:
                t, q, _ = opt.get_state_second_derivative(sol, plot=True, **gt, **kw)
            o["rep"] = residual_lists([v if v is not None else [] for v in t], [v if v is not None else [] for v in q], P, nx)
            return (kw["fig"], kw["axs"]) if kw else None
        x, u, t, a = post.get_data(phases=ph, interpolate=o["fine"])
        if o["e"] == "all":
            return post.plot_all(x, u, t, **some(legend=o["named"]), **tics, **kw)
        v = x if o["var"] == "x" else u
        if o["e"] == "single":
            return mp.post_process.plot_single_variable(v, t, dims, **some(name=o["name"] or None, ylabel=o["yl"] or None, axis=o["axis"]), **tics, **kw)
        if o["e"] == "curve":
            if not kw:
                kw = dict(zip(("fig", "axs"), plt.subplots(1, 1)))
            mp.post_process.plot_curve(kw["axs"], v, t, name=o["name"] or None, ylabel=o["yl"], **tics)
            return kw["fig"], kw["axs"]

    for o in s["ops"]:
        o = dict(o)
        before = plt.get_fignums()
        snap = {n: freeze([p for p in panels(plt.figure(n))]) for n in before}
        solution, old = freeze(sol), freeze([rt.rows(m, 1) for m in post.get_data()])
        ev = {k: v for k, v in o.items() if k not in ("tics", "nested", "scaled", "rx", "rdx", "rel", "gt", "alone", "direct")}
        ev.update(raised="", changed=[], got=[], nfigs=0, fig=0, axes=[])
        touched = []
        try:
            if o["e"] == "process":
                ev["session"] = session(o["scaled"], o["rx"], o["rdx"])
                if o.get("direct"):
                    from .recorder import recording
                    q = og.make_ocp(c, s["style"])
                    q.phases_to_plot = ocp.phases_to_plot if s["ownphases"] else q.phases_to_plot
                    with recording(lambda *_: s["z"]):
                        mp.solve(q, n_segments=len(c["orders"]), poly_orders=list(c["orders"]), scheme=c["scheme"], plot=True,
                                 solve_dict={"mpopt_options": {"nlp_sw_params": list(s["w"])}}, residual_x=o["rx"], residual_dx=o["rdx"])
                else:
                    opt.process_results(sol, plot=True, scaling=o["scaled"], residual_x=o["rx"], residual_dx=o["rdx"])
            else:
                kw = {}
                if o["on"]:
                    fig, axs = handles[o["on"] - 1]
                    kw = dict(fig=fig, axs=axs)
                ret = draw(o, kw)
                ev["rep"] = o.get("rep", [])
                if isinstance(ret, tuple) and len(ret) == 2 and hasattr(ret[0], "axes"):
                    touched = [ret]
        except Exception as e:
            ev["raised"] = f"{type(e).__name__}: {e}"[:200]
        new = [n for n in plt.get_fignums() if n not in before]
        nums = plt.get_fignums()
        if o["e"] == "process":
            ev["got"] = [panels(plt.figure(n)) for n in new]
            handles += [(plt.figure(n), None) for n in new]
        else:
            known = [f.number for f, _ in handles]
            for n in new:
                t = [q for q in touched if q[0].number == n]
                handles.append(t[0] if t else (plt.figure(n), None))
            target = new[-1] if new else known[o["on"] - 1] if o["on"] else None
            if target is not None:
                ev["got"] = [panels(plt.figure(target))]
            if touched:
                ev["fig"] = 1 + [f.number for f, _ in handles].index(touched[0][0].number)
                ev["axes"] = [pos(a) for a in np.array(touched[0][1], dtype=object).flatten()]
        ev["nfigs"] = len(nums)
        mine = [handles[o["on"] - 1][0].number] if o["on"] and not new else []
        ev["changed"] += [f"figure {n}" for n in before if n not in mine and (n not in nums or freeze(panels(plt.figure(n))) != snap[n])]
        if freeze(sol) != solution:
            ev["changed"].append("solution")
        if freeze([rt.rows(m, 1) for m in post.get_data()]) != old:
            ev["changed"].append("retrieved data")
        events.append(ev)
    plt.close("all")
    return dict(session=session(s["scaled"], s["rx"], s["rdx"]), events=events, **({"evolution": evolution} if evolution else {}))


NUMBERS = ("t", "x", "u", "r", "y")


def numbers(x):
    """Exact strings for the numbers of data, everything else as it is."""
    if isinstance(x, dict):
        return {k: enc(v) if k in NUMBERS and not isinstance(v, str) else numbers(v) for k, v in x.items()}
    if isinstance(x, list):
        return [numbers(v) for v in x]
    return x


def encode(s, rec):
    return dict(session=numbers(rec.get("session", {})), events=numbers(rec.get("events", [])),
                **({"evolution": numbers(rec["evolution"])} if "evolution" in rec else {}))


def features(s):
    f = nlp.features(s)
    for o in s["ops"]:
        f.append("draws " + o["e"] + (" on existing" if o["on"] else ""))
    return sorted(set(f))


def sample(s, c):
    return dict(kind=s["kind"], phases=s["c"]["np"], nx=s["c"]["nx"], nu=s["c"]["nu"], groups=s["groups"],
                requests=[{k: v for k, v in o.items() if k in ("e", "on", "phases", "fine", "groups", "axis")} for o in s["ops"]])
