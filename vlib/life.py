"""C13, C22: histories of several optimisers, the user's edits, settings, solves, failures and questions."""
import os, random
from .core import enc
from . import ocpgen as og

RULE = ("random histories of 8-16 operations on up to three optimisers of all kinds sharing one problem object: edits of the problem "
        "in place, settings with and without reset, solves with any subset of start keys, widths, plug-ins and options, failing "
        "solves, rebuilds, repeated questions, solve_ph and the convenience function; non-trivial: at least two solves in each")
ASSUMPTIONS = ["the solver is a stand-in that records its inputs and answers with scripted vectors",
               "the reference of every version is recorded in a process of its own", "user functions do not change on their own"]
KINDS = ["mpopt", "mpopt_adaptive", "mpopt_h_adaptive", "mpopt_ph_adaptive"]
OPTS = [{}, {}, {"ipopt.max_iter": 30}, {"print_time": 1, "ipopt.tol": 1e-6}, {"ipopt.sb": "no", "ipopt.print_level": 2, "ipopt.acceptable_tol": 1e-3}]
OTHER = [{}, {"print_iteration": False}, {"max_iter": 7, "print_time": 0}]
EDITS = ["lbx", "ubu", "x00", "scale", "jump", "links", "dynamics", "cost", "terminal", "path", "options", "guess", "whole"]


def random_set(r, kind, c, old=None, reset=False):
    """Settings of an optimiser: everything its transcription depends on besides the problem."""
    s = dict(old) if old else dict(kind=kind, scheme=c["scheme"], orders=list(c["orders"]), intorder=False)
    if old is None and len(set(s["orders"])) == 1 and r.random() < .5:
        s["intorder"] = True
    if old is not None:
        if reset or kind == "mpopt" and r.random() < .3:
            reset = True
            k = r.choice([1, 2, 3])
            s["orders"] = [r.randint(1, 3) for _ in range(k)]
        if r.random() < .6 or not reset and kind != "mpopt_adaptive":
            s["scheme"] = r.choice([x for x in ("LGR", "LGL", "CGL") if x != s["scheme"]])
    if kind == "mpopt_adaptive":
        P = c["np"]
        s.update(lbh=[r.choice([1e-4, 1e-2, 0.03]) for _ in range(P)], ubh=[r.choice([1.0, 0.9]) for _ in range(P)],
                 tolr=[r.choice([1e-3, 1e-2]) for _ in range(P)], midres=r.random() < .5)
    return s, reset


def key(v, s):
    return f"{v}|{name(s)}"


def name(s):
    return ",".join(f"{k}={s[k]}" for k in sorted(s) if k != "intorder")


def length(c, s):
    N = sum(s["orders"]) + 1
    return c["np"] * ((c["nx"] + c["nu"]) * N + 2 + c["na"] + (len(s["orders"]) if s["kind"] == "mpopt_adaptive" else 0))


def start(r, kind, again):
    """Keys of a supplied solution: origin of the values and their spelling."""
    if r.random() < .35:
        return None
    d = {}
    if r.random() < .75:
        d["x"] = r.choice(["x", "x0"])
    if r.random() < .6:
        d["lamx"] = r.choice(["lam_x", "lam_x0"])
    if r.random() < .6:
        d["lamg"] = r.choice(["lam_g", "lam_g0"])
    d["extra"] = [k for k in ("f", "g", "p", "lam_p", "lbx", "note") if r.random() < .3]
    d["type"] = r.choice(["DM", "array", "list"])
    return d


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    for i in range(dict(quick=90, thorough=700)[tier]):
        P = [1, 2, 1, 3][i % 4]
        c = og.problem(r, np_=P, nx=r.choice([1, 2]), nu=r.choice([1, 2]), na=r.choice([0, 1, 2]), maxterms=2)
        og.mesh(r, c, maxnodes=6, nseg=[2, 1, 3, 2][i // 4 % 4])
        c["orders"] = [min(3, o) for o in c["orders"]] if i % 3 else [2] * len(c["orders"])
        ops, live, v = [], [], 1
        nops = r.randint(8, 16)
        while len(ops) < nops:
            q = r.random()
            if not live or (q < .1 and len(live) < 3):
                kind = r.choice(KINDS)
                s, _ = random_set(r, kind, c)
                ops.append(dict(e="new", set=s))
                live.append(dict(kind=kind, set=s, cur=True, built=False))
                continue
            j = r.randrange(len(live))
            o = live[j]
            if q < .22:
                ops.append(dict(e="edit", what=r.choice(EDITS), seed=r.randrange(10**6)))
                v += 1
            elif q < .36 and (o["kind"] != "mpopt_ph_adaptive" or r.random() < .3):
                s, reset = random_set(r, o["kind"], c, o["set"], r.random() < .3)
                o["set"], o["built"] = s, o["built"] and not reset
                o["cur"], o["solved"] = False, o.get("solved") and not reset
                ops.append(dict(e="set", i=j + 1, set=s, reset=reset))
            elif q < .8 or not o["built"] or not o["cur"]:
                again = o["built"] and r.random() < .35
                plugin = r.choice(["ipopt", "ipopt", "sqpmethod", "ipopt"])
                w = "no"
                if o["kind"] in ("mpopt", "mpopt_ph_adaptive"):
                    w = r.choice(["no", "no", "list", "array", "empty"])
                op = dict(e="solve", i=j + 1, again=again, plugin=plugin, own=r.choice(OPTS if plugin == "ipopt" else OTHER),
                          start=start(r, o["kind"], again), w=w, fails=r.random() < .12, seed=r.randrange(10**6),
                          positional=r.random() < .3, method=r.choice([("residual", "equal_area"), ("residual", "merge_split"), ("control_slope", None), None]))
                ops.append(op)
                if not o["built"] or again:
                    o["cur"] = True
                o["built"] = True
                o["solved"] = o.get("solved") or not op["fails"]
                if r.random() < .25:
                    ops.append({**op, "again": again and r.random() < .5, "fails": False})
                    o["solved"] = True
                    if ops[-1]["again"]:
                        o["cur"] = True
            elif o.get("solved"):
                ops.append(dict(e="ask", i=j + 1, what=r.choice(["data", "data", "interp", "dynres", "xres", "curv", "guess"])))
                if r.random() < .3:
                    ops.append(dict(ops[-1]))
            if r.random() < .06:
                ops.append(dict(e="ph", seed=r.randrange(10**6), set=dict(kind="mpopt_ph_adaptive", scheme=c["scheme"], orders=list(c["orders"]), intorder=False)))
            if r.random() < .06:
                s = dict(kind="mpopt", scheme=r.choice(["LGR", "LGL", "CGL"]), orders=list(c["orders"]), intorder=len(set(c["orders"])) == 1)
                ops.append(dict(e="conv", set=s, own=r.choice(OPTS), given=r.random() < .6, seed=r.randrange(10**6)))
        ops.append(dict(e="recheck"))
        out.append(dict(c=c, style=r.randrange(2), ops=ops))
    return out


# ------------------------------------------------------------------ the user's side
def edit(ocp, c, what, seed):
    """An edit of the user's problem object, the same for every replay."""
    import numpy as np
    r = random.Random(seed)
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]
    p = r.randrange(P)
    call = lambda f: f if na == 0 else (lambda *a: f(*a[:-1]))
    if what == "lbx":
        ocp.lbx[p, r.randrange(nx)] = -og.dy(r, 1, 9)
    elif what == "ubu":
        ocp.ubu[p, r.randrange(nu)] = og.dy(r, 1, 9)
    elif what == "x00":
        ocp.x00[0, r.randrange(nx)] += 1.5
    elif what == "scale":
        a = r.choice([x for x, n in (("scale_x", nx), ("scale_u", nu), ("scale_a", na)) if n])
        getattr(ocp, a)[0] *= 2
    elif what == "jump" and P > 1:
        ocp.ube[0, 0] = og.dy(r, 2, 5)
    elif what == "links" and P > 1:
        ocp.phase_links[0] = (P - 1, 0)
    elif what == "dynamics":
        a = og.dy(r, 2, 9)
        ocp.dynamics[p] = call(lambda x, u, t: [a * x[0] + u[0]] * nx)
    elif what == "cost":
        a = og.dy(r, 2, 9)
        ocp.running_costs[p] = call(lambda x, u, t: a * u[0] * u[0])
    elif what == "terminal":
        a = og.dy(r, 2, 9)
        ocp.terminal_constraints[p] = call(lambda xf, tf, x0, t0: [xf[0] - a, tf - a])
    elif what == "path":
        a = og.dy(r, 2, 9)
        ocp.path_constraints[p] = call(lambda x, u, t: [x[0] - a])
    elif what == "options":
        ocp.diff_u[p], ocp.midu[p] = 1 - ocp.diff_u[p], 1 - ocp.midu[p]
        ocp.du_continuity[p] = 1 - ocp.du_continuity[p]
    elif what == "guess":
        ocp.tf0[p] = ocp.tf0[p] + 1
        ocp.uf0[p, 0] -= 2
    elif what == "whole":
        ocp.lbx = np.array(ocp.lbx) - 1
        ocp.ubdu = np.array(ocp.ubdu) * 2


def problem(case, upto):
    ocp = og.make_ocp(case["c"], case["style"])
    edits = [o for o in case["ops"] if o["e"] == "edit"][:upto]
    for o in edits:
        edit(ocp, case["c"], o["what"], o["seed"])
    return ocp


def make(mp, ocp, s):
    o = list(s["orders"])
    opt = getattr(mp, s["kind"])(ocp, len(o), o[0] if s["intorder"] and len(set(o)) == 1 else o, s["scheme"])
    adopt(opt, s)
    return opt


def adopt(opt, s, old=None, reset=False):
    if reset:
        if list(opt.poly_orders) != list(s["orders"]):
            opt.poly_orders, opt.n_segments = list(s["orders"]), len(s["orders"])
    if opt.colloc_scheme != s["scheme"]:
        opt.colloc_scheme = s["scheme"]
    if s["kind"] == "mpopt_adaptive":
        opt.lbh, opt.ubh, opt.tol_residual, opt.mid_residuals = list(s["lbh"]), list(s["ubh"]), list(s["tolr"]), s["midres"]
    elif s["kind"] == "mpopt_h_adaptive":
        opt.tol_residual = [1e-9] * len(opt.tol_residual)
    if reset:
        opt.reset_mpopt()


def probe(c, s):
    r = random.Random(f"probe/{name(s)}")
    z, w = og.trajectory(r, {**c, "orders": s["orders"], "scx": [1] * c["nx"], "scu": [1] * c["nu"], "sca": [1] * c["na"], "sct": 1},
                         s["kind"] == "mpopt_adaptive")
    return z, w


# ------------------------------------------------------------------ processes
def forked(fn, *args):
    """fn(*args) in a process of its own."""
    import pickle, traceback
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("bad", traceback.format_exc()[-1500:])
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, out = pickle.loads(data)
    if ok != "ok":
        raise RuntimeError(out)
    return out


def prepare(c):
    from mpopt import mp
    import matplotlib.pyplot, scipy.special  # noqa: whatever importing changes, it changes before the history
    mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = c["lo"], c["hi"]
    mp.Collocation.D_MATRIX_METHOD = c["method"]
    return mp


def reference(case, v, s):
    from .recorder import recording
    mp = prepare(case["c"])
    with recording() as log:
        opt = make(mp, problem(case, v - 1), s)
        opt.solve()
    calls = [e for e in log if e[0] == "call"]
    z, w = probe(case["c"], s)
    f, g = calls[0][1].values(z, w)
    k = calls[0][2]
    return dict(x0=k["x0"], lbx=k["lbx"], ubx=k["ubx"], lbg=k["lbg"], ubg=k["ubg"], f=f, g=g, segs=len(s["orders"]), phases=case["c"]["np"])


def execute(case):
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    from mpopt import mp  # noqa
    import matplotlib.pyplot, scipy.special  # noqa: imported once, used only in processes of their own
    refs, v, sets = {}, 1, []
    def need(v, s):
        k = key(v, s)
        if k not in refs:
            refs[k] = forked(reference, case, v, s)
    of = []
    for o in case["ops"]:
        if o["e"] == "edit":
            v += 1
        elif o["e"] == "new":
            of.append(v)
            need(v, o["set"])
        elif o["e"] == "set":
            need(of[o["i"] - 1], o["set"])
        elif o["e"] in ("conv", "ph"):
            need(v, o["set"])
    out = forked(history, case, refs)
    out["refs"] = refs
    return out


# ------------------------------------------------------------------ what must stay as it was
def freeze(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tolist() if x.dtype != object else [freeze(v) for v in x])
    if isinstance(x, dict):
        return ("dict", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if callable(x):
        return ("function", id(x))
    if hasattr(x, "full") and hasattr(x, "size1"):
        return ("DM", x.full().tolist())
    return repr(x)


def process_state(mp):
    import inspect, random as rnd, sys
    import numpy as np, matplotlib
    d = {"numpy error handling": repr(np.geterr()), "numpy print options": repr(np.get_printoptions()),
         "random state": hash(rnd.getstate()), "numpy random state": repr(np.random.get_state()),
         "plot parameters": repr(dict(matplotlib.rcParams)), "environment": repr(dict(os.environ)), "directory": os.getcwd(),
         "recursion limit": sys.getrecursionlimit(), "output": id(sys.stdout)}
    for n, cl in inspect.getmembers(mp, inspect.isclass):
        if cl.__module__ != mp.__name__:
            continue
        for a, v in vars(cl).items():
            f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
            if inspect.isfunction(f):
                d[f"defaults of {n}.{a}"] = repr(freeze([f.__defaults__, f.__kwdefaults__]))
            elif not a.startswith("__"):
                d[f"{n}.{a}"] = repr(freeze(v)) if not hasattr(v, "is_symbolic") else id(v)
    for a, f in inspect.getmembers(mp, inspect.isfunction):
        d[f"defaults of {a}"] = repr(freeze([f.__defaults__, f.__kwdefaults__]))
    return d


class Watch:
    """Objects of the user and the state of the process, before and after."""

    def __init__(self, mp):
        self.mp, self.objs = mp, {}

    def add(self, what, x):
        self.objs[what] = x

    def __enter__(self):
        self.before = {k: freeze(vars(x) if type(x).__name__ == "OCP" else x) for k, x in self.objs.items()}
        self.state = process_state(self.mp)
        return self

    def __exit__(self, *a):
        after = {k: freeze(vars(x) if type(x).__name__ == "OCP" else x) for k, x in self.objs.items()}
        self.changed = ["the caller's " + k for k in after if after[k] != self.before[k]]
        now = process_state(self.mp)
        self.changed += [k for k in now if now[k] != self.state.get(k, now[k])] + [k + " gone" for k in self.state if k not in now]
        return False


def history(case, refs):
    import numpy as np, casadi as ca
    from .recorder import recording
    c = case["c"]
    mp = prepare(c)
    ocp = problem(case, 0)
    state = dict(fail=False)

    def answer(solver, call):
        if state["fail"]:
            raise RuntimeError("solver failed on purpose")
        r = random.Random(state["seed"])
        P, n = c["np"], solver.nx
        z, _ = og.trajectory(r, {**c, "orders": state["orders"], "scx": [1] * c["nx"], "scu": [1] * c["nu"], "sca": [1] * c["na"], "sct": c["sct"]},
                             state["adaptive"])
        return z if len(z) == n else [0.5 + 0.01 * k for k in range(n)]
    opts, plan, vers, v, sets, sols, posts, builtset, events, asked = [], [], [], 1, [], [], [], [], [], {}
    flat = lambda x: np.array(ca.DM(x)).flatten(order="F").tolist()

    def cast(vals, t):
        return ca.DM(vals) if t == "DM" else np.array(vals) if t == "array" else list(vals)

    def given(o, s, nz, ng):
        """The supplied solution and what of it should arrive."""
        if o["start"] is None:
            return None, {}
        d, st, r = {}, {}, random.Random(o["seed"] + 1)
        q = o["start"]
        z, _ = og.trajectory(r, {**c, "orders": s["orders"], "scx": [1] * c["nx"], "scu": [1] * c["nu"], "sca": [1] * c["na"], "sct": c["sct"]}, s["kind"] == "mpopt_adaptive")
        items = [(q[k], k, vals) for k, vals in (("x", z), ("lamx", [og.dy(r, -1, 1) for _ in range(nz)]), ("lamg", [og.dy(r, -1, 1) for _ in range(ng)])) if k in q]
        items += [(k, None, [7.0]) for k in q["extra"]]
        r.shuffle(items)
        for kk, k, vals in items:
            d[kk] = cast(vals, q["type"]) if k else 7.0
            if k:
                st[k] = vals
        return d, st

    def summary(log, ns, sol, err):
        made = [e[1] for e in log if e[0] == "create"]
        calls = [e for e in log if e[0] == "call"]
        rec = dict(created=len(made), ncalls=len(calls), raised=err, returned=False, plugin="", opts={}, call={}, f=0.0, g=[])
        if made:
            rec.update(plugin=made[-1].plugin, opts={k: repr(v) for k, v in made[-1].options.items()})
        if calls:
            rec["call"] = calls[0][2]
            z, w = probe(c, ns)
            if len(z) == calls[0][1].nx and (not calls[0][1].has_p or len(w) == calls[0][1].np_):
                rec["f"], rec["g"] = calls[0][1].values(z, w)
        ans = [e[2] for e in log if e[0] == "answer"]
        if ans and sol is not None:
            rec["returned"] = (set(sol) == {"x", "f", "g", "lam_x", "lam_g", "lam_p"} and flat(sol["x"]) == ans[-1]["z"]
                               and flat(sol["lam_x"]) == ans[-1]["lamx"] and flat(sol["lam_g"]) == ans[-1]["lamg"])
        return rec

    with recording(answer) as log:
        for o in case["ops"]:
            W = Watch(mp)
            if o["e"] == "edit":
                with W:
                    edit(ocp, c, o["what"], o["seed"])
                events.append(dict(e="edit", changed=W.changed))
                v += 1
                continue
            i = plan[o["i"] - 1] if "i" in o else None
            W.add("problem", ocp)
            for j, x in enumerate(sols):
                W.add(f"earlier solution {j}", x)
            if o["e"] == "new":
                with W:
                    opts.append(make(mp, ocp, o["set"]))
                plan.append(len(sets)); vers.append(v)
                sets.append(o["set"]); builtset.append(None); posts.append(None)
                events.append(dict(e="new", set=name(o["set"]), changed=W.changed))
            elif o["e"] == "set":
                with W:
                    adopt(opts[i], o["set"], reset=o["reset"])
                sets[i] = o["set"]
                if o["reset"]:
                    builtset[i] = None
                events.append(dict(e="set", i=i + 1, set=name(o["set"]), reset=o["reset"], changed=W.changed))
            elif o["e"] == "solve":
                if builtset[i] is None or o["again"]:
                    builtset[i] = sets[i]
                s = builtset[i]
                ref = refs[key(vers[i], s)]
                kind, S, P = s["kind"], len(s["orders"]), c["np"]
                st, want = given(o, s, len(ref["x0"]), len(ref["lbg"]))
                kw = dict(solver=o["plugin"], nlp_solver_options=dict(o["own"]))
                if not o["own"] and o["seed"] % 2:
                    kw.pop("nlp_solver_options")
                if o["plugin"] == "ipopt" and o["seed"] % 3 == 0:
                    kw.pop("solver")
                if st is not None:
                    kw["initial_solution"] = st
                if o["again"] or o["seed"] % 2:
                    kw["reinitialize_nlp"] = o["again"]
                widths, givenw = "equal", []
                if kind == "mpopt_adaptive":
                    widths = "none"
                elif kind == "mpopt_h_adaptive":
                    if S > 1 and "x" in want:
                        widths = "any"
                    kw["max_iter"] = 1
                    if o["method"]:
                        kw["mpopt_options"] = {"method": o["method"][0], **({"sub_method": o["method"][1]} if o["method"][1] else {})}
                elif o["w"] in ("list", "array"):
                    widths, r = "given", random.Random(o["seed"] + 2)
                    givenw = sum([og.widths(r, S, "free") for _ in range(P)], [])
                    kw["mpopt_options"] = {"nlp_sw_params": givenw[:] if o["w"] == "list" else np.array(givenw)}
                elif o["w"] == "empty":
                    kw["mpopt_options"] = {}
                for k, x in kw.items():
                    W.add(k, x)
                state.update(fail=o["fails"], seed=o["seed"], orders=s["orders"], adaptive=kind == "mpopt_adaptive")
                log.clear()
                sol, err = None, ""
                with W:
                    try:
                        if o["positional"] and st is not None and "reinitialize_nlp" in kw:
                            sol = opts[i].solve(kw.pop("initial_solution"), kw.pop("reinitialize_nlp"), **kw)
                        else:
                            sol = opts[i].solve(**kw)
                    except Exception as e:
                        err = f"{type(e).__name__}: {e}"[:200]
                rec = summary(log, s, sol, err)
                asked = {k: x for k, x in asked.items() if k[0] != i}
                events.append(dict(e="solve", i=i + 1, again=o["again"], fails=o["fails"], plugin=o["plugin"], own={k: repr(v) for k, v in o["own"].items()},
                                   start=want, widths=widths, given=givenw, rec=rec, changed=W.changed))
                if sol is not None:
                    sols.append(sol)
                    posts[i] = sol
            elif o["e"] == "ask":
                ev = dict(e="ask", i=i + 1, before=[], data=[], guess=[], raised="")
                opt, sol = opts[i], posts[i]
                with W:
                    try:
                        if sol is None:
                            pass
                        elif o["what"] in ("data", "interp"):
                            post = opt.process_results(sol, plot=False, residual_dx=o["what"] == "data")
                            get = lambda post=post, fine=o["what"] == "interp": [float(v) for a in post.get_data(interpolate=fine) for v in np.array(a, dtype=float).flatten()]
                            ev["data"] = get()
                            state.setdefault("kept", []).append((i, get, ev["data"]))
                        elif o["what"] == "dynres":
                            ev["data"] = numbers(opt.get_dynamics_residuals(sol))
                        elif o["what"] == "xres":
                            ev["data"] = numbers(opt.get_states_residuals(sol))
                        elif o["what"] == "curv":
                            ev["data"] = numbers(opt.get_state_second_derivative(sol))
                        elif o["what"] == "guess":
                            ev["guess"] = np.array(opt.initialize_solution(), dtype=float).tolist()
                    except Exception as e:
                        ev["raised"] = f"{type(e).__name__}: {e}"[:200]
                ev["before"] = asked.get((i, o["what"]), [])
                asked[(i, o["what"])] = ev["data"]
                ev["changed"] = W.changed
                events.append(ev)
            elif o["e"] == "conv":
                sd = {}
                r = random.Random(o["seed"])
                s = o["set"]
                ref = refs[key(v, s)]
                want = {}
                if o["given"]:
                    vals = [og.dy(r, -1, 1) for _ in ref["x0"]]
                    sd = dict(initial_solution={"x0": vals}, nlp_solver_options=dict(o["own"]), reinitialize_nlp=r.random() < .5)
                    want = dict(x=vals)
                W.add("solve_dict", sd)
                state.update(fail=False, seed=o["seed"], orders=s["orders"], adaptive=False)
                log.clear()
                sol, err, opt = None, "", None
                with W:
                    try:
                        opt, post = mp.solve(ocp, len(s["orders"]), s["orders"][0] if s["intorder"] else list(s["orders"]), s["scheme"], plot=False,
                                             **(dict(solve_dict=sd) if o["given"] else {}))
                        sol = post.solution
                    except Exception as e:
                        err = f"{type(e).__name__}: {e}"[:200]
                rec = summary(log, s, sol, err)
                opts.append(opt); vers.append(v); sets.append(s); builtset.append(s); posts.append(sol)
                events.append(dict(e="new", set=name(s), changed=[]))
                events.append(dict(e="solve", i=len(opts), again=False, fails=False, plugin="ipopt", own={k: repr(v) for k, v in o["own"].items()} if o["given"] else {},
                                   start=want, widths="equal", given=[], rec=rec, changed=W.changed))
            elif o["e"] == "ph":
                sd = dict(nlp_solver_options={"ipopt.max_iter": 3}, mpopt_options={})
                W.add("solve_dict", sd)
                state.update(fail=False, seed=o["seed"], orders=o["set"]["orders"], adaptive=False)
                with W:
                    try:
                        make(mp, ocp, o["set"]).solve_ph(max_iter=2, solve_dict=sd)
                    except Exception:
                        pass  # its meaning is C24's
                events.append(dict(e="other", changed=W.changed))
            elif o["e"] == "recheck":
                for n, get, data in state.get("kept", []):
                    with W:
                        now = get()
                    events.append(dict(e="ask", i=n + 1, before=data, data=now, guess=[], raised="", changed=W.changed))
    return dict(events=events)


def numbers(x):
    import numpy as np
    if x is None:
        return [-12345.0]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in numbers(y)]
    if hasattr(x, "full"):
        return numbers(x.full())
    return [float(v) for v in np.array(x, dtype=float).flatten()]


def encode(s, rec):
    evs = enc(rec.get("events", []))
    for e, o in zip(evs, rec.get("events", [])):
        if "i" in o:
            e["i"] = o["i"]
        if "rec" in o:
            e["rec"].update(created=o["rec"]["created"], ncalls=o["rec"]["ncalls"])
    refs = enc(rec.get("refs", {}))
    for k, x in refs.items():
        x.update({n: rec["refs"][k][n] for n in ("segs", "phases")})
    return dict(events=evs, refs=refs)


def features(s):
    f = []
    for o in s["ops"]:
        f.append("op " + o["e"])
        if o["e"] == "new":
            f.append(o["set"]["kind"])
        if o["e"] == "solve":
            f += ["rebuild"] * o["again"] + ["failing"] * o["fails"] + ["plugin " + o["plugin"]] + (["start given"] if o["start"] else [])
            f += ["start key " + o["start"][k] for k in ("x", "lamx", "lamg") if o["start"] and k in o["start"]]
        if o["e"] == "edit":
            f.append("edit " + o["what"])
    return sorted(set(f))


def sample(s, c):
    return dict(phases=s["c"]["np"], orders=s["c"]["orders"], ops=[{k: v for k, v in o.items() if k in ("e", "i", "what", "again", "fails", "plugin", "own", "reset")} for o in s["ops"]])
