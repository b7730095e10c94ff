"""C29: problems and optimisers of which few or no settings are made."""
import random
from .core import enc
from . import ocpgen as og, nlp

RULE = ("problems of all sizes with no, one or some of their fields set (for all or single phases), optimisers of all kinds constructed "
        "with none, some or all of their arguments, or by the solve function; random probe vectors; each has something left unset")
ASSUMPTIONS = nlp.ASSUMPTIONS
PHASE = ["lbx", "ubx", "lbu", "ubu", "lba", "uba", "x00", "xf0", "u00", "uf0", "a0", "lbt0", "ubt0", "lbtf", "ubtf", "t00", "tf0",
         "diffu", "midu", "ducont", "lbdu", "ubdu"]
FUNS = ["dyn", "path", "term", "lagr", "mayer"]
WHOLE = ["scx", "scu", "sca", "sct", "links"]
ATTR = dict(diffu="diff_u", midu="midu", ducont="du_continuity", scx="scale_x", scu="scale_u", sca="scale_a", sct="scale_t")


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    for i in range(dict(quick=64, thorough=600)[tier]):
        dims = {}
        if i % 4:
            dims = {k: v for k, v in dict(np=r.choice([1, 2, 3, 4]), nx=r.choice([1, 2, 3]), nu=r.choice([1, 2]), na=r.choice([0, 1, 2])).items() if r.random() < .8}
        full = {**dict(np=1, nx=1, nu=1, na=0), **dims}
        c = og.problem(r, np_=full["np"], nx=full["nx"], nu=full["nu"], na=full["na"], scaled=True, maxterms=2)
        c["links"] = [[a, b] for a, b in (c["links"][::-1] if r.random() < .5 else c["links"])]
        fields = PHASE + WHOLE + FUNS + (["lbe", "ube"] if full["np"] > 1 else [])
        if not full["na"]:
            fields = [f for f in fields if f not in ("lba", "uba", "a0", "sca")]
        k = [0, 1, 1, 2, 3, 5, 9][i % 7]
        given = r.sample(fields, min(k, len(fields)))
        if r.random() < .6:       # show the unknowns
            given = list(dict.fromkeys(given + ["dyn"]))
        if r.random() < .4:       # what is off or without effect otherwise
            given = list(dict.fromkeys(given + r.choice([["diffu"], ["ducont"], ["lbu"], ["ubu"]])))
        g = dict(dims)
        for f in given:
            if f in WHOLE:
                g[f] = c[f]
            else:
                g[f] = [[v] if r.random() < .7 else [] for v in c[f]]
        mesh = {}
        if i % 3:
            og.mesh(r, c, maxnodes=9)
            mesh = {"orders": c["orders"]} if r.random() < .6 else {}
            if r.random() < .5:
                mesh["scheme"] = c["scheme"]
        kind = ["mpopt", "mpopt_adaptive", "mpopt_h_adaptive", "mpopt_ph_adaptive", "solve"][i % 5]
        s = dict(kind=kind, g=g, mesh=mesh, opts={}, seed=r.randrange(10**9))
        if kind == "mpopt_adaptive":
            P = full["np"]
            s["opts"] = {f: [v for _ in range(P)] for f, v in dict(lbh=0.01, ubh=0.9, tolr=0.01).items() if r.random() < .25}
            if r.random() < .2:
                s["opts"]["midres"] = False
        out.append(s)
    return out


def whole(s):
    """Sizes and mesh of the case, as far as probe vectors need them."""
    g = s["g"]
    c = {k: g.get(k, d) for k, d in dict(np=1, nx=1, nu=1, na=0).items()}
    c.update({k: g.get(k, [1.0] * c[n]) for k, n in (("scx", "nx"), ("scu", "nu"), ("sca", "na"))}, sct=g.get("sct", 1.0), orders=s["mesh"].get("orders", [9]))
    return c


def problem(s):
    """The real problem: only what is given is set."""
    import numpy as np
    from mpopt import mp
    g = s["g"]
    names = dict(nx="n_states", nu="n_controls", np="n_phases", na="n_params")
    o = mp.OCP(**{names[k]: g[k] for k in names if k in g})
    # another problem of the same sizes, changed all over, is no business of this one
    q = mp.OCP(**{names[k]: g[k] for k in names if k in g})
    for k, v in vars(q).items():
        if isinstance(v, np.ndarray) and v.size:
            v[:] = 3
        elif isinstance(v, list) and v and callable(v[0]):
            v[:] = [lambda *_: [7.0]] * len(v)
    q.phase_links.clear()
    f = dict(whole(s))
    f.update({k: [v[0] if v else [] for v in g.get(k, [[]] * f["np"])] for k in FUNS})
    fn = functions(f)
    for k, attr in zip(FUNS, ["dynamics", "path_constraints", "terminal_constraints", "running_costs", "terminal_costs"]):
        for p, v in enumerate(g.get(k, [])):
            if v:
                getattr(o, attr)[p] = fn[k][p]
    for k in PHASE + ["lbe", "ube"]:
        for p, v in enumerate(g.get(k, [])):
            if v:
                getattr(o, ATTR.get(k, k))[p] = v[0]
    for k in ("scx", "scu", "sca"):
        if k in g:
            setattr(o, ATTR[k], np.array(g[k]))
    if "sct" in g:
        o.scale_t = g["sct"]
    if "links" in g:
        o.phase_links = [(i - 1, j - 1) for i, j in g["links"]]
    return o


def functions(c):
    """User functions of the polynomials of c, by field and phase."""
    from types import SimpleNamespace
    P, nx, nu, na = c["np"], c["nx"], c["nu"], c["na"]

    def node(ps, first=False):
        def f(x, u, t, a=()):
            v = [x[i] for i in range(nx)] + [u[i] for i in range(nu)] + [t] + [a[i] for i in range(na)]
            r = [og.evalpoly(p, v) for p in ps]
            return None if not ps else r[0] if first else r
        return f if na else (lambda x, u, t: f(x, u, t))

    def end(ps, first=False):
        def f(xf, tf, x0, t0, a=()):
            v = [xf[i] for i in range(nx)] + [tf] + [x0[i] for i in range(nx)] + [t0] + [a[i] for i in range(na)]
            r = [og.evalpoly(p, v) for p in ps]
            return None if not ps else r[0] if first else r
        return f if na else (lambda xf, tf, x0, t0: f(xf, tf, x0, t0))
    return dict(dyn=[node(q) for q in c["dyn"]], path=[node(q) for q in c["path"]], term=[end(q) for q in c["term"]],
                lagr=[node([q], True) for q in c["lagr"]], mayer=[end([q], True) for q in c["mayer"]])


def probes(s):
    r = random.Random(s["seed"])
    c = whole(s)
    k = len(c["orders"])
    return [og.trajectory(r, c, adaptive=s["kind"] == "mpopt_adaptive", wid=[og.widths(r, k, "free") for _ in range(c["np"])]) for _ in range(2)]


def execute(s):
    from mpopt import mp
    from .recorder import recording
    ocp = problem(s)
    kw = {}
    if "orders" in s["mesh"]:
        kw.update(n_segments=len(s["mesh"]["orders"]), poly_orders=list(s["mesh"]["orders"]))
    if "scheme" in s["mesh"]:
        kw["scheme"] = s["mesh"]["scheme"]
    mp.mpopt._MUTE_ = True
    refused = ""
    if all(k not in s["g"] for k in PHASE + ["lbe", "ube"]):
        try:
            ocp.validate()
        except Exception as e:
            refused = type(e).__name__

    def stop(*_):
        raise nlp.Handed
    with recording(stop) as log:
        try:
            if s["kind"] == "solve":
                mp.solve(ocp, plot=False, **kw)
            else:
                opt = getattr(mp, s["kind"])(ocp, **kw)
                for k, v in s["opts"].items():
                    setattr(opt, dict(tolr="tol_residual", midres="mid_residuals").get(k, k), v)
                opt.solve()
        except nlp.Handed:
            pass
    if refused:
        raise RuntimeError("a problem with nothing set but functions is refused: " + refused)
    return nlp.recorded(log, probes(s))


def encode(s, rec):
    g = s["g"]
    tp = lambda p: [[enc(co), fs] for co, fs in p]
    d = {}
    for k, v in g.items():
        if k in ("np", "nx", "nu", "na", "links"):
            d[k] = v
        elif k in ("dyn", "path", "term"):
            d[k] = [[[tp(q) for q in e[0]]] if e else [] for e in v]
        elif k in ("lagr", "mayer"):
            d[k] = [[tp(e[0])] if e else [] for e in v]
        elif k in ("diffu", "midu", "ducont"):
            d[k] = [[bool(e[0])] if e else [] for e in v]
        else:
            d[k] = enc(v)
    d.update(s["mesh"])
    d["adaptive"] = s["kind"] == "mpopt_adaptive"
    for k, v in s["opts"].items():
        d[k] = v if k == "midres" else [[enc(e)] for e in v]
    lag = any(e and e[0] for e in g.get("lagr", []))
    return dict(partly=True, c=d, probes=[dict(z=enc(z), w=enc(w)) for z, w in probes(s)],
                opt=dict(expose=False, guess=True, times=False, lagrange=lag, objowner=["C05"]), rec=rec)


def features(s):
    return [s["kind"], f"{len(s['g'])} settings of the problem", f"{len(s['mesh'])} settings of the mesh"] + ["set " + k for k in s["g"]]


def sample(s, c):
    return dict(kind=s["kind"], given=s["g"], mesh=s["mesh"])
