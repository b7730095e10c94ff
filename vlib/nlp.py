"""C01-C07, C12, C21: records the nonlinear program handed to the solver and values at probe vectors."""
import random
from .core import enc
from . import ocpgen as og

RULE = ("random problems with polynomial functions, meshes, intervals, scalings, options, optimiser kinds and random "
        "probe vectors of unknowns; non-trivial: at least one state, control and two nodes (always)")
ASSUMPTIONS = ["user functions are polynomials (the code treats them as black boxes)",
               "constraint and cost expressions are compared at random probe vectors"]


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    n = dict(quick=64, thorough=600)[tier]
    if prop == "C12":
        n = dict(quick=120, thorough=800)[tier]
    if prop == "C26":
        n = dict(quick=40, thorough=400)[tier]
    out = []
    for i in range(n):
        kind = ["mpopt", "mpopt_adaptive", "mpopt_h_adaptive", "mpopt"][i % 4]
        kw = {}
        if prop == "C06":
            kw["np_"] = [2, 3, 4, 5, 2, 1][i % 6]
        if prop == "C21":
            kind = "mpopt_adaptive"
        if prop == "C07":
            kind = ["mpopt", "mpopt", "mpopt_h_adaptive", "mpopt", "mpopt_adaptive"][i % 5]
        if kind == "mpopt" and i % 8 in (0, 7):  # plain solve of the ph-adaptive optimiser: the same program
            kind = "mpopt_ph_adaptive"
        c = og.problem(r, **kw)
        big = c["np"] * c["nx"] > 6
        og.mesh(r, c, maxnodes=12 if big else 20, nseg=[None, 2, 3, None, 7][i % 5] if not big else None)
        if prop == "C04":
            if i % 2:
                c["lagr"] = [[] for _ in c["lagr"]]
            c["term"] = [t if t or r.random() < .3 else [og.poly(r, 2 * c["nx"] + 2 + c["na"])] for t in c["term"]]
        if prop == "C05":
            if i % 2:
                c["mayer"] = [[] for _ in c["mayer"]]
            nv = c["nx"] + c["nu"] + 1 + c["na"]
            c["lagr"] = [l or ([[1.5, []]] if r.random() < .4 else og.poly(r, nv)) for l in c["lagr"]]
            if i % 2 and r.random() < .5:
                c["lagr"] = [[] if p and r.random() < .5 else l for p, l in enumerate(c["lagr"])]
        if prop == "C03":
            nv = c["nx"] + c["nu"] + 1 + c["na"]
            c["path"] = [t if t or r.random() < .3 else [og.poly(r, nv)] for t in c["path"]]
        if prop == "C07":
            c["diffu"] = [1 if r.random() < .7 else 0 for _ in range(c["np"])]
            c["ducont"] = [1 if r.random() < .7 else 0 for _ in range(c["np"])]
            c["midu"] = [1 if r.random() < .7 else 0 for _ in range(c["np"])]
        if prop == "C26":  # functions a1 + a2 t, asked with a = (1, 0) and a = (0, 1)
            c = og.problem(r, nx=r.choice([1, 2]), nu=1, na=2)
            og.mesh(r, c, maxnodes=20, nseg=[None, 2, 3, 5][i % 4], maxdeg=None)
            at = lambda k: [[1.0, [[k + 1, 1]]], [1.0, [[k, 1], [k + 2, 1]]]]
            f = at(c["nx"] + c["nu"] + 1)
            c["dyn"] = [[f] * c["nx"]] * c["np"]
            c["path"] = [[f]] * c["np"]
            c["lagr"] = [f] * c["np"]
            c["mayer"], c["term"] = [[]] * c["np"], [[]] * c["np"]
        expose = prop == "C01"
        if expose:  # every unknown shows itself in a constraint
            nx, nu, na = c["nx"], c["nu"], c["na"]
            c["path"] = [[[[1.0, [[v, 1]]]] for v in range(1, nx + nu + 2 + na)] for _ in range(c["np"])]
            c["term"] = [[[[1.0, [[nx + 1, 1]]]], [[1.0, [[2 * nx + 2, 1]]]]] for _ in range(c["np"])]
        P = c["np"]
        s = dict(kind=kind, c=c, expose=expose, times=prop == "C26", seed=r.randrange(10**9), nprobe=2, style=r.randrange(2),
                 wstyle="free" if prop in ("C02", "C05", "C07", "C26") else r.choice(["equal", "free"]))
        if kind == "mpopt_adaptive":
            s.update(lbh=[r.choice([1e-4, 1e-2, 0.03]) for _ in range(P)], ubh=[r.choice([1.0, 0.9]) for _ in range(P)],
                     tolr=[r.choice([1e-3, 1e-2, 5e-4]) for _ in range(P)],
                     midres=r.random() < .75 if prop != "C21" else i % 5 != 4)
        out.append(s)
    return out


def build(s):
    """The real optimiser of a case."""
    from mpopt import mp
    c = s["c"]
    mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = c["lo"], c["hi"]
    mp.Collocation.D_MATRIX_METHOD = c["method"]
    mp.mpopt._MUTE_ = len(repr(c["x00"])) % 2 == 0   # what is printed makes no difference
    ocp = og.make_ocp(c, s.get("style", 0))
    if s.get("plotted"):
        ocp.phases_to_plot = s["plotted"]
    o = c["orders"]
    po = o[0] if len(set(o)) == 1 and s.get("style", 0) else list(o)
    opt = getattr(mp, s["kind"])(ocp, len(o), po, c["scheme"])
    if s["kind"] == "mpopt_adaptive":
        opt.lbh, opt.ubh, opt.tol_residual = list(s["lbh"]), list(s["ubh"]), list(s["tolr"])
        opt.mid_residuals = s["midres"]
    return opt, ocp


def probes(s):
    r = random.Random(s["seed"])
    c = s["c"]
    k = len(c["orders"])
    ad = s["kind"] == "mpopt_adaptive"
    out = []
    if s.get("times"):
        z, w = og.trajectory(r, c, adaptive=ad, wid=[og.widths(r, k, "free") for _ in range(c["np"])])
        n, m, L = (c["nx"] + c["nu"]) * og.nnodes(c), 2, og.phase_len(c, ad)
        for a in ((1.0, 0.0), (0.0, 1.0)):
            y = list(z)
            for p in range(c["np"]):
                y[p * L:p * L + n] = [0.0] * n
                y[p * L + n + 2:p * L + n + 4] = [a[0] * c["sca"][0], a[1] * c["sca"][1]]
            out.append((y, w))
        return out
    for q in range(s["nprobe"]):
        st = s["wstyle"] if q else "free"
        out.append(og.trajectory(r, c, adaptive=ad, wid=[og.widths(r, k, st) for _ in range(c["np"])]))
    return out


class Handed(BaseException):
    """Raised by the stand-in solver once it has the problem."""


def execute(s):
    from .recorder import recording
    opt, ocp = build(s)
    def stop(*_):
        raise Handed
    with recording(stop) as log:
        try:
            opt.solve()
        except Handed:
            pass
    return recorded(log, probes(s))


def recorded(log, zw):
    """The program handed over last, with its values at the probes."""
    sol = [e[1] for e in log if e[0] == "create"][-1]
    call = sol.calls[-1]
    rec = dict(nz=sol.nx, lbx=enc(call["lbx"]), ubx=enc(call["ubx"]), lbg=enc(call["lbg"]), ubg=enc(call["ubg"]),
               x0=enc(call["x0"]), f=[], g=[])
    for z, w in zw:
        if len(z) == sol.nx:
            f, g = sol.values(z, w)
            rec["f"].append(enc(f))
            rec["g"].append(enc(g))
        else:
            rec["f"].append("nan")
            rec["g"].append([])
    return rec


def encode(s, rec):
    c = s["c"]
    ad = s["kind"] == "mpopt_adaptive"
    lag, may = any(c["lagr"]), any(c["mayer"])
    return dict(c=og.tla_problem(c, ad, s.get("lbh"), s.get("ubh"), s.get("tolr"), s.get("midres", True)),
                probes=[dict(z=enc(z), w=enc(w)) for z, w in probes(s)],
                opt=dict(expose=s["expose"], guess=True, times=bool(s.get("times")), lagrange=lag,
                         objowner=(["C05"] if lag else []) + (["C04"] if may or not lag else [])),
                rec=rec)


def features(s):
    c = s["c"]
    f = [s["kind"], f"{c['np']} phases", f"{len(c['orders'])} segments", c["scheme"], f"{c['na']} params",
         f"interval[{c['lo']},{c['hi']}]", c["method"]]
    if len(set(c["orders"])) > 1:
        f.append("mixed degrees")
    if any(v != 1 for v in c["scx"] + c["scu"] + c["sca"] + [c["sct"]]):
        f.append("scaled")
    for k in ("diffu", "ducont", "midu"):
        if any(c[k]):
            f.append(k)
    if c["links"] != [[i, i + 1] for i in range(1, c["np"])]:
        f.append("own links")
    return f


def sample(s, c):
    return dict(kind=s["kind"], problem={k: s["c"][k] for k in ("np", "nx", "nu", "na", "orders", "scheme", "dyn", "links")})
