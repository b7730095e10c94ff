"""C08: the same problem recorded with its scaling factors and with all factors one."""
import copy, random
from .core import enc
from . import ocpgen as og
from . import nlp

RULE = ("random problems with positive scaling factors of states, controls, parameters and time, recorded scaled and unscaled at "
        "the same user-unit trajectories; non-trivial: at least one factor differs from one")
ASSUMPTIONS = ["user functions are polynomials", "rows of the scaled and unscaled program stand in the same order",
               "scaling factors between 1/1000 and 1000"]


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    for i in range(dict(quick=60, thorough=600)[tier]):
        kind = ["mpopt", "mpopt_adaptive", "mpopt" if i % 8 < 4 else "mpopt_ph_adaptive", "mpopt_h_adaptive"][i % 4]
        c = og.problem(r, na=[0, 1, 2, 3][i % 4] if i % 3 else None, np_=[None, 2, 1, 3][i % 4])
        og.mesh(r, c, maxnodes=14, nseg=[None, 2, 3, 1][i % 4])
        f = lambda n: [r.choice([0.001, 0.03, 0.5, 2.0, 7.0, 1.0, 250.0, 1000.0]) for _ in range(n)]
        only = r.choice(["x", "u", "a", "t", "", "", "", ""])
        for k, n in (("x", c["nx"]), ("u", c["nu"]), ("a", c["na"])):
            c["sc" + k] = f(n) if only in ("", k) else [1.0] * n
        c["sct"] = f(1)[0] if only in ("", "t") else 1.0
        if all(v == 1 for v in c["scx"] + c["scu"] + c["sca"] + [c["sct"]]):
            c["scx"] = [2.0] * c["nx"]
        P, S = c["np"], len(c["orders"])
        s = dict(kind=kind, c=c, style=r.randrange(2), seed=r.randrange(10**9), lbh=[1e-4] * P, ubh=[1.0] * P,
                 tolr=[r.choice([1e-3, 1e-2]) for _ in range(P)], midres=r.random() < .8,
                 taus=[sorted(r.sample([c["lo"] + (c["hi"] - c["lo"]) * k / 64 for k in range(1, 64)], r.randint(1, 3))) for _ in range(S)])
        out.append(s)
    return out


def one(c):
    d = copy.deepcopy(c)
    d["scx"], d["scu"], d["sca"], d["sct"] = [1.0] * c["nx"], [1.0] * c["nu"], [1.0] * c["na"], 1.0
    return d


def factors(c, ad):
    f = []
    for p in range(c["np"]):
        for v in c["scx"] + c["scu"]:
            f += [v] * og.nnodes(c)
        f += [c["sct"]] * 2 + c["sca"] + ([1.0] * len(c["orders"]) if ad else [])
    return f


def record(s, c, zs, w):
    from .recorder import recording
    from .retrieve import rows
    import numpy as np
    t = {**s, "c": c}
    opt, ocp = nlp.build(t)
    ad = s["kind"] == "mpopt_adaptive"
    with recording(lambda *_: zs[-1]) as log:
        kw = {} if ad else dict(mpopt_options={"nlp_sw_params": w}) if s["kind"] in ("mpopt", "mpopt_ph_adaptive") else dict(max_iter=1)
        if s["kind"] == "mpopt_h_adaptive":  # one solve on equal widths
            opt.tol_residual = [1e9] * c["np"]
        sol = opt.solve(**kw)
    solver = [e[1] for e in log if e[0] == "create"][-1]
    call = solver.calls[-1]
    rec = {k: enc(call[k]) for k in ("lbx", "ubx", "lbg", "ubg", "x0")}
    fg = [solver.values(z, w) for z in zs]
    rec["f"], rec["g"] = [enc(v[0]) for v in fg], [enc(v[1]) for v in fg]
    post = opt.process_results(sol, plot=False, scaling=False, residual_x=False, residual_dx=False)
    ph = list(range(c["np"]))
    rec["data"] = []
    for d in (post.get_data(phases=ph), post.get_data(phases=ph, interpolate=True),
              post.get_interpolated_data(ph, [np.array(x) for x in s["taus"]])):
        x, u, t, a = d
        rec["data"].append(enc(dict(states=rows(x, c["nx"]), controls=rows(u, c["nu"]),
                                    times=[np.array(t, dtype=float).flatten().tolist()],
                                    parameters=[np.array(a, dtype=float).flatten(order="F").tolist()])))
    return rec


def execute(s):
    r = random.Random(s["seed"])
    c = s["c"]
    ad = s["kind"] == "mpopt_adaptive"
    k = len(c["orders"])
    st = "equal" if s["kind"] == "mpopt_h_adaptive" else "free"
    wid = [og.widths(r, k, st) for _ in range(c["np"])]
    u = one(c)
    us = [og.trajectory(r, u, ad, wid=wid) for _ in range(3)]
    f = factors(c, ad)
    zs = [[a * b for a, b in zip(z, f)] for z, _ in us]
    w = us[0][1]
    # size of the running-cost terms, for the tolerance of the objective
    mag = []
    for z, _ in us:
        b = max([1.0] + [abs(v) for v in z])
        mag.append(sum(abs(co) * b ** sum(e for _, e in fs) for q in c["lagr"] + c["mayer"] for co, fs in q))
    return dict(s=record(s, c, zs, w), o=record(s, u, [z for z, _ in us], w), mag=enc(mag))


def encode(s, rec):
    return dict(c=og.tla_problem(s["c"], s["kind"] == "mpopt_adaptive", s["lbh"], s["ubh"], s["tolr"], s["midres"]), **rec)


def features(s):
    return nlp.features(s) + ["scaling factor of " + k for k in ("x", "u", "a") if any(v != 1 for v in s["c"]["sc" + k])]


def sample(s, c):
    return dict(kind=s["kind"], scales={k: s["c"]["sc" + k] for k in "xuat"}, orders=s["c"]["orders"], scheme=s["c"]["scheme"])
