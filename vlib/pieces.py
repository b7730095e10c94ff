"""C30: the nonlinear program asked for piece by piece, as a whole, or built by hand before the solve."""
import random
from .core import enc
from . import ocpgen as og, nlp

RULE = ("random problems, meshes and optimisers as for C01-C07; the pieces (unknowns, rows and cost per phase, links, start values) asked "
        "for in random order and number, the whole program several times, or the solver created with given plug-in and options; on a new "
        "optimiser, after the whole program or a solve, or after a reset to another mesh")
ASSUMPTIONS = nlp.ASSUMPTIONS
OPTS = [("ipopt", {}), ("ipopt", {"ipopt.max_iter": 30}), ("ipopt", {"print_time": 1, "ipopt.tol": 1e-6}), ("sqpmethod", {}), ("sqpmethod", {"max_iter": 12})]


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    base = nlp.cases("C30", tier, seed)
    out = []
    for i, s in enumerate(base):
        P = s["c"]["np"]
        how = ["pieces", "whole", "pieces", "solver"][i % 4 if i < len(base) // 2 else r.randrange(4)]
        need = [["vars", p] for p in range(P)] + [["rows", p] for p in range(P)] + [["guess"]] + ([["links"]] if P > 1 else [])
        order = need + r.sample(need, r.randint(0, min(3, len(need))))
        r.shuffle(order)
        s.update(how=how, order=order, reps=r.choice([1, 1, 2, 3]), before=r.choice(["none", "none", "variables", "whole", "solve", "reset"]),
                 plugin=r.choice(OPTS), later=r.choice(OPTS))
        if s["kind"] == "mpopt_h_adaptive" and how == "solver" and s["plugin"][0] != "ipopt":
            s["plugin"] = OPTS[1]
        out.append(s)
    return out


def prepared(s):
    """The optimiser, in the state in which it is asked."""
    from .recorder import recording
    c = s["c"]
    if s["before"] != "reset":
        opt, ocp = nlp.build(s)
    else:
        other = [2, 1] if c["orders"] != [2, 1] else [1, 3, 1]
        opt, ocp = nlp.build({**s, "c": {**c, "orders": other}})
        opt.create_nlp()
        opt.poly_orders, opt.n_segments = list(c["orders"]), len(c["orders"])
        opt.reset_mpopt()
    if s["before"] == "variables":
        opt.create_variables()
    elif s["before"] == "whole":
        opt.create_nlp()
    elif s["before"] == "solve":
        with recording(stop):
            try:
                opt.solve()
            except nlp.Handed:
                pass
    return opt


def stop(*_):
    raise nlp.Handed


def execute(s):
    import numpy as np
    import casadi as ca
    from .recorder import recording, FakeSolver
    opt = prepared(s)
    ad = s["kind"] == "mpopt_adaptive"
    flat = lambda v: np.array(ca.DM(v) if isinstance(v, ca.DM) else v, dtype=float).flatten(order="F").tolist()
    built = {}
    if s["how"] == "solver":
        with recording(stop) as log:
            plugin, own = s["plugin"]
            for _ in range(s["reps"]):
                opt.create_solver(plugin, dict(own)) if s["style"] else opt.create_solver(solver=plugin, options=dict(own))
            n = len([e for e in log if e[0] == "create"])
            kw = dict(solver=s["later"][0], nlp_solver_options=dict(s["later"][1])) if s["later"] != s["plugin"] else {}
            try:
                opt.solve(**kw)
            except nlp.Handed:
                pass
        made = [e[1] for e in log if e[0] == "create"]
        rec = nlp.recorded(log, nlp.probes(s))
        # the solver that was called is the last one made by hand
        rec.update(built=dict(plugin=made[n - 1].plugin, opts={k: repr(v) for k, v in made[n - 1].options.items()},
                              again=len(made) - n, called=len(made[n - 1].calls)))
        return rec
    if s["how"] == "whole":
        for _ in range(s["reps"]):
            prob, b = opt.create_nlp()
        x0 = opt.initialize_solution()
    else:
        got = {}
        for q in s["order"]:
            got[tuple(q)] = (opt.get_nlp_variables(q[1]) if q[0] == "vars" else opt.discretize_phase(q[1]) if q[0] == "rows" else
                             opt.get_event_constraints() if q[0] == "links" else opt.initialize_solution())
        P = range(s["c"]["np"])
        v, g = [got["vars", p] for p in P], [got["rows", p] for p in P]
        x0 = got["guess",]
        ev = got.get(("links",), ([], [], []))
        cat = lambda parts: np.concatenate([np.array(flat(q)) for q in parts]) if parts else np.zeros(0)
        prob = dict(x=ca.vertcat(*[q[0] for q in v]), g=ca.vertcat(*[q[0] for q in g], *ev[0]), f=sum(q[3] for q in g), p=opt.seg_widths[:])
        b = dict(lbx=cat([q[1] for q in v]), ubx=cat([q[2] for q in v]), lbg=cat([q[1] for q in g] + list(ev[1])), ubg=cat([q[2] for q in g] + list(ev[2])))
    if ad:
        prob = {k: e for k, e in prob.items() if k != "p"}
    sol = FakeSolver([], "nlp", "none", prob, {}, None)
    rec = dict(nz=sol.nx, x0=enc(flat(x0)), f=[], g=[], **{k: enc(flat(b[k])) for k in ("lbx", "ubx", "lbg", "ubg")})
    for z, w in nlp.probes(s):
        f, g = sol.values(z, w) if len(z) == sol.nx else (float("nan"), [])
        rec["f"].append(enc(f))
        rec["g"].append(enc(g))
    return rec


def encode(s, rec):
    d = nlp.encode(s, rec)
    d["claim"] = "C30"
    d["own"] = {"plugin": s["plugin"][0], "opts": {k: repr(v) for k, v in s["plugin"][1].items()}}
    return d


def features(s):
    return nlp.features(s) + ["asked as " + s["how"], "before: " + s["before"]]


def sample(s, c):
    return dict(nlp.sample(s, c), how=s["how"], before=s["before"], order=s["order"])
