"""Stands in for casadi.nlpsol: records the problem, options and calls, returns scripted answers."""
import contextlib


class FakeSolver:
    def __init__(self, log, name, plugin, nlp, options, answer):
        import casadi as ca
        self.log, self.plugin, self.nlp, self.options, self.answer = log, plugin, dict(nlp), dict(options), answer
        self.calls = []
        x = nlp["x"]
        p = nlp.get("p", ca.SX.sym("nop", 0))
        f = nlp.get("f", ca.SX(0))
        g = nlp.get("g", ca.SX.sym("nog", 0))
        self.has_p = "p" in nlp
        self.np_ = p.numel()
        self.fun = ca.Function("fg", [x, p], [f, g])
        self.nx, self.ng = x.shape[0], g.shape[0]

    def __call__(self, **kw):
        import casadi as ca
        import numpy as np
        snap = {k: np.array(ca.DM(v) if not isinstance(v, (list, tuple)) else v, dtype=float).flatten(order="F").tolist()
                for k, v in kw.items()}
        for k, v in snap.items():  # what casadi accepts
            n = self.ng if k in ("lbg", "ubg", "lam_g0") else self.np_ if k in ("p", "lam_p0") else self.nx
            if len(v) not in (n, 1, 0):
                raise RuntimeError(f"solver input {k} has {len(v)} entries instead of {n}")
        self.calls.append(snap)
        self.log.append(("call", self, snap))
        z = self.answer(self, snap) if self.answer else snap.get("x0", [0.0] * self.nx)
        if isinstance(z, dict):
            return z
        p = snap.get("p", [])
        f, g = self.fun(ca.DM(z), ca.DM(p) if len(p) else ca.DM.zeros(0, 1))
        k = len(self.calls)
        lx, lg = [0.5 + k + i for i in range(self.nx)], [0.25 + k + i for i in range(self.ng)]
        self.log.append(("answer", self, dict(z=[float(v) for v in z], lamx=lx, lamg=lg)))
        return {"x": ca.DM(z), "f": f, "g": g, "lam_x": ca.DM(lx),
                "lam_g": ca.DM(lg), "lam_p": ca.DM.zeros(self.np_, 1)}

    def values(self, z, w):
        import casadi as ca
        f, g = self.fun(ca.DM(z), ca.DM(w) if self.has_p else ca.DM.zeros(0, 1))
        return float(f), [float(v) for v in g.full().flatten(order="F")]


@contextlib.contextmanager
def replaced(new):
    """casadi.nlpsol, however the code under test refers to it, is new(original) for a while."""
    import sys
    import mpopt.mpopt
    import casadi as ca
    orig = ca.nlpsol
    fun = new(orig)
    places = [vars(ca)] + [vars(m) for n, m in list(sys.modules.items()) if n.split(".")[0] == "mpopt" and m is not None]
    places = [(d, k) for d in places for k, v in d.items() if v is orig]
    for d, k in places:
        d[k] = fun
    try:
        yield
    finally:
        for d, k in places:
            d[k] = orig


@contextlib.contextmanager
def recording(answer=None):
    """Yields the log: ("create", solver) and ("call", solver, inputs) entries."""
    log = []

    def stand_in(orig):
        def nlpsol(name, plugin, nlp, options=None):
            s = FakeSolver(log, name, plugin, nlp, options or {}, answer)
            log.append(("create", s))
            return s
        return nlpsol
    with replaced(stand_in):
        yield log
