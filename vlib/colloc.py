"""C09-C11: records nodes and operators from the real Collocation objects."""
import random
from .core import enc

RULE = ("random schemes, degrees, normalised intervals, requested points and integration limits; a case is "
        "non-trivial when the recorded operator has at least two nodes")
ASSUMPTIONS = ["points and limits are dyadic rationals", "the numerical construction (monomial coefficients) is not asked for intervals far from zero, where it is ill-conditioned", "degrees up to 30 for nodes, up to 14 for operators"]
INTERVALS = [(-1, 1), (-1, 1), (0, 1), (0, 1), (-1, 0), (-2, 3), (0.5, 4), (0, 0.25), (10, 12)]
SCH = ["LGR", "LGL", "CGL"]


def dy(r, a, b):
    return round(r.uniform(a, b) * 64) / 64


def interval(r):
    """Any normalised interval, short or long, not in any special place."""
    lo = r.uniform(-3, 3)
    return lo, lo + 2 ** r.uniform(-4, 3)


def points(r, k, pick, most=3):
    """Requested points of k segments; often alike, but for a point or two."""
    base = [pick() for _ in range(r.randint(1, most))]
    out = []
    for _ in range(k):
        x = r.random()
        t = list(base) if x < .5 else [pick() for _ in range(r.randint(1, most))]
        if .1 < x < .5:
            t[r.randrange(len(t))] = pick()
        out.append([] if r.random() < .2 else t)
    return out


def like_nodes(r, lo, hi, d):
    """As many points as there are nodes, spread as these are, but others."""
    L = hi - lo
    f = [0] if r.random() < .6 else []
    f += [r.randint(1, 60) for _ in range((d + 1) // 2 - len(f))]
    p = sorted({lo + L * k / 128 for k in f} | {hi - L * k / 128 for k in f} | ({lo + L / 2} if d % 2 == 0 else set()))
    return p[::-1] if r.random() < .3 else p


def cases(prop, tier, seed):
    r = random.Random(f"{seed}/{prop}/{tier}")
    out = []
    big = tier == "thorough"
    if prop == "C09":
        for s in SCH:
            for d in range(1, 61 if big else 31):
                iv = [(-1, 1), (0, 1)] + ([r.choice(INTERVALS), interval(r)] if d < 12 or big else [])
                if d in (1, 2, 5):
                    iv = sorted(set(INTERVALS)) + [interval(r)]
                for lo, hi in iv:
                    out.append(dict(kind="nodes", scheme=s, d=d, lo=lo, hi=hi, via=r.choice(["roots", "fn", "colloc", "plain"])))
    if prop == "C10":
        n = 400 if big else 90
        for i in range(n):
            method = "numerical" if i % 3 == 2 else "symbolic"
            custom = i % 5 == 4
            lo, hi = r.choice(INTERVALS if method == "symbolic" else INTERVALS[:-1])
            d = 1 + i % 9 if i < 45 else r.randint(1, 14 if method == "symbolic" else 10)
            L = hi - lo
            roots = None
            if custom:
                d = min(d, 6)
                roots = [lo + L * (96 * k + r.randint(8, 88)) / (96 * (d + 1)) for k in range(d + 1)]
            pts = [lo + L * r.randint(0, 256) / 256 for _ in range(r.randint(1, 5))] + \
                  ([lo - L / 8] if r.random() < .3 else []) + ([hi + L / 8] if r.random() < .3 else []) + \
                  ([lo] if r.random() < .3 else []) + ([hi] if r.random() < .3 else [])
            if r.random() < .35:
                pts = like_nodes(r, lo, hi, d)
            lim = [[lo, hi]] + [[lo + L * a / 64, lo + L * b / 64] for a, b in
                                [(0, r.randint(1, 64)), tuple(r.sample(range(65), 2)), (r.randint(0, 63), 64)]]
            if r.random() < .3:
                c = lo + L * r.randint(0, 64) / 64
                lim.append([c, c])
            if r.random() < .3:
                lim.append([lo - L / 8, hi + L / 8])
            out.append(dict(kind="segment", scheme=r.choice(SCH), custom=custom, roots=roots, d=d, lo=lo, hi=hi,
                            method=method, pts=pts, lim=lim,
                            via=["direct", "tables", "lazy", "own tables"][(i + i // 4) % 4]))
    if prop == "C11":
        n = 300 if big else 70
        for i in range(n):
            k = [1, 2, 3, 4, 2, 5, 12, 3][i % 8]
            mx = 3 if k > 6 else 6
            orders = [r.randint(1, mx) for _ in range(k)] if i % 4 else [r.randint(1, mx)] * k
            lo, hi = r.choice(INTERVALS if i % 3 < 2 else INTERVALS[:-1])
            L = hi - lo
            if i % 4 == 1:  # few different degrees
                few = [r.randint(1, mx), r.randint(1, mx)]
                orders = [r.choice(few) for _ in range(k)]
            taus = points(r, k, lambda: lo + L * r.randint(0, 128) / 128)
            if r.random() < .3:
                taus = [like_nodes(r, lo, hi, d) if r.random() < .6 else t for d, t in zip(orders, taus)]
            a, b = sorted(r.sample(range(65), 2))
            full = r.random() < .7
            out.append(dict(kind="composite", scheme=r.choice(SCH), orders=orders, lo=lo, hi=hi,
                            method="numerical" if i % 3 == 2 else "symbolic", taus=taus,
                            qa=lo if full else lo + L * a / 64, qb=hi if full else lo + L * b / 64, full=full,
                            explicit=r.random() < .4))
    return out


def execute(s):
    import numpy as np
    from mpopt import mp
    mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = s["lo"], s["hi"]
    mp.Collocation.D_MATRIX_METHOD = s.get("method", "symbolic")
    if s["kind"] == "nodes":
        if s["via"] == "roots":
            c = mp.Collocation([s["d"]], s["scheme"])
            n = c.roots[s["d"]]
        elif s["via"] == "fn":
            c = mp.Collocation([2], s["scheme"])
            n = c._taus_fn(s["d"])
        elif s["via"] == "plain":
            c = mp.Collocation([1], s["scheme"])
            name = dict(LGR="roots_legendre_gauss_radau", LGL="roots_legendre_gauss_lobatto", CGL="roots_chebyshev_gauss_lobatto")[s["scheme"]]
            plain = getattr(mp.CollocationRoots, name, None)
            lim = {} if (s["lo"], s["hi"]) == (-1, 1) else dict(tau_min=s["lo"], tau_max=s["hi"])
            n = (plain(**lim) if plain else c._taus_fn)(s["d"])
        else:
            c = mp.Collocation([1], s["scheme"])
            n = mp.CollocationRoots(s["scheme"])._taus_fn(s["d"])
        return dict(nodes=enc(np.array(n)), tau0=enc(c.tau0), tau1=enc(c.tau1))
    if s["kind"] == "segment":
        if s["custom"]:
            c = mp.Collocation([2], s["scheme"])
            key = "own"
            c.init_polynomials_with_customized_roots({key: np.array(s["roots"])})
        else:
            key = s["d"]
            c = mp.Collocation([key + 1, 1] if s["via"] == "lazy" else [key], s["scheme"])
        if s["via"] == "lazy" and not s["custom"]:  # whichever operator is asked for first brings up the degree
            [c.get_quadrature_weights, c.get_diff_matrix, lambda k: c.get_interpolation_matrix([s["lo"]], k)][len(s["pts"]) % 3](key)
        tables = "tables" in s["via"]
        keys = () if s["via"] == "own tables" and not s["custom"] else ([key],)
        W = []
        for a, b in s["lim"]:
            lim = {} if (a, b) == (s["lo"], s["hi"]) else dict(tau0=a, tau1=b)
            w = c.get_quad_weight_matrices(*keys, **lim)[key] if tables else c.get_quadrature_weights(key, **lim)
            W.append(dict(a=enc(a), b=enc(b), w=enc(np.array(w).flatten())))
        p = np.array(s["pts"])
        if tables:
            at = dict(keys=[key]) if keys else {}
            D1, D2 = c.get_diff_matrices(*keys)[key], c.get_diff_matrices(*keys, order=2)[key]
            nodes = np.array(c.roots[key])
            return dict(nodes=enc(nodes), D1=enc(D1), D2=enc(D2),
                        P1=enc(c.get_interpolation_Dmatrices_at([p], **at)[0]),
                        P2=enc(c.get_interpolation_Dmatrices_at([p], order=2, **at)[0]),
                        I=enc(c.get_interpolation_matrices([p], *keys)[0]),
                        In=enc(c.get_interpolation_matrices([nodes], *keys)[0]), W=W)
        nodes = np.array(c.roots[key])
        return dict(nodes=enc(nodes), D1=enc(c.get_diff_matrix(key)), D2=enc(c.get_diff_matrix(key, order=2)),
                    P1=enc(c.get_diff_matrix(key, taus=p)), P2=enc(c.get_diff_matrix(key, taus=p, order=2)),
                    I=enc(c.get_interpolation_matrix(p, key)), In=enc(c.get_interpolation_matrix(nodes, key)), W=W)
    if s["kind"] == "composite":
        o = s["orders"]
        sc = [] if s["scheme"] == "LGR" and len(o) % 2 else [s["scheme"]]      # LGR unless told otherwise
        c = mp.Collocation(o[::-1] + [1] if s["explicit"] else o, *sc)
        po = (o,) if s["explicit"] else ()
        ko = dict(poly_orders=o) if s["explicit"] else {}
        taus = [np.array(t) for t in s["taus"]]
        lim = {} if s["full"] else dict(tau0=s["qa"], tau1=s["qb"])
        D2 = c.get_composite_differentiation_matrix(order=2, **ko)
        return dict(D1=enc(c.get_composite_differentiation_matrix(**ko)), D2=enc(D2),
                    I=enc(c.get_composite_interpolation_matrix(taus, *po)),
                    P1=enc(c.get_composite_interpolation_Dmatrix_at(taus, *po)),
                    P2=enc(c.get_composite_interpolation_Dmatrix_at(taus, *po, order=2)),
                    W=enc(np.array(c.get_composite_quadrature_weights(**ko, **lim)).flatten()))


def encode(s, rec):
    c = dict(kind=s["kind"], scheme=s["scheme"], lo=enc(s["lo"]), hi=enc(s["hi"]), **rec)
    if "d" in s:
        c["d"] = s["d"]
    tol = 1e-8 if s.get("method") == "numerical" else 1e-9
    c.update(tol=enc(tol), qtol=enc(1e-4))
    if s["kind"] == "segment":
        c["pts"] = enc(s["pts"])
        if s["custom"]:
            c["scheme"] = "custom"
    if s["kind"] == "composite":
        c.update(orders=s["orders"], taus=enc(s["taus"]), qa=enc(s["qa"]), qb=enc(s["qb"]))
    c["raises"] = {"nodes": "C09", "segment": "C10", "composite": "C11"}[s["kind"]]
    return c


def features(s):
    f = [s["scheme"], s["kind"], f"interval[{s['lo']},{s['hi']}]", s.get("method", "")]
    if s.get("custom"):
        f.append("user nodes")
    if "via" in s:
        f.append("via " + s["via"])
    if s["kind"] == "composite":
        f.append(f"{len(s['orders'])} segments")
        if any(not t for t in s["taus"]):
            f.append("segment without points")
    return [x for x in f if x]


def sample(s, c):
    return {k: v for k, v in s.items()}
