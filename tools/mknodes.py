# Writes spec/nodes.json: the interior nodes on [-1, 1] of LGR, LGL and CGL for degrees
# 1..24 as dyadic rationals with 2^-100 resolution.  NodesMC.tla verifies every entry.
import json, mpmath as mp
mp.mp.dps = 80
DMAX = 24
def q(x):
    n = int(mp.nint(x * 2**100))
    from math import gcd
    g = gcd(n, 2**100)
    return f"{n//g}/{2**100//g}"
out = {"LGR": [], "LGL": [], "CGL": []}
for d in range(1, DMAX + 1):
    for name, (a, b) in dict(LGR=(1, 0), LGL=(1, 1)).items():
        n = d - 1
        f = lambda x: mp.fsum(mp.binomial(n + a, n - s) * mp.binomial(n + b, s) * ((x - 1) / 2) ** s * ((x + 1) / 2) ** (n - s) for s in range(n + 1))
        N = 2000
        grid = [-mp.cos(mp.pi * (k + mp.mpf("0.3")) / N) for k in range(N)]
        v = [f(x) for x in grid]
        r = []
        for k in range(N - 1):
            if v[k] * v[k + 1] < 0:
                lo, hi = grid[k], grid[k + 1]
                for _ in range(150):
                    m = (lo + hi) / 2
                    lo, hi = (m, hi) if f(m) * v[k] > 0 else (lo, m)
                r.append((lo + hi) / 2)
        assert len(r) == n, (name, d, len(r))
        out[name].append([q(x) for x in r])
    out["CGL"].append([q(-mp.cos(mp.pi * j / d)) for j in range(1, d)])
json.dump(out, open("/verif/spec/nodes.json", "w"), indent=0)
