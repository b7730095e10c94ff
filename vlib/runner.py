"""Runs the check of one property: generate cases, drive the real code, let TLC judge the recordings."""
import argparse, importlib, json, os, random, re, sys, time, traceback
from . import core
from .core import TLC, Pool, MachineryError, parse_verdicts, VERIF, BUILD
from .registry import CHECKS


# TLC stopped because an expression has no value in the states of some recording / because of its surroundings
EVALUATION = re.compile(r"(?i)attempted to|evaluating|was not in the domain|out of (its )?(domain|range|bounds)|nested expressions|not a function|case .* (no|none)|assert|in evaluation|not enumerable|overridden")
FATAL = re.compile(r"OutOfMemory|StackOverflow|Parse Error|Semantic error|Unknown operator|could not be found|No space left")


def known_findings():
    """Open findings: lines 'finding: property=<id> case=<key> clause=<clause> <what>'."""
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) case=(\S+) clause=(\S+) (.*)", l)
            if m:
                res.append(m.groups())
    except FileNotFoundError:
        pass
    return res


def verdicts(t, trace, cases, prop):
    """TLC's verdict on every recording.  A recording on which a clause cannot even be evaluated (an index out of range, a
    value where a sequence is due) is not a behaviour of the specification: it is singled out and rejected."""
    rej, notes, states, trans, first = {}, [], 0, 0, None
    todo, runs, odd = [list(range(len(cases)))], 0, False
    while todo:
        part = todo.pop()
        t.write("cases.json", [cases[i] for i in part])
        res = t.run(trace)
        runs += 1
        states, trans = states + res["states"], trans + res["transitions"]
        try:
            got, n, missing = parse_verdicts(res["out"], len(part))
        except MachineryError as e:
            raise MachineryError(f"{e}\n{res['out'][-3000:]}")
        rej.update({part[i]: v for i, v in got.items()})
        notes += [(part[i], x) for i, x in n]
        if res["rc"] == 0 and not missing:
            continue
        if not EVALUATION.search(res["out"]) or not missing or FATAL.search(res["out"]):
            raise MachineryError(f"no verdict for cases {missing[:10]} of {len(part)}, TLC exit {res['rc']}\n{res['out'][-3000:]}")
        first = first or res["out"][-1500:]
        if len(part) == 1:
            rej[part[0]] = [f"{prop}.not a behaviour of the specification"]
            odd = True
            if os.environ.get("VERIF_DEBUG"):
                print(res["out"][-1500:])
            continue
        rest = [part[i] for i in missing]
        if odd and runs > 12:        # enough is known
            rej.update({i: [] for i in rest})
            continue
        # depth first: the first half is taken apart before the second
        todo += [h for h in (rest[len(rest) // 2:], rest[:len(rest) // 2]) if h]
    return rej, notes, dict(states=states, transitions=trans)


def judge(prop, family, trace, specs, tag, timeout=120):
    """Drives the real code on every spec and lets TLC judge the recordings."""
    fam = importlib.import_module("vlib." + family)
    t0 = time.time()
    recs = Pool(family, timeout).map(specs)
    t1 = time.time()
    cases = []
    for s, r in zip(specs, recs):
        c = None
        if "raised" not in r:
            try:
                c = fam.encode(s, r)
            except Exception as e:   # what was recorded is not even of the form the specification speaks about
                r["raised"], r["_tb"] = f"unexpected form of results: {type(e).__name__}: {e}"[:300], traceback.format_exc()[-1500:]
        if c is None:
            c = {**fam.encode(s, {}), "raised": r["raised"]}
        c.setdefault("raises", prop)
        cases.append(c)
    t = TLC(tag)
    keep = os.environ.get("VERIF_KEEP")
    try:
        rej, notes, res = verdicts(t, trace, cases, prop)
        if os.environ.get("VERIF_DEBUG"):
            print(f"{family}: driving {t1 - t0:.1f} s, judging {time.time() - t1:.1f} s")
    finally:
        if not keep:
            t.close()
    return recs, cases, rej, notes, res


def design_checks(design, tag):
    t = TLC(tag)
    des = []
    try:
        for module, cfg in design:
            d = t.run(module, cfg)
            if d["rc"] != 0:
                raise MachineryError(f"design check {module}/{cfg} failed\n{d['out'][-4000:]}")
            des.append((module, cfg, d["states"], d["transitions"]))
    finally:
        t.close()
    return des


def example(fam, s, c):
    try:
        return fam.sample(s, c)
    except Exception:
        return dict(note="recording of unexpected form")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop, chk = a.prop, CHECKS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    tag = f"{prop}-{tier}"
    if a.replay:
        stored = json.load(open(a.replay))["specs"]
        parts = [(f, t, [x["spec"] for x in stored if x["part"] == f]) for f, t in chk["parts"]]
        design = []
    else:
        parts = [(f, t, importlib.import_module("vlib." + f).cases(prop, tier, a.seed)) for f, t in chk["parts"]]
        design = chk["design"][tier]
    specs, recs, cases, rej, notes, fams, traces = [], [], [], {}, [], [], []
    for f, t, sp in parts:
        if not sp:
            continue
        r = judge(prop, f, t, sp, f"{tag}-{f}", chk.get("timeout", 120))
        o = len(specs)
        specs += sp
        recs += r[0]
        cases += r[1]
        rej.update({o + i: c for i, c in r[2].items()})
        notes += [(o + i, x) for i, x in r[3]]
        fams += [importlib.import_module("vlib." + f)] * len(sp)
        traces.append(dict(module=t, states=r[4]["states"], transitions=r[4]["transitions"]))
    des = design_checks(design, tag + "-design")
    states = sum(t["states"] for t in traces)
    mine = {i: [c for c in cl if c.startswith(prop + ".")] for i, cl in rej.items()}
    other = sorted({c for i, cl in rej.items() for c in cl if not c.startswith(prop + ".")})
    known, fresh = [], {}
    kf = known_findings()
    for i, cl in mine.items():
        for c in cl:
            hit = [k for k in kf if k[0] == prop and k[1] == str(specs[i].get("key")) and c.startswith(prop + "." + k[2])]
            if hit:
                known.append(f"KNOWN-FINDING: property={prop} {hit[0][3]}")
            else:
                fresh.setdefault(i, []).append(c)
    for k in sorted(set(known)):
        print(k)
    exercised = {}
    for s, fam in zip(specs, fams):
        for k in fam.features(s):
            exercised[k] = exercised.get(k, 0) + 1
    wall = time.time() - t0
    accepted = sum(1 for i in rej if not mine[i])
    ev = dict(property=prop, tier=tier, seed=a.seed, level="model_checking",
              coverage=dict(states=states + sum(d[2] for d in des),
                            transitions=sum(t["transitions"] for t in traces) + sum(d[3] for d in des),
                            traces_validated_against_impl=accepted,
                            evaluations=len(specs),
                            distinct_nontrivial=len({json.dumps(core.enc(s), sort_keys=True) for s in specs}),
                            rule="; ".join(dict.fromkeys(f.RULE for f in fams)),
                            samples=[example(fams[i], specs[i], cases[i]) for i in sorted({0, len(specs) // 2, len(specs) - 1})],
                            trace_modules=traces,
                            design_modules=[dict(module=d[0], cfg=d[1], states=d[2], transitions=d[3]) for d in des],
                            features=exercised,
                            clauses_of_other_properties_seen=other),
              assumptions=list(dict.fromkeys(x for f in fams for x in f.ASSUMPTIONS)),
              wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.replay:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if a.verbose or os.environ.get("VERIF_DEBUG"):
        for i, cl in rej.items():
            if cl:
                print(i, specs[i].get("kind"), cl[:6], recs[i].get("raised", ""), recs[i].get("_tb", ""))
        for i, n in notes[:50]:
            print("note", i, n)
    print(f"{prop}: {len(specs)} recorded cases, {states} trace states, "
          f"{sum(d[2] for d in des)} design states, {len(fresh)} violating, {wall:.1f} s")
    if fresh:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        path = os.path.join(BUILD, "replay", f"{prop}.json") if not a.replay else a.replay
        if not a.replay:
            json.dump(dict(property=prop, seed=a.seed, tier=tier,
                           specs=[dict(part=fams[i].__name__.split('.')[-1], spec=specs[i]) for i in sorted(fresh)][:20],
                           clauses=[fresh[i] for i in sorted(fresh)][:20],
                           raised=[recs[i].get("_tb") or recs[i].get("raised") for i in sorted(fresh)][:20]),
                      open(path, "w"), indent=1)
        for c in sorted({c for cl in fresh.values() for c in cl})[:20]:
            print("  failed clause:", c)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except MachineryError as e:
        print("machinery error:", e)
        sys.exit(3)
