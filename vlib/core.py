"""Shared machinery: exact number encoding, worker processes that drive the real code, TLC runs."""
import fcntl, json, math, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, time, traceback
from multiprocessing.connection import wait as mpwait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MPOPT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLASSES = os.path.join(BUILD, "classes")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


# ---------------------------------------------------------------- numbers
def enc(x):
    """Numbers to exact strings "n/d", arrays to nested lists; TLA+ reads them with R."""
    if x is None:
        return "nan"
    if isinstance(x, bool):
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if hasattr(x, "full") and hasattr(x, "size1"):  # casadi DM
        return enc(x.full())
    if hasattr(x, "tolist"):
        return enc(x.tolist())
    if isinstance(x, int):
        return str(x)
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else f"{n}/{d}"


def flat(x):
    """Column-major flat list of floats of a casadi matrix, numpy array, list or scalar."""
    import numpy as np
    if hasattr(x, "full") and hasattr(x, "size1"):
        x = x.full()
    return [float(v) for v in np.array(x, dtype=float).flatten(order="F")]


# ---------------------------------------------------------------- driving the real code
def _worker(conn, family):
    os.environ.setdefault("MPLBACKEND", "Agg")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    import warnings
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib
    fam = importlib.import_module("vlib." + family)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        i, spec = job
        try:
            out = fam.execute(spec)
        except BaseException as e:  # verdict on it belongs to the specification
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if f.filename.startswith(REPO)]
            out = {"raised": f"{type(e).__name__}: {e}"[:300], "_tb": traceback.format_exc()[-1500:],
                   "_in_repo": bool(inside)}
        conn.send((i, out))


def cputime(pid):
    """Seconds of processor time a worker has used (a busy machine is no reason to give up on it)."""
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


class Pool:
    def __init__(self, family, timeout):
        self.family, self.timeout = family, timeout
        self.ctx = mp.get_context("spawn")

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.family), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.0, 0.0]

    def map(self, specs, nproc=NCPU):
        todo = list(range(len(specs)))[::-1]
        out = [None] * len(specs)
        ws = [self.spawn() for _ in range(min(nproc, max(1, len(specs))))]
        left = len(specs)
        while left:
            for w in ws:
                if w[2] is None and todo:
                    w[2] = todo.pop()
                    w[3], w[4] = time.time(), cputime(w[0].pid)
                    w[1].send((w[2], specs[w[2]]))
            ready = mpwait([w[1] for w in ws if w[2] is not None], timeout=0.5)
            for k, w in enumerate(ws):
                if w[2] is None:
                    continue
                if w[1] in ready:
                    try:
                        i, r = w[1].recv()
                        out[i] = r
                        w[2] = None
                        left -= 1
                    except (EOFError, ConnectionError):
                        out[w[2]] = {"raised": "the process running the real code died"}
                        left -= 1
                        w[0].join(5)
                        ws[k] = self.spawn()
                elif time.time() - w[3] > self.timeout and (cputime(w[0].pid) - w[4] > self.timeout or time.time() - w[3] > 4 * self.timeout):
                    out[w[2]] = {"raised": f"no answer within {self.timeout} s"}
                    left -= 1
                    w[0].kill()
                    w[0].join(5)
                    ws[k] = self.spawn()
        for w in ws:
            try:
                w[1].send(None)
            except Exception:
                pass
        for w in ws:
            w[0].join(2)
            if w[0].is_alive():
                w[0].kill()
        return out


# ---------------------------------------------------------------- TLC
class MachineryError(Exception):
    pass


def build_java():
    os.makedirs(CLASSES, exist_ok=True)
    srcs = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java")))]
    outs = [os.path.join(CLASSES, os.path.basename(f)[:-5] + ".class") for f in srcs]
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(s) for o, s in zip(outs, srcs)):
            return
        r = subprocess.run(["javac", "-cp", TLAJAR, "-d", CLASSES] + srcs, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac: " + r.stderr)


class TLC:
    """One TLC run in its own directory below build/run."""

    def __init__(self, tag):
        self.dir = os.path.join(BUILD, "run", f"{tag}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith((".tla", ".cfg", ".json")):
                shutil.copy(os.path.join(VERIF, "spec", f), self.dir)

    def write(self, name, obj):
        with open(os.path.join(self.dir, name), "w") as f:
            json.dump(obj, f)

    def run(self, module, cfg=None, timeout=800, workers=NCPU, extra=(), cfg_text=None, mem="6g"):
        build_java()
        cfg = cfg or module + ".cfg"
        if cfg_text is not None:
            open(os.path.join(self.dir, cfg), "w").write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + mem, "-cp", f"{CLASSES}:{TLAJAR}:{DEPS}",
               "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir",
               os.path.join(self.dir, "meta-" + os.path.basename(cfg)), "-config", cfg, *extra, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=self.dir, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC {module}/{cfg} took more than {timeout} s")
        out = "\n".join(l[:600] for l in r.stdout.splitlines() if not l.startswith(("Loading ", "Parsing ", "Semantic ", "Linting ")))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        return dict(rc=r.returncode, out=out, states=int(m.group(2)) if m else 0,
                    transitions=int(m.group(1)) if m else 0)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def parse_verdicts(out, n):
    """Verdict lines of a trace module: @R|case|clause... and exactly one @E|case|ACCEPT or REJECT."""
    rej = {i: [] for i in range(n)}
    end = {}
    notes = []
    for line in out.splitlines():
        m = re.match(r'^"@([REN])\|(\d+)\|(.*)"$', line)
        if not m:
            continue
        i, txt = int(m.group(2)) - 1, m.group(3)
        if m.group(1) == "R":
            rej[i].append(txt)
        elif m.group(1) == "N":
            notes.append((i, txt))
        else:
            if end.get(i, txt) != txt:
                raise MachineryError(f"conflicting verdicts for case {i}")
            end[i] = txt
    missing = [i for i in range(n) if i not in end]
    for i in end:
        if (end[i] == "REJECT") != bool(rej[i]):
            raise MachineryError(f"verdict of case {i} does not fit its clauses")
    return {i: sorted(set(rej[i])) for i in end}, [x for x in notes if x[0] in end], missing
