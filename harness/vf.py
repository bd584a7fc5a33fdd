"""Shared machinery of the checks: running TLC, collecting behaviours,
validating recorded traces, evidence, violations and known findings.

Runs under the repository's interpreter; everything the verdicts rest on is in
the TLA+ modules of ../spec, this file only moves data around."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
REPO = "/repo"
CP = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
SCALE = 10000
BAD = 2000000000
NCPU = 8
CASE_S = 120  # a library call that takes this long hangs


def tier_from_argv():
    return "thorough" if "--thorough" in sys.argv else "quick"


def tla(v):
    """Python value -> TLA+ literal (for .cfg constants)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise TypeError(type(v))


class ToolError(RuntimeError):
    """The machinery itself failed (never a verdict about the code)."""


_UN = re.compile(r'\\(["\\])')


def _unquote(line):
    """TLC prints strings quoted; undo it."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        return _UN.sub(r"\1", line[1:-1])
    return line


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.lines = [_unquote(x) for x in out.splitlines()]
        m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
        self.generated, self.distinct = (
            (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        )
        if not m:
            m = re.findall(r"number of states generated: (\d+)", out)
            m = m or re.findall(r"Progress: (\d+) states checked", out)
            if m:
                self.generated = self.distinct = int(m[-1])

    def tagged(self, tag):
        t = tag + " "
        return [x[len(t):] for x in self.lines if x.startswith(t)]

    def json(self, tag):
        return [json.loads(x) for x in self.tagged(tag)]


def run_tlc(module, consts=None, spec=None, invariants=(), properties=(),
            post=None, constraint=None, simulate=None, depth=None, seed=None,
            workers=1, timeout=800, deadlock=False, mem="3g", alias=None,
            ok_codes=(0,)):
    """Run TLC on spec/<module>.tla.  Raises ToolError when TLC reports an
    error of the SPECIFICATION (violated invariant, evaluation error)."""
    tmp = tempfile.mkdtemp(prefix="tlc_")
    try:
        cfg = ["SPECIFICATION " + spec] if spec else []
        if consts:
            cfg.append("CONSTANTS")
            cfg += ["  %s = %s" % (k, tla(v)) for k, v in consts.items()]
        cfg += ["INVARIANT " + i for i in invariants]
        cfg += ["PROPERTY " + p for p in properties]
        if post:
            cfg.append("POSTCONDITION " + post)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        cfgf = os.path.join(tmp, "m.cfg")
        with open(cfgf, "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m",
               "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(tmp, "md"),
               "-workers", str(workers), "-config", cfgf]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed), "-fp", "1"]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        try:
            p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        out = p.stdout.decode("utf-8", "replace")
        res = Result(out, p.returncode)
        if p.returncode not in ok_codes:
            keep = [x for x in out.splitlines()
                    if not x.startswith('"') and len(x) < 2000]
            err = [i for i, x in enumerate(keep) if x.startswith("Error")]
            if err:
                keep = keep[err[0]:err[0] + 40] + ["..."] + keep[-40:]
            err = ToolError("TLC rc=%d on %s\n%s" % (
                p.returncode, module, "\n".join(keep[-100:])))
            err.full = out
            raise err
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def pmap(fn, items, n=NCPU):
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------ driving the code
PYENV = dict(
    os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
    PYTHONPATH=REPO + os.pathsep + HERE, PYTHONWARNINGS="ignore",
    NUMBA_NUM_THREADS="1",
)
PY = sys.executable


def drive(driver, cases, nproc=NCPU, timeout=700):
    """Replay `cases` (list of json objects) on the real library with
    harness/<driver>.py: one worker process per chunk; returns the recorded
    traces in order.  A driver that dies on a case is a ToolError."""
    if not cases:
        return []
    nproc = max(1, min(nproc, (len(cases) + 3) // 4))
    tmp = tempfile.mkdtemp(prefix="drv_")
    try:
        chunks = [list(range(i, len(cases), nproc)) for i in range(nproc)]
        procs = []
        for i, ix in enumerate(chunks):
            fi, fo = (os.path.join(tmp, "%s%d" % (n, i)) for n in ("in", "out"))
            with open(fi, "w") as f:
                for j in ix:
                    f.write(json.dumps(cases[j]) + "\n")
            procs.append((ix, fo, subprocess.Popen(
                [PY, os.path.join(HERE, driver + ".py"), fi, fo], cwd=tmp,
                env=PYENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        out = [None] * len(cases)
        end = time.time() + timeout
        try:
            for ix, fo, p in procs:
                try:
                    _, err = p.communicate(timeout=max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    raise ToolError("driver timed out")
                if p.returncode:
                    raise ToolError("driver %s failed: %s" % (
                        driver, err.decode()[-3000:]))
                with open(fo) as f:
                    for j, line in zip(ix, f):
                        out[j] = json.loads(line)
        finally:
            for _, _, p in procs:
                if p.poll() is None:
                    p.kill()
        if any(o is None for o in out):
            raise ToolError("driver lost a case")
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def validate(module, traces, consts=None, chunks=NCPU, spec="TSpec",
             timeout=700, mem="3g"):
    """Check recorded traces against spec/<module>.tla.  Returns
    (fails, stats) with fails = [(trace index, step, clause)]."""
    n = max(1, min(chunks, (len(traces) + 19) // 20))
    parts = [list(range(i, len(traces), n)) for i in range(n)]
    tmp = tempfile.mkdtemp(prefix="val_")

    def one(i):
        fn = os.path.join(tmp, "t%d.ndjson" % i)
        with open(fn, "w") as f:
            for j in parts[i]:
                f.write(json.dumps(traces[j]) + "\n")
        c = dict(consts or {})
        c["TRACEFILE"] = fn
        fails, ids = [], list(parts[i])
        while True:
            try:
                r = run_tlc(module, c, spec=spec, post="Consumed",
                            timeout=timeout, mem=mem)
                break
            except ToolError as e:
                # verdicts are total: an execution the specification cannot
                # even evaluate (overflow, missing field) is rejected
                m = re.search(r"^/\\ tr = (\d+)$", getattr(e, "full", ""), re.M)
                if not m:
                    raise
                if len(fails) > 5:
                    return fails, 0, 0
                j = ids.pop(int(m.group(1)) - 1)
                fails.append({"i": j, "step": 0,
                              "clause": "not-a-behaviour-of-the-model",
                              "detail": str(e)[:300]})
                if not ids:
                    return fails, 0, 0
                with open(fn, "w") as f:
                    for j in ids:
                        f.write(json.dumps(traces[j]) + "\n")
        con = r.tagged("CONSUMED")
        if len(con) != 1:
            raise ToolError("no CONSUMED line from " + module)
        got, tot = map(int, con[0].split())
        for x in r.json("FAIL"):
            t = {"i": ids[x["tr"] - 1], "step": x["step"],
                 "clause": x["clause"]}
            if t not in fails:
                fails.append(t)
        if not fails and got != tot:
            raise ToolError("%s: consumed %d of %d recorded steps" % (
                module, got, tot))
        return fails, r.distinct, r.generated

    try:
        res = pmap(one, range(n))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    fails = sorted((f for r in res for f in r[0]), key=lambda f: f["i"])
    return fails, {"states": sum(r[1] for r in res),
                   "transitions": sum(r[2] for r in res)}


# ------------------------------------------------------------ results
class Check:
    """Collects what one property check explored and reports the verdict."""

    def __init__(self, prop, level="model_checking", tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or tier_from_argv()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.spec_states = 0
        self.samples, self.viol, self.known = [], [], []
        self.assumptions, self.extra = [], {}
        self.actions = {}

    def add_spec(self, res):
        self.spec_states += res.distinct
        self.states += res.distinct
        self.transitions += res.generated

    def judge(self, module, traces, consts=None, driver=None, cases=None,
              known=None, label=None):
        """Validate traces; classify failures."""
        if not traces:
            raise ToolError("nothing to validate for " + module)
        live = [i for i, t in enumerate(traces) if "crash" not in t]
        crashed = [{"i": i, "step": 0, "clause": "library-raises"}
                   for i, t in enumerate(traces) if "crash" in t]
        fails, st = [], {"states": 0, "transitions": 0}
        if live:
            fails, st = validate(module, [traces[i] for i in live], consts)
            fails = [dict(f, i=live[f["i"]]) for f in fails]
        fails = crashed + fails
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.traces += len(traces)
        self.samples.append(_shorten(traces[SEED % len(traces)]))
        seen = set()
        for f in fails:
            case = (cases or traces)[f["i"]]
            k = known_for(self.prop, case, traces[f["i"]], f) 
            if k:
                if k not in self.known:
                    self.known.append(k)
                continue
            sig = (f["clause"],)
            if sig in seen and len(self.viol) > 20:
                continue
            seen.add(sig)
            self.viol.append({"module": module, "driver": driver,
                              "consts": _jsonable(consts), "step": f["step"],
                              "clause": f["clause"], "case": case,
                              "trace": traces[f["i"]]})
        if live and not fails:
            self.probe(module, [traces[i] for i in live], consts)
        return fails

    def probe(self, module, traces, consts, n=40):
        """Is the binding alive?  Corrupt one recorded value in each of n
        traces: the specification must notice (not always: some recorded
        values are not constrained, e.g. of an observation it skips)."""
        import copy
        import random

        rnd = random.Random(SEED)
        bent = []
        for t in rnd.sample(traces, min(n, len(traces))):
            t = copy.deepcopy(t)
            leaves = []
            for st in t.get("steps", t.get("o", [])):
                if not isinstance(st, dict):
                    continue
                for part in ((st.get("obs"), st.get("ret")) if "obs" in st
                             else (st,)):
                    _leaves(part, leaves)
            if leaves:
                c, k = rnd.choice(leaves)
                c[k] = (not c[k]) if isinstance(c[k], bool) else c[k] + 30000
                bent.append(t)
        if not bent:
            return
        fails, _ = validate(module, bent, consts, chunks=2)
        got = len({f["i"] for f in fails})
        d = self.extra.setdefault("corrupted_observations", {})
        d[module] = {"corrupted": len(bent), "rejected": got}
        if not got:
            raise ToolError("the binding of %s is vacuous" % module)

    def finish(self):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:4],
               "spec_states_explored": self.spec_states}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(wall, 2),
              "assumptions": self.assumptions, "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.viol:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            shown = set()
            for i, v in enumerate(self.viol):
                if v["clause"] in shown:
                    continue
                shown.add(v["clause"])
                p = os.path.join(ROOT, "replays", "%s_%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump(v, f)
                print("clause %s (step %d): %s" % (
                    v["clause"], v["step"],
                    json.dumps(v["case"])[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.stdout.flush()
            return 1
        print("%s: held on %d traces, %d spec states, %.1fs" % (
            self.prop, self.traces, self.states, wall))
        return 0


def _leaves(x, out):
    it = x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
    for k, v in it:
        if isinstance(v, (dict, list)):
            _leaves(v, out)
        elif isinstance(v, (bool, int)):
            out.append((x, k))


def _jsonable(c):
    return {k: sorted(v) if isinstance(v, (set, frozenset)) else v
            for k, v in (c or {}).items()}


def _shorten(t, n=1500):
    s = json.dumps(t)
    return t if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------ known findings
def load_known():
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    out.append(json.loads(line[7:]))
    return out


def known_for(prop, case, trace, fail):
    """A finding matches when its property, clause and every field of its
    `where` (dotted paths into the case) are equal: a different violation of
    the same property is still reported."""
    for k in load_known():
        if k["property"] != prop:
            continue
        if k["clause"] != fail["clause"]:
            continue
        ok = True
        for path, val in k.get("where", {}).items():
            cur = case
            try:
                for part in path.split("."):
                    cur = cur[int(part)] if isinstance(cur, list) else cur[part]
            except (KeyError, IndexError, ValueError, TypeError):
                ok = False
                break
            if cur != val:
                ok = False
                break
        if ok:
            return k["what"]
    return None


# ------------------------------------------------------------ recording helpers
def fx(v, scale=SCALE):
    """fixed-point image of a float (BAD when it is not representable)."""
    v = float(v)
    if v != v or v in (float("inf"), float("-inf")) or abs(v) * scale >= 1.9e9:
        return BAD
    return int(round(v * scale))


def fxc(z, scale=SCALE):
    z = complex(z)
    return [fx(z.real, scale), fx(z.imag, scale)]


def worker(fn):
    """main() of a driver: map fn over the ndjson file argv[1] -> argv[2]."""
    import warnings
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import pydmd

    if not os.path.realpath(pydmd.__file__).startswith(REPO + "/"):
        raise SystemExit("pydmd not imported from " + REPO)
    import signal
    import traceback

    class Hang(Exception):
        pass

    def hang(*_):
        raise Hang("no answer within %d s" % CASE_S)

    signal.signal(signal.SIGALRM, hang)
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as g:
        for line in f:
            signal.setitimer(signal.ITIMER_REAL, CASE_S, 5)
            try:
                out = fn(json.loads(line))
            except Exception as e:  # noqa
                fr = traceback.extract_tb(e.__traceback__)
                if not any(x.filename.startswith(REPO + "/") for x in fr):
                    raise
                # the library failed where no step could record it
                out = {"crash": "%s: %s at %s:%d" % (
                    type(e).__name__, str(e)[:200], fr[-1].filename,
                    fr[-1].lineno or 0)}
            g.write(json.dumps(out) + "\n")
