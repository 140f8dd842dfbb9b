"""Shared machinery: TLC runs, trace recording, verdicts, evidence.

Nothing in here knows what a property means: that is in /verif/spec.  This file
runs TLC on the models, hands the scenarios TLC emits to workers that execute
them on the real pointpats, and lets TLC judge the recorded traces.
"""

import concurrent.futures as cf
import hashlib
import importlib
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("POINTPATS_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
def tlc(module, cfg, workdir, env=None, args=(), timeout=800, heap="1500m", deadlock=False):
    meta = tempfile.mkdtemp(prefix="meta-", dir=workdir)
    cmd = [
        "java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1" if "-simulate" not in args else "-XX:+TieredCompilation",
        f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
        "-workers", "1", "-noGenerateSpecTE", "-metadir", meta,
        "-config", cfg,
    ]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        rc = -9
    shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(x for x in out.splitlines() if not x.startswith(
        ("Parsing file", "Semantic proc", "Linting of", "(Use the", "Warning: Please run")))
    return rc, out


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
_SIM = re.compile(r"The number of states generated: (\d+)")


def stats(out):
    m = _STATS.findall(out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = _SIM.findall(out)
    if m:
        return int(m[-1]), int(m[-1])
    return 0, 0


def lines(out, tag):
    """Payloads of PrintT("<tag> ..." ) lines."""
    pre = '"' + tag + " "
    for ln in out.splitlines():
        if ln.startswith(pre):
            yield json.loads(ln)[len(tag) + 1:]


class Model:
    """An exhaustive (or simulated) TLC run of a specification.

    cfg may be given as a dict of constants per tier, in which case the .cfg is
    written from it; emits=True means the run prints "SCN <json>" scenarios.
    """

    def __init__(self, module, cfg, emits=False, args=(), thorough_cfg=None,
                 thorough_args=None, timeout=700, refutes=False):
        # refutes: the configuration holds a deliberately broken design that TLC
        # must reject (shows that the property is not vacuous in the model)
        self.refutes = refutes
        self.module, self.cfg, self.emits = module, cfg, emits
        self.args, self.thorough_cfg = args, thorough_cfg
        self.thorough_args = thorough_args
        self.timeout = timeout

    def run(self, tier, seed, workdir):
        cfg = self.thorough_cfg if tier == "thorough" and self.thorough_cfg else self.cfg
        args = self.thorough_args if tier == "thorough" and self.thorough_args else self.args
        args = [a.replace("$SEED", str(seed)) for a in args]
        t = time.time()
        rc, out = tlc(self.module, cfg, workdir, args=args, timeout=self.timeout)
        if self.refutes:
            ok = rc in (12, 13) and "is violated" in out
        else:
            ok = rc == 0 and ("No error has been found" in out or "-simulate" in args)
            if "-simulate" in args and "Error:" in out:
                ok = False
        if not ok:
            raise MachineryError(
                f"TLC rejected model {self.module} ({cfg}), rc={rc}:\n" + out[-4000:])
        st, tr = stats(out)
        return {
            "module": self.module, "cfg": cfg, "broken_design_refuted": self.refutes, "states": st, "transitions": tr,
            "wall_s": round(time.time() - t, 2),
            "scn": [json.loads(x) for x in lines(out, "SCN")] if self.emits else [],
        }


# --------------------------------------------------------------------------
# Encoding of observed values (see spec/Num.tla)
# --------------------------------------------------------------------------
LIM = 2**30
NONE = [0, 0]


def q(x, maxden=20000, tol=1e-9):
    """Observed real -> reduced rational [n, d] or [0, 0]."""
    try:
        x = float(x)
    except Exception:
        return NONE
    if math.isnan(x):
        return NONE
    if math.isinf(x):
        return [1, 0] if x > 0 else [-1, 0]
    if abs(x) >= LIM:
        return NONE
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > tol * max(1.0, abs(x)):
        return NONE
    if abs(f.numerator) >= LIM:
        return NONE
    return [f.numerator, f.denominator]


def qs(xs, **k):
    return [q(x, **k) for x in xs]


def sq(x, **k):
    """Square of an observed length, as a rational."""
    try:
        x = float(x)
    except Exception:
        return NONE
    if math.isinf(x):
        return [1, 0] if x > 0 else NONE
    if math.isnan(x) or x < 0:
        return NONE
    return q(x * x, **k)


def fx(x, scale=1000):
    """Observed real -> fixed point integer (out of range / NaN: LIM)."""
    try:
        x = float(x)
    except Exception:
        return LIM
    if math.isnan(x) or abs(x) * scale >= LIM:
        return LIM
    return int(round(x * scale))


def it(x):
    """Observed number that must be an integer, else LIM."""
    try:
        f = float(x)
    except Exception:
        return LIM
    if math.isnan(f) or f != int(f) if not math.isinf(f) else True:
        return LIM
    return int(f) if abs(f) < LIM else LIM


def far(scns, every=7, reach=27):
    """Puts some of the scenarios a long way from the origin (exactly: their coordinates are dyadic)."""
    for i, s in enumerate(scns):
        if i % every == 5 and s.get("scale") == 2**-17 and "off" in s:
            s["off"] = [-80, 40]
        if i % every == 3 and s.get("scale", 1) in (0.5, 1, 2, 4, 8, 32) and "off" in s:
            s["off"] = [2**reach, -(2 ** (reach + 1))] if isinstance(s["off"], list) else 2 ** (reach + 1)
    return scns


def narrow(a, often=2):
    """The same array in one of the integer types that hold it (by its content; every so often)."""
    import zlib

    import numpy as np
    a = np.asarray(a)
    k = zlib.crc32(np.ascontiguousarray(a, dtype=float).tobytes())
    if k % often or a.size == 0 or not np.isfinite(a).all():
        return a
    fits = [t for t in ("uint8", "int8", "int16", "uint16", "int32", "uint32", "int64")
            if np.iinfo(t).min <= a.min() and a.max() <= np.iinfo(t).max and (a == a.astype(t)).all()]
    small = [t for t in fits if t in ("int8", "int16")]    # the types that overflow first
    k //= often
    return a.astype((small if small and k % 2 else fits)[k // 2 % len(small if small and k % 2 else fits)]) if fits else a


def single(a):
    """The same array in single precision, where that is exact."""
    import numpy as np
    b = np.asarray(a, dtype=np.float32)
    return b if (b == a).all() else a


def digest(x):
    """A small non-negative integer that identifies the exact content of an array."""
    import numpy as np

    a = np.ascontiguousarray(np.asarray(x, dtype=float))
    h = hashlib.sha256(repr(a.shape).encode() + a.tobytes()).hexdigest()
    return h[:16]


# --------------------------------------------------------------------------
# Recorder (used inside workers)
# --------------------------------------------------------------------------
class Rec:
    def __init__(self):
        self.events = []

    def ev(self, op, key="", **f):
        d = {"op": op, "key": str(key), "exc": ""}
        d.update(f)
        self.events.append(d)
        return d

    def call(self, fn, *a, **k):
        """-> (value, "") or (None, "Type: message")."""
        try:
            return fn(*a, **k), ""
        except TimeLimit:
            raise
        except Exception as ex:  # the code under test may raise anything
            return None, f"{type(ex).__name__}: {ex}"[:200]

    def fail(self, op, key, exc, **f):
        self.ev(op, key, **f)
        self.events[-1]["exc"] = exc or "?"


class TimeLimit(BaseException):
    pass


# --------------------------------------------------------------------------
# Check
# --------------------------------------------------------------------------
def load(prop):
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    return importlib.import_module(f"props.{prop.lower()}")


def split(items, n):
    n = max(1, min(n, len(items)))
    out = [[] for _ in range(n)]
    for i, x in enumerate(items):
        out[i % n].append(x)
    return out


def run_workers(prop, scns, workdir, nproc, timeout):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", POINTPATS_REPO=REPO, PYTHONHASHSEED="0",
               NUMBA_CACHE_DIR=os.path.join(workdir, "numba"),
               JOBLIB_TEMP_FOLDER=workdir, HOME=workdir, MPLCONFIGDIR=os.path.join(workdir, "mpl"))
    procs = []
    # scenarios that need an environment of their own (e.g. numba absent) get their own worker
    special = [s for s in scns if s.get("env")]
    plain = [s for s in scns if not s.get("env")]
    chunks = [c for c in split(plain, nproc if not special else max(1, nproc - 1)) if c]
    for e in sorted({json.dumps(s["env"], sort_keys=True) for s in special}):
        chunks.append([s for s in special if json.dumps(s["env"], sort_keys=True) == e])
    for k, chunk in enumerate(chunks):
        fi = os.path.join(workdir, f"scn{k}.json")
        fo = os.path.join(workdir, f"ev{k}.ndjson")
        with open(fi, "w") as f:
            json.dump(chunk, f)
        p = subprocess.Popen(
            [PY, os.path.join(VERIF, "harness", "worker.py"), prop, fi, fo],
            env={**env, **(chunk[0].get("env") or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            cwd=workdir)
        procs.append((p, chunk, fo))
    out = []
    deadline = time.time() + timeout
    for p, chunk, fo in procs:
        try:
            log, _ = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            log, _ = p.communicate()
            log = "worker timed out\n" + log
        got = {}
        if os.path.exists(fo):
            with open(fo) as f:
                for ln in f:
                    if ln.endswith("\n"):
                        d = json.loads(ln)
                        got[d["scn"]] = d["events"]
        for s in chunk:
            if s["id"] in got:
                out.append((s, got[s["id"]]))
                continue
            # the worker died (or hung) in this scenario; scenarios after it are
            # not judged.  A tree that cannot even be imported ends here too.
            ev = [{"op": "Crash", "key": s.get("key", ""),
                   "exc": "worker died: " + log[-300:].replace("\n", " | ")}]
            out.append((s, ev))
            break
    return out


def judge(spec, traces, workdir, nproc, budget=20000):
    """TLC's verdict: list of (scenario, event, clause), number of states, number
    of events, and what TLC failed to decide within the budget (seconds)."""
    deadline = time.time() + budget
    undecided = []
    spec, cfg = spec if isinstance(spec, tuple) else (spec, spec + ".cfg")
    flat = []  # keep scenarios contiguous
    for si, (s, evs) in enumerate(traces):
        for e in evs:
            flat.append((si, e))
    for i, (_, e) in enumerate(flat):
        e["id"] = i + 1
    crash = [(traces[si][0], e, "no_crash") for si, e in flat if e["op"] == "Crash"]
    # chunk at scenario boundaries, balanced by event size
    chunks, cur, size = [], [], 0
    total = sum(len(json.dumps(e)) for _, e in flat)
    target = max(2000, total // max(1, nproc))
    last = None
    for si, e in flat:
        if e["op"] == "Crash":
            continue
        if size >= target and si != last:
            chunks.append(cur)
            cur, size = [], 0
        cur.append((si, e))
        size += len(json.dumps(e))
        last = si
    if cur:
        chunks.append(cur)

    def one(k):
        res, nstates = [], 0
        todo = chunks[k]
        rounds = 0
        while todo:
            path = os.path.join(workdir, f"trace{k}_{rounds}.ndjson")
            with open(path, "w") as f:
                for _, e in todo:
                    f.write(json.dumps(e) + "\n")
            rc, out = tlc(spec, cfg, workdir, env={"TRACE": path}, timeout=max(5, deadline - time.time()))
            os.unlink(path)
            byid = {e["id"]: (si, e) for si, e in todo}
            for b in lines(out, "BAD"):
                b = json.loads(b)
                si, e = byid[b["id"]]
                for c in b["c"]:
                    res.append((traces[si][0], e, c))
            st, _ = stats(out)
            nstates += st
            if any(True for _ in lines(out, "DONE")):
                break
            if rc == -9:
                undecided.append(f"{spec}, part {k + 1}")
                break
            # TLC could not evaluate an event: that event is rejected, go on after it
            m = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
            if not m or "***Parse Error***" in out or "Semantic errors" in out:
                raise MachineryError(f"TLC failed on trace of {spec}: rc={rc}\n" + out[-3000:])
            pos = int(m[-1])
            if pos >= len(todo):
                raise MachineryError(f"TLC failed on trace of {spec}: rc={rc}\n" + out[-3000:])
            si, e = todo[pos]
            err = re.search(r"Error: (?!TLC threw)(.*)", out)
            e["_tlc"] = err.group(1)[:200] if err else ""
            res.append((traces[si][0], e, "unevaluable"))
            todo = todo[pos + 1:]
            rounds += 1
            if rounds > 30:
                break
        return res, nstates

    bad, n = list(crash), 0
    with cf.ThreadPoolExecutor(max_workers=nproc) as ex:
        for r, st in ex.map(one, range(len(chunks))):
            bad += r
            n += st
    return bad, n, len(flat), undecided


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        d = json.load(f)
    return [x for x in d["findings"] if x["property"] == prop]


def check(prop, tier, seed, only=None, keep=None):
    t0 = time.time()
    mod = load(prop)
    workdir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return _check(prop, mod, tier, seed, workdir, t0, only)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def _check(prop, mod, tier, seed, workdir, t0, only):
    import random

    nproc = int(os.environ.get("VERIF_PROCS", "6"))
    models = []
    emitted = {}
    pool = cf.ThreadPoolExecutor(max_workers=nproc)
    futs = []
    if only is None:
        # models that emit scenarios first; the others run beside the code
        futs = [(m, pool.submit(m.run, tier, seed, workdir))
                for m in sorted(mod.MODELS, key=lambda m: not m.emits)]
        for m, f in futs:
            if m.emits:
                emitted.setdefault(m.module, []).extend(f.result().pop("scn"))
        rng = random.Random(f"{prop}/{seed}/{tier}")
        scns = mod.scenarios(emitted, rng, tier)
        for x in scns:
            if x.get("scale", 1) < 1e-3 and "off" in x and x["off"] != [-80, 40]:
                x["off"] = [0] * len(x["off"])   # far from the origin nothing would be left of it
        for i, s in enumerate(scns):
            s["id"] = i + 1
    else:
        scns = [only]
    t1 = time.time()
    traces = run_workers(prop, scns, workdir, getattr(mod, "PROCS", nproc),
                         480 if tier == "quick" else 6 * 3600)
    t2 = time.time()
    bad, tstates, nev, undecided = judge(mod.TRACE, traces, workdir, nproc, 360 if tier == "quick" else 20000)
    for m, f in futs:
        r = dict(f.result())
        r.pop("scn", None)
        models.append(r)
    pool.shutdown()

    t3 = time.time()
    findings = known_findings(prop)
    shown, viol = {}, []
    for s, e, c in bad:
        hit = None
        for k in findings:
            if k["key"] == e.get("key") and c in k["clauses"]:
                hit = k
        if hit:
            shown[hit["id"]] = hit
        else:
            viol.append((s, e, c))
    if undecided and not viol:
        raise MachineryError("TLC did not decide in time: " + "; ".join(undecided))
    for k in shown.values():
        print(f"KNOWN-FINDING: property={prop} {k['id']} {k['what']}")

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rc = 0
    if viol:
        rc = 1
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for s, e, c in viol:
            sig = (e["op"], c)
            if sig in seen or len(seen) >= 8:
                continue
            seen.add(sig)
            path = os.path.join(rdir, f"{prop}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "clause": c, "scenario": s, "event": e}, f, indent=1)
            print(f"  clause={c} op={e['op']} exc={e.get('exc','')!r} key={e.get('key','')!r}")
            print(f"VIOLATION property={prop} replay={path}")
        print(f"{len(viol)} rejected event(s)")

    ops = {}
    for _, evs in traces:
        for e in evs:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    samples = []
    for s, evs in traces:
        if evs and len(samples) < 2 and len(json.dumps(evs[0])) < 1500:
            samples.append({"scenario": {k: v for k, v in s.items() if k != "id"},
                            "first_event": evs[0]} if len(json.dumps(s)) < 1500 else evs[0])
    if not samples:
        samples = [{"scenario_kind": traces[0][0].get("kind", "")}] if traces else [{}]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in models) + tstates,
            "transitions": sum(m["transitions"] for m in models) + tstates,
            "traces_validated_against_impl": len(traces),
            "events_judged_by_tlc": nev,
            "events_by_op": ops,
            "models": models,
            "scenarios_emitted_by_tlc": {k: len(v) for k, v in emitted.items()},
            "trace_specification": mod.TRACE if isinstance(mod.TRACE, str) else mod.TRACE[0],
            "samples": samples,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if only is None:
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop}: {len(traces)} traces, {nev} events, "
          f"{ev['coverage']['states']} states, {len(viol)} violation(s), "
          f"{ev['wall_s']} s (models {t1 - t0:.1f}, code {t2 - t1:.1f}, judge {t3 - t2:.1f})")
    return rc
