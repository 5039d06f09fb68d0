"""Runner: drives facets with hypothesis, classifies, shrinks, records."""
import concurrent.futures as cf
import copy
import errno
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

from . import boot

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

WELLENG_DIR = os.path.join(os.path.abspath(boot.REPO), "welleng") + os.sep
HARNESS_DIR = os.path.join(os.path.abspath(boot.VERIF), "vt") + os.sep

CASE_CPU_LIMIT = 90      # CPU-seconds for one case; typical cases take ms
SHRINK_BUDGET = 45       # wall seconds spent shrinking once a failure is known


class Violation(AssertionError):
    """The property does not hold on this case."""


class Skip(Exception):
    """Case outside the domain (counted, not judged)."""


class HarnessError(Exception):
    pass


class _Stop(KeyboardInterrupt):
    pass


class _Hang(KeyboardInterrupt):
    pass


def check(cond, msg):
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, atol, rtol=0.0, what="value"):
    """Fail unless a and b agree elementwise (NaN never agrees)."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {b.shape}")
    if a.size == 0:
        return
    err = np.abs(a - b)
    tol = atol + rtol * np.abs(b)
    bad = ~(err <= tol)
    if bad.any():
        k = np.unravel_index(
            np.argmax(np.where(np.isnan(err), np.inf, err - tol)), err.shape
        ) if err.ndim else ()
        raise Violation(
            f"{what}: got {a[k]!r}, expected {b[k]!r} at index {tuple(int(i) for i in k)}"
            f" (|diff|={err[k]!r}, tol={np.asarray(tol)[k] if np.ndim(tol) else tol!r})"
        )


def angdiff(a, b):
    """Smallest signed difference of angles in radians."""
    d = np.asarray(a, float) - np.asarray(b, float)
    return (d + np.pi) % (2 * np.pi) - np.pi


class Info:
    def __init__(self, nontrivial, classes=()):
        self.nontrivial = bool(nontrivial)
        self.classes = list(classes)


class Facet:
    """One generated check: a strategy of JSON cases and a judge."""

    def __init__(self, name, strategy, run, quick, thorough=None, rule="",
                 examples=()):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule
        self.examples = list(examples)


class Prop:
    def __init__(self, pid, facets, assumptions=()):
        self.pid = pid
        self.facets = facets
        self.assumptions = list(assumptions)


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    return o


def canon(case):
    return json.dumps(case, sort_keys=True)


def _frames(exc):
    out = []
    tb = exc.__traceback__
    while tb is not None:
        out.append(os.path.abspath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    return out


def classify_exception(exc):
    """'violation' if the exception was raised inside (or below) welleng."""
    frames = _frames(exc)
    last_h = max((i for i, f in enumerate(frames) if f.startswith(HARNESS_DIR)),
                 default=-1)
    last_w = max((i for i, f in enumerate(frames) if f.startswith(WELLENG_DIR)),
                 default=-1)
    # welleng may call back into harness stubs; then the innermost decides
    return "violation" if last_w > last_h else "harness"


def judge(facet, case):
    """Run one case.  Returns Info, or raises Violation / HarnessError / Skip."""
    try:
        # what is recorded is the case as generated
        info = facet.run(copy.deepcopy(case))
    except (Violation, Skip):
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:  # noqa: B902
        if isinstance(exc, MemoryError):
            raise HarnessError("out of memory")
        if classify_exception(exc) == "violation":
            tb = traceback.extract_tb(exc.__traceback__)
            loc = [f"{os.path.relpath(f.filename, boot.REPO)}:{f.lineno}"
                   for f in tb if f.filename.startswith(WELLENG_DIR)]
            raise Violation(
                f"raised {type(exc).__name__}: {str(exc)[:300]} "
                f"(at {loc[-1] if loc else '?'})"
            ) from exc
        if (isinstance(exc, (HarnessError, ConnectionError, EOFError))
                or isinstance(exc, OSError) and exc.errno in (
                    errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN)
                or "hypothesis" in type(exc).__module__):
            raise HarnessError(
                "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
            ) from exc
        # the judge reads outputs of the code under test: one it can't read isn't
        # what the property says it is
        tb = traceback.extract_tb(exc.__traceback__)
        at = [f"{os.path.relpath(f.filename, boot.VERIF)}:{f.lineno}" for f in tb
              if os.path.abspath(f.filename).startswith(HARNESS_DIR)]
        raise Violation(f"an output that can't be judged: {type(exc).__name__}: "
                        f"{str(exc)[:300]} (at {at[-1] if at else '?'})") from exc
    if not isinstance(info, Info):
        raise HarnessError(f"facet {facet.name} returned {info!r}")
    return info


def _alarm(signum, frame):
    raise _Hang()


def _with_watchdog(facet, case):
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        return judge(facet, case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []

    def add(self, case, info):
        self.evaluations += 1
        for c in info.classes:
            self.classes[c] = self.classes.get(c, 0) + 1
        if info.nontrivial:
            h = hashlib.sha1(canon(case).encode()).digest()[:10]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2:
                    self.samples.append(case)


def _shard(args):
    """Run one shard of one facet in a worker process."""
    pid, fname, n, seed, shard = args
    from .registry import load
    prop = load(pid)
    facet = next(f for f in prop.facets if f.name == fname)
    st = Stats()
    state = {"best": None, "t0": None, "harness": None}
    out = {"facet": fname, "shard": shard, "n": n}

    def one(case):
        if state["t0"] is not None and time.monotonic() - state["t0"] > SHRINK_BUDGET:
            raise _Stop()
        case = json.loads(canon(jsonable(case)))
        try:
            info = _with_watchdog(facet, case)
        except Skip:
            st.skipped += 1
            hypothesis.reject()
        except Violation as v:
            st.evaluations += 1
            key = (len(canon(case)), canon(case))
            if state["t0"] is None:
                state["t0"] = time.monotonic()
            if state["best"] is None or key < state["best"][0]:
                state["best"] = (key, case, str(v))
            raise
        except HarnessError as h:
            state["harness"] = (case, str(h))
            raise _Stop()
        except _Hang:
            state["best"] = ((0, ""), case,
                             f"did not terminate within {CASE_CPU_LIMIT} CPU-seconds")
            raise _Stop()
        st.add(case, info)

    try:
        if shard == 0:
            for ex in facet.examples:
                one(ex)
        if n > 0:
            test = given(facet.strategy)(one)
            test = settings(
                max_examples=n, database=None, deadline=None,
                derandomize=False, print_blob=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=[
                    HealthCheck.too_slow, HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                    HealthCheck.filter_too_much],
                report_multiple_bugs=False,
            )(test)
            test = hypothesis.seed(seed)(test)
            test()
    except (_Stop, Violation):
        pass
    except hypothesis.errors.Flaky as exc:
        if state["best"] is None:
            state["harness"] = (None, f"flaky: {exc}")
    except hypothesis.errors.HypothesisException as exc:
        if state["best"] is None:
            state["harness"] = (None, repr(exc))
    except BaseException as exc:  # noqa: B902
        if state["best"] is None:
            state["harness"] = (None, "".join(traceback.format_exception(exc)))
    if state["best"] is not None:
        out["violation"] = {"case": state["best"][1], "message": state["best"][2]}
    if state["harness"] is not None:
        out["harness"] = state["harness"]
    out.update(evaluations=st.evaluations, skipped=st.skipped,
               nontrivial=st.nontrivial, classes=st.classes, samples=st.samples)
    return out


def load_known():
    """Lines `known: {json}` of known_findings.txt; `fixed:` lines suppress nothing."""
    path = os.path.join(boot.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    out.append(json.loads(line[len("known:"):]))
    return out


def write_replay(pid, fname, case, message):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canon(case).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{fname.replace(' ', '_')}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "facet": fname, "message": message,
                   "case": case}, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def run_property(pid, tier, seed, workers=None, scale=1.0, only=None):
    from .registry import load
    t0 = time.time()
    prop = load(pid)
    facets = [f for f in prop.facets if only is None or f.name in only]
    workers = workers or min(8, os.cpu_count() or 1)
    jobs = []
    for fi, f in enumerate(facets):
        total = f.quick if tier == "quick" else f.thorough
        total = max(1, int(total * scale)) if total else 0
        k = max(1, min(workers, total // 8 or 1))
        for s in range(k):
            n = total // k + (1 if s < total % k else 0)
            # every shard's stream is a pure function of VERIF_SEED
            sd = int.from_bytes(hashlib.sha256(
                f"{seed}:{pid}:{f.name}:{s}".encode()).digest()[:6], "big")
            jobs.append((pid, f.name, n, sd, s))
    results = []
    known = [k for k in load_known() if k.get("property") == pid]
    viol, harness = [], []
    ctx = mp.get_context("fork")
    # longest facets first would need timings; interleave shards instead
    jobs.sort(key=lambda j: j[4])
    with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
        futs = [ex.submit(_shard, j) for j in jobs]
        try:
            for fu in cf.as_completed(futs):
                r = fu.result()
                results.append(r)
                if "violation" in r:
                    viol.append(r)
                if "harness" in r:
                    harness.append(r)
                if viol:
                    for g in futs:
                        g.cancel()
                    # give shards already running a moment, then leave
                    break
        except cf.process.BrokenProcessPool:
            harness.append({"facet": "?", "harness": (None, "worker died")})
        if viol:
            for p in list(ex._processes.values()):
                try:
                    p.terminate()
                except Exception:
                    pass
    # known findings: replay their exact cases
    lines = []
    if not viol:
        for k in known:
            f = next((x for x in prop.facets if x.name == k["facet"]), None)
            if f is None:
                harness.append({"facet": k["facet"],
                                "harness": (None, "unknown facet in findings")})
                continue
            try:
                f.run(copy.deepcopy(k["case"]))
            except Skip:
                pass
            except BaseException:  # still failing, as recorded
                lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev = sum(r.get("evaluations", 0) for r in results)
    nt = set()
    classes = {}
    samples = []
    per = {}
    for r in sorted(results, key=lambda r: (r["facet"], r["shard"])):
        nt |= {(r["facet"], h) for h in r["nontrivial"]}
        p = per.setdefault(r["facet"], {"evaluations": 0, "nontrivial": set(),
                                        "skipped": 0})
        p["evaluations"] += r["evaluations"]
        p["skipped"] += r["skipped"]
        p["nontrivial"] |= r["nontrivial"]
        for c, m in r["classes"].items():
            key = f"{r['facet']}:{c}"
            classes[key] = classes.get(key, 0) + m
        if r["shard"] == 0:
            samples += [{"facet": r["facet"], "case": c} for c in r["samples"][:1]]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(nt),
            "rule": " | ".join(f"[{f.name}] {f.rule}" for f in facets),
            "samples": samples,
            "facets": {k: {"evaluations": v["evaluations"],
                           "distinct_nontrivial": len(v["nontrivial"]),
                           "out_of_domain": v["skipped"]}
                       for k, v in per.items()},
            "classes": dict(sorted(classes.items())),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    if only is None:
        with open(os.path.join(d, f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    for ln in lines:
        print(ln)
    print(f"{pid} {tier} seed={seed}: {ev} cases, {len(nt)} distinct non-trivial, "
          f"{evidence['wall_s']} s")
    for k, v in per.items():
        print(f"   {k}: {v['evaluations']} cases, {len(v['nontrivial'])} non-trivial,"
              f" {v['skipped']} out of domain")
    if viol:
        best = min(viol, key=lambda r: len(canon(r["violation"]["case"])))
        v = best["violation"]
        path = write_replay(pid, best["facet"], v["case"], v["message"])
        print(f"facet {best['facet']}: {v['message']}")
        print(f"minimal case: {canon(v['case'])[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.stdout.flush()
        return 1
    if harness:
        for h in harness[:3]:
            sys.stderr.write(f"HARNESS ERROR in {h['facet']}: {h['harness'][1]}\n"
                             f"case: {h['harness'][0]!r}\n"[:6000])
        return 2
    sys.stdout.flush()
    return 0


def replay(path):
    from .registry import load
    with open(path) as f:
        rec = json.load(f)
    prop = load(rec["property"])
    facet = next(f for f in prop.facets if f.name == rec["facet"])
    try:
        _with_watchdog(facet, rec["case"])
    except Violation as v:
        print(f"facet {facet.name}: {v}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    except _Hang:
        print(f"facet {facet.name}: no termination")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    except Skip:
        print("case is outside the domain")
        return 0
    print(f"property={rec['property']} holds on {path}")
    return 0
