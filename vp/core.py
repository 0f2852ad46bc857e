"""
Runner shared by all checks: environment, seeded case scheduling over worker
processes, three-valued verdicts, replay files and evidence.

A check is a list of "case kinds".  A case is identified by (kind, index) and
derives every random choice from sha256(VERIF_SEED, property, kind, index), so
a violation is replayed with   run.py <property> --replay <file>.
"""

import collections
import hashlib
import importlib
import io
import json
import mmap
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get("VP_REPO", "/repo")  # another copy only while developing
CASE_WALL_LIMIT = 150.0  # native code may hang: such a case is given up
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEMORY_LIMIT = 5 << 30  # per worker: running out of it is an exception
CALL_CPU_LIMIT = 60.0  # CPU seconds one call of the code under test may take


class Violation(Exception):
    """ The deciding oracle saw the property broken """

    def __init__(self, message, signature=None, **details):
        super().__init__(message)
        self.message = message
        self.signature = signature
        self.details = details


class Skip(Exception):
    """ The case says nothing (e.g. the native library refuses the input) """


class CallTimeout(BaseException):
    pass


def setup_environment():
    """ Import the code of the current working tree of /repo, never stale bytecode """
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vp-none-%d" % os.getpid())
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[var] = "1"
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    if hasattr(sys, "set_int_max_str_digits"):
        sys.set_int_max_str_digits(0)


def derive(*parts):
    text = "\x00".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def short(obj, limit=400):
    text = repr(obj)
    return text if len(text) <= limit else text[:limit] + "...<%d chars>" % len(text)


class Ctx:
    """ What one case may use: randomness, event counters, verdicts """

    def __init__(self, prop, kind, index, seed, tier):
        self.prop, self.kind, self.index, self.tier = prop, kind, index, tier
        self.seed = derive(seed, prop, kind, index)
        self.rng = random.Random(self.seed)
        import numpy as np

        self.np = np.random.RandomState(self.seed % (2 ** 32))
        # some native code draws from the global generators
        random.seed(self.seed)
        np.random.seed((self.seed + 1) % (2 ** 32))
        self.counters = collections.Counter()
        self.states = set()
        self.sample = None
        self.thorough = tier == "thorough"
        self.big = False

    def size(self, usual, big):
        """ a dimension: one of the usual ones, or a big one in a case about sizes """
        return self.rng.choice(big if self.big else usual)

    def event(self, name, n=1):
        self.counters[name] += n

    def state(self, *parts):
        """ Remember a distinct non-trivial observation """
        self.states.add(derive(*parts) & 0xFFFFFFFFFFFF)

    def fail(self, message, signature=None, **details):
        raise Violation(message, signature, **details)

    def require(self, cond, message, signature=None, **details):
        self.counters["oracle_evaluations"] += 1
        if not cond:
            raise Violation(message, signature, **details)


def _on_cpu_timer(signum, frame):
    raise CallTimeout()


class busy:
    """
    The code under test is running.  When the process ends or hangs meanwhile,
    the parent knows that from the shared byte.
    """

    depth = 0
    flag = mmap.mmap(-1, 1)

    def __enter__(self):
        busy.depth += 1
        busy.flag[0] = 1

    def __exit__(self, *exc):
        busy.depth -= 1
        if not busy.depth:
            busy.flag[0] = 0
        return False


class cpu_limit(busy):
    """ CPU-time (not wall-clock) bound around a call of the code under test """

    def __init__(self, seconds=CALL_CPU_LIMIT):
        self.seconds = seconds

    def __enter__(self):
        super().__enter__()
        signal.signal(signal.SIGVTALRM, _on_cpu_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return super().__exit__(*exc)


def call(ctx, what, func, *args, **kwargs):
    """
    Call the code under test where it has to succeed: any exception (or a call
    which burns CALL_CPU_LIMIT CPU seconds) is a violation.
    """
    signature = kwargs.pop("_signature", None)
    ctx.counters["calls"] += 1
    try:
        with cpu_limit():
            return func(*args, **kwargs)
    except CallTimeout:
        raise Violation("%s did not end within %d CPU seconds" % (what, CALL_CPU_LIMIT), signature)
    except Violation:
        raise
    except Exception as e:
        raise Violation(
            "%s raised %s: %s" % (what, type(e).__name__, short(str(e), 200)),
            signature,
            trace=traceback.format_exc(limit=-4),
        )


def attempt(ctx, func, *args, **kwargs):
    """ Call the code under test where refusing is allowed: (ok, result or exception) """
    ctx.counters["calls"] += 1
    try:
        with cpu_limit():
            return True, func(*args, **kwargs)
    except CallTimeout:
        raise Violation("call did not end within %d CPU seconds" % CALL_CPU_LIMIT)
    except Exception as e:
        return False, e


def must_raise(ctx, what, func, *args, **kwargs):
    """ The code under test has to refuse this; returns the exception """
    ctx.counters["calls"] += 1
    ctx.counters["oracle_evaluations"] += 1
    try:
        with cpu_limit():
            out = func(*args, **kwargs)
    except CallTimeout:
        raise Violation("%s did not end within %d CPU seconds" % (what, CALL_CPU_LIMIT))
    except Exception as e:
        ctx.counters["refusals_observed"] += 1
        return e
    raise Violation("%s was accepted" % what, result=short(out))


# ---------------------------------------------------------------- scheduling


def sized(case):
    """ the same case with dimensions far beyond the usual ones """

    def run(ctx):
        ctx.big = True
        ctx.event("big_cases_started")
        case(ctx)
        ctx.event("big_cases")

    return run


def big_cases(cases, scale, quick=10, thorough=300):
    """ every kind of case once more, with big dimensions """
    return {"big_" + kind: (sized(c[0]), quick / scale, thorough) for kind, c in cases.items()}


def run_case(module, prop, kind, index, seed, tier):
    ctx = Ctx(prop, kind, index, seed, tier)
    func = module.CASES[kind][0]
    res = {"kind": kind, "index": index, "status": "ok"}
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            func(ctx)
    except Skip as e:
        res["status"] = "skip"
        res["reason"] = str(e)[:120]
    except Violation as e:
        res["status"] = "violation"
        res["message"] = e.message
        res["signature"] = e.signature
        res["details"] = {k: short(v, 1500) for k, v in e.details.items()}
        if ctx.sample is not None:
            res["details"]["case"] = short(ctx.sample, 1500)
    except MemoryError:
        res["status"] = "skip"
        res["reason"] = "out of memory outside of the code under test"
    except Exception as e:
        # an oracle which trips over an answer of the code under test has seen a
        # malformed answer; before any such answer it is the harness that is broken
        res["status"] = "violation" if ctx.counters["calls"] else "error"
        res["message"] = traceback.format_exc(limit=-6)
        if res["status"] == "violation":
            res["message"] = "malformed answer: %s: %s" % (type(e).__name__, short(str(e), 200))
            res["signature"] = None
            res["details"] = {"trace": traceback.format_exc(limit=-6)}
    res["counters"] = dict(ctx.counters)
    res["states"] = list(ctx.states)
    res["sample"] = short(ctx.sample, 600) if ctx.sample is not None else None
    res["time"] = time.time() - t0
    return res


def quiet_native_output():
    """ native libraries print warnings; Python's own stderr stays """
    sys.stderr = os.fdopen(os.dup(2), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)


def _worker(module, prop, seed, tier, todo, deadline, conn):
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_LIMIT, MEMORY_LIMIT))
    out = os.fdopen(conn, "wb")
    for kind, index in todo:
        if time.time() > deadline:
            pickle.dump({"status": "deadline"}, out)
            break
        pickle.dump(run_case(module, prop, kind, index, seed, tier), out)
        out.flush()
    pickle.dump({"status": "done"}, out)
    out.flush()
    out.close()


def run_all(module, prop, seed, tier, workers, budget):
    """
    Fork workers (after the imports), collect one result per case.  When native
    code ends a worker, that case is reported as "lost" and a new worker goes
    on with the rest.
    """
    plan = []
    for kind, (func, quick, thorough) in module.CASES.items():
        scaled = int(quick * getattr(module, "QUICK_SCALE", 1))
        count = scaled if tier == "quick" else max(thorough, 12 * scaled)
        plan.extend((i / float(count), kind, i) for i in range(count))
    # interleave kinds so that a budget cut hits all of them alike
    plan.sort()
    plan = [(k, i) for _, k, i in plan]
    workers = max(1, min(workers, len(plan)))
    deadline = time.time() + budget
    procs, results, problems, cut, stop = {}, [], [], 0, False

    def start(todo):
        r, wr = os.pipe()
        busy.flag = mmap.mmap(-1, 1)  # one byte per worker
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgrp()
                os.close(r)
                quiet_native_output()
                _worker(module, prop, seed, tier, todo, deadline, wr)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                code = 70
            os._exit(code)
        os.close(wr)
        procs[r] = {"pid": pid, "buf": [], "todo": todo, "progress": time.time(), "flag": busy.flag, "hung": False}

    for w in range(workers):
        start(plan[w::workers])
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 5.0)
        for r, p in procs.items():
            if r not in ready and time.time() - p["progress"] > CASE_WALL_LIMIT:
                p["hung"] = True
                try:
                    os.killpg(p["pid"], signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(p["pid"], signal.SIGKILL)
                p["progress"] = time.time()
        for r in ready:
            data = os.read(r, 1 << 20)
            if data:
                procs[r]["buf"].append(data)
                procs[r]["progress"] = time.time()
                continue
            p = procs.pop(r)
            os.close(r)
            _, status = os.waitpid(p["pid"], 0)
            stream = io.BytesIO(b"".join(p["buf"]))
            finished, seen = False, 0
            while True:
                try:
                    item = pickle.load(stream)
                except Exception:
                    break
                if item["status"] == "done":
                    finished = True
                elif item["status"] == "deadline":
                    cut += 1
                else:
                    results.append(item)
                    seen += 1
            if not finished and seen < len(p["todo"]):
                kind, index = p["todo"][seen]
                res = {"kind": kind, "index": index, "status": "lost", "counters": {}, "states": [],
                       "message": "the process ended with status %d" % status}
                if p["flag"][0] and (p["hung"] or (os.WIFSIGNALED(status) and os.WTERMSIG(status) != signal.SIGKILL)):
                    # (a process which is killed from outside says nothing)
                    res.update(status="violation", signature=None, details={}, message="the code under test %s" % (
                        "did not return" if p["hung"] else "ended the process by signal %d" % os.WTERMSIG(status)))
                    stop = True
                results.append(res)
                if stop:
                    # others will hang as well
                    for q in procs.values():
                        try:
                            os.killpg(q["pid"], signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                elif len(p["todo"]) > seen + 1:
                    start(p["todo"][seen + 1:])
    return results, problems, cut, len(plan)


# ------------------------------------------------------------------- verdict


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                fields = dict(
                    f.split("=", 1) for f in line.split(" ")[1:3] if "=" in f
                )
                known.append((fields.get("signature"), line))
    return known


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--index", type=int)
    ap.add_argument("--workers", type=int, default=0)
    args = ap.parse_args(argv)
    prop = args.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    setup_environment()
    t0 = time.time()
    module = importlib.import_module("vp.props.%s" % prop.lower())

    if args.replay or args.kind:
        if args.replay:
            rep = json.load(open(args.replay))
            kind, index, seed, tier = rep["kind"], rep["index"], rep["seed"], rep["tier"]
        else:
            kind, index = args.kind, args.index or 0
        res = run_case(module, prop, kind, index, seed, tier)
        res.pop("states")
        print(json.dumps(res, indent=1, default=str))
        if res["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, args.replay or "-"))
            return 1
        return 0 if res["status"] in ("ok", "skip") else 2

    budget = float(
        os.environ.get("VP_BUDGET", getattr(module, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780))
    )
    workers = args.workers or min(8, os.cpu_count() or 1)
    results, problems, cut, planned = run_all(module, prop, seed, tier, workers, budget)
    if hasattr(module, "finish"):
        # properties which need to look at all cases together
        results.extend(module.finish(results, seed, tier))

    counters = collections.Counter()
    states = set()
    per_kind = collections.defaultdict(collections.Counter)
    violations, errors, samples, lost = [], [], [], []
    skips = collections.Counter()
    for r in sorted(results, key=lambda r: (r["kind"], r["index"])):
        per_kind[r["kind"]][r["status"]] += 1
        if r["status"] == "ok" or r["status"] == "violation":
            counters.update(r["counters"])
            states.update(r["states"])
        if r["status"] == "violation":
            violations.append(r)
        elif r["status"] == "error":
            errors.append(r)
        elif r["status"] == "lost":
            lost.append(r)
        elif r["status"] == "skip":
            skips["%s: %s" % (r["kind"], r["reason"])] += 1
        if r["status"] == "ok" and r.get("sample") and per_kind[r["kind"]]["ok"] <= 2:
            samples.append("%s #%d: %s" % (r["kind"], r["index"], r["sample"]))

    # known findings are matched by the mechanism a case reports, never by seed
    known = load_known(prop)
    reported, fresh = set(), []
    for v in violations:
        hit = [line for sig, line in known if sig and sig == v.get("signature")]
        if hit:
            reported.add(hit[0])
        else:
            fresh.append(v)
    for line in sorted(reported):
        print("KNOWN-FINDING: " + line[len("known: "):])

    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    for name in os.listdir(replay_dir):
        if name.startswith(prop + "-"):
            os.unlink(os.path.join(replay_dir, name))
    for v in fresh[:5]:
        path = os.path.join(replay_dir, "%s-%s-%d.json" % (prop, v["kind"], v["index"]))
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": prop, "kind": v["kind"], "index": v["index"],
                    "seed": seed, "tier": tier, "message": v["message"],
                    "signature": v.get("signature"), "details": v.get("details"),
                },
                fh, indent=1, default=str,
            )
        print("%s %s #%d: %s" % (prop, v["kind"], v["index"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))

    oracle = counters.get("oracle_evaluations", 0)
    executed = sum(1 for r in results if r["status"] in ("ok", "violation"))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": executed,
            "distinct_nontrivial": len(states),
            "rule": module.RULE,
            "samples": (samples or ["no case completed"])[:12],
            "oracle_evaluations": oracle,
            "observed_events": dict(sorted(counters.items())),
            "cases_per_kind": {k: dict(v) for k, v in sorted(per_kind.items())},
            "cases_planned": planned,
            "cases_not_started_before_budget": planned - len([r for r in results if r["index"] >= 0]),
            "skipped": dict(skips.most_common(12)),
            "processes_lost": ["%s #%d: %s" % (r["kind"], r["index"], r["message"]) for r in lost[:12]],
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)

    if fresh:
        return 1
    # three-valued verdict: nothing broken, but was enough observed to say so?
    inconclusive = list(problems)
    for e in errors[:3]:
        inconclusive.append("harness error in %s #%d: %s" % (e["kind"], e["index"], e["message"]))
    # a process lost inside native training code decides nothing; many do not happen
    if len(lost) > max(2, planned // 100):
        inconclusive.append("%d cases ended their process, e.g. %s #%d: %s" % (
            len(lost), lost[0]["kind"], lost[0]["index"], lost[0]["message"]))
    for kind in module.CASES:
        # the few big cases of one kind can all be skipped: they count together
        if not per_kind[kind]["ok"] and not (kind.startswith("big_") and counters.get("big_cases", 0) >= 5):
            inconclusive.append("no case of kind %s was decided" % kind)
    for name, minimum in getattr(module, "REQUIRED", {}).items():
        if counters.get(name, 0) < minimum:
            inconclusive.append("only %d events '%s' (need %d)" % (counters.get(name, 0), name, minimum))
    if oracle == 0:
        inconclusive.append("the oracle was never evaluated")
    if inconclusive:
        print("INCONCLUSIVE property=%s" % prop)
        for line in inconclusive[:8]:
            print("  " + line)
        return 2
    print(
        "HELD property=%s cases=%d oracle_evaluations=%d distinct=%d wall=%.1fs%s"
        % (prop, executed, oracle, len(states), time.time() - t0,
           " (%d workers stopped at the budget)" % cut if cut else "")
    )
    return 0
