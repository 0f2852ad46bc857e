""" C30: predicting leaves the process as it was """

import decimal
import gc
import io
import locale
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

from .. import data, fam_text, zoo
from ..core import big_cases, call

RULE = (
    "'effects' cases run every method of a converted model, with good and bad inputs, under an audit hook and between two "
    "snapshots of the process (open files, output streams, environment, working directory, signal handlers, interpreter "
    "settings, locale, decimal context, random generator, warning filters, imported modules, threads): after a first call "
    "nothing may be opened, started, imported, compiled, printed or changed. 'files' cases let text vectorizers read named "
    "files: each is opened once, for reading, and closed. 'growth' cases ask for thousands of distinct inputs, some of them "
    "bad, in phases: the number of allocated memory blocks and of stored items must not grow in every phase alike. Distinct: "
    "models observed."
)
QUICK_SCALE = 3
REQUIRED = {"watched_calls": 2000, "failing_calls": 300, "growth_calls": 40000, "growth_phases": 300, "files_read": 60,
            "audit_events": 100}
ASSUMPTIONS = ["growth which stops after some thousand distinct inputs (a bounded cache) is not a leak"]

# ------------------------------------------------------------------ audit hook

HARMLESS = ("object.", "sys._getframe", "builtins.id", "gc.", "_thread.", "sys.excepthook", "sys.unraisablehook", "marshal.")
watch = {"on": False, "events": [], "installed": False, "pid": 0}


def _hook(name, args):
    if watch["on"] and watch["pid"] == os.getpid():
        watch["events"].append((name, repr(args)[:160]))


def audited(func):
    """ func() and the audit events meanwhile """
    if not watch["installed"]:
        sys.addaudithook(_hook)
        watch["installed"] = True
    watch["pid"] = os.getpid()
    watch["events"] = []
    watch["on"] = True
    try:
        return func()
    finally:
        watch["on"] = False


# ------------------------------------------------------------------- snapshot


def open_files():
    """ open descriptors: they are probed since listing them opens another """
    out = []
    for fd in range(256):
        try:
            st = os.fstat(fd)
        except OSError:
            continue
        out.append((fd, st.st_dev, st.st_ino))
    return out


def snapshot():
    handlers = []
    for n in range(1, signal.NSIG):
        try:
            handlers.append((n, id(signal.getsignal(n))))
        except (ValueError, OSError):
            pass
    try:
        loc = locale.setlocale(locale.LC_ALL)
    except Exception:
        loc = None
    return {
        "open files": open_files(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "signal handlers": handlers,
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "integer digits": sys.get_int_max_str_digits(),
        "trace and profile functions": (sys.gettrace(), sys.getprofile()),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr)),
        "import path": (list(sys.path), [id(f) for f in sys.meta_path]),
        "imported modules": sorted(sys.modules),
        "warning filters": [repr(f) for f in warnings.filters],
        "decimal context": repr(decimal.getcontext()),
        "locale": loc,
        "random generator": hash(random.getstate()),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "threads": sorted(t.name for t in threading.enumerate()),
        "file mode mask": _umask(),
    }


def _umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


# -------------------------------------------------------------------- inputs


def fresh_token(rng):
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyzéß日") for _ in range(rng.randint(3, 9)))


def new_row(ctx, s, row):
    """ an input never seen before """
    rng = ctx.rng
    if s.kind == "dicts":
        new = {(fresh_token(rng) if rng.random() < 0.5 else k): v for k, v in row.items()}
        new[fresh_token(rng)] = rng.choice([rng.random(), fresh_token(rng)])
        return new
    if s.kind == "lines":
        return "%s %s %s" % (row, fresh_token(rng), fresh_token(rng))
    if isinstance(row, bytes):
        return row + fresh_token(rng).encode("ascii", "ignore")
    if isinstance(row, str):
        return row + " ".join([""] + [fresh_token(rng) for _ in range(4)])
    out = []
    for v in row:
        if type(v) is float and v == v and abs(v) < 1e300:
            v = v + rng.random() if v else (rng.random() if rng.random() < 0.7 else 0.0)
        elif type(v) is str and rng.random() < 0.3:
            v = v + fresh_token(rng)
        elif type(v) is int and rng.random() < 0.3:
            v = rng.randrange(10 ** 6, 10 ** 9)
        out.append(v)
    return out


def bad_input(ctx, s, rows):
    """ something most models refuse """
    rng = ctx.rng
    row = rows[0]
    if s.kind == "lines":
        return rng.choice([[row + "\n" + fresh_token(rng)], [None], [rng.randrange(10 ** 6)]])
    if s.kind in ("matrix", "counts"):
        rows = [list(row)]
        return rng.choice([[list(row) + [rng.random()]], [list(row)[:-1]], [[fresh_token(rng)] * len(row)], [[None] * len(row)], [],
                           tuple(rows), (r for r in rows), None, fresh_token(rng), {0: rows[0]}, rows[0]])
    if s.kind == "dicts":
        return rng.choice([[rng.random()], [{fresh_token(rng): {}, "age": []}], None, row, fresh_token(rng), (row,)])
    return rng.choice([[rng.random()], [row, None], [b"\xff\xfe" + fresh_token(rng).encode()], [], row, None, (row,), {row: 1}])


def ask(s, pure, method, rows, sparse=False, raw=False):
    """ one call, refusals included """
    try:
        if raw and s.kind != "lines":
            getattr(pure, method)(rows)
        else:
            s.apply(pure, method, rows, sparse)
        return True
    except Exception:
        return False


# ------------------------------------------------------------------- effects


def _effects(family):
    def case(ctx):
        rng = ctx.rng
        s = zoo.make(ctx, family, rng.choice([1, 3]))
        pure = s.convert(ctx)
        rows = zoo.usable_rows(ctx, s, 4)
        for method in zoo.methods(s):
            for sparse in zoo.modes(s):
                # (a first call may import or compile what it needs)
                jobs = [(rows, sparse, False)] + [([new_row(ctx, s, r) for r in rows], sparse, False) for _ in range(2)]
                jobs += [(bad_input(ctx, s, rows), False, True) for _ in range(2)]
                observe(ctx, s, pure, method, jobs)
        ctx.state(family, repr(s.config))

    return case


def observe(ctx, s, pure, method, jobs, allowed=()):
    what = "%s.%s" % (s.family, method)

    def run():
        return [ask(s, pure, method, *job) for job in jobs]

    streams = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            call(ctx, what, run)
            gc.collect()
            del caught[:]
            out.seek(0), out.truncate(), err.seek(0), err.truncate()
            before = snapshot()
            good = call(ctx, what, audited, run)
            after = snapshot()
            unclosed = [str(w.message) for w in caught if issubclass(w.category, ResourceWarning)]
            printed = out.getvalue() + err.getvalue()
    finally:
        sys.stdout, sys.stderr = streams
    ctx.event("watched_calls", len(jobs))
    ctx.event("failing_calls", good.count(False))
    events = [e for e in watch["events"] if not e[0].startswith(HARMLESS)]
    ctx.event("audit_events", len(watch["events"]))
    for name, args in events:
        ctx.require(any(name == n and test(args) for n, test in allowed), "%s: %s %s" % (what, name, args), config=s.config)
    for key in before:
        ctx.require(
            before[key] == after[key], "%s: %s changed" % (what, key), before=before[key], after=after[key], config=s.config
        )
    ctx.require(not unclosed, "%s: %s" % (what, unclosed[:1]), config=s.config)
    ctx.require(not printed, "%s printed %r" % (what, printed[:80]), config=s.config)
    return events


def _files(ctx):
    """ the only files which are ever opened are the named ones, once each """
    rng = ctx.rng
    s = fam_text.make_text(ctx, plain=True) if rng.random() < 0.6 else fam_text.make_hashing(ctx)
    s.native.input = "filename"
    pure = s.convert(ctx)
    enc = getattr(s.native, "encoding", "utf-8")
    folder = tempfile.mkdtemp(prefix="vp-c30-")
    try:
        paths = []
        for i in range(3):
            paths.append(os.path.join(folder, "%d.txt" % i))
            with open(paths[-1], "wb") as fh:
                fh.write(data.document(ctx).encode(enc, "ignore"))
        undecodable = os.path.join(folder, "bad.txt")
        with open(undecodable, "wb") as fh:
            fh.write(b"abc \xff\xfe\xfa abc")
        jobs = [(paths, False, True), (paths[:1] + [undecodable], False, True), (paths[1:] + [folder + "/none"], False, True)]
        named = lambda args: ("%r, 'r" % folder)[:len(folder)] in args and folder in args and "'w" not in args
        events = observe(ctx, s, pure, "transform", jobs, [("open", named)])
        counts = [sum(p in a for _, a in events) for p in paths]
        ctx.require(counts == [2, 1, 1] or counts == [2, 2, 2], "files were opened %r times" % counts, events=events)
        ctx.require(
            sorted(os.listdir(folder)) == ["0.txt", "1.txt", "2.txt", "bad.txt"], "files appeared or vanished", now=os.listdir(folder)
        )
        ctx.event("files_read", len(events))
    finally:
        shutil.rmtree(folder)
    ctx.state(repr(s.config), counts)


# -------------------------------------------------------------------- growth


def stored_items():
    """ number of items of all containers, which small integers and shared values do not hide in """
    n = 0
    for o in gc.get_objects():
        t = type(o)
        if t is list or t is dict or t is set or t is tuple:
            n += len(o)
    return n


PHASES = 4


def _growth(family):
    def case(ctx):
        rng = ctx.rng
        s = zoo.make(ctx, family, 2)
        pure = s.convert(ctx)
        rows = zoo.usable_rows(ctx, s, 3)
        methods = zoo.methods(s)
        n = CALLS.get(family, 1200)
        batch = 12 if n < 300 else 4

        def phase(calls):
            good = 0
            for i in range(calls):
                method = methods[i % len(methods)]
                if i % 7 == 3:
                    good += ask(s, pure, method, bad_input(ctx, s, rows), False, True)
                else:
                    X = [new_row(ctx, s, rows[(i + j) % len(rows)]) for j in range(batch)]
                    good += ask(s, pure, method, X, bool(s.kind == "matrix" and s.sparse_ok and i % 2))
            return good

        def measure():
            gc.collect()
            gc.collect()
            blocks = sys.getallocatedblocks()
            return blocks, stored_items()

        call(ctx, "first calls of %s" % s.family, phase, max(20, n // 6))
        marks = [measure()]
        for _ in range(PHASES):
            good = call(ctx, "calls of %s" % s.family, phase, n)
            marks.append(measure())
            ctx.event("growth_calls", n)
            ctx.event("growth_phases")
            ctx.event("failing_calls", n - good)
        for which, name in ((0, "allocated memory blocks"), (1, "stored items")):
            steps = [b[which] - a[which] for a, b in zip(marks, marks[1:])]
            ctx.require(
                min(steps[1:]) < n * 0.4,
                "%s: the number of %s grows with the number of calls" % (s.family, name),
                steps=steps, calls_per_phase=n, config=s.config,
            )
        ctx.state(family, repr(s.config))

    return case


CALLS = {"xgb": 240, "gb": 240, "ensemble": 200, "tree": 800, "pipe": 500, "text": 600, "hashing": 300, "nb": 600, "ft_supervised": 300,
         "ft_unsupervised": 300, "tfidf": 600}
QUICK = {"xgb": 4, "gb": 4}
CASES = {"effects_" + f: (_effects(f), QUICK.get(f, 10), 300) for f in zoo.ZOO}
CASES.update({"growth_" + f: (_growth(f), 2 if f not in ("pipe",) else 4, 60) for f in zoo.ZOO})
CASES["files"] = (_files, 10, 300)
CASES.update(big_cases({k: c for k, c in CASES.items() if k.startswith("effects_")}, QUICK_SCALE, 2, 30))
