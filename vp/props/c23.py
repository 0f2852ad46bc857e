""" C23: an aborted call leaves no trace """

import copy
import pickle
import sys

from .. import sched, zoo
from ..core import Skip, big_cases, busy
from ..subject import equal

RULE = (
    "A case converts one model and records the answers of several calls from fresh copies in fresh processes. It then aborts "
    "calls: an asynchronous exception is raised at the k-th line (or bytecode) the package executes, for every k or an even "
    "sample of them, on a used model, on a new copy, or on a new copy in a new process; or the input holds a malformed row, "
    "a value whose arithmetic raises, or an iterator which fails midway. After each abort the caller's input has to be "
    "unchanged and later calls on the same model have to give the recorded answers. Distinct: aborted calls with their place."
)
REQUIRED = {"aborted_by_injection": 8000, "aborted_by_input": 1200, "later_calls": 15000, "fresh_process_aborts": 300}


class Injected(BaseException):
    pass


class Bomb(float):
    """ a number which cannot be computed with """

    def _boom(self, *args):
        raise ArithmeticError("bomb")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _boom
    __pow__ = __abs__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _boom

    def __hash__(self):
        return 7

    def __deepcopy__(self, memo):
        return self


class Abort:
    """ runs a call and raises at its k-th event inside the package """

    def __init__(self, k=None, opcodes=False):
        self.k, self.opcodes, self.seen, self.place = k, opcodes, 0, None

    def point(self, frame):
        self.seen += 1
        if self.seen == self.k:
            self.place = (frame.f_code.co_name, frame.f_lineno)
            raise Injected()

    def local(self, frame, event, arg):
        if event != "exception":
            self.point(frame)
        return self.local

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(sched.PACKAGES):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self.point(frame)
        return self.local

    def __call__(self, func, *args):
        sys.settrace(self.glob)
        try:
            func(*args)
            return "returned"
        except Injected:
            return "aborted"
        except Exception as e:
            return "raised"
        finally:
            sys.settrace(None)


def argument(s, c):
    return s.pure_input(c[1], c[2])


def invoke(s, model, method, arg):
    with busy():
        if s.kind == "lines":
            return s.apply(model, method, arg)
        return getattr(model, method)(arg)


def malformed(ctx, s, c):
    """ inputs which are invalid somewhere """
    rng = ctx.rng
    arg = argument(s, c)
    i = rng.randrange(len(arg))
    kind = rng.choice(["cell", "cell", "row", "bomb", "short", "append", "iterator"])
    if s.kind == "matrix":
        if c[2]:
            row = arg[i]
            if kind in ("cell", "bomb", "iterator") or not row:
                row[0] = rng.choice([None, "text", [], Bomb(1.0)])
            elif kind == "short":
                row[arg.size + rng.choice([0, 1, 50])] = 1.0
            elif kind == "append":
                arg.append(rng.choice([None, 3, "row", [1.0]]))
            else:
                row[rng.choice(["0", None, -1, 1.5])] = 2.0
            return kind, arg
        row = arg[i]
        if kind in ("cell", "iterator") and row:
            row[rng.randrange(len(row))] = rng.choice([None, "text", [], {}, object, 1j])
        elif kind == "bomb" and row:
            row[rng.randrange(len(row))] = Bomb(1.0)
        elif kind == "short":
            arg[i] = row[:-1]
        elif kind == "append":
            arg.append(rng.choice([None, 3, [], "row", {}]))
        else:
            arg[i] = rng.choice([None, 3, [], "row", {}, row + [1.0]])
        return kind, arg
    if s.kind == "dicts":
        if kind in ("cell", "bomb"):
            arg[i] = dict(arg[i])
            key = rng.choice(sorted(map(str, arg[i])) or ["x"])
            arg[i][key] = Bomb(1.0) if kind == "bomb" else rng.choice([None, [], {}, object])
        elif kind == "iterator":
            return kind, (copy.deepcopy(r) if j < i else 1 / 0 for j, r in enumerate(list(arg)))
        else:
            arg[i] = rng.choice([None, 3, [1], "row"])
        return kind, arg
    if kind == "iterator" and s.kind == "docs":
        return kind, (r if j < i else 1 / 0 for j, r in enumerate(list(arg)))
    arg[i] = rng.choice([None, 3, b"\xff\xfe bytes", [], 2.5, {}] + ([arg[i] + "\nmore"] if s.kind == "lines" else []))
    if rng.random() < 0.3:
        arg.append(arg.pop(0))
    return kind, arg


def _run(family):
    def case(ctx):
        rng = ctx.rng
        sys.unraisablehook = lambda args: None  # exceptions raised while generators are closed
        s = zoo.make(ctx, family, rng.choice([1, 2, 3]))
        pure = s.convert(ctx)
        blob = zoo.dumps(ctx, s, pure)
        if ctx.big and len(blob) > 300000:
            raise Skip("too large to be traced line by line")
        rows = zoo.usable_rows(ctx, s, 3)
        calls = []
        for method in zoo.methods(s):
            for sparse in zoo.modes(s):
                calls.append((method, [rng.choice(rows) for _ in range(rng.choice([1, 2]))], sparse, None))
        rng.shuffle(calls)
        calls = calls[:4]
        expected = zoo.fresh_answers(ctx, s, blob, calls)

        def later(model, what, everything):
            picks = range(len(calls)) if everything else [rng.randrange(len(calls))]
            for i in picks:
                ctx.event("later_calls")
                ctx.event("calls")
                got = zoo.answer(s, model, *calls[i])
                ctx.require(
                    equal(list(got), list(expected[i])), "%s; then %s: not the answer of a fresh copy" % (what, calls[i][0]),
                    got=got, expected=expected[i], config=s.config,
                )

        used = pickle.loads(blob)
        later(used, "first", True)
        # asynchronous exceptions
        for c in rng.sample(calls, min(2, len(calls))):
            opcodes = rng.random() < 0.25
            count = Abort(None, opcodes)
            count(invoke, s, pickle.loads(blob), c[0], argument(s, c))
            n = count.seen
            cap = 120 if not ctx.thorough else 400
            if n <= cap:
                points = list(range(1, n + 1))
                ctx.event("calls_aborted_at_every_point")
            else:
                step = n / float(cap)
                points = sorted({1 + int(step * (j + rng.random())) for j in range(cap)} | {n, n - 1})
                points = [p for p in points if 1 <= p <= n]
            for k in points:
                where = rng.random()
                model = used if where < 0.5 else pickle.loads(blob)
                arg = argument(s, c)
                before = copy.deepcopy(arg)
                abort = Abort(k, opcodes)
                if where > 0.97:
                    # nothing of the package has ever run in that process
                    def child():
                        got = abort(invoke, s, model, c[0], arg)
                        return got, equal(arg, before), [zoo.answer(s, model, *x) for x in calls], abort.place

                    status, res = zoo.in_process(child)()
                    if status != "ok":
                        raise RuntimeError(res)
                    got, same, answers, place = res
                    ctx.event("fresh_process_aborts")
                    what = "%s.%s aborted at %s" % (s.family, c[0], place)
                    ctx.require(same, what + ": the caller's input was changed", config=s.config)
                    for x, a, e in zip(calls, answers, expected):
                        ctx.event("later_calls")
                        ctx.require(
                            equal(list(a), list(e)), "%s; then %s: not the answer of a fresh copy" % (what, x[0]),
                            got=a, expected=e, config=s.config,
                        )
                else:
                    got = abort(invoke, s, model, c[0], arg)
                    what = "%s.%s aborted at %s" % (s.family, c[0], abort.place)
                    ctx.require(equal(arg, before), what + ": the caller's input was changed", before=before, after=arg, config=s.config)
                    later(model, what, rng.random() < 0.15)
                ctx.event("aborted_by_injection" if got == "aborted" else "injection_not_felt")
                ctx.state(family, c[0], k, n)
        # invalid input
        for _ in range(10):
            c = rng.choice(calls)
            kind, arg = malformed(ctx, s, c)
            fixed = isinstance(arg, list)
            before = copy.deepcopy(arg) if fixed else None
            model = used if rng.random() < 0.5 else pickle.loads(blob)
            try:
                invoke(s, model, c[0], arg)
                ctx.event("malformed_input_accepted")
            except Exception as e:
                ctx.event("aborted_by_input")
                ctx.state(family, c[0], kind, type(e).__name__)
            what = "%s.%s with malformed input (%s)" % (s.family, c[0], kind)
            if fixed:
                try:
                    same = len(arg) == len(before) and all(_alike(a, b) for a, b in zip(arg, before))
                except ArithmeticError:
                    same = False
                ctx.require(same, what + ": the caller's input was changed", config=s.config)
            later(model, what, rng.random() < 0.3)
        later(used, "at the end", True)

    return case


def _alike(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(_alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(_alike(a[k], b[k]) for k in a)
    if isinstance(a, Bomb) or isinstance(b, Bomb) or isinstance(a, type):
        return a is b
    return equal(a, b)


QUICK = {"ft_supervised": 10, "ft_unsupervised": 10, "xgb": 14, "gb": 14, "pipe": 40, "text": 30}
CASES = {f: (_run(f), QUICK.get(f, 20), QUICK.get(f, 20) * 20) for f in zoo.ZOO}
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, 1, 2, 30))
