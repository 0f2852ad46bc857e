""" C22: threads sharing a model do not disturb each other """

import pickle

from .. import sched, zoo
from ..core import Skip, big_cases
from ..subject import equal

RULE = (
    "A case converts one model (or two), records each call's answer from a fresh copy in a fresh process and then lets 2 to 4 "
    "threads make such calls on one shared freshly unpickled model in a new process: under a seeded scheduler which passes "
    "control between threads at lines or bytecodes of the package (random, and with one to three preemptions swept over the "
    "whole run), and freely with a switch interval of one microsecond. Every answer is compared bit for bit. Distinct: "
    "interleavings (sequences of switches with their places)."
)
REQUIRED = {"schedules": 1500, "thread_switches": 20000, "concurrent_answers": 6000, "free_runs": 150}


def play(mode, blobs, threads, apply):
    """ runs in its own process; everything it needs is in the closure """
    models = [pickle.loads(b) for b in blobs]

    def job(call):
        which, c = call
        return lambda: apply(which, models[which], c)

    jobs = [[job(c) for c in calls] for calls in threads]
    if mode[0] == "free":
        return sched.free_run(jobs), 0, 0, None
    s = sched.Scheduler(jobs, mode[1], mode[2], mode[3])
    out = s.run()
    return out, s.events, s.switches, (hash(tuple(s.trail)), s.free)


def _run(family):
    def case(ctx):
        rng = ctx.rng
        subjects = [zoo.make(ctx, family, rng.choice([1, 2, 4]))]
        if rng.random() < 0.2:
            try:
                subjects.append(zoo.make(ctx, family, 2))
            except Skip:
                pass
        blobs, calls, expected = [], [], {}
        for w, s in enumerate(subjects):
            pure = s.convert(ctx)
            blobs.append(zoo.dumps(ctx, s, pure))
            if ctx.big and len(blobs[-1]) > 300000:
                raise Skip("too large to be traced line by line")
            rows = zoo.usable_rows(ctx, s, 4)
            own = []
            for method in zoo.methods(s):
                for sparse in zoo.modes(s):
                    own.append((method, [rng.choice(rows) for _ in range(rng.choice([1, 1, 2, 3]))], sparse, None))
            rng.shuffle(own)
            own = own[:5]
            calls += [(w, c) for c in own]
            for c, e in zip(own, zoo.fresh_answers(ctx, s, blobs[w], own)):
                expected[(w, repr(c))] = e

        shared = {}
        if rng.random() < 0.4 and all(s.kind != "lines" for s in subjects):
            # the threads even pass the same input object
            shared = {(w, repr(c)): subjects[w].pure_input(c[1], c[2]) for w, c in calls}
            ctx.event("cases_with_shared_inputs")

        def apply(which, model, c):
            arg = shared.get((which, repr(c)))
            if arg is None:
                return zoo.answer(subjects[which], model, *c)
            try:
                return ("ok", getattr(model, c[0])(arg))
            except Exception as e:
                return ("raised", type(e).__name__)

        n = rng.choice([2, 2, 3, 4])
        threads = [[rng.choice(calls) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
        total = 300
        for attempt_no in range(12 if ctx.thorough else 6):
            u = rng.random()
            opcodes = rng.random() < 0.3
            if attempt_no == 0:
                mode = ("free",)
                plan = [c * rng.choice([3, 10]) for c in threads]
            else:
                plan = threads
                if u < 0.5:
                    policy = ("random", rng.choice([0.02, 0.1, 0.3, 0.7]))
                else:
                    policy = ("preempt", sorted(rng.randrange(1, max(2, total)) for _ in range(rng.choice([1, 1, 2, 3]))))
                mode = ("scheduled", policy, rng.randrange(10 ** 9), opcodes)
            status, res = zoo.in_process(play)(mode, blobs, plan, apply)
            if status != "ok":
                raise RuntimeError("thread process: %s" % res)
            answers, events, switches, trail = res
            if mode[0] == "free":
                ctx.event("free_runs")
            else:
                ctx.event("schedules")
                ctx.event("thread_switches", switches)
                ctx.event("scheduling_points", events)
                total = max(20, min(events, 6000))
                ctx.state(family, mode, trail)
                ctx.event("schedules_released", int(trail[1]))
            for t, (got, asked) in enumerate(zip(answers, plan)):
                ctx.require(
                    len(got) == len(asked), "thread %d of %s made %d of %d calls" % (t, family, len(got), len(asked)),
                )
                for (w, c), g in zip(asked, got):
                    e = expected[(w, repr(c))]
                    ctx.event("concurrent_answers")
                    ctx.event("calls")
                    ctx.require(
                        equal(list(g), list(e)),
                        "%s.%s, %d threads, %s: not the answer of a call made alone" % (subjects[w].family, c[0], n, mode[0]),
                        got=g, expected=e, mode=mode, config=subjects[w].config,
                    )

    return case


QUICK = {"ft_supervised": 12, "ft_unsupervised": 12, "xgb": 16, "gb": 20, "pipe": 40, "text": 40}
CASES = {f: (_run(f), QUICK.get(f, 24), QUICK.get(f, 24) * 16) for f in zoo.ZOO}


def _functions(ctx):
    """ the same for the module functions """
    from .c19 import function_calls

    rng = ctx.rng
    ops = function_calls(ctx)
    expected = [zoo.in_process(lambda: f(*a, **kw))() for _, f, a, kw in ops]

    def job(i):
        def go():
            _, f, args, kw = ops[i]
            try:
                return ("ok", f(*args, **kw))
            except Exception as e:
                return ("raised", "%s: %s" % (type(e).__name__, e))

        return go

    for attempt_no in range(6):
        n = rng.choice([2, 3])
        plan = [[rng.randrange(len(ops)) for _ in range(2)] for _ in range(n)]
        p, seed, opcodes = rng.choice([0.05, 0.3]), rng.randrange(10 ** 9), rng.random() < 0.3

        def go():
            if attempt_no == 0:
                return sched.free_run([[job(i) for i in t] * 5 for t in plan]), 0, 0
            s = sched.Scheduler([[job(i) for i in t] for t in plan], ("random", p), seed, opcodes)
            return s.run(), s.events, s.switches

        status, res = zoo.in_process(go)()
        if status != "ok":
            raise RuntimeError("thread process: %s" % res)
        answers, events, switches = res
        ctx.event("free_runs" if attempt_no == 0 else "schedules")
        ctx.event("thread_switches", switches)
        ctx.event("scheduling_points", events)
        for t, got in zip(plan, answers):
            asked = t * 5 if attempt_no == 0 else t
            ctx.require(len(got) == len(asked), "a thread did not finish its calls")
            for i, g in zip(asked, got):
                ctx.event("concurrent_answers")
                ctx.event("calls")
                ctx.require(
                    equal(list(g), list(expected[i])), "%s among threads: not the answer of a call made alone" % ops[i][0],
                    got=g, expected=expected[i],
                )
        ctx.state(plan, p, seed, switches)


CASES["functions"] = (_functions, 24, 400)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, 1, 2, 30))
