"""
Runs in an interpreter started with given settings: standard library plus the package.
usage: settings.py <package path> <settings, separated by commas> <job file> <answer file>

The job file holds pickled bytes of built-in values: [(blob, [(method, arg blob)])].
"""
import sys

PACKAGE, SETTINGS, JOB, OUT = sys.argv[1:5]
SETTINGS = set(SETTINGS.split(","))
sys.path.append(PACKAGE)
sys.dont_write_bytecode = True

import gc  # noqa
import os  # noqa
import pickle  # noqa

with open(JOB, "rb") as fh:
    JOBS = pickle.load(fh)


def answers():
    out = []
    for blob, calls in JOBS:
        try:
            model = pickle.loads(blob)
        except BaseException as e:
            out.append(("unpickling", "%s: %s" % (type(e).__name__, e)))
            continue
        res = []
        for method, arg in calls:
            try:
                X = pickle.loads(arg)
                if method.startswith("line:"):
                    _, name, kw = method.split(":", 2)
                    kw = eval(kw)
                    got = [getattr(model, name)(row, **kw) for row in X]
                else:
                    got = getattr(model, method)(X)
                res.append(("ok", pickle.dumps(got, 2)))
            except BaseException as e:
                res.append(("raised", type(e).__name__))
        out.append(("ok", res))
    return out


def finish(out):
    with open(OUT, "wb") as fh:
        fh.write(pickle.dumps(out, 2))


def in_thread():
    import threading

    threading.stack_size(256 * 1024)
    got = []
    t = threading.Thread(target=lambda: got.append(answers()))
    t.start()
    t.join()
    return got[0]


def in_loop():
    import asyncio

    async def ask():
        return answers()

    return asyncio.run(ask())


def in_generator():
    def steps():
        yield answers()

    return next(steps())


def main():
    work = answers
    if "gc_off" in SETTINGS:
        gc.disable()
    if "gc_frantic" in SETTINGS:
        gc.set_threshold(1, 1, 1)
    if "digits" in SETTINGS:
        sys.set_int_max_str_digits(640)
    if "closed_streams" in SETTINGS:
        for fd in (0, 1, 2):
            try:
                os.close(fd)
            except OSError:
                pass
        sys.stdin = sys.stdout = sys.stderr = None
    if "cwd_gone" in SETTINGS:
        import tempfile

        d = tempfile.mkdtemp(prefix="vp-gone-")
        os.chdir(d)
        os.rmdir(d)
    if "profiled" in SETTINGS:
        sys.setprofile(lambda frame, event, arg: None)
    if "traced" in SETTINGS:
        def trace(frame, event, arg):
            return trace

        sys.settrace(trace)
    if "decimal" in SETTINGS:
        import decimal

        decimal.getcontext().prec = 3
        decimal.getcontext().traps[decimal.Inexact] = True
    if "switching" in SETTINGS:
        sys.setswitchinterval(1e-6)
    if "no_descriptors" in SETTINGS:
        import resource

        resource.setrlimit(resource.RLIMIT_NOFILE, (16, 16))
    if "recursion" in SETTINGS:
        # importing needs more than predicting
        import pure_fasttext  # noqa
        from pure_sklearn import base, dummy, ensemble, feature_extraction, impute, linear_model, metrics, naive_bayes  # noqa
        from pure_sklearn import pipeline, preprocessing, svm, tree, xgboost  # noqa

        for blob, _ in JOBS:
            pickle.loads(blob)
        sys.setrecursionlimit(150)
    if "thread" in SETTINGS:
        work = in_thread
    if "loop" in SETTINGS:
        work = in_loop
    if "generator" in SETTINGS:
        work = in_generator
    if "forked" in SETTINGS:
        for blob, _ in JOBS:
            pickle.loads(blob)
        pid = os.fork()
        if pid == 0:
            finish(answers())
            os._exit(0)
        os._exit(os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]))
    if "subinterpreter" in SETTINGS and __name__ == "__main__":
        try:
            import _xxsubinterpreters as sub
        except ImportError:
            sub = None
        if sub is not None:
            code = "import sys; sys.argv = %r; __name__ = 'settings'; exec(compile(open(%r).read(), %r, 'exec'))" % (
                [sys.argv[0], PACKAGE, ",".join(SETTINGS - {"subinterpreter"}), JOB, OUT], os.path.abspath(__file__), __file__)
            other = sub.create()
            sub.run_string(other, code)
            sub.destroy(other)
            return
    finish(work())


main()
