"""
Runs in a bare interpreter: standard library plus the package, nothing else.
usage: bare.py <repo> <job file>   -> pickled answers on stdout

The job file holds pickled bytes only of built-in values:
    [(blob, [(method, arg blob)])]; every blob is loaded separately.
"""
import sys

REPO, JOB = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
attempts = []


class Watch:
    """ records and denies imports of anything beyond the standard library and the package """

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in sys.stdlib_module_names or top in ("pure_sklearn", "pure_fasttext"):
            return None
        frame = sys._getframe(1)
        while frame is not None and "importlib" in frame.f_code.co_filename:
            frame = frame.f_back
        attempts.append((top, frame.f_globals.get("__name__", "?") if frame is not None else "?"))
        raise ImportError("%s is not available here" % name)


sys.meta_path.insert(0, Watch())
sys.path.append(REPO)
import pickle  # noqa


class Answers:
    pass


def run():
    with open(JOB, "rb") as fh:
        jobs = pickle.load(fh)
    out = []
    for blob, calls in jobs:
        try:
            model = pickle.loads(blob)
        except BaseException as e:
            out.append(("unpickling", "%s: %s" % (type(e).__name__, e)))
            continue
        answers = []
        for method, arg in calls:
            try:
                X = pickle.loads(arg)
                if method.startswith("line:"):
                    _, name, kw = method.split(":", 2)
                    kw = eval(kw)
                    res = [getattr(model, name)(row, **kw) for row in X]
                else:
                    res = getattr(model, method)(X)
                answers.append(("ok", pickle.dumps(res, 2)))
            except BaseException as e:
                answers.append(("raised", type(e).__name__))
        out.append(("ok", answers))
    foreign = sorted(
        {m.split(".")[0] for m in sys.modules} - set(sys.stdlib_module_names) - {"pure_sklearn", "pure_fasttext", "__main__"}
    )
    result = {"answers": out, "attempts": attempts, "modules": foreign, "prefix": sys.prefix}
    sys.stdout.buffer.write(pickle.dumps(result, 2))


run()
