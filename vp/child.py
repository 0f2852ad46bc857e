"""
Runs in a new interpreter with the native libraries and a hash seed of its own.
usage: child.py <verif> <job file>   -> pickled answers on stdout

The job file holds [(how, what, calls)]: native models pickled, or a fastText
case to be trained again, are converted here and answer the calls.
"""
import os
import sys

VERIF, JOB = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
from vp import core, fam_ft, zoo  # noqa

core.setup_environment()
import pickle  # noqa

from vp.subject import convert  # noqa


class Asked:
    """ the part of a subject which calls need """

    def __init__(self, pure):
        self.pure = pure

    def apply(self, pure, method, X, sparse, explicit):
        return getattr(pure, method)(X)


def run():
    with open(JOB, "rb") as fh:
        jobs = pickle.load(fh)
    out = []
    for how, what, calls in jobs:
        try:
            if how == "fasttext":
                ctx = core.Ctx(*what)
                s = fam_ft.make_ft(ctx)
                pure, native = s.convert(ctx), s.native.get_input_matrix().tobytes()
                answers = [zoo.answer(s, pure, m, X) for m, X in calls]
            elif how == "plain":
                from pure_sklearn.map import convert_estimator
                from vp.props.c16 import local

                pure, native = convert_estimator(pickle.loads(what)), None
                answers = [local(pure, m, X) for m, X in calls]
            else:
                pure, native = convert(pickle.loads(what)), None
                answers = [zoo.answer(Asked(pure), pure, m, X) for m, X in calls]
            out.append(("ok", native, answers))
        except Exception as e:
            out.append(("raised", "%s: %s" % (type(e).__name__, e), None))
    sys.stdout.buffer.write(pickle.dumps((os.environ.get("PYTHONHASHSEED"), hash("hash of this process"), out)))


run()
