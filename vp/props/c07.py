""" C07: scalers and normalisers """

import numpy as np
import scipy.sparse as sp

from .. import data, fam_prep
from ..core import Skip, big_cases, call
from ..subject import compare_matrix, new_sparse, pure_list, sparse_rows

RULE = (
    "A case fits one native scaler or normaliser (dense or sparse, constant and zero columns, one-row fits) and compares "
    "transform() on rows of all magnitudes, zero rows and negative rows, dense and sparse; 'function' cases call "
    "normalize_pure with every norm, axis and return_norm. Distinct: configuration with the magnitude of the result."
)
QUICK_SCALE = 56
REQUIRED = {"big_cases": 5, "answers_compared": 1500, "zero_rows": 100, "sparse_answers": 300}


def _run(kind):
    def case(ctx):
        s = fam_prep.make_scaler(ctx, kind)
        pure = s.convert(ctx)
        s.check(ctx, pure, "transform", s.rows)
        if s.sparse_ok:
            s.check(ctx, pure, "transform", s.rows, sparse=True)
            ctx.event("sparse_answers", len(s.rows))

    return case


def _function(ctx):
    """ normalize_pure against sklearn.preprocessing.normalize """
    from pure_sklearn.preprocessing import normalize_pure
    from sklearn.preprocessing import normalize

    rng = ctx.rng
    n, d = rng.choice([1, 2, 9]), rng.choice([1, 2, 6])
    X = np.array(fam_prep.hostile_rows(ctx, data.matrix(ctx, n, d), n))
    kw = {"norm": rng.choice(["l1", "l2", "max"]), "axis": rng.choice([0, 1]), "return_norm": rng.random() < 0.4}
    sparse = kw["axis"] == 1 and rng.random() < 0.5
    ctx.sample = {"X": X.tolist(), "sparse": sparse, **kw}
    try:
        with np.errstate(all="ignore"):
            ref = normalize(sp.csr_matrix(X) if sparse else X, **kw)
    except Exception as e:
        raise Skip("native normalize: %s" % type(e).__name__)
    arg = new_sparse(sparse_rows(X.tolist()), d) if sparse else X.tolist()
    out = call(ctx, "normalize_pure %s" % kw, normalize_pure, arg, **kw)
    if kw["return_norm"]:
        out, norms = out
        ref, ref_norms = ref
        if not sparse:  # natively, a zero sparse row has norm 0 here and a dense one 1
            compare_matrix(ctx, "norms %s" % kw, list(norms), np.asarray(ref_norms).ravel().tolist(), rtol=1e-13, atol=1e-320)
    if sp.issparse(ref):
        ref = ref.toarray()
    compare_matrix(ctx, "normalize_pure %s" % kw, pure_list(ctx, out, d), ref.tolist(), rtol=1e-13, atol=1e-320)
    ctx.event("answers_compared", n)
    ctx.state("function", repr(sorted(kw.items())), sparse, n, d)


CASES = {kind: (_run(kind), 100, 4000) for kind in fam_prep.SCALER_KINDS}
CASES["function"] = (_function, 150, 6000)
CASES.update(big_cases(CASES, QUICK_SCALE))
