""" C10: count and tf-idf vectorizers """

import os
import shutil
import tempfile

from .. import data, fam_text
from ..core import Skip, big_cases, call

RULE = (
    "A case fits one native vectorizer over a small (hence repeating) Unicode vocabulary (analyser, n-grams, stop words, "
    "accents, case, patterns, encodings, vocabularies, weighting options) and compares the document matrix of fitted, "
    "random, empty, repeated and encoded documents; 'files' reads documents from files and file objects. Distinct: "
    "non-identical document rows observed."
)
QUICK_SCALE = 27.5
REQUIRED = {"big_cases": 5, "answers_compared": 1500, "entries_compared": 5000, "empty_rows": 50, "rows_with_repeated_or_weighted_entries": 500}


def _run(kind):
    def case(ctx):
        s = fam_text.make_text(ctx, kind)
        pure = s.convert(ctx)
        s.check(ctx, pure, "transform", s.rows)
        if s.kind == "docs":
            # any iterable of documents
            ref = s.reference("transform", s.rows)
            for what, arg in (("tuple", tuple(s.rows)), ("generator", (d for d in s.rows))):
                out = call(ctx, "%s.transform of a %s" % (s.family, what), pure.transform, arg)
                s.verify(ctx, pure, s.family + " of a " + what, "transform", s.rows, out, ref)

    return case


def _files(ctx):
    s = fam_text.make_text(ctx, ctx.rng.choice(["count", "tfidf"]), plain=True)
    enc = getattr(s.native, "encoding", "utf-8")
    docs = [d if isinstance(d, bytes) else d.encode(enc, "ignore") for d in s.rows]
    folder = tempfile.mkdtemp(prefix="vp-c10-")
    try:
        paths = []
        for i, d in enumerate(docs):
            path = os.path.join(folder, "%d.txt" % i)
            with open(path, "wb") as fh:
                fh.write(d)
            paths.append(path)
        s.native.input = ctx.rng.choice(["filename", "file"])
        pure = s.convert(ctx)
        if s.native.input == "filename":
            s.check(ctx, pure, "transform", paths)
        else:
            try:
                ref = s.native.transform([open(p, "rb") for p in paths])
            except Exception as e:
                raise Skip("native: %s" % type(e).__name__)
            out = call(ctx, "transform of files", pure.transform, [open(p, "rb") for p in paths])
            s.verify(ctx, pure, s.family + " of files", "transform", docs, out, ref)
        ctx.event("documents_read_from_files", len(paths))
    finally:
        shutil.rmtree(folder)


CASES = {kind: (_run(kind), 150, 6000) for kind in fam_text.TEXT_KINDS}
CASES["files"] = (_files, 40, 1000)
CASES.update(big_cases(CASES, QUICK_SCALE))
