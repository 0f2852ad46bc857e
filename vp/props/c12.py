""" C12: dict vectorizer """

import collections
import collections.abc
import types

from .. import fam_text
from ..core import big_cases, call

RULE = (
    "A case fits one native dict vectorizer (sparse or dense, sorted or not, separators, dtypes, restricted) and compares "
    "the matrix of sequences of mappings with numbers, booleans, strings and unseen names, and of a single mapping. "
    "Distinct: configuration with the number of entries set."
)
QUICK_SCALE = 56
REQUIRED = {"big_cases": 5, "answers_compared": 800, "entries_compared": 800}


class ReadOnly(collections.abc.Mapping):
    def __init__(self, data):
        self.data = data

    def __getitem__(self, key):
        return self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


def _case(ctx):
    s = fam_text.make_dict(ctx)
    pure = s.convert(ctx)
    s.check(ctx, pure, "transform", s.rows)
    # one mapping is a batch of one
    one = s.rows[0]
    ref = s.reference("transform", one)
    out = call(ctx, "DictVectorizer of one mapping", pure.transform, dict(one))
    s.verify(ctx, pure, "DictVectorizer of one mapping", "transform", [one], out, ref)
    # any kind of mapping, alone or in any kind of sequence
    wrap = ctx.rng.choice([types.MappingProxyType, collections.UserDict, collections.OrderedDict, ReadOnly])
    for what, rows, arg in (
        ("one %s" % wrap.__name__, [one], wrap(one)),
        ("a list of %s" % wrap.__name__, s.rows, [wrap(r) for r in s.rows]),
        ("a generator", s.rows, (r for r in s.rows)),
    ):
        out = call(ctx, "DictVectorizer of " + what, pure.transform, arg)
        s.verify(ctx, pure, "DictVectorizer of " + what, "transform", rows, out, s.reference("transform", rows))
    rows = tuple(s.rows)
    out = call(ctx, "DictVectorizer of a tuple", pure.transform, rows)
    s.verify(ctx, pure, "DictVectorizer of a tuple", "transform", rows, out, s.reference("transform", rows))


CASES = {"dict": (_case, 400, 20000)}
CASES.update(big_cases(CASES, QUICK_SCALE))
