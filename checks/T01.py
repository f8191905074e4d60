"""T01: hard voting of converted tree classifiers == majority vote of the trained trees."""
import numpy as np
from hypothesis import strategies as st
import vh, treelib as tl
from vh import Sub, check

PROPERTY = 'T01'
RULE = ('a case is one tree ensemble (either a real sklearn Tree object of generated shape, thresholds and leaves, or a real fit on '
        'generated data) with a feature dtype and >=100 rows placed at, next to and away from every threshold; non-trivial: at least '
        '2 classes are predicted over the rows and at least one split has rows on both sides. Distinct by case content.')
ASSUMPTIONS = ['oracle: sklearn Tree.apply on float32 rows and the trained leaf values', 'rows are exactly representable in float32 and in the feature type']


def body(case, ctx):
    import emlearn
    est, X, nc = tl.prepare(case)
    dtype = case['dtype']
    votes = tl.hard_votes(est, X, nc)
    expect = votes.argmax(axis=1)
    models, conv = [], []
    for m in tl.methods_for(dtype):
        with ctx.sut('convert(method=%s, dtype=%s)' % (m, dtype)):
            c = emlearn.convert(est, method=m, dtype=dtype)
            code = c.save(name='mod_' + m)
        conv.append(c)
        models.append(dict(name='mod_' + m, code=code, clf=True, proba=True, n_classes=nc))
    res = tl.run_models(models, dtype, X)
    for m, r in zip(models, res):
        bad = np.nonzero(r['pred'] != expect)[0]
        check(len(bad) == 0, '%s dtype=%s: class %s, the trees vote %s (votes %s) for row %s', m['name'], dtype,
              r['pred'][bad[:3]], expect[bad[:3]], votes[bad[:3]].tolist(), tl.describe_rows(X, bad))
        check((r['err'] == 0).all(), '%s: predict_proba returned an error', m['name'])
        p = votes / votes.sum(axis=1, keepdims=True)
        d = np.abs(r['proba'] - p)
        check(np.isfinite(r['proba']).all() and d.max() < 1e-5, '%s: vote shares differ by %g', m['name'], np.nanmax(d))
    ctx.compared(len(X) * len(models) * 2)
    ctx.label('dtype:' + dtype, 'ens:' + case['ens'], 'classes:%s' % ('1' if nc == 1 else '2' if nc == 2 else '3-9' if nc < 10 else '10+'))
    s = np.sort(votes, axis=1)
    if nc > 1 and (s[:, -1] == s[:, -2]).any():
        ctx.label('has vote tie')
    if any(m.tree_.node_count == 1 for m in tl.members(est)):
        ctx.label('has single-leaf tree')
    ctx.nontriv(len(set(expect.tolist())) >= 2)
    if case.get('py'):
        rows = X[:40]
        c = conv[case['rowseed'] % len(conv)]
        with ctx.sut('predict'):
            pred = np.asarray(c.predict(rows))
        check(len(pred) == len(rows), 'predict gives %d answers for %d rows', len(pred), len(rows))
        bad = np.nonzero(pred != expect[:40])[0]
        check(len(bad) == 0, 'Python predict (%s): %s expected %s row %s', dtype, pred[bad[:3]], expect[bad[:3]], tl.describe_rows(rows, bad))
        ctx.compared(len(rows))
        ctx.label('python predict')
        with ctx.sut('predict_proba'):
            q = np.asarray(c.predict_proba(rows))
        check(q.shape == (len(rows), nc) and np.abs(q - p[:40]).max() < 2e-5, 'Python predict_proba differs from the vote shares')


DT = ['int16_t', 'int16_t', 'int16_t', 'int16_t', 'float', 'float', 'int8_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']


def synth():
    return tl.forest_case('clf', dtypes=DT)


def synth_py():
    return tl.forest_case('clf', dtypes=DT).map(lambda c: dict(c, py=1))


def big():
    return tl.forest_case('clf', dtypes=['int16_t', 'float'], max_trees=40, max_nodes=60)


def fit():
    return tl.fit_case('clf')


def fit_py():
    return tl.fit_case('clf').map(lambda c: dict(c, py=1))


SUBTESTS = [
    Sub('synthetic', synth, body, quick=200),
    Sub('fitted', fit, body, quick=80),
    Sub('large', big, body, quick=24),
    Sub('synthetic-python', synth_py, body, quick=48),
    Sub('fitted-python', fit_py, body, quick=24),
    Sub('many-nodes', lambda: tl.big_case('clf', 6000), body, quick=10),
    Sub('many-trees', lambda: tl.crowd_case('clf'), body, quick=10),
]
