"""T02: soft-voting probabilities == mean of leaf class proportions within the quantisation step."""
import numpy as np
from hypothesis import strategies as st
import vh, treelib as tl
from vh import Sub, check

PROPERTY = 'T02'
RULE = ('a case is one tree classifier (generated or fitted) with a leaf bit-width 2..8, a dtype and >=100 rows around the thresholds; '
        'non-trivial: at least one reached leaf has more than one class and rows give at least 2 different distributions.')
ASSUMPTIONS = ['oracle: mean over trees of tree_.value of the leaf given by sklearn Tree.apply',
               'error bound per class: 0.5/(2^bits-2) for rounding to levels plus 1/255 for storage in bytes']


def body(case, ctx):
    import emlearn
    est, X, nc = tl.prepare(case)
    dtype, bits = case['dtype'], case['leaf_bits']
    lv = tl.leaf_values(est, X)
    mean = lv.mean(axis=0)
    bound = 0.5 / (2 ** bits - 2) + 1 / 255. + 1e-5
    models, conv = [], []
    for m in tl.methods_for(dtype):
        with ctx.sut('convert(method=%s, dtype=%s, leaf_bits=%d)' % (m, dtype, bits)):
            c = emlearn.convert(est, method=m, dtype=dtype, leaf_bits=bits)
            code = c.save(name='mod_' + m)
        conv.append(c)
        models.append(dict(name='mod_' + m, code=code, clf=True, proba=True, n_classes=nc))
    res = tl.run_models(models, dtype, X)
    outs = [(m['name'], r['err'], r['proba'], r['pred'], mean, X) for m, r in zip(models, res)]
    if case.get('py'):
        c = conv[case['rowseed'] % len(conv)]
        with ctx.sut('predict/predict_proba'):
            pr = np.asarray(c.predict_proba(X[:30]))
            pp = np.asarray(c.predict(X[:30]))
        check(pr.shape == (30, nc) and pp.shape == (30,), 'shapes of Python results: %s %s', pr.shape, pp.shape)
        outs.append(('python', np.zeros(30), pr, pp, mean[:30], X[:30]))
        ctx.label('python predict')
    for name, err, proba, pred, want, rows in outs:
        check((err == 0).all(), '%s: error code from predict_proba', name)
        check(np.isfinite(proba).all() and proba.min() >= 0 and proba.max() <= 1 + 1e-5, '%s: probability outside [0, 1]', name)
        d = np.abs(proba - want)
        i = int(d.max(axis=1).argmax())
        check(d.max() <= bound, '%s leaf_bits=%d: probability off by %.4f (allowed %.4f): %s expected %s row %s', name, bits, d.max(), bound,
              proba[i], want[i], tl.describe_rows(rows, [i]))
        check((np.abs(proba.sum(axis=1) - 1) <= nc * bound).all(), '%s: sum of probabilities %s', name, proba.sum(axis=1)[:3])
        check(((pred >= 0) & (pred < nc)).all(), '%s: predicted class %s of %d classes', name, pred[(pred < 0) | (pred >= nc)][:3], nc)
        top = proba.max(axis=1)
        mine = proba[np.arange(len(pred)), pred]
        check((mine >= top - 1e-5).all(), '%s: predicted class is not the most probable one: %s', name, proba[(mine < top - 1e-5)][:2])
        srt = np.sort(want, axis=1)
        if nc > 1:
            clear = (srt[:, -1] - srt[:, -2]) > 2 * bound
            bad = clear & (pred != want.argmax(axis=1))
            check(not bad.any(), '%s: class differs from the estimator with clear lead', name)
            ctx.label('rows with clear lead') if clear.any() else None
        ctx.compared(len(rows) * 3)
    ctx.label('bits:%d' % bits, 'dtype:' + dtype, 'classes:%s' % ('<=2' if nc <= 2 else '3-9' if nc < 10 else '10+'))
    mixed = (lv.max(axis=2) < 1).any()
    ctx.nontriv(mixed and len(np.unique(np.round(mean, 6), axis=0)) >= 2)


DT = ['int16_t', 'int16_t', 'int16_t', 'int16_t', 'float', 'float', 'int8_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']
BITS = st.sampled_from([3, 4, 5, 6, 7, 8, 8, 2])


def with_bits(s, **kw):
    return st.tuples(s, BITS).map(lambda t: dict(t[0], leaf_bits=t[1], **kw))


SUBTESTS = [
    Sub('synthetic', lambda: with_bits(tl.forest_case('clf', dtypes=DT)), body, quick=200),
    Sub('fitted', lambda: with_bits(tl.fit_case('clf')), body, quick=80),
    Sub('large', lambda: with_bits(tl.forest_case('clf', dtypes=['int16_t'], max_trees=60, max_nodes=40)), body, quick=24),
    Sub('synthetic-python', lambda: with_bits(tl.forest_case('clf', dtypes=DT), py=1), body, quick=32),
    Sub('many-trees', lambda: st.tuples(tl.crowd_case('clf'), st.sampled_from([5, 7, 8, 8])).map(lambda t: dict(t[0], leaf_bits=t[1])), body, quick=8),
    Sub('many-leaves', lambda: st.tuples(tl.big_case('clf', 700), st.sampled_from([5, 7, 8, 8])).map(lambda t: dict(t[0], leaf_bits=t[1])), body, quick=12),
]
