"""T03: converted tree regressors == mean of the reached leaf values."""
import numpy as np
from hypothesis import strategies as st
import vh, treelib as tl
from vh import Sub, check

PROPERTY = 'T03'
RULE = ('a case is one tree regressor (generated or fitted) with leaf values between 1e-30 and 1e30 in magnitude, a dtype and >=100 rows '
        'around the thresholds; non-trivial: at least 2 different outputs over the rows.')
ASSUMPTIONS = ['oracle: float64 mean over trees of tree_.value of the leaf given by sklearn Tree.apply',
               'tolerance: (n_trees+4) half-ulps of float32 of the mean absolute leaf value']


def body(case, ctx):
    import emlearn
    est, X, _ = tl.prepare(case, **({'target_scale': case['target_scale']} if case.get('fit') else {}))
    dtype = case['dtype']
    lv = tl.leaf_values(est, X)[:, :, 0]
    want = lv.mean(axis=0)
    tol = (len(lv) + 4) * 2.0 ** -23 * np.abs(lv).mean(axis=0) + 1e-43
    models, conv = [], []
    for m in tl.methods_for(dtype):
        with ctx.sut('convert(method=%s, dtype=%s)' % (m, dtype)):
            c = emlearn.convert(est, method=m, dtype=dtype)
            code = c.save(name='mod_' + m)
        conv.append(c)
        models.append(dict(name='mod_' + m, code=code, clf=False))
    res = tl.run_models(models, dtype, X)
    outs = [(m['name'], r['pred'].astype(float), slice(None)) for m, r in zip(models, res)]
    if case.get('py'):
        c = conv[case['rowseed'] % len(conv)]
        with ctx.sut('predict'):
            p = np.asarray(c.predict(X[:40]), dtype=float)
        check(p.shape == (40,), 'predict gives shape %s', p.shape)
        outs.append(('python', p, slice(0, 40)))
        ctx.label('python predict')
    for name, got, sl in outs:
        bad = np.nonzero(~(np.abs(got - want[sl]) <= tol[sl]))[0]
        check(len(bad) == 0, '%s dtype=%s: value %s expected %s row %s', name, dtype, got[bad[:3]], want[sl][bad[:3]], tl.describe_rows(X, bad))
        ctx.compared(len(got))
    ctx.label('dtype:' + dtype, 'ens:' + case['ens'])
    big = np.abs(want).max()
    ctx.label('magnitude:' + ('0' if big == 0 else 'tiny' if big < 1e-4 else 'huge' if big > 1e6 else 'unit'))
    ctx.nontriv(len(np.unique(want)) >= 2)


LEAF = st.one_of(
    st.floats(-10, 10, width=32).map(float),
    st.integers(-40000, 40000).map(float),
    st.builds(lambda m, s: m * s, st.sampled_from([1e-30, 1e-12, 1e-7, 1e-4, 1e3, 1e7, 1e15, 1e30]), st.floats(-1, 1)),
)
DT = ['int16_t', 'int16_t', 'int16_t', 'int16_t', 'float', 'float', 'int8_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']
SCALE = st.sampled_from([1.0, 1.0, 1e-6, 1e-3, 1e4, 1e8, 1e-20])


def fit():
    return st.tuples(tl.fit_case('reg'), SCALE).map(lambda t: dict(t[0], target_scale=t[1]))


SUBTESTS = [
    Sub('synthetic', lambda: tl.forest_case('reg', dtypes=DT, leaf=LEAF), body, quick=200),
    Sub('fitted', fit, body, quick=80),
    Sub('large', lambda: tl.forest_case('reg', dtypes=['int16_t'], leaf=LEAF, max_trees=60, max_nodes=40), body, quick=24),
    Sub('synthetic-python', lambda: tl.forest_case('reg', dtypes=DT, leaf=LEAF).map(lambda c: dict(c, py=1)), body, quick=40),
    Sub('many-leaves', lambda: tl.big_case('reg', 900), body, quick=10),
    Sub('many-trees', lambda: tl.crowd_case('reg'), body, quick=8),
]
