"""K01: converted k-nearest-neighbour classifiers vote among true nearest neighbours."""
import warnings
import numpy as np
from fractions import Fraction
from hypothesis import strategies as st
import vh, rows
from vh import Sub, check

PROPERTY = 'K01'
RULE = ('a case is a training set of int16 rows (clusters, lattices with many equal distances, extreme values), labels, k and 25 query rows; '
        'the saved model is run through eml_neighbors_predict, a part also through the Python object. Non-trivial: queries with at least two different forced answers.')
ASSUMPTIONS = ['oracle: exact integer squared distances; distances are compared after floor of the square root; a class is right when some choice among equally distant items gives it a maximal vote',
               'where every choice gives one class, that class must also be the prediction of the sklearn estimator, unless floor makes different distances equal']


def make(case):
    rng = np.random.RandomState(case['seed'])
    n, nf, nc = case['n'], case['n_features'], case['n_classes']
    y = np.concatenate([np.arange(nc), rng.randint(nc, size=max(n - nc, 0))])[:max(n, nc)]
    n = len(y)
    k = min(case['k'], n)
    s = case['style']
    if s == 'cluster':
        c = rng.randint(-3000, 3000, size=(nc, nf))
        X = c[y] + rng.randint(-case['noise'], case['noise'] + 1, size=(n, nf))
        Q = c[rng.randint(nc, size=25)] + rng.randint(-case['noise'] * 3, case['noise'] * 3 + 1, size=(25, nf))
    elif s == 'lattice':
        X = rng.randint(-3, 4, size=(n, nf))
        Q = rng.randint(-4, 5, size=(25, nf))
    elif s == 'extreme':
        v = np.array([-32768, -32767, 32767, 0, -20000, 25000, 1])
        X = v[rng.randint(len(v), size=(n, nf))]
        Q = v[rng.randint(len(v), size=(25, nf))]
    else:
        X = rng.randint(-32768, 32768, size=(n, nf))
        Q = rng.randint(-32768, 32768, size=(25, nf))
    X, Q = np.clip(X, -32768, 32767), np.clip(Q, -32768, 32767)
    if case['order'] == 'sorted':
        d = ((X - Q[0]) ** 2).sum(axis=1)
        o = np.argsort(d)
        X, y = X[o], y[o]
    elif case['order'] == 'reversed':
        d = ((X - Q[0]) ** 2).sum(axis=1)
        o = np.argsort(-d)
        X, y = X[o], y[o]
    return X.astype(np.int64), y, k, Q.astype(np.int64)


def isqrt(a):
    import math
    return np.array([math.isqrt(int(v)) for v in a])


def allowed(dist, y, k, nc):
    """Classes that have a maximal vote for some choice of k nearest."""
    o = np.sort(dist)
    t = o[k - 1]
    sure = np.bincount(y[dist < t], minlength=nc)
    tie = np.bincount(y[dist == t], minlength=nc)
    m = k - sure.sum()
    ok = set()
    for c in range(nc):
        a = min(tie[c], m)
        vc = sure[c] + a
        # the others must take m-a of the remaining, each staying <= vc
        room = sum(min(tie[j], max(vc - sure[j], 0)) for j in range(nc) if j != c)
        if all(sure[j] <= vc for j in range(nc) if j != c) and room >= m - a and vc > 0:
            ok.add(c)
    return ok


def body(case, ctx):
    import emlearn
    from sklearn.neighbors import KNeighborsClassifier
    X, y, k, Q = make(case)
    nc = case['n_classes']
    est = KNeighborsClassifier(n_neighbors=k, algorithm=case['algorithm']).fit(X.astype(float), y)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with ctx.sut('convert'):
            c = emlearn.convert(est)
            code = c.save(name='kn')
    n = len(X)
    r = rows.run(code, Q, '''
      EmlNeighborsDistanceItem *d = (EmlNeighborsDistanceItem *)malloc(sizeof(EmlNeighborsDistanceItem)*%d); int16_t out = -77;
      out_i32(eml_neighbors_predict(&kn, x, nf, d, %d, &out)); out_i32(out); free(d);''' % (n, n), [('e', '<i4'), ('p', '<i4')], dtype=np.int16, ctype='int16_t')
    check((r['e'] == 0).all(), 'predict returned error %s', r['e'][:3])
    pp = None
    if case['py']:
        with ctx.sut('predict'):
            pp = np.asarray(c.predict(Q[:15].astype(float)))
        ctx.label('python')
    forced = set()
    sk = est.predict(Q.astype(float))
    for i in range(len(Q)):
        d2 = ((X - Q[i]) ** 2).sum(axis=1)
        ok = allowed(isqrt(d2), y, k, nc)
        check(int(r['p'][i]) in ok, 'C: class %s for query %s, but the %d nearest allow %s', int(r['p'][i]), Q[i].tolist(), k, sorted(ok))
        if pp is not None and i < len(pp):
            check(int(pp[i]) in ok, 'Python: class %s for query %s, but the %d nearest allow %s', int(pp[i]), Q[i].tolist(), k, sorted(ok))
        ctx.compared()
        if len(ok) == 1:
            forced |= ok
            ok2 = allowed(d2, y, k, nc)
            if ok2 == ok:
                if int(sk[i]) not in ok:
                    raise vh.HarnessError('reference differs from sklearn')
                ctx.compared()
    ctx.label('style:' + case['style'], 'k>1' if k > 1 else 'k=1', 'items>=16' if n >= 16 else 'items<16')
    ctx.nontriv(len(forced) > 1)


@st.composite
def cases(draw, py):
    return {'n': draw(st.one_of(st.integers(2, 15), st.integers(16, 60), st.sampled_from([16, 17, 200, 700]))), 'n_features': draw(st.one_of(st.integers(1, 5), st.sampled_from([1, 2, 40]))),
            'n_classes': draw(st.integers(2, 10)), 'k': draw(st.one_of(st.integers(1, 9), st.sampled_from([1, 3, 5, 1000]))),
            'style': draw(st.sampled_from(['cluster', 'cluster', 'lattice', 'extreme', 'uniform'])), 'noise': draw(st.sampled_from([3, 100, 1500])),
            'order': draw(st.sampled_from(['random', 'sorted', 'reversed'])), 'algorithm': draw(st.sampled_from(['auto', 'brute', 'kd_tree'])),
            'seed': draw(st.integers(0, 2 ** 20)), 'py': py}


SUBTESTS = [
    Sub('knn', lambda: cases(0), body, quick=280),
    Sub('knn-python', lambda: cases(1), body, quick=24),
]
