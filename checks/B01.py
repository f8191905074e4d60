"""B01: converted Gaussian Naive Bayes models choose a class of maximal posterior."""
import numpy as np
from hypothesis import strategies as st
import vh, rows
from vh import Sub, check

PROPERTY = 'B01'
RULE = ('a case is one GaussianNB (fitted on generated clusters, or with generated means, standard deviations and priors inside the 16.16 range) and 40 rows: '
        'around the class means, between pairs of classes, and far away. Non-trivial: at least two different classes are the clear winner of some row.')
ASSUMPTIONS = ['oracle: float64 log-likelihood plus log prior, cross-checked with the estimator; a class is right when its value is within the fixed-point error bound of the best',
               'bound per feature: input, mean and std are truncated to 2^-16, the quadratic coefficient to 2^-16']
Q = 2.0 ** -16


def make(case):
    from sklearn.naive_bayes import GaussianNB
    rng = np.random.RandomState(case['seed'])
    nc, nf = case['n_classes'], case['n_features']
    centres = rng.normal(size=(nc, nf)) * case['spread'] + case['offset']
    std = np.exp(rng.normal(size=(nc, nf)) * case['stdvar']) * case['std']
    pri = rng.dirichlet(np.ones(nc) * case['priorconc'])
    pri = np.maximum(pri, 1e-6)
    pri /= pri.sum()
    if case['equal']:
        pri = np.ones(nc) / nc
    if case['style'] == 'fit':
        n = 6 * nc + 4
        y = np.concatenate([np.repeat(np.arange(nc), 3), rng.choice(nc, size=n - 3 * nc, p=pri)])
        Xt = centres[y] + rng.normal(size=(n, nf)) * std[y]
        est = GaussianNB(priors=pri if case['explicit'] else None).fit(Xt, y)
    else:
        Xt = np.repeat(centres, 2, axis=0)
        est = GaussianNB(priors=pri).fit(Xt, np.repeat(np.arange(nc), 2))
        est.theta_, est.var_, est.class_prior_ = centres, std ** 2, pri
    X = []
    t = est.theta_
    s = np.sqrt(est.var_)
    for i in range(40):
        a, b = rng.randint(nc), rng.randint(nc)
        k = i % 4
        if k == 0:
            X.append(t[a] + rng.normal(size=nf) * s[a])
        elif k == 1:
            u = rng.uniform()
            X.append(t[a] * u + t[b] * (1 - u))
        elif k == 2:
            X.append(t[a] + rng.normal(size=nf) * s[b] * 5)
        else:
            X.append(t[a] + rng.normal(size=nf) * case['far'])
    X = np.clip(np.array(X), -32000, 32000).astype(np.float32)
    return est, X


def loglik(est, X):
    """log2 posterior (unnormalised) and error bound of the fixed-point evaluation."""
    X = X.astype(np.float64)
    s = np.sqrt(est.var_)
    z = np.abs(X[:, None, :] - est.theta_[None]) / s[None]
    L = (-0.7213475204444817 * z * z - 1.3257480647361592 - np.log2(s)[None]).sum(axis=2) + np.log2(est.class_prior_)[None]
    sq = np.maximum(s - Q, Q)[None]
    dz = (2 * Q + z * Q) / sq + Q
    e = (0.7214 * (2 * z * dz + dz * dz) + Q * (z * z * 1.01 + 6)).sum(axis=2) + 2 * Q
    return L, e


def body(case, ctx):
    import emlearn
    est, X = make(case)
    s = np.sqrt(est.var_)
    if s.min() < 2 * Q or np.abs(est.theta_).max() > 32000 or s.max() > 32000:
        ctx.label('outside fixed-point range')
        return
    L, e = loglik(est, X)
    jll = est._joint_log_likelihood(X.astype(float)) / np.log(2)
    if np.abs(jll - L).max() > 1e-6 * (1 + np.abs(L).max()):
        raise vh.HarnessError('reference likelihood differs from sklearn')
    z = np.abs(X[:, None, :].astype(float) - est.theta_[None]) / s[None]
    inr = z.max(axis=(1, 2)) < 32000
    if not inr.any():
        ctx.label('rows outside z range')
        return
    X, L, e = X[inr], L[inr], e[inr]
    with ctx.sut('convert'):
        c = emlearn.convert(est)
        code = c.save(name='nb')
    r = rows.run(code, X, 'out_i32(nb_predict(x, nf));', [('p', '<i4')])['p']

    def judge(what, p, L, e):
        p = np.asarray(p, dtype=int)
        check(((p >= 0) & (p < L.shape[1])).all(), '%s: class %s of %d', what, p[(p < 0) | (p >= L.shape[1])][:3], L.shape[1])
        i = np.arange(len(p))
        gap = (L - e).max(axis=1) - (L[i, p] + e[i, p])
        bad = np.nonzero(gap > 1e-9 * np.abs(L).max(axis=1))[0]
        check(len(bad) == 0, '%s: class %s has log2 likelihood %s, the best class %s has %s', what, p[bad[:2]], L[bad[:2], p[bad[:2]]], L[bad[:2]].argmax(axis=1), L[bad[:2]].max(axis=1))
        ctx.compared(len(p))
    judge('C', r, L, e)
    if case['py']:
        with ctx.sut('predict'):
            p = c.predict(X[:12])
        judge('Python predict', p, L[:12], e[:12])
        ctx.label('python')
    so = np.sort(L - e, axis=1)
    w = L.argmax(axis=1)
    clear = (np.sort(L, axis=1)[:, -1] - np.sort(L, axis=1)[:, -2]) > 2 * e.max(axis=1)
    ctx.label('classes>10' if L.shape[1] > 10 else 'classes<=10', 'style:' + case['style'], 'priors:' + ('equal' if case['equal'] else 'unequal'))
    if z.max() > 181:
        ctx.label('z above 181')
    ctx.nontriv(len(set(w[clear])) > 1)


@st.composite
def cases(draw, py):
    return {'n_classes': draw(st.one_of(st.integers(2, 6), st.sampled_from([2, 3, 10, 11, 25]))), 'n_features': draw(st.one_of(st.integers(1, 6), st.sampled_from([1, 20]))),
            'spread': draw(st.sampled_from([1.0, 0.1, 10.0, 300.0, 0.0])), 'offset': draw(st.sampled_from([0.0, 0.0, 5.0, -100.0, 3000.0])),
            'std': draw(st.sampled_from([1.0, 0.3, 0.05, 5.0, 100.0, 0.005])), 'stdvar': draw(st.sampled_from([0.0, 0.5, 1.5])),
            'priorconc': draw(st.sampled_from([1.0, 0.2, 5.0])), 'equal': draw(st.booleans()), 'explicit': draw(st.booleans()),
            'style': draw(st.sampled_from(['fit', 'params'])), 'far': draw(st.sampled_from([1.0, 30.0, 1000.0])),
            'seed': draw(st.integers(0, 2 ** 20)), 'py': py}


SUBTESTS = [
    Sub('naive-bayes', lambda: cases(0), body, quick=320),
    Sub('naive-bayes-python', lambda: cases(1), body, quick=32),
]
