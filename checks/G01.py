"""G01: converted Gaussian mixtures give the log-likelihoods and responsibilities of the original."""
import warnings
import numpy as np
from hypothesis import strategies as st
import vh, rows
from vh import Sub, check

PROPERTY = 'G01'
RULE = ('a case is one (Bayesian) GaussianMixture fitted on generated clusters (covariance type, components, features, scale, offset, correlation) and 30 rows near and far; '
        'the saved C functions are run on all rows, a part of the cases also through the Python object. Non-trivial: at least two components are the clear winner of some row, '
        'or there is one component and the scores differ.')
ASSUMPTIONS = ['oracle: score_samples / predict_proba / weighted log probabilities of the estimator', 'tolerance: float32 rounding bound of x*P - m*P summed over features']
U = 2.0 ** -24


def make(case):
    from sklearn.mixture import GaussianMixture, BayesianGaussianMixture
    rng = np.random.RandomState(case['seed'])
    nc, nf = case['n_components'], case['n_features']
    n = max(12 * nc, 4 * nf + 10)
    centres = rng.normal(size=(nc, nf)) * case['spread']
    A = [np.eye(nf) * np.exp(rng.normal() * .5) + rng.normal(size=(nf, nf)) * case['corr'] for _ in range(nc)]
    y = np.arange(n) % nc
    X = np.array([centres[k] + A[k] @ rng.normal(size=nf) for k in y])
    X = X * case['scale'] + case['offset'] * case['scale']
    kw = dict(n_components=nc, covariance_type=case['cov'], random_state=case['seed'] % 1000, max_iter=case['iters'], reg_covar=1e-6 * case['scale'] ** 2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        est = (BayesianGaussianMixture if case['bayes'] else GaussianMixture)(**kw).fit(X)
    R = [X[:10]]
    m = est.means_
    R.append(m[rng.randint(nc, size=8)] + rng.normal(size=(8, nf)) * case['scale'])
    u = rng.uniform(size=(8, 1))
    R.append(m[rng.randint(nc, size=8)] * u + m[rng.randint(nc, size=8)] * (1 - u))
    R.append(m[rng.randint(nc, size=4)] + rng.normal(size=(4, nf)) * case['scale'] * 30)
    return est, np.concatenate(R).astype(np.float32)


def full_chol(est):
    P, nc, nf = est.precisions_cholesky_, *est.means_.shape
    return {'full': lambda: P, 'tied': lambda: np.stack([P] * nc), 'diag': lambda: np.stack([np.diag(p) for p in P]),
            'spherical': lambda: np.stack([np.eye(nf) * p for p in P])}[est.covariance_type]()


def bounds(est, X):
    P = full_chol(est)
    nc, nf = est.means_.shape
    W = est._estimate_weighted_log_prob(X)
    e = np.zeros_like(W)
    for c in range(nc):
        y = (X - est.means_[c]) @ P[c]
        ey = U * (nf + 4) * (np.abs(X) @ np.abs(P[c]) + np.abs(est.means_[c]) @ np.abs(P[c])) + 1e-38
        elp = (2 * np.abs(y) * ey + ey ** 2).sum(axis=1) + U * (nf + 2) * (y * y).sum(axis=1)
        q = 0.5 * (y * y).sum(axis=1)
        ld = np.abs(np.log(np.abs(np.diag(P[c])))).sum()
        e[:, c] = 0.5 * elp + 4 * U * (q + ld + nf * 0.92 + np.abs(W[:, c]) + np.abs(W[:, c] + q) + 3)
    return W, e


def body(case, ctx):
    import emlearn
    est, X32 = make(case)
    X = X32.astype(np.float64)
    if not np.isfinite(X).all():
        return
    W, e = bounds(est, X)
    P = full_chol(est)
    big = max(np.abs(W).max(), np.abs(P).max(), np.abs(est.means_).max())
    if not np.isfinite(W).all() or big > 1e30 or not np.isfinite(e).all() or (np.abs(P)[P != 0].min() < 1e-30):
        ctx.label('outside float range')
        return
    score = est.score_samples(X)
    resp = est.predict_proba(X)
    emax = e.max(axis=1)
    # only components near the best matter for the score
    rel = W > W.max(axis=1, keepdims=True) - 60
    esc = np.where(rel, e, 0).max(axis=1) + e[np.arange(len(W)), W.argmax(axis=1)] + 8 * U * (np.abs(score) + 1)
    esc = np.where(emax > 20, np.maximum(esc, emax), esc)
    with ctx.sut('convert'):
        c = emlearn.convert(est, method=case['method'])
        code = c.save(name='gm')
    nc = W.shape[1]
    r = rows.run(code, X32, '''
      float *o = (float*)malloc(%(n)d*4), *q = (float*)malloc(%(n)d*4), *p = (float*)malloc(%(n)d*4); float s = NAN, s2 = NAN;
      out_i32(gm_predict_log_proba(x, nf, o)); drv_out(o, %(n)d*4);
      out_i32(gm_score(x, nf, q, &s)); out_f32(s); drv_out(q, %(n)d*4);
      out_i32(gm_predict_proba(x, nf, q, &s2, p)); out_f32(s2); drv_out(p, %(n)d*4);
      free(o); free(q); free(p);''' % dict(n=nc),
        [('e0', '<i4'), ('lp', '<f4', (nc,)), ('e1', '<i4'), ('s', '<f4'), ('q', '<f4', (nc,)), ('e2', '<i4'), ('s2', '<f4'), ('r', '<f4', (nc,))])
    for k in ('e0', 'e1', 'e2'):
        check((r[k] == 0).all(), 'function returned error %s', r[k][:2])

    def judge(what, lp, s, rs):
        if lp is not None:
            bad = np.argwhere(~(np.abs(lp - W) <= e))
            check(len(bad) == 0, '%s: log probabilities %s expected %s', what, lp[bad[:1, 0]].tolist(), W[bad[:1, 0]].tolist())
        if s is not None:
            bad = np.nonzero(~(np.abs(s - score[:len(s)]) <= esc[:len(s)]))[0]
            check(len(bad) == 0, '%s: score %s expected %s', what, s[bad[:3]], score[bad[:3]])
        if rs is not None:
            er = np.minimum(resp[:len(rs)] * (np.expm1(np.minimum(e[:len(rs)] + esc[:len(rs), None], 50))), 1.0) + 1e-6
            # an uncertain best component makes the others uncertain too
            er = np.maximum(er, np.minimum(np.where((emax + esc > 1)[:len(rs), None], 1.0, 0.0), 1.0))
            bad = np.argwhere(~(np.abs(rs - resp[:len(rs)]) <= er))
            check(len(bad) == 0, '%s: responsibilities %s expected %s', what, rs[bad[:1, 0]].tolist(), resp[bad[:1, 0]].tolist())
            tol = 1e-5 + 4 * U * (np.abs(score[:len(rs)]) + 1)
            check((np.abs(rs.sum(axis=1) - 1) <= tol * 4 + 0.0).all(), '%s: responsibilities sum to %s', what, rs.sum(axis=1)[:4])
            ctx.compared(len(rs))
    judge('C', r['lp'], r['s'], r['r'])
    check(np.array_equal(r['q'], r['lp']) and np.array_equal(r['s'], r['s2']), 'functions of the model disagree')
    so = np.sort(W, axis=1)
    clear = np.ones(len(W), bool) if nc == 1 else (so[:, -1] - so[:, -2]) > 2 * emax + 1e-5 * (1 + 0 * emax)
    if case['py']:
        k = 5
        pick = np.arange(k)
        with ctx.sut('Python'):
            s, q, p = c.score_samples(X32[:k]), c.predict_proba(X32[:k]), c.predict(X32[:k])
            lpp = c.predict_log_proba(X32[:k])
        s, q, p, lpp = map(np.asarray, (s, q, p, lpp))
        check(s.shape == (k,) and q.shape == (k, nc) and p.shape == (k,), 'shapes %s %s %s', s.shape, q.shape, p.shape)
        judge('Python', None, s, q)
        check((np.abs(lpp - W[:k]) <= e[:k] * 1.1).all(), 'Python log probabilities %s expected %s', lpp[:2].tolist(), W[:2].tolist())
        w = est.predict(X[:k])
        check((p[clear[:k]] == w[clear[:k]]).all(), 'Python component %s expected %s', p, w)
        ctx.label('python')
    rb = r['r'].argmax(axis=1)
    check((rb[clear] == W.argmax(axis=1)[clear]).all(), 'component %s expected %s', rb[clear][:5], W.argmax(axis=1)[clear][:5])
    ctx.label('cov:' + case['cov'], 'bayes' if case['bayes'] else 'gmm', 'components:%d' % min(nc, 4))
    ctx.nontriv(np.median(emax) < 0.05 and (len(set(W.argmax(axis=1)[clear])) > 1 if nc > 1 else np.ptp(score) > 1e-3))


@st.composite
def cases(draw, py):
    return {'n_components': draw(st.integers(1, 8)), 'n_features': draw(st.integers(1, 7)), 'cov': draw(st.sampled_from(['full', 'tied', 'diag', 'spherical'])),
            'bayes': draw(st.booleans()), 'spread': draw(st.sampled_from([5.0, 2.0, 30.0, 0.0])), 'corr': draw(st.sampled_from([0.0, 0.4, 1.0])),
            'scale': draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e-6, 1e6])), 'offset': draw(st.sampled_from([0.0, 0.0, 3.0, 100.0])),
            'iters': draw(st.sampled_from([1, 5, 20])), 'method': draw(st.sampled_from([None, 'inline', 'loadable'])),
            'seed': draw(st.integers(0, 2 ** 20)), 'py': py}


SUBTESTS = [
    Sub('mixture', lambda: cases(0), body, quick=240),
    Sub('mixture-python', lambda: cases(1), body, quick=24),
]
