"""E01: converted elliptic envelopes give the distance and decision of the original."""
import warnings
import numpy as np
from hypothesis import strategies as st
import vh, rows
from vh import Sub, check

PROPERTY = 'E01'
RULE = ('a case is one EllipticEnvelope (fitted on generated correlated data, or with generated location, precision and offset) and 40 rows inside, near and beyond the boundary; '
        'non-trivial: both inliers and outliers among the rows that are clear of the boundary.')
ASSUMPTIONS = ['oracle: mahalanobis(), score_samples() and predict() of the estimator', 'tolerance: float32 rounding bound of the quadratic form']
U = 2.0 ** -24


def make(case):
    from sklearn.covariance import EllipticEnvelope
    rng = np.random.RandomState(case['seed'])
    nf = case['n_features']
    n = 5 * nf + 20
    A = np.eye(nf) + rng.normal(size=(nf, nf)) * case['corr']
    sc = np.exp(rng.normal(size=nf) * case['aniso'])
    X = (rng.normal(size=(n, nf)) @ A + case['offset'] * rng.normal(size=nf)) * sc
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        est = EllipticEnvelope(contamination=case['contamination'], random_state=0, support_fraction=case['support']).fit(X)
    k = case['scale']     # fitted at unit scale (the estimator refuses tiny variances), then rescaled
    X, est.location_, est.covariance_, est.precision_ = X * k, est.location_ * k, est.covariance_ * k ** 2, est.get_precision() / k ** 2
    if case['bound'] is not None:
        est.offset_ = np.float64(case['bound'])
    m = est.location_
    sd = np.sqrt(np.diag(est.covariance_))
    rel = np.sqrt(abs(est.offset_) / nf)
    R = [X[:12], m + rng.normal(size=(10, nf)) * sd * rel, m[None] + 0 * rng.normal(size=(2, nf))]
    L = np.linalg.cholesky(est.covariance_ + 1e-12 * np.eye(nf) * sd.max() ** 2)
    d = rng.normal(size=(16, nf))
    d /= np.linalg.norm(d, axis=1)[:, None]
    R.append(m + (d * (np.sqrt(abs(est.offset_)) * (1 + rng.normal(size=(16, 1)) * case['near']))) @ L.T)
    return est, np.concatenate(R).astype(np.float32)


def body(case, ctx):
    import emlearn
    est, X32 = make(case)
    X = X32.astype(np.float64)
    P = est.get_precision()
    nf = P.shape[0]
    want = est.mahalanobis(X)
    if not (np.isfinite(want).all() and np.abs(P).max() < 1e30 and want.max() < 1e30):
        ctx.label('outside float range')
        return
    d = np.abs(X - est.location_)
    ed = U * (np.abs(est.location_) + d) * 1.01
    # |sum d_i P_ij d_j| with relative error (2n+4)U per term, plus error of d
    quad = np.einsum('ri,ij,rj->r', d, np.abs(P), d)
    err = (2 * nf + 6) * U * quad + 2 * np.einsum('ri,ij,rj->r', ed, np.abs(P), d + ed) + 1e-37
    with ctx.sut('convert'):
        c = emlearn.convert(est, **({'method': 'inline'} if case['explicit'] else {}))
        code = c.save(name='ee')
    r = rows.run(code, X32, 'float dist = NAN; out_f32(ee_predict(x, nf)); out_i32(eml_elliptic_envelope_predict(&ee_classifier, x, nf, &dist)); out_f32(dist); out_i32(eml_elliptic_envelope_predict(&ee_classifier, x, nf, NULL));',
                 [('d', '<f4'), ('o', '<i4'), ('d2', '<f4'), ('o2', '<i4')])
    bad = np.nonzero(~(np.abs(r['d'] - want) <= err))[0]
    check(len(bad) == 0, 'distance %s expected %s', r['d'][bad[:3]], want[bad[:3]])
    check(np.array_equal(r['d'], r['d2']) and np.array_equal(r['o'], r['o2']), 'functions of the model disagree')
    off = float(est.offset_)
    clear = np.abs(-want - off) > err + 4 * U * abs(off)
    sk = est.predict(X)
    wo = (sk == -1).astype(int)
    bad = np.nonzero(clear & (r['o'] != wo))[0]
    check(len(bad) == 0, 'outlier decision %s expected %s (distance %s, offset %s)', r['o'][bad[:3]], wo[bad[:3]], want[bad[:3]], off)
    ctx.compared(len(X))
    if case['py']:
        with ctx.sut('Python'):
            m, s, p = np.asarray(c.mahalanobis(X32)), np.asarray(c.score_samples(X32)), np.asarray(c.predict(X32))
        check((np.abs(m - want) <= err * 1.01 + 1e-6 * 0).all(), 'Python mahalanobis %s expected %s', m[:3], want[:3])
        check((np.abs(s - est.score_samples(X)) <= err * 1.01).all(), 'Python score_samples %s expected %s', s[:3], est.score_samples(X)[:3])
        check((p[clear] == sk[clear]).all(), 'Python predict %s expected %s', p[clear][:6], sk[clear][:6])
        check(set(p.tolist()) <= {1, -1}, 'Python predict values %s', sorted(set(p.tolist())))
        ctx.label('python')
    ctx.label('features:%d' % min(nf, 8))
    ctx.nontriv(len(set(wo[clear])) == 2)


@st.composite
def cases(draw, py):
    return {'n_features': draw(st.integers(1, 10)), 'corr': draw(st.sampled_from([0.0, 0.3, 1.0])), 'aniso': draw(st.sampled_from([0.0, 1.0, 2.5])),
            'scale': draw(st.sampled_from([1.0, 1.0, 1e-4, 1e4, 1e-3, 1e-7])), 'offset': draw(st.sampled_from([0.0, 3.0, 50.0])),
            'contamination': draw(st.sampled_from([0.1, 0.02, 0.4])), 'support': draw(st.sampled_from([None, 0.9])),
            'bound': draw(st.sampled_from([None, None, -1.0, -12.0, -0.001, -1e-6, -100000.0])), 'near': draw(st.sampled_from([0.3, 0.02, 0.001])),
            'explicit': draw(st.booleans()), 'seed': draw(st.integers(0, 2 ** 20)), 'py': py}


SUBTESTS = [
    Sub('envelope', lambda: cases(0), body, quick=240),
    Sub('envelope-python', lambda: cases(1), body, quick=40),
]
