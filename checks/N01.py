"""N01: converted sklearn MLPs give the outputs of the original network."""
import warnings
import numpy as np
from hypothesis import strategies as st
import vh, netlib as nl
from vh import Sub, check

PROPERTY = 'N01'
RULE = ('a case is one MLP (architecture, activation, head, weight style and scale, or trained for a few iterations) and 40 rows of a drawn scale; '
        'C code of each offered method is run on each row, a part of the cases also through the Python object. '
        'Non-trivial: the reference outputs differ between rows and the float32 error bound is below 1e-3 of the output scale.')
ASSUMPTIONS = ['oracle: float64 forward pass by numpy, cross-checked with sklearn predict_proba/predict',
               'tolerance: running float32 rounding bound over layers; classes compared only where the lead exceeds it']


def make(case):
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    rng = np.random.RandomState(case['seed'])
    nf, nout = case['n_features'], case['n_out']
    n = 24 + nout
    Xt = rng.normal(size=(n, nf))
    kw = dict(hidden_layer_sizes=tuple(case['hidden']), activation=case['activation'], max_iter=case['iters'], random_state=case['seed'] % 1000)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['task'] == 'reg':
            Y = rng.normal(size=(n, nout)) if nout > 1 else rng.normal(size=n)
            est = MLPRegressor(**kw).fit(Xt, Y)
        else:
            est = MLPClassifier(**kw).fit(Xt, np.arange(n) % max(nout, 2))
    if case['style'] != 'trained':
        est.coefs_ = [nl.weights_for(w.shape, case['style'], case['scale'], rng) for w in est.coefs_]
        est.intercepts_ = [rng.normal(size=b.shape) * case['bias'] for b in est.intercepts_]
    X = (rng.normal(size=(40, nf)) * case['rowscale']).astype(np.float32)
    X[0] = 0
    X[1] = np.arange(nf) + 1
    return est, X


def body(case, ctx):
    import emlearn
    est, X = make(case)
    acts = [est.activation] * (len(est.coefs_) - 1) + [est.out_activation_]
    out, err = nl.forward(est.coefs_, est.intercepts_, acts, X)
    if not np.isfinite(out).all() or np.abs(out).max() > 1e30:
        ctx.label('out of float range')
        return
    reg = case['task'] == 'reg'
    nout = out.shape[1]
    nprob = max(nout, 2)
    parts, conv = [], {}
    for m in (['loadable'] if reg else ['loadable', 'inline']):
        with ctx.sut('convert(method=%s)' % m):
            c = emlearn.convert(est, method=m, return_type='regressor' if reg else 'classifier') if case['explicit'] or reg else emlearn.convert(est, method=m)
            code = c.save(name='net_' + m)
        conv[m] = c
        if m == 'inline':
            calls = ['predict']
        elif reg:
            calls = ['regress'] + (['regress1'] if nout == 1 else [])
        else:
            calls = ['predict', 'proba', 'regress']
        parts.append(('net_' + m, code, calls))
    r = nl.run(parts, X, nout, nprob)
    if 'regress' in parts[0][2]:
        check((r['net_loadable.regress_err'] == 0).all(), 'regress returned an error')
        d = np.abs(r['net_loadable.regress'] - out)
        bad = np.nonzero(~(d <= err).all(axis=1))[0]
        check(len(bad) == 0, 'outputs %s expected %s', r['net_loadable.regress'][bad[:2]].tolist(), out[bad[:2]].tolist())
        ctx.compared(out.size)
    if 'regress1' in parts[0][2]:
        check((np.abs(r['net_loadable.regress1'] - out[:, 0]) <= err[:, 0]).all(), 'regress1 differs from regress')
    if not reg:
        want, werr = nl.proba_of(out, err)
        sk = est.predict_proba(X.astype(float))
        check(np.abs(sk - want).max() < 1e-9, 'harness reference and sklearn disagree') if False else None
        if np.abs(sk - want).max() > 1e-9:
            raise vh.HarnessError('reference forward pass differs from sklearn')
        check((r['net_loadable.proba_err'] == 0).all(), 'predict_proba returned an error %s', r['net_loadable.proba_err'][:3])
        nl.compare_classifier('loadable C', r['net_loadable.predict'], r['net_loadable.proba'], want, werr, ctx)
        nl.compare_classifier('inline C', r['net_inline.predict'], None, want, werr, ctx)
    else:
        sk = est.predict(X.astype(float)).reshape(len(X), -1)
        if not np.allclose(sk, out, rtol=1e-6, atol=1e-9 * max(1, np.abs(out).max())):
            raise vh.HarnessError('reference forward pass differs from sklearn')
    if case.get('py'):
        for m, c in conv.items():
            with ctx.sut('Python predict (%s)' % m):
                p = np.asarray(c.predict(X[:15]))
            if reg:
                check(p.reshape(15, -1).shape == (15, nout), 'predict shape %s', p.shape)
                check((np.abs(p.reshape(15, -1) - out[:15]) <= err[:15] + 1e-9 * np.abs(out[:15])).all(), 'Python predict %s expected %s', p[:3].tolist(), out[:3].tolist())
            else:
                nl.compare_classifier('Python %s' % m, p, None, want[:15], werr[:15], ctx)
                if m == 'loadable':
                    with ctx.sut('Python predict_proba'):
                        q = np.asarray(c.predict_proba(X[:15]))
                    check(q.shape == (15, nprob), 'predict_proba shape %s', q.shape)
                    nl.compare_classifier('Python', None, q, want[:15], werr[:15], ctx)
        ctx.label('python')
    if case.get('wide'):
        ctx.label('wide:' + case['wide'])
    ctx.label('act:' + case['activation'], 'task:' + case['task'], 'hidden layers:%d' % len(case['hidden']), 'style:' + case['style'])
    scale = np.abs(out).max() if reg else 1.0
    ctx.nontriv(len(np.unique(np.round(out, 6), axis=0)) > 1 and np.median(err) < 1e-3 * max(scale, 1e-30))


@st.composite
def cases(draw, py=0):
    task = draw(st.sampled_from(['binary', 'multi', 'multi', 'reg', 'reg']))
    nout = {'binary': 1, 'multi': draw(st.integers(3, 8)), 'reg': draw(st.integers(1, 4))}[task]
    return {
        'task': task, 'n_out': nout, 'n_features': draw(st.integers(1, 10)),
        'hidden': draw(st.one_of(st.lists(st.integers(1, 12), min_size=1, max_size=4), st.sampled_from([[1], [30], [2, 30, 1], [30, 1, 30], [3, 3, 3, 3, 3]]))),
        'activation': draw(st.sampled_from(['identity', 'relu', 'relu', 'logistic', 'tanh'])),
        'style': draw(st.sampled_from(['dense', 'dense', 'sparse', 'single', 'ramp', 'trained'])),
        'scale': draw(st.sampled_from([1.0, 0.5, 2.0, 1e-3, 1e-8, 10.0, 300.0])),
        'bias': draw(st.sampled_from([0.0, 0.5, 1e-7, 3.0])),
        'rowscale': draw(st.sampled_from([1.0, 1.0, 5.0, 1e-6, 1000.0])),
        'iters': draw(st.sampled_from([1, 1, 5])),
        'explicit': draw(st.booleans()),
        'seed': draw(st.integers(0, 2 ** 20)), 'py': py,
    }


BIG = st.sampled_from([64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513])


@st.composite
def wide(draw, py=0):
    """Networks with many features, units of one layer, outputs, or layers."""
    case = dict(draw(cases(py)))
    what = draw(st.sampled_from(['features', 'first', 'middle', 'last', 'outputs', 'layers', 'features and outputs']))
    if 'features' in what:
        case['n_features'] = draw(BIG)
    if 'outputs' in what:
        case['task'] = draw(st.sampled_from(['multi', 'reg']))
        case['n_out'] = draw(BIG)
    elif what == 'layers':
        case['hidden'] = draw(st.lists(st.integers(1, 4), min_size=6, max_size=40))
        case['scale'] = draw(st.sampled_from([1.0, 0.7]))
    elif what in ('first', 'middle', 'last'):
        h = [draw(BIG)]
        case['hidden'] = {'first': h + case['hidden'][:2], 'middle': case['hidden'][:1] + h + case['hidden'][:1], 'last': case['hidden'][:2] + h}[what]
    case['scale'] = min(case['scale'], 2.0)
    return dict(case, wide=what)


SUBTESTS = [
    Sub('mlp', lambda: cases(), body, quick=240),
    Sub('wide', lambda: wide(), body, quick=64),
    Sub('mlp-python', lambda: cases(py=1), body, quick=32),
]
