"""N02: converted Keras Sequential models give the outputs of the original, or are refused."""
import numpy as np
from hypothesis import strategies as st
import vh, netlib as nl
from vh import Sub, check

PROPERTY = 'N02'
WORKERS = 6
RULE = ('a case is one Keras Sequential stack of Dense/Activation/ReLU/Softmax/Dropout layers with generated weights and 30 rows; the conversion must '
        'succeed for stacks in the supported family (>=2 Dense layers with bias, at most one effective activation each) and otherwise either raise or be '
        'equivalent. Non-trivial: converted, and the reference outputs differ between rows.')
ASSUMPTIONS = ['oracle: keras model called directly, cross-checked with a float64 numpy forward pass']

K = {}


def keras():
    if 'k' not in K:
        from tensorflow import keras as k
        import tensorflow as tf
        tf.config.threading.set_intra_op_parallelism_threads(1)
        tf.config.threading.set_inter_op_parallelism_threads(1)
        K['k'] = k
    return K['k']


REMAP = {'linear': 'identity', 'sigmoid': 'logistic', None: 'identity'}


def effective(case):
    """(list of (units, bias, [activations...])) and whether the stack is in the supported family."""
    layers, ok = [], True
    for l in case['layers']:
        if l[0] == 'dense':
            layers.append([l[1], l[3], [REMAP.get(l[2], l[2])]])
        elif l[0] == 'dropout':
            continue
        elif l[0] == 'other':
            ok = False
        else:
            if not layers:
                return None, False
            a = {'act': lambda: REMAP.get(l[1], l[1]), 'relu': lambda: 'relu', 'softmax': lambda: 'softmax'}[l[0]]()
            layers[-1][2].append(a)
            if (l[0] == 'relu' and (l[1] or l[2] or l[3] is not None)) or (l[0] == 'softmax' and len(l) > 1):
                ok = False
    for u, b, acts in layers:
        if len([a for a in acts if a != 'identity']) > 1 or not b:
            ok = False
        if any(a not in ('identity', 'relu', 'logistic', 'tanh', 'softmax') for a in acts):
            ok = False
    return layers, ok and len(layers) >= 2


def build_model(case):
    k = keras()
    L = [k.layers.Input((case['n_features'],))]
    for l in case['layers']:
        if l[0] == 'dense':
            L.append(k.layers.Dense(l[1], activation=l[2], use_bias=l[3]))
        elif l[0] == 'act':
            L.append(k.layers.Activation(l[1]))
        elif l[0] == 'relu':
            L.append(k.layers.ReLU(negative_slope=l[1], threshold=l[2], max_value=l[3]))
        elif l[0] == 'softmax':
            L.append(k.layers.Softmax(**({'axis': l[1]} if len(l) > 1 else {})))
        elif l[0] == 'other':
            L.append(getattr(k.layers, l[1])(**l[2]))
        elif l[0] == 'dropout':
            L.append(k.layers.Dropout(0.4))
    m = k.Sequential(L)
    rng = np.random.RandomState(case['seed'])
    for l in m.layers:
        w = l.get_weights()
        if w:
            l.set_weights([nl.weights_for(a.shape, case['style'], case['scale'], rng) if a.ndim == 2 else rng.normal(size=a.shape) * 0.5 for a in w])
    X = (rng.normal(size=(30, case['n_features'])) * case['rowscale']).astype(np.float32)
    return m, X


def body(case, ctx):
    import emlearn
    layers, supported = effective(case)
    if layers is None or not layers:
        return
    m, X = build_model(case)
    want = np.asarray(m(X, training=False), dtype=np.float64)
    nout = want.shape[1]
    ws = [l.get_weights() for l in m.layers if l.get_weights()]
    reg = case['return_type'] == 'regressor'
    last_acts = [a for a in layers[-1][2] if a != 'identity']
    last = last_acts[-1] if last_acts else 'identity'
    clf_head = (nout == 1 and last == 'logistic') or (nout >= 2 and last == 'softmax')
    if not reg and not clf_head:
        reg = True
    if supported:
        acts = [([a for a in ac if a != 'identity'] or ['identity'])[0] for _, _, ac in layers]
        ref, err = nl.forward([w[0] for w in ws], [w[1] for w in ws], acts, X)
        if np.abs(ref - want).max() > 2 * err.max() + 1e-6:
            raise vh.HarnessError('reference forward pass differs from keras: %s' % (np.abs(ref - want).max()))
    else:
        err = np.full_like(want, 1e-4) * (1 + np.abs(want))
    parts = []
    conv = {}
    for meth in (['loadable'] if reg else ['loadable', 'inline']):
        try:
            c = emlearn.convert(m, method=meth, return_type='regressor' if reg else 'classifier')
            code = c.save(name='net_' + meth)
        except Exception as e:
            check(not supported, 'supported Keras model refused (%s): %r', meth, e)
            ctx.label('refused')
            return
        conv[meth] = c
        parts.append(('net_' + meth, code, ['predict'] if meth == 'inline' else (['regress'] if reg else ['predict', 'proba', 'regress'])))
    r = nl.run(parts, X, nout, max(nout, 2))
    check((r['net_loadable.regress_err'] == 0).all(), 'the converted model answers with error code %s', r['net_loadable.regress_err'][:2])
    d = np.abs(r['net_loadable.regress'] - want)
    check((d <= 2 * err + 1e-6).all(), 'outputs %s, Keras gives %s', r['net_loadable.regress'][:2].tolist(), want[:2].tolist())
    ctx.compared(want.size)
    if not reg:
        p, pe = nl.proba_of(want, err)
        check((r['net_loadable.proba_err'] == 0).all(), 'predict_proba answers with error code %s', r['net_loadable.proba_err'][:2])
        nl.compare_classifier('loadable', r['net_loadable.predict'], r['net_loadable.proba'], p, 2 * pe, ctx)
        nl.compare_classifier('inline', r['net_inline.predict'], None, p, 2 * pe, ctx)
        if case['py']:
            with ctx.sut('predict'):
                pp, qq = np.asarray(conv['loadable'].predict(X[:10])), np.asarray(conv['loadable'].predict_proba(X[:10]))
            nl.compare_classifier('Python', pp, qq, p[:10], 2 * pe[:10], ctx)
            ctx.label('python')
    elif case['py']:
        with ctx.sut('predict'):
            pp = np.asarray(conv['loadable'].predict(X[:10])).reshape(10, -1)
        check(pp.shape == (10, nout) and (np.abs(pp - want[:10]) <= 2 * err[:10] + 1e-6).all(), 'Python predict %s, Keras gives %s', pp[:2].tolist(), want[:2].tolist())
        ctx.label('python')
    ctx.label('supported' if supported else 'unsupported but equivalent', 'head:%s%d' % (last, min(nout, 3)))
    ctx.nontriv(len(np.unique(np.round(want, 5), axis=0)) > 1)


ACT = st.sampled_from([None, 'linear', 'relu', 'tanh', 'sigmoid', 'softmax'])


@st.composite
def cases(draw, family):
    layers = []
    nd = draw(st.integers(2, 4)) if family == 'supported' else draw(st.integers(1, 3))
    head = draw(st.sampled_from(['binary', 'softmax2', 'softmax', 'softmax', 'other']))
    for i in range(nd):
        lastd = i == nd - 1
        units = draw(st.integers(1, 10))
        act = draw(ACT)
        if lastd:
            if head == 'binary':
                units, act = 1, 'sigmoid'
            elif head == 'softmax2':
                units, act = 2, 'softmax'
            elif head == 'softmax':
                units, act = draw(st.integers(3, 6)), 'softmax'
        as_layer = draw(st.booleans())
        bias = True if family == 'supported' else draw(st.sampled_from([True, True, True, False]))
        if draw(st.sampled_from([False, False, True])):
            layers.append(['dropout'])
        if as_layer and act not in (None,):
            layers.append(['dense', units, draw(st.sampled_from([None, 'linear'])) if family == 'supported' else draw(ACT), bias])
            if draw(st.sampled_from([False, True])):
                layers.append(['dropout'])
            if act == 'relu' and draw(st.booleans()):
                layers.append(['relu', 0.0, 0.0, None] if family == 'supported' else ['relu', draw(st.sampled_from([0.0, 0.1])), draw(st.sampled_from([0.0, 0.5])), draw(st.sampled_from([None, 0.6]))])
            elif act == 'softmax' and draw(st.booleans()):
                layers.append(['softmax'])
            else:
                layers.append(['act', act])
        else:
            layers.append(['dense', units, act, bias])
        if family != 'supported' and draw(st.sampled_from([False, False, True])):
            layers.append(draw(st.sampled_from([['act', 'relu'], ['act', 'tanh'], ['act', 'linear'], ['softmax'], ['act', 'elu'], ['relu', 0.0, 0.0, None]])))
    return {'layers': layers, 'n_features': draw(st.integers(1, 6)), 'style': draw(st.sampled_from(['dense', 'dense', 'single', 'ramp'])),
            'scale': draw(st.sampled_from([1.0, 0.5, 2.0, 1e-4])), 'rowscale': draw(st.sampled_from([1.0, 3.0])),
            'return_type': draw(st.sampled_from(['classifier', 'classifier', 'regressor'])), 'seed': draw(st.integers(0, 2 ** 16)),
            'py': draw(st.sampled_from([0, 0, 0, 1]))}


@st.composite
def one_deviation(draw):
    """A stack of the supported family, except for exactly one layer or parameter: it must make a difference or a refusal."""
    kind = draw(st.sampled_from(['relu-slope', 'relu-threshold', 'relu-max', 'other-layer', 'activation', 'no-bias', 'two-activations', 'softmax-axis']))
    nd = draw(st.integers(2, 3))
    at = draw(st.integers(0, nd - 2))
    layers = []
    for i in range(nd):
        units = draw(st.integers(2, 8))
        act = draw(st.sampled_from(['relu', 'tanh', 'linear']))
        if i == nd - 1:
            layers.append(['dense', draw(st.integers(2, 5)), 'softmax', True])
        elif i != at:
            layers.append(['dense', units, act, True])
        elif kind.startswith('relu'):
            layers.append(['dense', units, None, True])
            layers.append({'relu-slope': ['relu', draw(st.sampled_from([0.01, 0.3, 1.0])), 0.0, None],
                           'relu-threshold': ['relu', 0.0, draw(st.sampled_from([0.5, 1.0])), None],
                           'relu-max': ['relu', 0.0, 0.0, draw(st.sampled_from([0.5, 1.0, 6.0]))]}[kind])
        elif kind == 'other-layer':
            layers.append(['dense', units, act, True])
            layers.append(['other'] + draw(st.sampled_from([['LeakyReLU', {}], ['ELU', {}], ['BatchNormalization', {}], ['LayerNormalization', {}], ['UnitNormalization', {}],
                                                            ['Flatten', {}], ['GaussianNoise', {'stddev': 0.5}], ['PReLU', {}], ['Rescaling', {'scale': 0.5}], ['RepeatVector', {'n': 1}]])))
            if layers[-1][1] == 'RepeatVector':
                layers.append(['other', 'Flatten', {}])
        elif kind == 'activation':
            a = draw(st.sampled_from(['elu', 'selu', 'softplus', 'gelu', 'relu6', 'leaky_relu', 'hard_sigmoid', 'exponential', 'softsign', 'silu', 'log_softmax']))
            layers += [['dense', units, a, True]] if draw(st.booleans()) else [['dense', units, None, True], ['act', a]]
        elif kind == 'no-bias':
            layers.append(['dense', units, act, False])
        elif kind == 'two-activations':
            layers += [['dense', units, draw(st.sampled_from(['tanh', 'relu', 'sigmoid'])), True], draw(st.sampled_from([['act', 'tanh'], ['act', 'sigmoid'], ['softmax'], ['relu', 0.0, 0.0, None]]))]
        else:
            layers += [['dense', units, None, True], ['softmax', draw(st.sampled_from([1, -1]))]]
        if kind == 'no-bias' and at == 0 and i == nd - 1 and draw(st.booleans()):
            layers[-1][3] = False
    return {'layers': layers, 'n_features': draw(st.integers(1, 6)), 'style': 'dense', 'scale': draw(st.sampled_from([1.0, 2.0])), 'rowscale': 3.0,
            'return_type': draw(st.sampled_from(['classifier', 'classifier', 'regressor'])), 'seed': draw(st.integers(0, 2 ** 16)), 'py': 0}


@st.composite
def wide(draw):
    case = draw(cases('supported'))
    what = draw(st.sampled_from(['features', 'units', 'outputs']))
    big = draw(st.sampled_from([64, 127, 128, 129, 255, 256, 257, 300]))
    dense = [i for i, l in enumerate(case['layers']) if l[0] == 'dense']
    layers = [list(l) for l in case['layers']]
    if what == 'features':
        case = dict(case, n_features=big)
    elif what == 'units' and len(dense) > 1:
        layers[dense[draw(st.integers(0, len(dense) - 2))]][1] = big
    elif layers[dense[-1]][1] > 2:
        layers[dense[-1]][1] = big
    return dict(case, layers=layers, scale=min(case['scale'], 1.0))


SUBTESTS = [
    Sub('one-deviation', one_deviation, body, quick=72),
    Sub('supported', lambda: cases('supported'), body, quick=90),
    Sub('wide', wide, body, quick=24),
    Sub('any', lambda: cases('any'), body, quick=90),
]
