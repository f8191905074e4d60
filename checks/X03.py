"""X03: conversion either gives a model that behaves as the original, or raises."""
import os, math, warnings
import numpy as np
from hypothesis import strategies as st
import vh, zoo, treelib as tl
from vh import Sub, check

PROPERTY = 'X03'
RULE = ('refused: one estimator, setting, name, format or input out of the unsupported ones (drawn with its parameters), which must raise; accepted: one model of any kind with drawn settings, '
        'which must raise or predict as the original; limits: trees and neighbour models at and beyond the size limits of the C data structures. '
        'Non-trivial: every refused case; accepted and limits cases that converted and gave at least two different answers, or were refused at a limit.')
ASSUMPTIONS = ['what is unsupported is taken from the documentation and from what the C structures can hold',
               'rows given to integer models are integers in the range of the data type']


# ------------------------------------------------------------ estimators that cannot be converted

def data(seed, n=30, nf=3, nc=3):
    rng = np.random.RandomState(seed)
    X = np.round(rng.normal(size=(n, nf)) * 10)
    y = np.arange(n) % nc
    X[:, 0] += 7 * y
    return X, y


def unsupported_estimator(name, seed):
    import sklearn.ensemble as E, sklearn.linear_model as L, sklearn.svm as V, sklearn.neighbors as N, sklearn.naive_bayes as B, sklearn.cluster as K
    import sklearn.pipeline as P, sklearn.preprocessing as R, sklearn.tree as T, sklearn.neural_network as M, sklearn.discriminant_analysis as D, sklearn.covariance as C
    import sklearn.dummy as U, sklearn.model_selection as S, sklearn.multioutput as O, sklearn.decomposition as Z, sklearn.gaussian_process as G
    X, y = data(seed)
    f = {
        'GradientBoostingClassifier': lambda: E.GradientBoostingClassifier(n_estimators=2), 'GradientBoostingRegressor': lambda: E.GradientBoostingRegressor(n_estimators=2),
        'AdaBoostClassifier': lambda: E.AdaBoostClassifier(n_estimators=3), 'AdaBoostRegressor': lambda: E.AdaBoostRegressor(n_estimators=3),
        'HistGradientBoostingClassifier': lambda: E.HistGradientBoostingClassifier(max_iter=2), 'IsolationForest': lambda: E.IsolationForest(n_estimators=3),
        'BaggingClassifier': lambda: E.BaggingClassifier(n_estimators=2), 'VotingClassifier': lambda: E.VotingClassifier([('a', T.DecisionTreeClassifier())]),
        'StackingClassifier': lambda: E.StackingClassifier([('a', T.DecisionTreeClassifier())], cv=2), 'RandomTreesEmbedding': lambda: E.RandomTreesEmbedding(n_estimators=2),
        'LogisticRegression': lambda: L.LogisticRegression(), 'LinearRegression': lambda: L.LinearRegression(), 'Ridge': lambda: L.Ridge(), 'SGDClassifier': lambda: L.SGDClassifier(), 'Perceptron': lambda: L.Perceptron(),
        'SVC': lambda: V.SVC(), 'LinearSVC': lambda: V.LinearSVC(), 'OneClassSVM': lambda: V.OneClassSVM(),
        'KNeighborsRegressor': lambda: N.KNeighborsRegressor(), 'NearestNeighbors': lambda: N.NearestNeighbors(), 'RadiusNeighborsClassifier': lambda: N.RadiusNeighborsClassifier(1e6), 'LocalOutlierFactor': lambda: N.LocalOutlierFactor(5),
        'NearestCentroid': lambda: N.NearestCentroid(), 'BernoulliNB': lambda: B.BernoulliNB(), 'KMeans': lambda: K.KMeans(2), 'DBSCAN': lambda: K.DBSCAN(),
        'Pipeline': lambda: P.make_pipeline(R.StandardScaler(), T.DecisionTreeClassifier()), 'StandardScaler': lambda: R.StandardScaler(), 'ExtraTreeClassifier': lambda: T.ExtraTreeClassifier(), 'ExtraTreeRegressor': lambda: T.ExtraTreeRegressor(),
        'BernoulliRBM': lambda: M.BernoulliRBM(n_iter=1), 'LinearDiscriminantAnalysis': lambda: D.LinearDiscriminantAnalysis(), 'QuadraticDiscriminantAnalysis': lambda: D.QuadraticDiscriminantAnalysis(),
        'EmpiricalCovariance': lambda: C.EmpiricalCovariance(), 'MinCovDet': lambda: C.MinCovDet(), 'DummyClassifier': lambda: U.DummyClassifier(), 'GridSearchCV': lambda: S.GridSearchCV(T.DecisionTreeClassifier(), {'max_depth': [1, 2]}, cv=2),
        'MultiOutputClassifier': lambda: O.MultiOutputClassifier(T.DecisionTreeClassifier()), 'PCA': lambda: Z.PCA(2), 'GaussianProcessClassifier': lambda: G.GaussianProcessClassifier(),
    }
    if name is None:
        return sorted(f)
    est = f[name]()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if name == 'MultiOutputClassifier':
            return est.fit(X, np.stack([y, y % 2], axis=1))
        return est.fit(X, y)


SUPPORTED = ['DecisionTreeClassifier', 'RandomForestClassifier', 'ExtraTreesClassifier', 'DecisionTreeRegressor', 'RandomForestRegressor', 'ExtraTreesRegressor',
             'MLPClassifier', 'MLPRegressor', 'GaussianNB', 'EllipticEnvelope', 'GaussianMixture', 'BayesianGaussianMixture', 'KNeighborsClassifier']
CLF = ['DecisionTreeClassifier', 'RandomForestClassifier', 'ExtraTreesClassifier']
REG = ['DecisionTreeRegressor', 'RandomForestRegressor', 'ExtraTreesRegressor']
TREES = CLF + REG


def supported_class(name):
    import sklearn.tree as T, sklearn.ensemble as E, sklearn.neural_network as M, sklearn.naive_bayes as B, sklearn.covariance as C, sklearn.mixture as X, sklearn.neighbors as N
    for m in (T, E, M, B, C, X, N):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def new(name, cls=None, **kw):
    k = {}
    if 'Forest' in name or 'ExtraTrees' in name:
        k['n_estimators'] = 3
    if name.startswith('MLP'):
        k.update(hidden_layer_sizes=(3,), max_iter=2)
    if name in TREES or name.startswith('MLP') or 'Mixture' in name or name == 'EllipticEnvelope':
        k['random_state'] = 1
    k.update(kw)
    return (cls or supported_class(name))(**k)


def fitted(name, seed, cls=None, nf=3, nc=3, n=30, y=None, **kw):
    X, yy = data(seed, n=n, nf=nf, nc=nc)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return new(name, cls, **kw).fit(X, yy if y is None else y), X


def convert(*a, **kw):
    import emlearn
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return emlearn.convert(*a, **kw)


def must_raise(what, f):
    try:
        r = f()
    except Exception as e:
        return e
    raise vh.Violation('%s: accepted (gives %s)' % (what, str(r)[:120].replace('\n', ' ')))


BAD_NAMES = ['', '1a', 'a b', 'a-b', 'a.b', 'a\n', ' a', 'a ', 'å', 'a$', 'a+', 'int', 'for', 'while', 'struct', 'static', 'float', 'return', 'void', 'if', 'sizeof', 'a\t', '\n', '9', 'a;', 'a/*', 'мод', 'a\u0300', 'union', 'volatile', 'unsigned', 'default', 'a[0]', '-']


def refused_body(case, ctx):
    w, seed = case['what'], case['seed']
    ctx.nontriv()
    ctx.label('refused:' + w)
    if w == 'estimator':
        e = unsupported_estimator(case['name'], seed)
        for kw in ({}, {'method': 'inline'}, {'method': 'loadable'}):
            must_raise('%s %s' % (case['name'], kw), lambda: convert(e, **kw))
    elif w == 'object':
        o = {'none': None, 'str': 'DecisionTreeClassifier', 'array': np.zeros((3, 2)), 'list': [1, 2], 'class': supported_class('DecisionTreeClassifier'), 'dict': {'a': 1}, 'int': 5, 'tree': fitted('DecisionTreeClassifier', seed)[0].tree_}[case['name']]
        must_raise('object ' + case['name'], lambda: convert(o))
        if case['name'] != 'tree':
            must_raise('object %s with kind' % case['name'], lambda: convert(o, kind=case['kind']).predict(np.zeros((2, 3))))
    elif w == 'kind':
        e, _ = fitted(case['name'], seed)
        must_raise('kind=%r' % case['kind'], lambda: convert(e, kind=case['kind']))
    elif w == 'subclass':
        base = supported_class(case['name'])
        cls = type('My' + case['name'], (base,), {'__init__': base.__init__})
        e, _ = fitted(case['name'], seed, cls=cls)
        must_raise('subclass of %s without kind' % case['name'], lambda: convert(e))
    elif w == 'unfitted':
        e = new(case['name'])
        must_raise('unfitted ' + case['name'], lambda: convert(e, **case['kw']))
    elif w == 'multi-output':
        X, y = data(seed)
        Y = np.stack([y, y % 2], axis=1) if case['name'] in CLF + ['KNeighborsClassifier'] else np.stack([y, X[:, 1]], axis=1)
        e = new(case['name']).fit(X, Y)
        kw = dict(case['kw'])
        must_raise('multi-output %s %s' % (case['name'], kw), lambda: convert(e, **kw))
    elif w == 'multi-label':
        X, y = data(seed)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            e = new('MLPClassifier').fit(X, np.stack([y == 0, y == 1, y > 0], axis=1).astype(int))
        must_raise('multi-label MLP', lambda: convert(e, **case['kw']))
    elif w == 'knn':
        kw = {'metric': {'metric': case['name']}, 'p': {'p': float(case['name']) if case['knob'] == 'p' else 0}, 'weights': {'weights': case['name']}, 'classes': {}, 'data': {}}[case['knob']]
        if kw.get('weights') == 'callable':
            kw['weights'] = lambda d: np.ones_like(d)
        X, y = data(seed, n=40)
        if case['knob'] == 'classes':
            y = np.arange(40) % int(case['name'])
        if case['knob'] == 'data':
            X[seed % 40, seed % 3] = float(case['name'])
        e = supported_class('KNeighborsClassifier')(n_neighbors=3, **kw).fit(X, y)
        must_raise('kNN %s %s' % (case['knob'], case['name']), lambda: convert(e))
    elif w == 'setting':
        e, _ = fitted(case['name'], seed)
        kw = {k: (getattr(np, v[3:]) if isinstance(v, str) and v.startswith('np.') else v) for k, v in case['kw'].items()}
        must_raise('%s with %s' % (case['name'], kw), lambda: convert(e, **kw))
    elif w == 'unrepresentable':
        # thresholds that the data type cannot hold
        t = case['threshold']
        c = {'kind': 'clf', 'dtype': case['dtype'], 'n_features': 1, 'n_classes': 2, 'ens': 'dt', 'order': 'dfs', 'rowseed': 1, 'trees': [['n', 0, t, ['l', [0]], ['l', [1]]]]}
        e = tl.make_estimator(c)

        def f():
            m = convert(e, method='inline', dtype=case['dtype'])
            return m.save(name='m')
        must_raise('threshold %s as %s' % (t, case['dtype']), f)
    elif w == 'size':
        k, n = case['knob'], case['n']
        if k == 'features':
            e = tl.make_estimator({'kind': 'clf', 'n_features': n, 'n_classes': 2, 'ens': 'dt', 'order': 'dfs', 'trees': [['n', n - 1, 0.5, ['l', [0]], ['l', [1]]]]})
            must_raise('%d features, %s' % (n, case['method']), lambda: convert(e, method=case['method']))
        elif k == 'classes':
            e = tl.make_estimator({'kind': 'clf', 'n_features': 1, 'n_classes': n, 'ens': 'rf', 'order': 'dfs', 'trees': [['n', 0, 0.5, ['l', [0]], ['l', [n - 1]]]]})
            must_raise('%d classes loadable' % n, lambda: convert(e, method='loadable'))
            must_raise('%d classes, saved as loadable' % n, lambda: convert(e, method='inline').save(name='m', inference=['loadable']))
    elif w == 'name':
        e, _ = fitted(case['name'], seed)
        m = convert(e)
        n = case['bad']
        must_raise('%s saved as %r' % (case['name'], n), lambda: m.save(name=n))
        d = vh.fresh_dir('x')
        p = os.path.join(d, 'out.h')
        must_raise('%s saved as %r to a file' % (case['name'], n), lambda: m.save(name=n, file=p))
        check(not os.path.exists(p) or os.path.getsize(p) == 0, 'refused code was written')
        if '/' not in n and '\0' not in n and n and '.' not in n:
            p = os.path.join(d, n + '.h')
            must_raise('%s saved to file %r' % (case['name'], n + '.h'), lambda: m.save(file=p))
        must_raise('%s saved without name and file' % case['name'], lambda: m.save())
        vh.rm(d)
    elif w == 'save':
        e, _ = fitted(case['name'], seed)
        m = convert(e, **case.get('kw', {}))
        must_raise('%s.save(%s)' % (case['name'], case['args']), lambda: m.save(name='abc', **case['args']))
    elif w == 'input':
        e, X = fitted(case['name'], seed)
        m = convert(e)
        bad = {'more': np.hstack([X, X[:, :1]]), 'fewer': X[:, :2], 'one': X[:, :1], 'nan': np.where(np.arange(X.size).reshape(X.shape) == seed % X.size, np.nan, X), '1d': X[0], 'empty': X[:0], '3d': X[None], 'text': [['a', 'b', 'c']],
               'nocols': X[:, :0]}[case['bad']]
        for f in case['methods']:
            if hasattr(m, f):
                must_raise('%s.%s with %s' % (case['name'], f, case['bad']), lambda: getattr(m, f)(bad))
                ctx.compared()
    elif w == 'narrow':
        # distributions that the fixed-point format cannot hold
        X, y = data(seed)
        X = X * case['scale'] + case['offset']
        e = supported_class('GaussianNB')(var_smoothing=0).fit(X, y)
        must_raise('Naive Bayes with std %g, mean %g' % (np.sqrt(e.var_).min(), np.abs(e.theta_).max()), lambda: convert(e))
    else:
        raise vh.HarnessError(w)
    ctx.compared()


BAD_METHODS = ['pymodule', 'INLINE', '', 'inline ', 'load', 'c', 5, True, 'None', 'loadable,inline']
NETS = ['MLPClassifier', 'MLPRegressor']
OTHERS = ['GaussianNB', 'EllipticEnvelope', 'GaussianMixture', 'BayesianGaussianMixture']


@st.composite
def setting(draw):
    k = draw(st.sampled_from(['method', 'dtype', 'leaf_bits', 'return_type', 'kwarg', 'pair']))
    name = draw(st.sampled_from(SUPPORTED))
    kw = {}
    if k == 'method':
        bad = list(BAD_METHODS)
        if name == 'MLPRegressor':
            bad = ['inline'] + bad
        if name in ('GaussianNB', 'KNeighborsClassifier'):
            bad = ['inline'] * 4 + bad
        if name == 'EllipticEnvelope':
            bad = ['loadable'] * 4 + bad
        kw['method'] = draw(st.sampled_from(bad))
        if name == 'MLPRegressor':
            kw['return_type'] = 'regressor'
    elif k == 'dtype':
        bad = ['int', 'double', 'int16', 'float32', 'half', 'char', 5, 'np.float32', 'np.int16', '', 'int16_t ', 'INT16_T', 'int128_t', 'bool']
        if name not in TREES:
            bad = bad + ['int8_t', 'uint8_t', 'int32_t'] * 2 + (['int16_t'] * 2 if name != 'KNeighborsClassifier' else [])
        kw['dtype'] = draw(st.sampled_from(bad))
    elif k == 'leaf_bits':
        name = draw(st.sampled_from(TREES))
        kw['leaf_bits'] = draw(st.sampled_from([-1, 9, 16, 64, 255, 2.5, 'a', '8', 33] + ([32] if name in CLF else [1, 8, 4, 0])))
        if draw(st.booleans()):
            kw['method'] = draw(st.sampled_from(['inline', 'loadable']))
    elif k == 'return_type':
        bad = ['x', '', 'Classifier', 5, None, 'proba', 'regression']
        if name in CLF + OTHERS + ['KNeighborsClassifier']:
            bad = bad + ['regressor'] * 5
        kw['return_type'] = draw(st.sampled_from(bad))
    elif k == 'kwarg':
        kw[draw(st.sampled_from(['foo', 'max_depth', 'classifier', 'leafbits', 'verbose', 'estimator_', 'temp_dir'] + (['leaf_bits'] * 3 if name not in TREES else []) + (['use_fixedpoint'] * 3 if name not in NETS else [])))] = draw(st.sampled_from([1, 8, True, 'x', False]))
    else:
        name = draw(st.sampled_from(TREES))
        kw = {'method': 'loadable', 'dtype': draw(st.sampled_from(['float', 'int8_t', 'int32_t', 'uint8_t', 'int64_t', 'uint16_t', 'uint64_t']))}
        if draw(st.sampled_from([False, False, True])):
            name, kw = draw(st.sampled_from(NETS)), {'use_fixedpoint': True, 'method': draw(st.sampled_from(['loadable', None]))}
    return {'what': 'setting', 'name': name, 'kw': kw}


@st.composite
def unrepresentable(draw):
    d = draw(st.sampled_from(['int8_t', 'int16_t', 'int32_t', 'uint8_t', 'uint16_t', 'uint32_t']))
    b = int(d.strip('uint_'))
    lo, hi = (0, 2 ** b - 1) if d[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)
    t = draw(st.one_of(st.integers(1, 40000).map(lambda i: hi + 0.5 + i), st.integers(2, 40000).map(lambda i: lo - 0.5 - i), st.sampled_from([1e12, -1e12])))
    return {'what': 'unrepresentable', 'dtype': d, 'threshold': float(t)}


@st.composite
def save_args(draw):
    k = draw(st.sampled_from(['format', 'inference', 'net', 'pair']))
    if k == 'format':
        return {'what': 'save', 'name': draw(st.sampled_from(TREES)), 'args': {'format': draw(st.sampled_from(['json', 'C', '', 'onnx', 'py', 'csv2', 'h']))}}
    if k == 'inference':
        return {'what': 'save', 'name': draw(st.sampled_from(TREES)), 'args': {'inference': draw(st.sampled_from([['x'], [], ['inline', 'loadable'], ['loadable', 'inline'], ['Inline'], ['']]))}}
    if k == 'net':
        return {'what': 'save', 'name': 'MLPClassifier', 'args': {'inference': draw(st.sampled_from([['x'], [], ['inline', 'loadable'], ['loadable', 'inline'], ['']]))}}
    return {'what': 'save', 'name': draw(st.sampled_from(TREES)), 'kw': {'dtype': draw(st.sampled_from(['float', 'int8_t', 'int32_t']))}, 'args': {'inference': ['loadable']}}


def refused_st():
    S = st.integers(0, 10 ** 6)
    f = st.fixed_dictionaries
    j = st.just
    alts = [
        ('estimator', f({'what': j('estimator'), 'name': st.sampled_from(unsupported_estimator(None, 0))})),
        ('object', f({'what': j('object'), 'name': st.sampled_from(['none', 'str', 'array', 'list', 'class', 'dict', 'int', 'tree']), 'kind': st.sampled_from(SUPPORTED)})),
        ('kind', f({'what': j('kind'), 'name': st.sampled_from(SUPPORTED), 'kind': st.sampled_from(['', 'x', 'Tree', 'DecisionTree', 'decisiontreeclassifier', 'RandomForest', 'MLP', 'GradientBoostingClassifier', 5, 'KNeighborsRegressor', 'sequential'])})),
        ('subclass', f({'what': j('subclass'), 'name': st.sampled_from(SUPPORTED)})),
        ('unfitted', f({'what': j('unfitted'), 'name': st.sampled_from(SUPPORTED), 'kw': st.sampled_from([{}, {}, {'method': 'loadable'}, {'method': 'inline'}])})),
        ('multi-output', f({'what': j('multi-output'), 'name': st.sampled_from(TREES + ['KNeighborsClassifier']), 'kw': st.sampled_from([{}, {'method': 'loadable'}, {'method': 'inline'}])})),
        ('multi-label', f({'what': j('multi-label'), 'kw': st.sampled_from([{}, {'method': 'loadable'}, {'method': 'inline'}])})),
        ('knn', f({'what': j('knn'), 'knob': j('metric'), 'name': st.sampled_from(['manhattan', 'chebyshev', 'cosine', 'canberra', 'braycurtis', 'cityblock'])})),
        ('knn', f({'what': j('knn'), 'knob': j('p'), 'name': st.sampled_from(['1', '3', '1.5'])})),
        ('knn', f({'what': j('knn'), 'knob': j('weights'), 'name': st.sampled_from(['distance', 'callable'])})),
        ('knn', f({'what': j('knn'), 'knob': j('classes'), 'name': st.integers(11, 20).map(str)})),
        ('knn', f({'what': j('knn'), 'knob': j('data'), 'name': st.sampled_from(['0.5', '1.25', '-0.001', '32768', '-32769', '1000000', '1e20'])})),
        ('setting', setting()), ('unrepresentable', unrepresentable()), ('save', save_args()),
        ('size', f({'what': j('size'), 'knob': j('features'), 'n': st.sampled_from([128, 129, 200, 255, 256, 1000]), 'method': j('loadable')})),
        ('size', f({'what': j('size'), 'knob': j('features'), 'n': st.sampled_from([10001, 12000, 32768]), 'method': j('inline')})),
        ('size', f({'what': j('size'), 'knob': j('classes'), 'n': st.sampled_from([31, 32, 64, 127, 200, 256, 300])})),
        ('name', f({'what': j('name'), 'name': st.sampled_from(SUPPORTED), 'bad': st.sampled_from(BAD_NAMES)})),
        ('input', f({'what': j('input'), 'name': st.sampled_from(SUPPORTED), 'bad': st.sampled_from(['more', 'fewer', 'one', '1d', '3d', 'nocols']),
           'methods': st.sampled_from([['predict'], ['predict', 'predict_proba', 'score_samples', 'mahalanobis', 'predict_log_proba']])})),
        ('narrow', f({'what': j('narrow'), 'scale': st.sampled_from([1e-8, 1e-7]), 'offset': j(0.0)})),
        ('narrow', f({'what': j('narrow'), 'scale': st.sampled_from([1e4, 1e6]), 'offset': st.sampled_from([1e5, -4e5])})),
    ]
    groups = {}
    for a in alts:
        groups.setdefault(a[0], []).append(a[1])
    names = [n for n in groups for _ in range({'setting': 5, 'name': 4, 'save': 3, 'input': 3, 'estimator': 3, 'knn': 2, 'unrepresentable': 2}.get(n, 1))]
    return st.tuples(st.sampled_from(names).flatmap(lambda n: st.one_of(groups[n])), S).map(lambda t: dict(t[0], seed=t[1]))


# ------------------------------------------------------------ drawn settings: refused or right

def accepted_body(case, ctx):
    import emlearn
    m = zoo.Model(case['model'], max_rows=15)
    if not m.usable:
        return
    kw = dict(m.kwargs())
    kw.update({k: v for k, v in case['extra'].items() if v != '-'})
    if kw.get('use_fixedpoint') and kw.get('method') == 'inline' and m.zoo == 'mlp-clf':
        kw.pop('use_fixedpoint')      # the known finding, see 'fixedpoint'
    est = m.est
    if case['subclass']:
        base = type(est)
        est.__class__ = type('Custom', (base,), {'__init__': base.__init__})
        kw['kind'] = base.__name__
    try:
        c = convert(est, **kw)
    except Exception as e:
        ctx.label('refused', 'refused:' + m.zoo)
        return
    # the answers of the converted model are those of the original in the settings it was converted with
    z = m.zoo
    m.case = dict(m.case)
    if z.startswith('tree'):
        m.case['leaf_bits'] = kw.get('leaf_bits')
        dt = kw.get('dtype') or 'int16_t'
        X = m.X.astype(float)
        if dt != 'float':
            b = int(dt.strip('uint_'))
            lo, hi = (0, 2 ** b - 1) if dt[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            X = np.clip(np.floor(X), max(lo, -2 ** 24), min(hi, 2 ** 24))
        m.X = X
    if z.startswith('mlp'):
        m.case['method'] = kw.get('method')
    if z.startswith('tree'):
        # code is generated when it is needed first
        try:
            c.save(name='abc')
        except Exception:
            must_raise('predict of a model that cannot be saved', lambda: c.predict(m.X))
            ctx.label('refused', 'refused at save:' + z)
            return
    with ctx.sut('predictions of a converted %s with %s' % (z, kw)):
        if z == 'mlp-clf' and kw.get('return_type') == 'regressor':
            p = np.asarray(c.predict(m.X))
        else:
            r = m.python(c)
    if z == 'mlp-clf' and kw.get('return_type') == 'regressor':
        import netlib as nl
        out, err = nl.forward(m.est.coefs_, m.est.intercepts_, m.acts, m.X.astype(np.float32))
        p = p.reshape(len(m.X), -1)
        check(p.shape == out.shape and (np.abs(p - out) <= err * 1.01 + 1e-9).all(), 'regressor of a classifier network: %s expected %s', p[:2].tolist(), out[:2].tolist())
        r = {'predict': p}
    elif z == 'mlp-reg' and kw.get('return_type') == 'classifier':
        # documented: output binarized when needed
        import netlib as nl
        ok = r['predict'].shape[0] == len(m.X)
        check(ok and set(np.unique(r['predict'])) <= set(range(max(m.nout, 2))), 'classes %s', r['predict'][:5])
    else:
        m.judge(r, '%s converted with %s' % (z, {k: v for k, v in kw.items()}))
    ctx.compared(len(m.X))
    ctx.label('accepted:' + z)
    ctx.nontriv(len(np.unique(np.round(np.asarray(r['predict'], dtype=float), 6), axis=0)) > 1)


def accepted_st():
    def ex(c):
        z = c['zoo']
        o = {'method': st.sampled_from(['-', '-', 'inline', 'loadable', None])}
        if z.startswith('tree'):
            o['dtype'] = st.sampled_from(['-', '-', '-', 'float', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', None])
            o['leaf_bits'] = st.sampled_from(['-', '-', 0, 1, 2, 3, 7, 8, 32, None])
            o['return_type'] = st.sampled_from(['-', '-', 'classifier', 'regressor'])
        elif z.startswith('mlp'):
            o['dtype'] = st.sampled_from(['-', '-', 'float', None])
            o['return_type'] = st.sampled_from(['-', '-', 'classifier', 'regressor'])
            o['use_fixedpoint'] = st.sampled_from(['-', '-', False, True])
        else:
            o['dtype'] = st.sampled_from(['-', '-', 'float', 'int16_t', None])
            o['return_type'] = st.sampled_from(['-', '-', 'classifier', 'regressor'])
        return st.fixed_dictionaries({'model': st.just(c), 'extra': st.fixed_dictionaries(o), 'subclass': st.sampled_from([False, False, True])})
    return zoo.model_st().flatmap(ex)


# ------------------------------------------------------------ size limits

def limits_body(case, ctx):
    k = case['knob']
    if k == 'jump':
        # a chain on one side makes the jump over the other side long
        n = case['n']
        leaf = case['kind']
        node = np.zeros(0)
        est, want, X = jump_tree(n, case['side'], case['kind'], case['seed'])
        try:
            c = convert(est, method=case['method'])
            code = c.save(name='m')
        except Exception:
            ctx.label('limits: jump refused')
            check(n > 32000, 'tree with jumps of %d refused', n)
            ctx.nontriv()
            return
        import rows
        if case['kind'] == 'clf':
            r = rows.run(code, X, 'out_i32(m_predict(x, nf));', [('p', '<i4')], dtype=np.int16, ctype='int16_t')['p']
        else:
            r = rows.run(code, X, 'out_f32(m_predict(x, nf));', [('p', '<f4')], dtype=np.int16, ctype='int16_t')['p']
        bad = np.nonzero(~(np.abs(r - want) <= np.abs(want) * 1e-6))[0]
        check(len(bad) == 0, '%s tree with %d nodes on one side (%s): %s expected %s for %s', case['kind'], n, case['method'], r[bad[:3]], want[bad[:3]], X[bad[:3]].tolist())
        ctx.label('limits: jump converted')
        ctx.compared(len(X))
        ctx.nontriv()
    elif k == 'leaves':
        n = case['n']
        est, want, X = jump_tree(n, 'left', 'reg', case['seed'], distinct=True)
        try:
            c = convert(est, method=case['method'])
            code = c.save(name='m')
        except Exception:
            ctx.label('limits: leaves refused')
            check(n > 32000, 'tree with %d different leaves refused', n)
            ctx.nontriv()
            return
        import rows
        r = rows.run(code, X, 'out_f32(m_predict(x, nf));', [('p', '<f4')], dtype=np.int16, ctype='int16_t')['p']
        bad = np.nonzero(~(np.abs(r - want) <= np.abs(want) * 1e-6))[0]
        check(len(bad) == 0, 'tree with %d different leaves (%s): %s expected %s', n, case['method'], r[bad[:3]], want[bad[:3]])
        ctx.label('limits: leaves converted')
        ctx.compared(len(X))
        ctx.nontriv()
    elif k == 'knn':
        import rows
        n = case['n']
        rng = np.random.RandomState(case['seed'])
        X = np.stack([np.arange(n) % 30000, np.arange(n) // 30000 * 1000], axis=1)
        y = rng.randint(0, 3, size=n)
        y[:3] = [0, 1, 2]
        est = supported_class('KNeighborsClassifier')(n_neighbors=1, algorithm='brute').fit(X.astype(float), y)
        i = rng.choice(n, size=12)
        i[:3] = [0, n - 1, n - 2]
        try:
            c = convert(est)
        except Exception:
            ctx.label('limits: knn refused')
            check(n > 32000, 'kNN with %d items refused', n)
            ctx.nontriv()
            return
        with ctx.sut('predict with %d items' % n):
            p = np.asarray(c.predict(X[i].astype(float)))
        check(np.array_equal(p, y[i]), 'kNN with %d items: %s expected %s', n, p, y[i])
        ctx.label('limits: knn converted')
        ctx.compared(len(i))
        ctx.nontriv()
    elif k == 'classes':
        n = case['n']
        rng = np.random.RandomState(case['seed'])
        t = [['n', 0, 0.5, ['l', [int(rng.randint(n))]], ['n', 0, 3.5, ['l', [n - 1]], ['l', ['w'] + [1 if i in (n - 1, n // 2) else 0 for i in range(n)]]]] for _ in range(3)]
        est = tl.make_estimator({'kind': 'clf', 'n_features': 1, 'n_classes': n, 'ens': 'rf', 'order': 'dfs', 'trees': t})
        X = np.array([[0], [1], [5], [-7], [100]])
        try:
            c = convert(est, method=case['method'], leaf_bits=case['bits'])
            code = c.save(name='m')
        except Exception:
            ctx.label('limits: classes refused')
            check(n > 30, '%d classes refused', n)
            ctx.nontriv()
            return
        r = tl.run_models([dict(name='m', code=code, clf=True, proba=True, n_classes=n)], 'int16_t', X)[0]
        mm = type('M', (), dict(zoo='tree-clf', est=est, X=X, nc=n, case={'leaf_bits': case['bits']}))
        check((r['err'] == 0).all(), 'error %s', r['err'])
        zoo.Model.judge(mm, {'predict': r['pred'], 'predict_proba': r['proba']}, '%d classes %s' % (n, case['method']))
        ctx.label('limits: classes converted')
        ctx.compared(len(X))
        ctx.nontriv()
    elif k == 'features':
        n = case['n']
        est = tl.make_estimator({'kind': 'clf', 'n_features': n, 'n_classes': 3, 'ens': 'dt', 'order': 'bfs', 'trees': [['n', n - 1, 0.5, ['l', [0]], ['n', case['seed'] % n, 3.5, ['l', [1]], ['l', [2]]]]]})
        X = tl.make_rows(est, 'int16_t', n, case['seed'], n=6)
        try:
            c = convert(est, method=case['method'])
            code = c.save(name='m')
        except Exception:
            ctx.label('limits: features refused')
            check(n > (127 if case['method'] == 'loadable' else 255), '%d features refused (%s)', n, case['method'])
            ctx.nontriv()
            return
        r = tl.run_models([dict(name='m', code=code, clf=True, proba=False, n_classes=3)], 'int16_t', X)[0]
        want = tl.hard_votes(est, X, 3).argmax(axis=1)
        check(np.array_equal(r['pred'], want), '%d features (%s): %s expected %s', n, case['method'], r['pred'], want)
        ctx.label('limits: features converted')
        ctx.compared(len(X))
        ctx.nontriv()


def jump_tree(n, side, kind, seed, distinct=False):
    """Root with a balanced subtree of n decision nodes on one side: thresholds i+0.5 of feature 0 in order.
    The class/value of each interval is known directly."""
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    rng = np.random.RandomState(seed)
    nodes = []
    vals = []
    # intervals 0..n of the subtree; interval i: values <= i+0.5 (and above i-0.5), shifted by -16000
    ivals = (np.arange(n + 1) * 1.0 + 1 if distinct else rng.randint(0, 3, size=n + 1).astype(float))
    flat = []

    def build(lo, hi):
        # thresholds lo..hi-1 -> intervals lo..hi ; depth first, iterative
        stack = [('go', lo, hi, None, None)]
        while stack:
            _, a, b, parent, which = stack.pop()
            i = len(flat)
            if parent is not None:
                flat[parent][which] = i
            if a == b:
                flat.append([-1, -1, -2, -2.0, ivals[a]])
                continue
            mid = (a + b) // 2
            flat.append([None, None, 1, mid + 0.5 - 16000, None])
            stack.append(('go', mid + 1, b, i, 1))
            stack.append(('go', a, mid, i, 0))
    flat.append([None, None, 0, 0.5, None])
    other = 7.0 if kind == 'reg' else 2.0
    if side == 'left':
        flat[0][0] = 1
        build(0, n)
        flat[0][1] = len(flat)
        # two levels, so that the far side holds a decision node (a long jump), not a leaf
        k = len(flat)
        flat.append([k + 1, k + 2, 0, 100.5, None])
        flat.append([-1, -1, -2, -2.0, other])
        flat.append([-1, -1, -2, -2.0, other if kind == 'clf' else other + 1])
    else:
        flat[0][0] = 1
        flat.append([2, 3, 0, -100.5, None])
        flat.append([-1, -1, -2, -2.0, other])
        flat.append([-1, -1, -2, -2.0, other if kind == 'clf' else other + 1])
        flat[0][1] = len(flat)
        build(0, n)
    N = len(flat)
    nd = np.zeros(N, dtype=tl._node_dtype())
    nc = 3
    values = np.zeros((N, 1, nc if kind == 'clf' else 1))
    a = np.array([[f[0], f[1], f[2], f[3]] for f in flat], dtype=float)
    nd['left_child'], nd['right_child'], nd['feature'], nd['threshold'] = a[:, 0], a[:, 1], a[:, 2], a[:, 3]
    nd['n_node_samples'] = 1
    nd['weighted_n_node_samples'] = 1
    for i, f in enumerate(flat):
        if f[4] is not None:
            if kind == 'clf':
                values[i, 0, int(f[4])] = 1
            else:
                values[i, 0, 0] = f[4]
        else:
            values[i, 0, 0] = 1
    from sklearn.tree._tree import Tree
    t = Tree(2, np.array([nc if kind == 'clf' else 1], dtype=np.intp), 1)
    t.__setstate__({'max_depth': 40, 'node_count': N, 'nodes': nd, 'values': values})
    y = np.arange(6) % 3
    est = (DecisionTreeClassifier if kind == 'clf' else DecisionTreeRegressor)(max_depth=1).fit(np.arange(12).reshape(6, 2).astype(float), y)
    est.tree_ = t
    q = np.unique(np.concatenate([[0, 1, n // 2, n - 1, n], rng.randint(0, n + 1, size=25)]))
    q = q[(q >= 0) & (q <= n)]
    big = 0 if side == 'left' else 1
    X = [[big, v - 16000] for v in q]
    far = 1 if side == 'left' else 0
    X += [[far, 0], [far, 5], [101 if far else -101, 3]]
    X = np.array(X)
    w = est.predict(X.astype(np.float32).astype(float))
    want = np.array([est.tree_.value[l][0].argmax() if kind == 'clf' else est.tree_.value[l][0][0] for l in est.tree_.apply(np.ascontiguousarray(X, dtype=np.float32))], dtype=float)
    return est, want, X


def limits_st(knobs, thorough_big=False):
    f = st.fixed_dictionaries
    j = st.just
    S = st.integers(0, 10 ** 6)
    M = st.sampled_from(['inline', 'loadable'])
    alts = {
        'jump': f({'knob': j('jump'), 'n': st.sampled_from([100, 5000, 32000, 32765, 32766, 32767, 32768, 32769, 32770, 40000]), 'side': st.sampled_from(['left', 'left', 'right']), 'kind': j('clf'), 'method': j('loadable'), 'seed': S}),
        'leaves': f({'knob': j('leaves'), 'n': st.sampled_from([100, 2000]), 'method': j('loadable'), 'seed': S}),
        'knn': f({'knob': j('knn'), 'n': st.sampled_from([500, 32765, 32766, 32767, 32768, 33000]), 'seed': S}),
        'classes': f({'knob': j('classes'), 'n': st.one_of(st.integers(1, 40), st.sampled_from([29, 30, 31, 127, 128, 255, 256, 300])), 'method': M, 'bits': st.sampled_from([0, 8, 4]), 'seed': S}),
        'features': f({'knob': j('features'), 'n': st.one_of(st.integers(1, 300), st.sampled_from([126, 127, 128, 129, 255, 256, 257, 1000])), 'method': M, 'seed': S}),
    }
    return st.one_of([alts[k] for k in knobs])


# ------------------------------------------------------------ known finding

def fixedpoint_body(case, ctx):
    """MLPClassifier inline with use_fixedpoint: refuse, or predict."""
    e, X = fitted('MLPClassifier', case['seed'])
    try:
        c = convert(e, method='inline', use_fixedpoint=True)
    except Exception:
        return
    with ctx.sut('predict'):
        p = np.asarray(c.predict(X))
    check(set(p.tolist()) <= {0, 1, 2}, 'fixed-point network converted, but predict() gives %s (error codes)', sorted(set(p.tolist())))
    w = e.predict_proba(X).max(axis=1) > 0.9
    check((p[w] == e.predict(X)[w]).all(), 'fixed-point network predicts %s expected %s', p[w][:5], e.predict(X)[w][:5])


SUBTESTS = [
    Sub('refused', refused_st, refused_body, quick=960),
    Sub('accepted', accepted_st, accepted_body, quick=360),
    Sub('limits', lambda: limits_st(['classes', 'features']), limits_body, quick=80),
    Sub('limits-large', lambda: limits_st(['jump', 'jump', 'knn', 'leaves']), limits_body, quick=32, thorough=100),
    Sub('fixedpoint', lambda: st.just({'seed': 1}), fixedpoint_body, quick=0, thorough=0),
]
