"""Generation of trained tree models (real sklearn Tree objects of any shape) and
of rows that hit their split thresholds, and C drivers for the converted code."""
import struct
import numpy as np
from hypothesis import strategies as st
import vh

# 64 bit: kept where every value used converts exactly between float32, float64 and integers
RANGES = {'int8_t': (-128, 127), 'int16_t': (-32768, 32767), 'int32_t': (-2**31, 2**31 - 1), 'int64_t': (-2**62, 2**62),
          'uint8_t': (0, 255), 'uint16_t': (0, 65535), 'uint32_t': (0, 2**32 - 1), 'uint64_t': (0, 2**62)}
F32MAX = float(np.finfo(np.float32).max)


# ------------------------------------------------------------ strategies

def thresholds(dtype, data_int=False):
    if dtype == 'float':
        mags = st.sampled_from([1e-30, 1e-10, 1e-6, 1e-4, 0.01, 1.0, 1.0, 100.0, 1e5, 1e9, 1e30])
        return st.one_of(
            st.floats(-4, 4, width=32, allow_nan=False).map(float),
            st.integers(-1000, 1000).map(lambda i: i / 2.0),
            st.builds(lambda m, s: float(m * s), mags, st.floats(-1, 1, allow_nan=False)),
        )
    lo, hi = RANGES[dtype]
    span = st.one_of(st.integers(max(lo, -6), 6), st.integers(max(lo, -130), min(hi, 130)), st.integers(lo, hi - 1),
                     st.sampled_from([lo, lo + 1, hi - 1, hi - 2, max(lo, -1), 0, 1]))
    frac = st.sampled_from([0.5, 0.5, 0.5, 0.5, 0.0, 0.25, 0.75, 0.999])

    def mk(i, f):
        return float(min(max(i + f, lo), hi - 0.5))
    return st.builds(mk, span, frac)


@st.composite
def tree_st(draw, n_features, thr, leaf, max_nodes, shape=None):
    """Nested node lists ['n', feature, threshold, left, right] / ['l', value]."""
    shape = shape or draw(st.sampled_from(['bushy', 'bushy', 'chain-left', 'chain-right', 'zigzag', 'stump', 'leaf']))
    if shape == 'leaf':
        return ['l', draw(leaf)]
    if shape == 'stump':
        return ['n', draw(st.integers(0, n_features - 1)), draw(thr), ['l', draw(leaf)], ['l', draw(leaf)]]
    if shape != 'bushy':
        n = draw(st.integers(1, max_nodes))
        t = ['l', draw(leaf)]
        for i in range(n):
            f, th, o = draw(st.integers(0, n_features - 1)), draw(thr), ['l', draw(leaf)]
            left = {'chain-left': True, 'chain-right': False, 'zigzag': i % 2 == 0}[shape]
            t = ['n', f, th, t, o] if left else ['n', f, th, o, t]
        return t
    budget = [draw(st.integers(1, max_nodes))]

    def go(depth):
        if budget[0] <= 0 or depth > 12 or not draw(st.integers(0, 3)):
            return ['l', draw(leaf)]
        budget[0] -= 1
        f, th = draw(st.integers(0, n_features - 1)), draw(thr)
        return ['n', f, th, go(depth + 1), go(depth + 1)]
    budget[0] -= 1
    return ['n', draw(st.integers(0, n_features - 1)), draw(thr), go(1), go(1)]


def class_weights(n_classes):
    """Leaf class counts; becomes proportions."""
    pure = st.integers(0, n_classes - 1).map(lambda c: [c])
    if n_classes == 1:
        return pure
    mixed = st.lists(st.one_of(st.integers(0, 3), st.integers(0, 100)), min_size=n_classes, max_size=n_classes).filter(lambda l: sum(l) > 0).map(lambda l: ['w'] + l)
    uniform = st.just(['w'] + [1] * n_classes)
    return st.one_of(pure, pure, mixed, mixed, uniform)


@st.composite
def forest_case(draw, kind, dtypes=('int16_t',), max_features=6, max_classes=6, max_trees=6, max_nodes=12, leaf=None, many_classes=True):
    dtype = draw(st.sampled_from(list(dtypes)))
    n_features = draw(st.one_of(st.integers(1, max_features), st.integers(1, max_features), st.sampled_from([1, 127 if dtype == 'int16_t' else 200])))
    case = {'kind': kind, 'dtype': dtype, 'n_features': n_features}
    if kind == 'clf':
        nc = draw(st.one_of(st.integers(2, max_classes), st.integers(1, max_classes), st.sampled_from([10, 11, 29, 30] if many_classes else [2])))
        case['n_classes'] = nc
        lf = class_weights(nc)
    else:
        lf = leaf
    ens = draw(st.sampled_from(['dt', 'rf', 'et']))
    case['ens'] = ens
    nt = 1 if ens == 'dt' else draw(st.one_of(st.integers(1, max_trees), st.integers(1, 3)))
    thr = thresholds(dtype)
    # a small pool of thresholds makes the trees share and nest boundaries
    pool = draw(st.lists(thr, min_size=1, max_size=5))
    thr2 = st.one_of(st.sampled_from(pool), thr)
    case['trees'] = [draw(tree_st(n_features, thr2, lf, max_nodes)) for _ in range(nt)]
    case['order'] = draw(st.sampled_from(['dfs', 'bfs']))
    case['rowseed'] = draw(st.integers(0, 2**20))
    return case


# ------------------------------------------------------------ big ensembles
# drawn from a seed, not element by element: only their sizes are generated

@st.composite
def big_case(draw, kind, max_leaves, dtypes=('int16_t', 'int16_t', 'int16_t', 'int16_t', 'float', 'int32_t'), max_trees=60):
    ens = draw(st.sampled_from(['dt', 'rf', 'et']))
    total = draw(st.sampled_from([max_leaves // 3, max_leaves, max_leaves]))
    nt = 1 if ens == 'dt' else draw(st.integers(2, max_trees))
    case = {'kind': kind, 'ens': ens, 'dtype': draw(st.sampled_from(list(dtypes))), 'n_features': draw(st.sampled_from([2, 3, 8, 40])),
            'big': {'trees': nt, 'leaves': max(2, total // nt), 'seed': draw(st.integers(0, 2**30)),
                    'pure': draw(st.sampled_from([False, False, False, True])), 'skew': draw(st.sampled_from([0.0, 0.5, 0.9]))},
            'order': draw(st.sampled_from(['dfs', 'bfs'])), 'rowseed': draw(st.integers(0, 2**20))}
    if kind == 'clf':
        case['n_classes'] = draw(st.sampled_from([2, 3, 5, 10, 30]))
    return case


@st.composite
def crowd_case(draw, kind):
    """Ensembles of hundreds of tiny trees, whose votes may all go the same way."""
    case = draw(big_case(kind, 600))
    case['ens'] = draw(st.sampled_from(['rf', 'et']))
    nt = draw(st.sampled_from([100, 129, 200, 257, 300, 700]))
    case['big'] = dict(case['big'], trees=nt, leaves=draw(st.sampled_from([2, 2, 3])), agree=draw(st.sampled_from([0.0, 0.8, 0.95, 1.0])))
    if kind == 'clf':
        case['n_classes'] = draw(st.sampled_from([2, 2, 3, 5]))
    return case


def expand_big(case):
    """Fills case['trees'] with kd-like trees: every leaf owns a non-empty box of the feature space."""
    b = case['big']
    rng = np.random.RandomState(b['seed'])
    nf, nc = case['n_features'], case.get('n_classes', 1)
    integer = case['dtype'] != 'float'
    lo, hi = RANGES[case['dtype']] if integer else (-1000.0, 1000.0)

    def leaf():
        if case['kind'] == 'reg':
            return float(np.float32(rng.normal() * 1000))
        if b.get('agree') and rng.rand() < b['agree']:
            return [nc - 1]
        if b['pure'] or nc == 1:
            return [int(rng.randint(nc))]
        w = rng.randint(0, 50, size=nc)
        w[rng.randint(nc)] += 1
        return ['w'] + [int(v) for v in w]

    out = []
    for _ in range(b['trees']):
        root = ['l', None]
        # open leaves as (node, box); split one of them until there are enough
        open_ = [(root, [(lo, hi)] * nf, 0)]
        while len(open_) < b['leaves']:
            k = len(open_) - 1 if rng.rand() < b['skew'] else rng.randint(len(open_))
            node, box, depth = open_[k]
            f = rng.randint(nf)
            a, z = box[f]
            if depth > 60 or z - a < (2 if integer else 1e-3):
                if rng.rand() < 0.05:
                    break
                continue
            u = a + (z - a) * (0.3 + 0.4 * rng.rand())
            t = float(np.floor(u)) + 0.5 if integer else float(np.float32(u))
            l, r = ['l', None], ['l', None]
            node[:] = ['n', int(f), t, l, r]
            bl, br = list(box), list(box)
            bl[f] = (a, int(np.floor(t)) if integer else t)
            br[f] = (int(np.floor(t)) + 1 if integer else t, z)
            open_[k] = (l, bl, depth + 1)
            open_.append((r, br, depth + 1))
        for node, _, _ in open_:
            node[:] = ['l', leaf()]
        out.append(root)
    return dict(case, trees=out)


# ------------------------------------------------------------ sklearn objects

_proto = {}


def _node_dtype():
    if 'd' not in _proto:
        from sklearn.tree import DecisionTreeClassifier
        e = DecisionTreeClassifier().fit([[0.], [1.]], [0, 1])
        _proto['d'] = e.tree_.__getstate__()['nodes'].dtype
    return _proto['d']


def flatten(node, order):
    """[(left, right, feature, threshold, leafvalue)] with children after parents."""
    out = []
    if order == 'dfs':
        def go(n):
            i = len(out)
            out.append(None)
            if n[0] == 'l':
                out[i] = (-1, -1, -2, -2.0, n[1])
            else:
                l = go(n[3])
                r = go(n[4])
                out[i] = (l, r, n[1], n[2], None)
            return i
        go(node)
    else:
        out.append(None)
        queue = [(0, node)]
        while queue:
            i, n = queue.pop(0)
            if n[0] == 'l':
                out[i] = (-1, -1, -2, -2.0, n[1])
            else:
                l = len(out)
                out.extend([None, None])
                out[i] = (l, l + 1, n[1], n[2], None)
                queue.append((l, n[3]))
                queue.append((l + 1, n[4]))
    return out


def leaf_vector(v, n_classes):
    a = np.zeros(n_classes)
    if v[0] == 'w':
        a[:] = v[1:]
        return a / a.sum()
    a[v[0]] = 1.0
    return a


def depth_of(node):
    d, stack = 0, [(node, 0)]
    while stack:
        n, k = stack.pop()
        d = max(d, k)
        if n[0] == 'n':
            stack += [(n[3], k + 1), (n[4], k + 1)]
    return d


def make_tree(node, order, n_features, kind, n_classes):
    from sklearn.tree._tree import Tree
    flat = flatten(node, order)
    n = len(flat)
    nodes = np.zeros(n, dtype=_node_dtype())
    values = np.zeros((n, 1, n_classes if kind == 'clf' else 1))
    nodes['n_node_samples'] = 1
    nodes['weighted_n_node_samples'] = 1.0
    for i in range(n - 1, -1, -1):
        l, r, f, t, v = flat[i]
        nodes['left_child'][i], nodes['right_child'][i], nodes['feature'][i], nodes['threshold'][i] = l, r, f, t
        if v is not None:
            values[i, 0, :] = leaf_vector(v, n_classes) if kind == 'clf' else v
        else:
            wl, wr = nodes['weighted_n_node_samples'][l], nodes['weighted_n_node_samples'][r]
            values[i] = (values[l] * wl + values[r] * wr) / (wl + wr)
            nodes['n_node_samples'][i] = nodes['n_node_samples'][l] + nodes['n_node_samples'][r]
            nodes['weighted_n_node_samples'][i] = wl + wr
    t = Tree(n_features, np.array([n_classes if kind == 'clf' else 1], dtype=np.intp), 1)
    t.__setstate__({'max_depth': depth_of(node), 'node_count': n, 'nodes': nodes, 'values': values})
    return t


def make_estimator(case):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor, ExtraTreesClassifier, ExtraTreesRegressor
    kind, nf, nc = case['kind'], case['n_features'], case.get('n_classes', 1)
    rng = np.random.RandomState(0)
    n = max(nc, 2)
    X = np.tile(np.arange(n, dtype=float)[:, None], (1, nf))
    y = np.arange(n) % nc if kind == 'clf' else np.arange(n, dtype=float)
    k = len(case['trees'])
    cls = {('clf', 'dt'): DecisionTreeClassifier, ('reg', 'dt'): DecisionTreeRegressor,
           ('clf', 'rf'): RandomForestClassifier, ('reg', 'rf'): RandomForestRegressor,
           ('clf', 'et'): ExtraTreesClassifier, ('reg', 'et'): ExtraTreesRegressor}[(kind, case['ens'])]
    if case['ens'] == 'dt':
        est = cls(max_depth=1, random_state=0).fit(X, y)
        members = [est]
    else:
        est = cls(n_estimators=k, bootstrap=False, max_depth=1, random_state=0).fit(X, y)
        members = est.estimators_
    for m, node in zip(members, case['trees']):
        m.tree_ = make_tree(node, case['order'], nf, kind, nc)
    return est


def members(est):
    return list(est.estimators_) if hasattr(est, 'estimators_') else [est]


def leaf_values(est, X):
    """(n_trees, n_rows, n_values): the trained values of the leaf each row reaches."""
    X32 = np.ascontiguousarray(X, dtype=np.float32)
    return np.stack([m.tree_.value[m.tree_.apply(X32)][:, 0, :] for m in members(est)])


def hard_votes(est, X, n_classes):
    lv = leaf_values(est, X)
    best = lv.argmax(axis=2)           # lowest index on ties within a leaf
    votes = np.zeros((lv.shape[1], n_classes), int)
    for t in range(lv.shape[0]):
        votes[np.arange(lv.shape[1]), best[t]] += 1
    return votes


# ------------------------------------------------------------ rows

def all_splits(est):
    out = []
    for m in members(est):
        t = m.tree_
        for f, th, l in zip(t.feature, t.threshold, t.children_left):
            if l >= 0:
                out.append((int(f), float(th)))
    return out


def make_rows(est, dtype, n_features, seed, n=120):
    """Rows at, next to and away from the thresholds. Representable in dtype and in float32."""
    rng = np.random.RandomState(seed)
    per = {}
    for f, th in all_splits(est):
        per.setdefault(f, set()).add(th)
    X = np.zeros((n, n_features), dtype=np.float64)
    for f in range(n_features):
        c = []
        ths = sorted(per.get(f, []))
        if dtype == 'float':
            for th in ths:
                b = np.float32(np.clip(th, -F32MAX, F32MAX))
                c += [b, np.nextafter(b, np.float32(np.inf)), np.nextafter(b, np.float32(-np.inf)), b * np.float32(1.001), b / 2, b * 2]
            c += [0.0, 1.0, -1.0, 1e-7, 1e6]
            c = np.array(c, dtype=np.float32)
            c = c[np.isfinite(c)]
            c = np.clip(c, -1e37, 1e37).astype(np.float64)
        else:
            lo, hi = RANGES[dtype]
            for th in ths:
                b = int(np.floor(th))
                c += [b - 1, b, b + 1, b + 2]
            c += [lo, hi, 0, 1, max(lo, -1), int(rng.randint(lo, hi))]
            c = np.clip(np.array(c, dtype=np.int64), lo, hi)
            c = c.astype(np.float32).astype(np.float64)      # what sklearn sees
            c = c[(c >= lo) & (c <= hi)]
        X[:, f] = c[rng.randint(0, len(c), size=n)]
    return X


NP_DT = {'float': np.float32, 'int8_t': np.int8, 'int16_t': np.int16, 'int32_t': np.int32, 'int64_t': np.int64,
         'uint8_t': np.uint8, 'uint16_t': np.uint16, 'uint32_t': np.uint32, 'uint64_t': np.uint64}


# ------------------------------------------------------------ C side

def driver(models, dtype):
    """models: list of dict(name, code, clf(bool), proba(bool), n_classes)."""
    parts = ['#include "drv.h"\n#include <math.h>\n']
    for m in models:
        parts.append(m['code'])
    calls = []
    for m in models:
        if m['clf']:
            s = 'out_i32(%s_predict(x, nf));' % m['name']
            if m['proba']:
                s += ('{ float *o = (float*)malloc(%d*sizeof(float)); for (int i=0;i<%d;i++) o[i]=NAN; out_i32(%s_predict_proba(x, nf, o, %d)); drv_out(o, %d*sizeof(float)); free(o); }'
                      % (m['n_classes'], m['n_classes'], m['name'], m['n_classes'], m['n_classes']))
        else:
            s = 'out_f32(%s_predict(x, nf));' % m['name']
        calls.append(s)
    parts.append('''
int main(void) {
  int n = in_i32(), nf = in_i32();
  for (int r=0; r<n; r++) {
    %s *x = (%s *)in_block(nf*sizeof(%s));
    %s
    free(x);
  }
  drv_flush();
  return 0;
}''' % (dtype, dtype, dtype, '\n    '.join(calls)))
    return '\n'.join(parts)


def run_models(models, dtype, X, what='generated code'):
    """Returns per model dict(pred=..., err=..., proba=...)."""
    d = vh.fresh_dir('t')
    try:
        try:
            exe = vh.cc(driver(models, dtype), out_dir=d, opt='-O0')
        except vh.CompileError as e:
            raise vh.Violation('%s does not compile: %s' % (what, str(e)[:600]))
        data = struct.pack('<ii', X.shape[0], X.shape[1]) + np.ascontiguousarray(X.astype(NP_DT[dtype])).tobytes()
        try:
            out = vh.run_exe(exe, data)
        except vh.Crash as e:
            raise vh.Violation('%s crashed: %s' % (what, e))
    finally:
        vh.rm(d)
    fields = []
    for i, m in enumerate(models):
        if m['clf']:
            fields.append(('p%d' % i, '<i4'))
            if m['proba']:
                fields.append(('e%d' % i, '<i4'))
                fields.append(('q%d' % i, '<f4', (m['n_classes'],)))
        else:
            fields.append(('p%d' % i, '<f4'))
    a = np.frombuffer(out, dtype=np.dtype(fields))
    if len(a) != len(X):
        raise vh.Violation('%s: %d outputs for %d rows' % (what, len(a), len(X)))
    res = []
    for i, m in enumerate(models):
        r = {'pred': a['p%d' % i]}
        if m['clf'] and m['proba']:
            r['err'], r['proba'] = a['e%d' % i], a['q%d' % i]
        res.append(r)
    return res


def methods_for(dtype):
    return ['inline', 'loadable'] if dtype == 'int16_t' else ['inline']


def describe_rows(X, idx):
    return [[float(v) for v in X[i]] if X.shape[1] <= 8 else 'row %d' % i for i in idx[:3]]


def fit_case(kind):
    """Real fits on generated data."""
    return st.fixed_dictionaries({
        'fit': st.just(1), 'kind': st.just(kind),
        'ens': st.sampled_from(['dt', 'rf', 'et']),
        'dtype': st.sampled_from(['int16_t', 'int16_t', 'int16_t', 'float', 'float', 'int8_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']),
        'n_features': st.integers(1, 8),
        'n_classes': st.sampled_from([2, 2, 3, 4, 5, 8, 12]) if kind == 'clf' else st.just(1),
        'n_samples': st.integers(4, 120),
        'spread': st.sampled_from([2, 5, 10, 100, 10000]),
        'max_depth': st.sampled_from([None, None, 1, 2, 3, 5]),
        'max_leaf_nodes': st.sampled_from([None, None, 2, 5, 12]),
        'min_samples_leaf': st.sampled_from([1, 1, 2, 5, 0.2]),
        'n_estimators': st.integers(1, 7),
        'weights': st.booleans(),
        'seed': st.integers(0, 2**20),
        'rowseed': st.integers(0, 2**20),
    })


def fit_estimator(case, target_scale=1.0):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor, ExtraTreesClassifier, ExtraTreesRegressor
    rng = np.random.RandomState(case['seed'])
    kind, nf, nc, n = case['kind'], case['n_features'], case['n_classes'], case['n_samples']
    s = case['spread']
    if case['dtype'] == 'float':
        X = (rng.normal(size=(n, nf)) * s).astype(np.float32)
    else:
        lo, hi = RANGES[case['dtype']]
        if case['dtype'][-4:] in ('32_t', '64_t'):
            lo, hi = max(lo, -2**23), 2**23
        X = np.clip(rng.randint(-s, s + 1, size=(n, nf)), lo, hi).astype(float)
    if kind == 'clf':
        y = (np.abs(np.floor(X.sum(axis=1))) + rng.randint(0, 2, size=n)).astype(int) % nc
        y[:nc] = np.arange(nc)[:n]
        if len(np.unique(y)) < nc:
            y = np.arange(n) % nc
    else:
        y = (X.sum(axis=1) / s + rng.normal(size=n)) * target_scale
    cls = {('clf', 'dt'): DecisionTreeClassifier, ('reg', 'dt'): DecisionTreeRegressor,
           ('clf', 'rf'): RandomForestClassifier, ('reg', 'rf'): RandomForestRegressor,
           ('clf', 'et'): ExtraTreesClassifier, ('reg', 'et'): ExtraTreesRegressor}[(kind, case['ens'])]
    kw = dict(max_depth=case['max_depth'], max_leaf_nodes=case['max_leaf_nodes'], min_samples_leaf=case['min_samples_leaf'], random_state=case['seed'] % 1000)
    if case['ens'] != 'dt':
        kw['n_estimators'] = case['n_estimators']
    est = cls(**kw)
    sw = rng.randint(1, 5, size=n).astype(float) if case['weights'] else None
    est.fit(X, y, sample_weight=sw)
    nc_real = len(np.unique(y)) if kind == 'clf' else 1
    return est, X, nc_real


def prepare(case, **kw):
    """(estimator, rows, n_classes) of a forest_case or a fit_case."""
    if case.get('fit'):
        est, Xt, nc = fit_estimator(case, **kw)
        rows = make_rows(est, case['dtype'], case['n_features'], case['rowseed'], n=100)
        rows = np.concatenate([rows, Xt[:60].astype(float)])
        return est, rows, nc
    if case.get('big'):
        est = make_estimator(expand_big(case))
        rng = np.random.RandomState(case['rowseed'])
        lo, hi = RANGES[case['dtype']] if case['dtype'] != 'float' else (-1000, 1000)
        free = rng.randint(lo, hi, size=(300, case['n_features'])).astype(np.float32).astype(float)
        free = np.clip(free, lo, hi - 128 if case['dtype'] == 'int32_t' else hi)
        return est, np.concatenate([make_rows(est, case['dtype'], case['n_features'], case['rowseed'], n=100), free]), case.get('n_classes', 1)
    est = make_estimator(case)
    return est, make_rows(est, case['dtype'], case['n_features'], case['rowseed']), case.get('n_classes', 1)
