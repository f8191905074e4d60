"""One small model of every kind that can be converted, rows for it, what Python and C say about
them, and a judge against the original estimator. Used by the checks that work across model kinds."""
import os, sys, struct, warnings
import numpy as np
from hypothesis import strategies as st
import vh, treelib as tl, netlib as nl
from vh import check

KINDS = ['tree-clf', 'tree-clf', 'tree-reg', 'mlp-clf', 'mlp-reg', 'nb', 'ee', 'gmm', 'knn']


def _mod(name):
    import importlib
    p = os.path.join(vh.VERIF, 'checks')
    if p not in sys.path:
        sys.path.insert(0, p)
    return importlib.import_module(name)


# ------------------------------------------------------------ strategies

def _tree(kind):
    def fix(c):
        dtype = c['dtype']
        if c['method'] == 'loadable':
            c['dtype'] = 'int16_t'
        if kind == 'reg':
            c['leaf_bits'] = None
        c['n_estimators'] = min(c['n_estimators'], 5)
        c['n_samples'] = min(c['n_samples'], 60)
        return c
    return st.tuples(tl.fit_case(kind), st.sampled_from(['inline', 'inline', 'loadable', None]), st.sampled_from([None, None, 0, 1, 3, 6, 8, 8])).map(
        lambda t: fix(dict(t[0], method=t[1], leaf_bits=t[2])))


def _small(**kw):
    return st.fixed_dictionaries({k: (v if isinstance(v, st.SearchStrategy) else st.just(v)) for k, v in kw.items()})


SEED = st.integers(0, 2 ** 20)


def params(kind):
    if kind == 'tree-clf':
        return _tree('clf')
    if kind == 'tree-reg':
        return _tree('reg')
    if kind in ('mlp-clf', 'mlp-reg'):
        reg = kind == 'mlp-reg'
        return _small(task='reg' if reg else st.sampled_from(['binary', 'multi']), n_out=st.integers(1, 3), n_features=st.integers(1, 6),
                      hidden=st.lists(st.integers(1, 6), min_size=1, max_size=3), activation=st.sampled_from(['identity', 'relu', 'logistic', 'tanh']),
                      style=st.sampled_from(['dense', 'trained', 'single']), scale=st.sampled_from([1.0, 0.5, 2.0]), bias=st.sampled_from([0.0, 0.5]), rowscale=st.sampled_from([1.0, 3.0]), iters=1, explicit=True,
                      method=st.sampled_from(['loadable', None]) if reg else st.sampled_from(['loadable', 'inline', None]), seed=SEED).map(
            lambda c: dict(c, n_out={'binary': 1, 'multi': c['n_out'] + 2, 'reg': c['n_out']}[c['task']]))
    if kind == 'nb':
        return _small(n_classes=st.integers(2, 5), n_features=st.integers(1, 5), spread=st.sampled_from([1.0, 10.0]), offset=st.sampled_from([0.0, 5.0]), std=st.sampled_from([1.0, 0.3]),
                      stdvar=st.sampled_from([0.0, 0.5]), priorconc=1.0, equal=st.booleans(), explicit=st.booleans(), style='fit', far=1.0, method=st.sampled_from([None, 'loadable']), seed=SEED)
    if kind == 'ee':
        return _small(n_features=st.integers(1, 5), corr=st.sampled_from([0.0, 0.4]), aniso=st.sampled_from([0.0, 1.0]), scale=1.0, offset=st.sampled_from([0.0, 3.0]), contamination=st.sampled_from([0.1, 0.3]),
                      support=None, bound=None, near=0.3, explicit=True, method=st.sampled_from([None, 'inline']), seed=SEED)
    if kind == 'gmm':
        return _small(n_components=st.integers(1, 4), n_features=st.integers(1, 4), cov=st.sampled_from(['full', 'tied', 'diag', 'spherical']), bayes=st.booleans(), spread=st.sampled_from([5.0, 2.0]), corr=st.sampled_from([0.0, 0.4]),
                      scale=1.0, offset=st.sampled_from([0.0, 3.0]), iters=5, method=st.sampled_from([None, 'inline', 'loadable']), seed=SEED)
    if kind == 'knn':
        return _small(n=st.integers(2, 40), n_features=st.integers(1, 4), n_classes=st.integers(2, 6), k=st.integers(1, 7), style=st.sampled_from(['cluster', 'lattice', 'uniform']), noise=100,
                      order='random', algorithm='auto', method=st.sampled_from([None, 'loadable']), seed=SEED)
    raise KeyError(kind)


def model_st(kinds=KINDS):
    return st.sampled_from(list(kinds)).flatmap(lambda k: params(k).map(lambda p: dict(p, zoo=k)))


# ------------------------------------------------------------ models

class Model:
    def __init__(self, case, max_rows=12):
        self.case = case
        self.zoo = z = case['zoo']
        self.ctype, self.np = 'float', np.float32
        self.usable = True
        getattr(self, '_init_' + z.replace('-', '_'))()
        if self.usable:
            self.X = np.asarray(self.X)
            if len(self.X) > max_rows:
                rng = np.random.RandomState(case['seed'] % 9973)
                self.X = self.X[np.sort(rng.permutation(len(self.X))[:max_rows])]
            self.X = np.ascontiguousarray(self.X)

    # settings of the conversion
    def kwargs(self):
        c, kw = self.case, {}
        if c.get('method') is not None:
            kw['method'] = c['method']
        if self.zoo.startswith('tree'):
            if not (c['dtype'] == 'int16_t' and c['seed'] % 2):
                kw['dtype'] = c['dtype']
            if c.get('leaf_bits') is not None:
                kw['leaf_bits'] = c['leaf_bits']
        if self.zoo == 'mlp-reg':
            kw['return_type'] = 'regressor'
        return kw

    def convert(self, **extra):
        import emlearn
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return emlearn.convert(self.est, **dict(self.kwargs(), **extra))

    @property
    def method(self):
        d = {'tree-clf': 'inline', 'tree-reg': 'inline', 'mlp-clf': 'loadable', 'mlp-reg': 'loadable'}
        return self.case.get('method') or d.get(self.zoo)

    def _init_tree_clf(self):
        self.est, self.X, self.nc = tl.prepare(self.case)
        self.dtype = self.case['dtype']
        self.ctype, self.np = self.dtype, tl.NP_DT[self.dtype]

    _init_tree_reg = _init_tree_clf

    def _mlp(self):
        m = _mod('N01')
        self.est, self.X = m.make(self.case)
        self.acts = [self.est.activation] * (len(self.est.coefs_) - 1) + [self.est.out_activation_]
        self.nout = self.est.coefs_[-1].shape[1]
        self.nc = max(self.nout, 2)

    _init_mlp_clf = _init_mlp_reg = _mlp

    def _init_nb(self):
        m = _mod('B01')
        self.est, self.X = m.make(self.case)
        s = np.sqrt(self.est.var_)
        self.X = self.X[(np.abs(self.X[:, None, :] - self.est.theta_[None]) / s[None]).max(axis=(1, 2)) < 150]
        if s.min() < 0.01 or len(self.X) == 0:
            self.usable = False

    def _init_ee(self):
        self.est, self.X = _mod('E01').make(self.case)

    def _init_gmm(self):
        self.est, self.X = _mod('G01').make(self.case)
        W, e = _mod('G01').bounds(self.est, self.X.astype(float))
        self.X = self.X[np.abs(W).max(axis=1) < 1e5]
        self.nc = W.shape[1]
        self.usable = len(self.X) > 0 and np.abs(W).max() < 1e30

    def _init_knn(self):
        from sklearn.neighbors import KNeighborsClassifier
        X, y, k, Q = _mod('K01').make(self.case)
        self.Xt, self.y, self.k, self.X = X, y, k, Q
        self.est = KNeighborsClassifier(n_neighbors=k).fit(X.astype(float), y)
        self.ctype, self.np = 'int16_t', np.int16

    # ---- what the Python object says
    def methods(self):
        z = self.zoo
        return {'tree-clf': ['predict', 'predict_proba'], 'tree-reg': ['predict'], 'mlp-reg': ['predict'], 'nb': ['predict'], 'knn': ['predict'],
                'mlp-clf': ['predict', 'predict_proba'] if self.method == 'loadable' else ['predict'], 'ee': ['mahalanobis', 'score_samples', 'predict'],
                'gmm': ['predict_log_proba', 'predict_proba', 'predict', 'score_samples']}[z]

    def python(self, c, X=None, methods=None):
        X = self.X if X is None else X
        return {m: np.asarray(getattr(c, m)(X.astype(np.float64) if self.ctype != 'float' else X)) for m in (methods or self.methods())}

    # ---- what the C code says: statements reading `const ctype *x`, `int nf`, and the fields they write
    def c_calls(self, name):
        # the locals get names that no model has
        import re
        code, fields = self._c_calls('@NAME@')
        return re.sub(r'\b(x|nf|o|i|dist|p|s|d|out)\b', r'vq_\1', code).replace('@NAME@', name), fields

    def _c_calls(self, name):
        z = self.zoo
        n = getattr(self, 'nc', 0)
        if z == 'tree-clf':
            return ('out_i32(%s_predict(x, nf)); { float *o=(float*)malloc(%d*4); for (int i=0;i<%d;i++) o[i]=NAN; out_i32(%s_predict_proba(x, nf, o, %d)); drv_out(o,%d*4); free(o); }'
                    % (name, n, n, name, n, n), [('predict', '<i4'), ('err', '<i4'), ('predict_proba', '<f4', (n,))])
        if z == 'tree-reg':
            return 'out_f32(%s_predict(x, nf));' % name, [('predict', '<f4')]
        if z == 'nb':
            return 'out_i32(%s_predict(x, nf));' % name, [('predict', '<i4')]
        if z == 'ee':
            return ('float dist=NAN; out_i32(eml_elliptic_envelope_predict(&%s_classifier, x, nf, &dist)); out_f32(dist); out_f32(%s_predict(x, nf));' % (name, name),
                    [('outlier', '<i4'), ('mahalanobis', '<f4'), ('d2', '<f4')])
        if z == 'gmm':
            return ('''float *o = (float*)malloc(%(n)d*4), *p = (float*)malloc(%(n)d*4); float s = NAN;
      out_i32(%(m)s_predict_log_proba(x, nf, o)); drv_out(o, %(n)d*4); out_i32(%(m)s_predict_proba(x, nf, o, &s, p)); out_f32(s); drv_out(p, %(n)d*4); free(o); free(p);''' % dict(n=n, m=name),
                    [('err', '<i4'), ('predict_log_proba', '<f4', (n,)), ('err2', '<i4'), ('score_samples', '<f4'), ('predict_proba', '<f4', (n,))])
        if z == 'mlp-clf' and self.method == 'inline':
            return 'out_i32(%s_predict(x, nf));' % name, [('predict', '<i4')]
        if z == 'mlp-clf':
            return ('out_i32(%s_predict(x, nf)); { float *o=(float*)malloc(%d*4); for(int i=0;i<%d;i++) o[i]=NAN; out_i32(eml_net_predict_proba(&%s, x, nf, o, %d)); drv_out(o,%d*4); free(o);}'
                    % (name, n, n, name, n, n), [('predict', '<i4'), ('err', '<i4'), ('predict_proba', '<f4', (n,))])
        if z == 'mlp-reg':
            k = self.nout
            return ('{ float *o=(float*)malloc(%d*4); for(int i=0;i<%d;i++) o[i]=NAN; out_i32(%s_regress(x, nf, o, %d)); drv_out(o,%d*4); free(o);}' % (k, k, name, k, k),
                    [('err', '<i4'), ('predict', '<f4', (k,))])
        if z == 'knn':
            k = len(self.Xt)
            return ('''EmlNeighborsDistanceItem *d = (EmlNeighborsDistanceItem *)malloc(sizeof(EmlNeighborsDistanceItem)*%d); int16_t out = -77;
      out_i32(eml_neighbors_predict(&%s, x, nf, d, %d, &out)); out_i32(out); free(d);''' % (k, name, k), [('err', '<i4'), ('predict', '<i4')])
        raise KeyError(z)

    def from_c(self, a):
        """Results of the C code in the form of python()."""
        r = {}
        for k in a.dtype.names:
            if k.startswith('err'):
                check((a[k] == 0).all(), 'generated function returned error %s', a[k][:3])
            else:
                r[k] = a[k].astype(np.float64) if a[k].dtype.kind == 'f' else a[k].astype(int)
        if self.zoo == 'ee':
            check(np.array_equal(r['mahalanobis'], r['d2']), 'distances differ')
            return {'mahalanobis': r['mahalanobis'], 'score_samples': -r['mahalanobis'], 'predict': np.where(r['outlier'] == 1, -1, 1)}
        if self.zoo == 'gmm':
            return {k: r[k] for k in ('predict_log_proba', 'predict_proba', 'score_samples')}
        if self.zoo == 'mlp-reg' and self.nout == 1:
            r['predict'] = r['predict'][:, 0]
        return r

    # ---- is it what the original says
    def judge(self, r, what='', rows=None):
        X = self.X if rows is None else self.X[rows]
        z = self.zoo
        if z == 'tree-clf':
            lv = tl.leaf_values(self.est, X)
            bits = self.case.get('leaf_bits')
            if bits in (None, 0, 1):
                want = tl.hard_votes(self.est, X, self.nc) / float(lv.shape[0])
                b = 1e-5
            else:
                want = lv.mean(axis=0)
                b = 0.5 / (2 ** bits - 2) + 1 / 255. + 1e-5
            p = r['predict']
            check(p.shape == (len(X),) and ((p >= 0) & (p < self.nc)).all(), '%s: predicted class %s of %d', what, p[:4], self.nc)
            i = np.arange(len(X))
            bad = np.nonzero(want[i, p] < want.max(axis=1) - 2 * b)[0]
            check(len(bad) == 0, '%s: class %s, class shares are %s', what, p[bad[:2]], want[bad[:2]].tolist())
            if 'predict_proba' in r:
                check(r['predict_proba'].shape == want.shape, '%s: probabilities of shape %s', what, r['predict_proba'].shape)
                check((np.abs(r['predict_proba'] - want) <= b).all(), '%s: probabilities %s expected %s', what, r['predict_proba'][:2].tolist(), want[:2].tolist())
        elif z == 'tree-reg':
            lv = tl.leaf_values(self.est, X)[:, :, 0]
            tol = (len(lv) + 4) * 2.0 ** -23 * np.abs(lv).mean(axis=0) + 1e-43
            check(r['predict'].shape == (len(X),) and (np.abs(r['predict'] - lv.mean(axis=0)) <= tol).all(), '%s: values %s expected %s', what, r['predict'][:3], lv.mean(axis=0)[:3])
        elif z in ('mlp-clf', 'mlp-reg'):
            X32 = X.astype(np.float32)
            out, err = nl.forward(self.est.coefs_, self.est.intercepts_, self.acts, X32)
            if z == 'mlp-reg':
                p = r['predict'].reshape(len(X), -1)
                check(p.shape == out.shape and (np.abs(p - out) <= err * 1.01 + 1e-9 * np.abs(out)).all(), '%s: outputs %s expected %s', what, p[:2].tolist(), out[:2].tolist())
            else:
                want, werr = nl.proba_of(out, err)
                q = r.get('predict_proba')
                check(r['predict'].shape == (len(X),) and (q is None or q.shape == want.shape), '%s: shapes', what)
                nl.compare_classifier(what, r['predict'], q, want, werr, vh.Ctx())
        elif z == 'nb':
            m = _mod('B01')
            L, e = m.loglik(self.est, X)
            p = r['predict']
            check(p.shape == (len(X),) and ((p >= 0) & (p < L.shape[1])).all(), '%s: class %s of %d', what, p[:3], L.shape[1])
            i = np.arange(len(p))
            check(((L - e).max(axis=1) - (L[i, p] + e[i, p]) <= 1e-9 * np.abs(L).max(axis=1)).all(), '%s: classes %s expected %s', what, p[:6], L.argmax(axis=1)[:6])
        elif z == 'ee':
            want = self.est.mahalanobis(X.astype(float))
            err = 1e-4 * (1 + want) * (1 + np.abs(self.est.get_precision()).max() * (1 + np.abs(self.est.location_).max()) ** 2 * 1e-2)
            check((np.abs(r['mahalanobis'] - want) <= err).all(), '%s: distances %s expected %s', what, r['mahalanobis'][:3], want[:3])
            check((np.abs(r['score_samples'] + want) <= err).all(), '%s: scores %s expected %s', what, r['score_samples'][:3], -want[:3])
            clear = np.abs(-want - self.est.offset_) > err
            sk = self.est.predict(X.astype(float))
            check((r['predict'][clear] == sk[clear]).all(), '%s: decisions %s expected %s', what, r['predict'][clear][:5], sk[clear][:5])
        elif z == 'gmm':
            W, e = _mod('G01').bounds(self.est, X.astype(float))
            e = e + 1e-5 * (1 + np.abs(W))
            check(r['predict_log_proba'].shape == W.shape and (np.abs(r['predict_log_proba'] - W) <= e).all(), '%s: log probabilities %s expected %s', what, r['predict_log_proba'][:2].tolist(), W[:2].tolist())
            s = self.est.score_samples(X.astype(float))
            check((np.abs(r['score_samples'] - s) <= 2 * e.max(axis=1)).all(), '%s: scores %s expected %s', what, r['score_samples'][:3], s[:3])
            q = self.est.predict_proba(X.astype(float))
            okr = e.max(axis=1) < 0.01
            check((np.abs(r['predict_proba'] - q)[okr] <= 0.05).all(), '%s: responsibilities %s expected %s', what, r['predict_proba'][:2].tolist(), q[:2].tolist())
            if 'predict' in r and W.shape[1] > 1:
                so = np.sort(W, axis=1)
                clear = so[:, -1] - so[:, -2] > 2 * e.max(axis=1)
                check((r['predict'][clear] == W.argmax(axis=1)[clear]).all(), '%s: components %s expected %s', what, r['predict'], W.argmax(axis=1))
        elif z == 'knn':
            m = _mod('K01')
            for i in range(len(X)):
                d2 = ((self.Xt - X[i].astype(int)) ** 2).sum(axis=1)
                ok = m.allowed(m.isqrt(d2), self.y, self.k, self.case['n_classes'])
                check(int(r['predict'][i]) in ok, '%s: class %s for query %s, nearest allow %s', what, int(r['predict'][i]), X[i].tolist(), sorted(ok))
        return len(X)


def run_together(models, flags=(), cxx=False, compiler_std=None, opt='-O0', order=None, warn=None, pre='', files=None):
    """models: list of (Model, name, code or include). One program using all of them. Returns the list of results in the form of python()."""
    parts = ['#include "drv.h"\n#include <math.h>', pre]
    for i, (m, name, code) in enumerate(models):
        parts.append(code)
    body, data, dts = [], b'', []
    for i, (m, name, code) in enumerate(models):
        sn, fields = m.c_calls(name)
        parts.append('static void run_case_%d(const %s *vq_x, int vq_nf) { %s }' % (i, m.ctype, sn))
        body.append('{ int n = in_i32(), nf = in_i32(); for (int r=0;r<n;r++) { %s *x=(%s *)in_block(nf*sizeof(%s)); run_case_%d(x, nf); free(x); } }' % (m.ctype, m.ctype, m.ctype, i))
        data += struct.pack('<ii', *m.X.shape) + np.ascontiguousarray(m.X.astype(m.np)).tobytes()
        dts.append(np.dtype(fields))
    parts.append('int main(void) {\n %s\n drv_flush(); return 0; }' % '\n '.join(body))
    d = vh.fresh_dir('z')
    try:
        try:
            exe = vh.cc('\n'.join(parts), out_dir=d, opt=opt, cxx=cxx, flags=flags, extra_files=files, **({'std': compiler_std} if compiler_std else {}))
        except vh.CompileError as e:
            raise vh.Violation('models %s do not compile together: %s' % ([n for _, n, _ in models], str(e)[:900]))
        try:
            out = vh.run_exe(exe, data)
        except vh.Crash as e:
            raise vh.Violation('generated code of %s crashed: %s' % ([(m.zoo, n) for m, n, _ in models], e))
    finally:
        vh.rm(d)
    res, p = [], 0
    for (m, name, code), dt in zip(models, dts):
        n = len(m.X) * dt.itemsize
        check(p + n <= len(out), 'program wrote too little')
        res.append(m.from_c(np.frombuffer(out[p:p + n], dtype=dt)))
        p += n
    return res
