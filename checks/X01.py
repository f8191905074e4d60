"""X01: converted models do not depend on each other, on what was asked before, on how rows are grouped; nothing else is changed."""
import os, gc, copy, pickle, random, warnings, hashlib, signal
import numpy as np
from hypothesis import strategies as st
import vh, zoo
from vh import Sub, check

PROPERTY = 'X01'
RULE = ('histories: 2 to 4 drawn models of drawn kinds (the same estimator also twice) and 4 to 16 operations: convert, predict/predict_proba/score of drawn rows in drawn order, grouping and array layout, save, discard, '
        'failing calls (wrong feature count, unsupported model, bad name, missing directory), changing the working directory, numpy error state and random state, copying, forking, training the original further, '
        'overwriting arrays given and returned; batches: one model, all rows together against drawn partitions, orders, layouts; threads: several models asked and converted from several threads. '
        'The first answer of a model is judged against its original; every later answer must be exactly the first one. Non-trivial: at least two conversions alive and at least one question after a later conversion, save or discard.')
ASSUMPTIONS = ['operations of one history run in one process; the working directory does not change while another thread uses the library',
               'rows are within the range of the model (see the check of each model kind)']


# ------------------------------------------------------------ state of the outside

def world():
    s = np.random.get_state()
    return {'numpy error handling': dict(np.geterr()), 'working directory': os.getcwd(), 'warning filters': list(warnings.filters), 'random state': hash(random.getstate()),
            'numpy random state': (s[0], s[1].tobytes(), s[2:]), 'environment': dict(os.environ), 'print options': repr(sorted(np.get_printoptions().items(), key=str)),
            'umask': umask(), 'SIGINT handler': signal.getsignal(signal.SIGINT), 'SIGCHLD handler': signal.getsignal(signal.SIGCHLD), 'gc': gc.isenabled(), 'recursion limit': __import__('sys').getrecursionlimit(),
            'locale': __import__('locale').setlocale(__import__('locale').LC_ALL)}


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def digest(o, depth=0):
    """Content of a fitted estimator."""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ['oarr', o.shape, [digest(x, depth + 1) for x in o.ravel()]]
        return ['arr', str(o.dtype), o.shape, hashlib.blake2b(np.ascontiguousarray(o).tobytes(), digest_size=16).hexdigest()]
    if isinstance(o, dict):
        return ['dict', [(repr(k), digest(v, depth + 1)) for k, v in o.items()]]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, [digest(v, depth + 1) for v in o]]
    if o is None or isinstance(o, (int, float, str, bytes, bool, complex, np.generic, type)):
        return [type(o).__name__, repr(o)]
    if isinstance(o, np.random.RandomState):
        s = o.get_state()
        return ['rs', s[0], s[1].tobytes().hex(), s[2:]]
    if depth > 8:
        return ['deep']
    if type(o).__name__ == 'Tree' and hasattr(o, '__getstate__'):
        return ['tree', digest({k: v for k, v in o.__getstate__().items()}, depth + 1)]
    if hasattr(o, '__dict__'):
        return [type(o).__name__, digest(vars(o), depth + 1)]
    return [type(o).__name__]


def arrays_of(o, depth=0, seen=None):
    """The numpy arrays that make up a fitted estimator."""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'f' and o.flags.writeable:
            yield o
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from arrays_of(x, depth + 1, seen)
    elif hasattr(o, '__dict__'):
        for x in vars(o).values():
            yield from arrays_of(x, depth + 1, seen)


LAYOUTS = ['c64', 'c64', 'c32', 'f64', 'strided', 'reversed', 'columns', 'readonly']


def layout(X, how, ctype):
    X = np.array(X, dtype=np.float64)
    if how == 'c32':
        return X.astype(np.float32)
    if how == 'f64':
        return np.asfortranarray(X)
    if how == 'strided':
        Y = np.full((2 * len(X), X.shape[1]), 1e6)
        Y[::2] = X
        return Y[::2]
    if how == 'reversed':
        return np.ascontiguousarray(X[::-1])[::-1]
    if how == 'columns':
        Y = np.full((len(X), 2 * X.shape[1] + 1), -1e6)
        Y[:, 1::2] = X
        return Y[:, 1::2]
    if how == 'readonly':
        X.flags.writeable = False
    return X


def same(a, b):
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and bool(((a == b) | ((a != a) & (b != b))).all())


class Live:
    """A conversion, and the first answers it gave."""
    def __init__(self, mi, model, conv):
        self.mi, self.model, self.conv = mi, model, conv
        self.age = 0


class History:
    def __init__(self, ctx, cases):
        self.ctx = ctx
        self.models, self.refs, self.codes, self.dig, self.frozen = [], [], [], [], []
        for c in cases:
            m = zoo.Model(c, max_rows=10)
            if m.usable:
                self.models.append(m)
                self.refs.append({})
                self.codes.append({})
                self.dig.append(digest(m.est))
                self.frozen.append(False)
        self.live = []
        self.step = 0
        self.before = world()

    def outside(self, what):
        now = world()
        for k in self.before:
            check(self.before[k] == now[k], '%s changed the %s of the process: %s, was %s', what, k, str(now[k])[:200], str(self.before[k])[:200])
        for mi, m in enumerate(self.models):
            if not self.frozen[mi]:
                check(digest(m.est) == self.dig[mi], '%s changed the original %s estimator', what, type(m.est).__name__)

    def refresh(self):
        self.before = world()

    # ---- operations
    def convert(self, mi):
        import emlearn
        mi %= len(self.models)
        m = self.models[mi]
        if self.frozen[mi]:
            return
        with self.ctx.sut('convert() of %s' % m.zoo):
            c = emlearn.convert(m.est, **m.kwargs())
        self.live.append(Live(mi, m, c))
        self.outside('convert() of %s' % m.zoo)

    def rows(self, m, spec):
        n = len(m.X)
        rng = np.random.RandomState(spec)
        how = spec % 5
        if how == 0:
            return rng.permutation(n)
        if how == 1:
            return rng.randint(0, n, rng.randint(1, 2 * n + 1))
        if how == 2:
            return np.array([rng.randint(n)])
        if how == 3:
            return np.arange(n)[::-1]
        return np.sort(rng.permutation(n)[:rng.randint(1, n + 1)])

    def reference(self, l):
        """First answers of a model, judged against the original."""
        m = l.model
        r = self.refs[l.mi]
        if not r:
            with self.ctx.sut('first predictions of %s' % m.zoo):
                a = m.python(l.conv)
            m.judge(a, 'first answer of ' + m.zoo)
            r.update({k: v.copy() for k, v in a.items()})
        return r

    def ask(self, ci, spec, which, lay, scribble):
        if not self.live:
            return
        l = self.live[ci % len(self.live)]
        m = l.model
        if not self.refs[l.mi]:
            if self.frozen[l.mi]:
                return
            self.reference(l)
        ref = self.refs[l.mi]
        method = sorted(ref)[which % len(ref)]
        idx = self.rows(m, spec)
        X = layout(m.X[idx], LAYOUTS[lay % len(LAYOUTS)], m.ctype)
        keep = X.copy()
        with self.ctx.sut('%s() of %s' % (method, m.zoo)):
            got = np.asarray(getattr(l.conv, method)(X))
        check(same(got, ref[method][idx]), '%s() of %s conversion %d gives %s for rows %s, before it gave %s (%s)', method, m.zoo, ci % len(self.live), got.tolist(), idx.tolist(), ref[method][idx].tolist(), LAYOUTS[lay % len(LAYOUTS)])
        check(np.array_equal(X, keep), '%s() of %s changed the rows it was given', method, m.zoo)
        self.outside('%s() of %s' % (method, m.zoo))
        self.ctx.compared(len(idx))
        if scribble:
            if got.flags.writeable:
                got[...] = -7
            if X.flags.writeable:
                X[...] = 99
            self.ctx.label('overwritten')
        if l.age:
            self.ctx.label('asked after others')
        if l.age and len(self.live) > 1:
            self.ctx.nontriv()

    def save(self, ci, name):
        if not self.live:
            return
        l = self.live[ci % len(self.live)]
        with self.ctx.sut('save() of %s' % l.model.zoo):
            code = l.conv.save(name=name)
        first = self.codes[l.mi].setdefault(name, code)
        check(code == first, 'save() of %s gives other code than before', l.model.zoo)
        self.outside('save() of %s' % l.model.zoo)
        self.ctx.compared()

    def discard(self, ci):
        if self.live:
            self.live.pop(ci % len(self.live))
            gc.collect()
            self.outside('discarding a model')

    def fail(self, ci, how):
        import emlearn
        how = how % 6
        l = self.live[ci % len(self.live)] if self.live else None
        try:
            if how == 0 and l:
                l.conv.predict(np.zeros((2, l.model.X.shape[1] + 1)))
            elif how == 1:
                emlearn.convert(object())
            elif how == 2 and l:
                l.conv.save(name='not a name')
            elif how == 3 and l:
                l.conv.save(name='ok', file='/nonexistent/directory/model.h')
            elif how == 4 and l:
                l.conv.predict(np.full((1, l.model.X.shape[1]), 'x', dtype=object))
            elif how == 5 and self.models and not self.frozen[ci % len(self.models)]:
                emlearn.convert(self.models[ci % len(self.models)].est, method='nosuchmethod')
        except Exception:
            self.ctx.label('failing call %d' % how)
        self.outside('a failing call')

    def chdir(self, k):
        d = os.path.join(self.home, 'd%d' % (k % 3))
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        self.refresh()

    def settings(self, k):
        k %= 3
        if k == 0:
            np.seterr(**{'all': 'ignore' if np.geterr()['over'] == 'warn' else 'warn'})
        elif k == 1:
            np.random.seed(k)
            random.seed(k)
        else:
            np.set_printoptions(precision=2 if np.get_printoptions()['precision'] != 2 else 8, threshold=3, suppress=True)
        self.refresh()

    def copied(self, ci, how):
        if not self.live:
            return
        l = self.live[ci % len(self.live)]
        try:
            c = [copy.copy, copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))][how % 3](l.conv)
        except (TypeError, AttributeError, pickle.PicklingError):
            self.ctx.label('cannot be copied')
            return
        if not self.refs[l.mi] and not self.frozen[l.mi]:
            self.reference(l)
        self.live.append(Live(l.mi, l.model, c))
        if how % 2:
            del self.live[ci % (len(self.live) - 1)]
            l = None
            gc.collect()
        self.ctx.label('copied')

    def fork(self):
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(20)
                self.live = []
                gc.collect()
                import weakref
                for f in list(weakref.finalize._registry):
                    if f.atexit:
                        f()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        self.ctx.label('forked')

    def train(self, mi):
        """The original goes on being trained. Networks and Bayes: the arrays are updated in place, as partial_fit() does."""
        mi %= len(self.models)
        m = self.models[mi]
        if self.frozen[mi]:
            return
        for l in self.live:
            if l.mi == mi:
                self.reference(l)
                self.codes[mi].setdefault('model', l.conv.save(name='model'))
        # not the estimators that share this one
        for j, o in enumerate(self.models):
            if o.est is m.est:
                self.frozen[j] = True
        self.frozen[mi] = True
        if m.zoo in ('nb', 'mlp-clf', 'mlp-reg'):
            for a in arrays_of(m.est):
                a *= 0.5
                a += 0.25
        else:
            rng = np.random.RandomState(mi)
            X = rng.randint(-50, 50, size=(60, m.X.shape[1])).astype(float)
            y = np.resize(m.est.classes_, 60) if hasattr(m.est, 'classes_') else rng.randint(0, 9, 60)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                m.est.fit(X) if m.zoo in ('ee', 'gmm') else m.est.fit(X, y)
            self.refresh()
        self.ctx.label('trained further')
        for i, l in enumerate(list(self.live)):
            if l.mi == mi:
                self.save(i, 'model')
                self.ask(i, 3, i, 0, False)


def run_ops(h, ops):
    for op in ops:
        k, a, b, c, d, e = op
        n = len(h.live)
        if k == 'convert':
            h.convert(a)
        elif k == 'ask':
            h.ask(a, b, c, d, e == 1)
        elif k == 'save':
            h.save(a, ['model', 'other', 'mynet', 'mytree'][b % 4])
        elif k == 'discard':
            h.discard(a)
        elif k == 'fail':
            h.fail(a, b)
        elif k == 'chdir':
            h.chdir(a)
        elif k == 'settings':
            h.settings(a)
        elif k == 'copy':
            h.copied(a, b)
        elif k == 'fork':
            h.fork()
        elif k == 'train':
            h.train(a)
        h.ctx.label('op:' + k)
        if k != 'ask':
            for l in h.live[:n]:
                l.age += 1


def saved_world():
    return np.geterr(), os.getcwd(), np.get_printoptions()


def restore(w):
    np.seterr(**w[0])
    os.chdir(w[1])
    np.set_printoptions(**w[2])


def histories_body(case, ctx):
    w = saved_world()
    home = vh.fresh_dir('h')
    try:
        os.chdir(home)
        h = History(ctx, case['models'])
        h.home = home
        if not h.models:
            return
        if case['twice']:
            # the same estimator converted with other settings
            m = h.models[0]
            c2 = dict(m.case)
            if m.zoo == 'tree-clf' and c2.get('method') != 'loadable':
                c2['leaf_bits'] = 8 if c2.get('leaf_bits') != 8 else 0
                m2 = copy.copy(m)
                m2.case = c2
                h.models.append(m2)
                for l in (h.refs, h.codes):
                    l.append({})
                h.dig.append(h.dig[0])
                h.frozen.append(False)
        h.convert(0)
        h.convert(1)
        run_ops(h, case['ops'])
        for i in range(len(h.live)):
            h.ask(i, 0, i, 0, False)
        # and the conversions made at the end agree with the first ones
        if case['again']:
            for mi in range(len(h.models)):
                h.convert(mi)
                h.ask(len(h.live) - 1, 3, mi, 0, False)
        for m in h.models:
            ctx.label('kind:' + m.zoo)
    finally:
        restore(w)
        vh.rm(home)


def op_st():
    k = st.sampled_from(['ask'] * 8 + ['convert'] * 4 + ['save'] * 2 + ['discard'] * 2 + ['fail', 'chdir', 'settings', 'copy', 'fork', 'train'])
    return st.tuples(k, st.integers(0, 7), st.integers(0, 999), st.integers(0, 5), st.integers(0, 7), st.integers(0, 3)).map(list)


def histories_st():
    return st.fixed_dictionaries({'models': st.lists(zoo.model_st(), min_size=2, max_size=4), 'ops': st.lists(op_st(), min_size=4, max_size=16), 'twice': st.booleans(), 'again': st.sampled_from([False, False, True])})


# ------------------------------------------------------------ batches

def batches_body(case, ctx):
    m = zoo.Model(case['model'], max_rows=case['rows'])
    if not m.usable:
        return
    import emlearn
    with ctx.sut('convert'):
        c = emlearn.convert(m.est, **m.kwargs())
    ref = m.python(c)
    m.judge(ref, m.zoo)
    rng = np.random.RandomState(case['seed'])
    n = len(m.X)
    for t in range(case['times']):
        order = rng.permutation(n)
        cuts = np.sort(rng.randint(0, n + 1, rng.randint(0, 4)))
        parts = [p for p in np.split(order, cuts) if len(p)]
        got = {}
        for k, p in enumerate(parts):
            X = layout(m.X[p], LAYOUTS[rng.randint(len(LAYOUTS))], m.ctype)
            for meth in ref:
                with ctx.sut('%s() of %s' % (meth, m.zoo)):
                    g = np.asarray(getattr(c, meth)(X))
                check(same(g, ref[meth][p]), '%s() of %s for rows %s asked together: %s, in one batch %s', meth, m.zoo, p.tolist(), g.tolist(), ref[meth][p].tolist())
                ctx.compared(len(p))
        # repeated rows
        big = rng.randint(0, n, case['repeat'])
        for meth in ref:
            g = np.asarray(getattr(c, meth)(m.X[big].astype(np.float64)))
            check(same(g, ref[meth][big]), '%s() of %s for %d rows differs from the answers before', meth, m.zoo, len(big))
            ctx.compared(len(big))
    ctx.label('kind:' + m.zoo)
    ctx.nontriv(n > 2)


def batches_st():
    return st.fixed_dictionaries({'model': zoo.model_st(), 'rows': st.integers(2, 40), 'times': st.integers(1, 2), 'repeat': st.sampled_from([3, 50, 400]), 'seed': st.integers(0, 2 ** 20)})


# ------------------------------------------------------------ threads

def threads_body(case, ctx):
    import emlearn, threading
    ms = [m for m in (zoo.Model(c, max_rows=8) for c in case['models']) if m.usable]
    if not ms:
        return
    convs, refs = [], []
    for m in ms:
        with ctx.sut('convert'):
            c = emlearn.convert(m.est, **m.kwargs())
        convs.append(c)
        if case['warm']:
            r = m.python(c)
        else:
            # the compiled program of this one does not exist yet when the threads start
            r = m.python(emlearn.convert(m.est, **m.kwargs()))
        m.judge(r, m.zoo)
        refs.append(r)
    errors, start = [], threading.Barrier(case['n'])

    def work(t):
        try:
            rng = np.random.RandomState(case['seed'] + t)
            start.wait(30)
            for k in range(case['steps']):
                i = int(rng.randint(len(ms)))
                m = ms[i]
                c = convs[i]
                if rng.randint(4) == 0:
                    c = emlearn.convert(m.est, **m.kwargs())
                p = rng.permutation(len(m.X))
                meth = sorted(refs[i])[int(rng.randint(len(refs[i])))]
                g = np.asarray(getattr(c, meth)(m.X[p].astype(np.float64)))
                if not same(g, refs[i][meth][p]):
                    errors.append('%s() of %s asked from a thread gives %s, before %s' % (meth, m.zoo, g.tolist(), refs[i][meth][p].tolist()))
        except Exception as e:
            errors.append('%s in a thread: %s' % (type(e).__name__, str(e)[:300]))

    ts = [threading.Thread(target=work, args=(t,)) for t in range(case['n'])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(200)
    check(not errors, '%s', errors[0] if errors else '')
    ctx.compared(case['n'] * case['steps'])
    ctx.nontriv()


def threads_st():
    return st.fixed_dictionaries({'models': st.lists(zoo.model_st(), min_size=1, max_size=3), 'n': st.integers(2, 4), 'steps': st.integers(1, 4), 'warm': st.booleans(), 'seed': st.integers(0, 2 ** 20)})


SUBTESTS = [
    Sub('histories', histories_st, histories_body, quick=110),
    Sub('batches', batches_st, batches_body, quick=100),
    Sub('threads', threads_st, threads_body, quick=16),
]
