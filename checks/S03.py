"""S03: the sparse filterbank form equals the dense filterbank it was made from (differential, in Python, through C and through the serialized tables)."""
import struct, copy
import numpy as np
from hypothesis import strategies as st
import vh, pyext
from vh import Sub, check

PROPERTY = 'S03'
RULE = ('a case is a filterbank matrix (triangular, random positions, zeros inside of a filter, all-zero filters, single values, negative values, mel filters) of a generated shape and type, and input vectors. The reduction with the sparse form is compared with the '
        'dense matrix-vector product: in Python and the binding (direct), through the C function in a sanitized driver (direct), and through the serialized tables in a compiled program (tables), which also checks the other serialized values. '
        'Non-trivial: at least two filters with at least two non-zero values, or a filter with zeros inside, or an all-zero filter.')
ASSUMPTIONS = ['the allowed rounding is that of as many single-precision operations as there are values between the first and last of a filter']

DRIVER = r'''
#include "drv.h"
#include <eml_audio.h>
int main(void) {
  int n=in_i32(), cols=in_i32(), len=in_i32(), k=in_i32();
  int *st=(int*)in_block(n*4), *en=(int*)in_block(n*4); float *lut=in_f32s(len);
  for (int c=0;c<k;c++) { float *x=in_f32s(cols), *o=(float*)malloc((n?n:1)*4); for (int i=0;i<n;i++) o[i]=-99.0f;
    out_i32(eml_sparse_filterbank(x, o, n, st, en, lut)); drv_out(o, n*4); drv_out(x, cols*4); free(x); free(o); }
  drv_flush(); return 0;
}
'''
EPS = 2.0 ** -24


def build():
    d = pyext.build(['eml_audio'])
    d['exe'] = vh.cc(DRIVER, 'sparse')
    return d


def matrix(case):
    rows, cols = case['rows'], case['cols']
    rng = np.random.RandomState(case['seed'])
    M = np.zeros((rows, cols))
    for r in range(rows):
        kind = case['kinds'][r % len(case['kinds'])]
        a, b = sorted(rng.randint(0, cols, size=2))
        if kind == 'triangle':
            c = rng.randint(a, b + 1)
            j = np.arange(cols)
            up = (j - a + 1) / (c - a + 1)
            down = (b - j + 1) / (b - c + 1)
            M[r] = np.maximum(0, np.minimum(up, down)) * (j >= a) * (j <= b)
        elif kind == 'holes':
            M[r] = np.where(rng.uniform(size=cols) < 0.5, rng.normal(size=cols), 0)
        elif kind == 'single':
            M[r, a] = rng.normal() or 1.0
        elif kind == 'last':
            M[r, cols - 1] = 0.5
            M[r, 0] = -0.25
        elif kind == 'full':
            M[r] = rng.normal(size=cols)
        elif kind == 'wide':
            M[r, a:b + 1] = 10.0 ** rng.uniform(-30, 10, size=b + 1 - a)
    if case['dtype'] == 'int':
        return (M * 10).round().astype(int)
    M = M.astype(case['dtype'])
    return np.asfortranarray(M) if case['fortran'] else M


def inputs(case):
    rng = np.random.RandomState(case['seed'] + 1)
    cols = case['cols']
    X = [rng.normal(size=cols), np.ones(cols), np.arange(cols) + 1.0, rng.uniform(size=cols) * 1e6]
    X += [np.eye(cols)[rng.randint(cols)] for _ in range(2)]
    return [x.astype(np.float32) for x in X]


def reference(M, x):
    M = np.asarray(M, dtype=float)
    ref = M @ x.astype(float)
    tol = (np.abs(M) @ np.abs(x.astype(float))) * EPS * (M.shape[1] + 4) + 1e-42 * (1 + np.abs(x).sum())
    return ref, tol


def judge(M, x, got, how):
    ref, tol = reference(M, x)
    got = np.asarray(got, dtype=float)
    check(got.shape == ref.shape, '%s: result has shape %s', how, got.shape)
    bad = ~(np.abs(got - ref) <= tol)
    check(not bad.any(), '%s: filter %d gives %r, the dense product is %r', how, *(lambda i: (i, float(got[i]), float(ref[i])))(int(np.argmax(bad))))


def sparse_of(ctx, case):
    import emlearn
    M = matrix(case)
    keep = M.copy()
    with ctx.sut('sparse_filterbank'):
        sp = emlearn.signal.sparse_filterbank(M)
    check(np.array_equal(M, keep), 'the filterbank was modified')
    starts, ends, coeffs = sp
    check(len(starts) == len(ends) == M.shape[0], '%d starts and %d ends for %d filters', len(starts), len(ends), M.shape[0])
    n = 0
    for r, (s, e) in enumerate(zip(starts, ends)):
        check(0 <= s < M.shape[1] and 0 <= e < M.shape[1] and s <= e + 1, 'filter %d goes from %s to %s of %d', r, s, e, M.shape[1])
        n += e - s + 1
    check(n == len(coeffs), '%d coefficients for filters that use %d', len(coeffs), n)
    return M, sp


def interesting(case, M):
    nz = [np.nonzero(r)[0] for r in M]
    holes = any(len(z) and len(z) != z[-1] - z[0] + 1 for z in nz)
    empty = any(len(z) == 0 for z in nz)
    return sum(len(z) >= 2 for z in nz) >= 2 or holes or empty, holes, empty


def direct(case, ctx):
    import emlearn
    M, sp = sparse_of(ctx, case)
    starts, ends, coeffs = sp
    X = inputs(case)
    m = pyext.load('eml_audio', ctx.shared['eml_audio'])
    for x in X:
        keep = x.copy()
        with ctx.sut('sparse_filterbank_reduce'):
            judge(M, x, emlearn.signal.sparse_filterbank_reduce(sp, x), 'sparse_filterbank_reduce')
        with ctx.sut('eml_audio.sparse_filterbank'):
            judge(M, x, m.sparse_filterbank(x, starts, ends, coeffs), 'eml_audio.sparse_filterbank')
        check(np.array_equal(x, keep), 'the input was modified')
        ctx.compared(2 * M.shape[0])
    inp = struct.pack('<iiii', M.shape[0], M.shape[1], len(coeffs), len(X)) + np.array(starts, dtype='<i4').tobytes() + np.array(ends, dtype='<i4').tobytes() + np.array(coeffs, dtype='<f4').tobytes() + b''.join(x.tobytes() for x in X)
    try:
        out = vh.run_exe(ctx.shared['exe'], inp)
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    pos = 0
    for x in X:
        e, = struct.unpack_from('<i', out, pos)
        o = np.frombuffer(out, '<f4', M.shape[0], pos + 4)
        xi = np.frombuffer(out, '<f4', M.shape[1], pos + 4 + 4 * M.shape[0])
        pos += 4 + 4 * M.shape[0] + 4 * M.shape[1]
        check(e == 0, 'eml_sparse_filterbank returned %d', e)
        check(np.array_equal(x, xi), 'eml_sparse_filterbank changed its input')
        judge(M, x, o, 'eml_sparse_filterbank')
        ctx.compared(M.shape[0])
    nt, holes, empty = interesting(case, M)
    ctx.label('holes' if holes else 'no holes', 'zero filter' if empty else 'no zero filter')
    ctx.nontriv(nt)


TABLE_PROG = r'''
#include "drv.h"
#include <eml_audio.h>
%s
int main(void) {
  int k=in_i32(), cols=in_i32();
  out_i32(N_bands); out_i32(N_length); out_i32((int)(sizeof(N_starts)/sizeof(N_starts[0]))); out_i32((int)(sizeof(N_ends)/sizeof(N_ends[0]))); out_i32((int)(sizeof(N_lut)/sizeof(N_lut[0])));
  %s
  for (int c=0;c<k;c++) { float *x=in_f32s(cols), *o=(float*)malloc(N_bands*4); out_i32(eml_sparse_filterbank(x, o, N_bands, N_starts, N_ends, N_lut)); drv_out(o, N_bands*4); free(x); free(o); }
  drv_flush(); return 0;
}
'''


def tables(case, ctx):
    import emlearn
    M, sp = sparse_of(ctx, case)
    X = inputs(case)
    name = case['name']
    opt = {k: v for k, v in case['opt'].items() if v is not None}
    freqs = np.linspace(1, 1000, M.shape[0]) if case['freqs'] else None
    with ctx.sut('sparse_filterbank_serialize'):
        code = emlearn.signal.sparse_filterbank_serialize(sp, name=name, frequencies=freqs, **opt)
    cname = {'n_fft': 'nfft', 'sr': 'samplerate', 'fmin': 'fmin', 'fmax': 'fmax'}
    extra = ''
    if freqs is not None:
        extra += 'out_i32((int)(sizeof(N_frequencies)/sizeof(N_frequencies[0]))); for (int i=0;i<N_bands;i++) out_f32(N_frequencies[i]);'
    for k in opt:
        extra += 'out_f32((float)N_%s);' % cname[k]
    prog = (TABLE_PROG % (code, extra)).replace('N_', name + '_')
    if name != 'N':
        prog = (TABLE_PROG.replace('N_', name + '_') % (code, extra.replace('N_', name + '_')))
    try:
        exe = vh.cc(prog, 'tab')
    except vh.CompileError as e:
        raise vh.Violation('serialized tables do not compile: %s' % str(e)[:400])
    try:
        out = vh.run_exe(exe, struct.pack('<ii', len(X), M.shape[1]) + b''.join(x.tobytes() for x in X))
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    finally:
        import os
        vh.rm(os.path.dirname(exe))
    v = struct.unpack_from('<iiiii', out, 0)
    L = len(sp[2])
    check(v == (M.shape[0], L, M.shape[0], M.shape[0], L), 'sizes in the tables are %s for %d filters and %d coefficients', v, M.shape[0], L)
    pos = 20
    if freqs is not None:
        n, = struct.unpack_from('<i', out, pos)
        check(n == len(freqs), '%d frequencies', n)
        f = np.frombuffer(out, '<f4', n, pos + 4)
        pos += 4 + 4 * n
        check(np.array_equal(f, freqs.astype(np.float32)), 'frequencies in the tables differ')
    for k in opt:
        g, = struct.unpack_from('<f', out, pos)
        pos += 4
        check(g == np.float32(opt[k]), '%s is %r in the tables, given %r', k, g, opt[k])
    for x in X:
        e, = struct.unpack_from('<i', out, pos)
        o = np.frombuffer(out, '<f4', M.shape[0], pos + 4)
        pos += 4 + 4 * M.shape[0]
        check(e == 0, 'eml_sparse_filterbank returned %d', e)
        judge(M, x, o, 'serialized tables')
        ctx.compared(M.shape[0])
    ctx.nontriv(interesting(case, M)[0])


def outside(case, ctx):
    """Tables that do not fit the input are refused by the binding."""
    M, (starts, ends, coeffs) = sparse_of(ctx, case)
    m = pyext.load('eml_audio', ctx.shared['eml_audio'])
    x = inputs(case)[0]
    starts, ends, coeffs = list(starts), list(ends), list(coeffs)
    what, i = case['what'], case['seed'] % len(starts)
    if what == 'short input':
        x = x[:max(ends)]
    elif what == 'negative start':
        starts[i] = -1 - case['seed'] % 3
    elif what == 'few coefficients':
        coeffs = coeffs[:-1]
    elif what == 'fewer ends':
        ends = ends[:-1]
    else:
        ends[i] = len(x) + case['seed'] % 3
    try:
        m.sparse_filterbank(x, starts, ends, coeffs)
    except Exception:
        ctx.label('refused: ' + what)
        ctx.nontriv()
        return ctx.compared()
    raise vh.Violation('%s: accepted starts %s ends %s with %d coefficients for an input of %d' % (what, starts, ends, len(coeffs), len(x)))


KIND = st.sampled_from(['triangle', 'triangle', 'holes', 'single', 'zero', 'last', 'full', 'wide'])


def mats(rows=st.integers(1, 12), cols=st.one_of(st.integers(1, 6), st.integers(2, 60)), **kw):
    return st.fixed_dictionaries(dict(rows=rows, cols=cols, seed=st.integers(0, 10 ** 6), kinds=st.lists(KIND, min_size=1, max_size=5),
                                      dtype=st.sampled_from(['float32', 'float64', 'float64', 'int']), fortran=st.booleans(), **kw))


OPTV = st.one_of(st.none(), st.integers(0, 50000))
OPTF = st.one_of(st.none(), st.integers(0, 50000), st.integers(0, 50000).map(lambda v: v + 0.5), st.integers(0, 5000).map(lambda v: float(v)))
SUBTESTS = [
    Sub('direct', lambda: mats(), direct, quick=1500),
    Sub('tables', lambda: mats(name=st.sampled_from(['mel', 'N', 'a_b', '_x9']), freqs=st.booleans(), opt=st.fixed_dictionaries({'n_fft': OPTV, 'sr': OPTV, 'fmin': OPTF, 'fmax': OPTF})), tables, quick=150),
    Sub('long', lambda: mats(rows=st.sampled_from([1, 2, 3, 20, 130, 300]), cols=st.sampled_from([127, 128, 129, 257, 513, 1025, 4097])), direct, quick=60),
    Sub('long-tables', lambda: mats(rows=st.sampled_from([1, 3, 20, 130, 300]), cols=st.sampled_from([129, 257, 513]), name=st.just('mel'), freqs=st.booleans(), opt=st.just({})), tables, quick=12),
    Sub('outside', lambda: mats(what=st.sampled_from(['short input', 'negative start', 'few coefficients', 'large end', 'fewer ends'])), outside, quick=200),
]
