"""S04: the IIR filter equals cascaded second-order sections, sample by sample (differential against double precision, metamorphic)."""
import struct
import numpy as np
from hypothesis import strategies as st
import vh, pyext
from vh import Sub, check

PROPERTY = 'S04'
RULE = ('stream: one to three filters, designed (Butterworth, Chebyshev, elliptic) or made of random stable poles and zeros with one to six sections, process generated signals interleaved in a generated schedule in one program; each output is compared with a '
        'double-precision cascade, bit for bit with the same filter run alone, and, with another future, for the samples before it; malformed: coefficient and state lengths and missing buffers; binding: eml_signal.iirfilter. '
        'Non-trivial: at least 8 samples through a filter whose response is not a plain gain, or a refused call.')
ASSUMPTIONS = ['the first denominator coefficient of each section is 1 (scipy convention)',
               'allowed error: rounding of each operation carried through the absolute impulse responses of the rest of the filter (twice that)']

DRIVER = r'''
#include "drv.h"
#include <eml_iir.h>
#define G 8
int main(void) {
  int mode=in_i32();
  if (mode==1) {
    int stages=in_i32(), sl=in_i32(), cl=in_i32(), ns=in_i32(), nc=in_i32(); float s[64]={0}, c[96]={0};
    EmlIIR f={stages, ns?NULL:s, sl, nc?NULL:c, cl};
    out_i32(eml_iir_check(f)); drv_flush(); return 0;
  }
  int k=in_i32(); EmlIIR f[4]; float *raw[4]; float *in[4]; int pos[4]={0}, len[4];
  for (int i=0;i<k;i++) {
    int st=in_i32(); float *c=in_f32s(st*6);
    raw[i]=(float*)malloc((st*4+2*G)*4); for (int j=0;j<st*4+2*G;j++) raw[i][j] = (j<G || j>=st*4+G) ? -3.5f : 0.0f;
    f[i].n_stages=st; f[i].states=raw[i]+G; f[i].states_length=st*4; f[i].coefficients=c; f[i].coefficients_length=st*6;
    out_i32(eml_iir_check(f[i]));
    len[i]=in_i32(); in[i]=in_f32s(len[i]);
  }
  int steps=in_i32();
  for (int t=0;t<steps;t++) { int i=in_i32(); out_f32(eml_iir_filter(f[i], in[i][pos[i]++])); }
  for (int i=0;i<k;i++) { int ok=1; for (int j=0;j<G;j++) if (raw[i][j]!=-3.5f || raw[i][f[i].n_stages*4+G+j]!=-3.5f) ok=0; out_i32(ok); }
  drv_flush(); return 0;
}
'''
EPS = 2.0 ** -24


def build():
    d = pyext.build(['eml_signal'])
    d['exe'] = vh.cc(DRIVER, 'iir')
    return d


def design(f):
    """Section coefficients, single precision."""
    from scipy import signal
    if f['kind'] == 'many':
        r = np.random.RandomState(f['seed'])
        n = f['sections']
        q, th = r.uniform(0, 0.3, n), r.uniform(0, 3.1, n)
        z, zt = r.uniform(0, 0.3, n), r.uniform(0, 3.1, n)
        sos = np.c_[np.ones(n), -2 * z * np.cos(zt), z * z, np.ones(n), -2 * q * np.cos(th), q * q]
    elif f['kind'] == 'random':
        sos = []
        for p in f['sections'] or [[0.5, 0.3, 1.0, 0.5, 1.0, 1]]:
            r, th, zr, zt, g, real = p
            if real:
                p1, p2 = r * np.cos(th), -r * zt / 4
                a = [1.0, -(p1 + p2), p1 * p2]
            else:
                a = [1.0, -2 * r * np.cos(th), r * r]
            b = [g, -2 * g * zr * np.cos(zt), g * zr * zr]
            if real == 2:
                b, a = [g, g * zr, 0.0], [1.0, -p1, 0.0]
            sos.append(b + a)
        sos = np.array(sos)
    else:
        lo, hi = sorted([f['lo'], f['hi']])
        hi = max(hi, lo + 0.05)
        wn = lo if f['btype'] in ('low', 'high') else [lo, hi]
        N = f['order']
        if f['kind'] == 'butter':
            sos = signal.butter(N, wn, f['btype'], output='sos')
        elif f['kind'] == 'cheby1':
            sos = signal.cheby1(N, 1.5, wn, f['btype'], output='sos')
        elif f['kind'] == 'cheby2':
            sos = signal.cheby2(N, 40, wn, f['btype'], output='sos')
        else:
            sos = signal.ellip(N, 1, 40, wn, f['btype'], output='sos')
    return sos.astype(np.float32)


def stable(sos):
    for s in sos.astype(float):
        if np.abs(np.roots(s[3:])).max(initial=0) > 0.9985:
            return False
    return True


def sig(spec):
    kind, seed, n, scale = spec
    rng = np.random.RandomState(seed)
    i = np.arange(n)
    x = {'noise': lambda: rng.normal(size=n), 'impulse': lambda: (i == 0) * 1.0, 'late': lambda: (i == n // 2) * 1.0, 'step': lambda: (i >= n // 4) * 1.0,
         'tone': lambda: np.sin(rng.uniform(0, 3.1) * i), 'alternate': lambda: (-1.0) ** i, 'ints': lambda: rng.randint(-32768, 32768, size=n) * 1.0}[kind]()
    return (x * scale).astype(np.float32)


def section(s, x):
    b, a = s[:3], s[3:]
    y = np.zeros(len(x))
    s1 = s2 = 0.0
    e = np.zeros(len(x))
    for t, v in enumerate(x):
        o = s1 + b[0] * v
        n1 = s2 + b[1] * v - a[1] * o
        n2 = b[2] * v - a[2] * o
        e[t] = 2 * (abs(s1) + abs(b[0] * v)) + 3 * (abs(s2) + abs(b[1] * v) + abs(a[1] * o)) + 3 * (abs(b[2] * v) + abs(a[2] * o))
        s1, s2 = n1, n2
        y[t] = o
    return y, e * EPS + 1e-44


def reference(sos, x):
    from scipy import signal
    sos = sos.astype(float)
    n = len(x)
    if n == 0:
        return np.zeros(0), np.zeros(0)
    imp = np.zeros(n)
    imp[:1] = 1
    v = x.astype(float)
    bound = np.zeros(n)
    for s in sos:
        y, e = section(s, v)
        h = np.abs(signal.lfilter(s[:3], s[3:], imp))
        g = np.abs(signal.lfilter([1.0], s[3:], imp))
        # error so far passes the section, its own errors pass its recursive part
        g3 = g + np.r_[0, g][:n] + np.r_[0, 0, g][:n]
        bound = np.convolve(bound, h)[:n] + np.convolve(e, g3)[:n]
        v = y
    return v, 2 * bound


def payload(filters):
    p = struct.pack('<ii', 0, len(filters))
    for sos, x in filters:
        p += struct.pack('<i', len(sos)) + sos.astype('<f4').tobytes() + struct.pack('<i', len(x)) + x.astype('<f4').tobytes()
    return p


def run(ctx, filters, order):
    try:
        out = vh.run_exe(ctx.shared['exe'], payload(filters) + struct.pack('<i', len(order)) + np.array(order, dtype='<i4').tobytes())
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    k = len(filters)
    v = struct.unpack_from('<%di' % k, out, 0)
    check(all(e == 0 for e in v), 'eml_iir_check of proper filters returned %s', v)
    y = np.frombuffer(out, '<f4', len(order), 4 * k)
    ok = struct.unpack_from('<%di' % k, out, 4 * k + 4 * len(order))
    check(all(ok), 'values next to the filter states were changed')
    order = np.array(order)
    return [y[order == i] for i in range(k)]


def stream(case, ctx):
    filters = []
    for f in case['filters']:
        sos = design(f)
        if not stable(sos):
            ctx.label('unstable in single precision')
            sos = np.array([[0.5, 0.25, 0.125, 1, -0.5, 0.25]], dtype=np.float32)
        filters.append((sos, sig(f['sig'])))
    left = [len(x) for _, x in filters]
    rng = np.random.RandomState(case['seed'])
    order = []
    while sum(left):
        i = int(rng.choice([j for j, v in enumerate(left) if v]))
        n = min(left[i], int(rng.randint(1, case['burst'] + 1)))
        order += [i] * n
        left[i] -= n
    ys = run(ctx, filters, order)
    for (sos, x), y in zip(filters, ys):
        ref, bound = reference(sos, x)
        d = np.abs(y.astype(float) - ref)
        bad = ~(d <= bound)
        if bad.any():
            t = int(np.argmax(bad))
            raise vh.Violation('%d sections, sample %d of %d: output %r, reference %r (allowed difference %g)' % (len(sos), t, len(x), float(y[t]), float(ref[t]), bound[t]))
        alone, = run(ctx, [(sos, x)], [0] * len(x))
        check(np.array_equal(alone, y), 'the output of a filter depends on other filters running')
        if len(x) > 1:
            cut = case['seed'] % (len(x) - 1) + 1
            x2 = x.copy()
            x2[cut:] = -2 * x2[cut:] + 1
            other, = run(ctx, [(sos, x2)], [0] * len(x))
            check(np.array_equal(other[:cut], y[:cut]), 'output %s depends on later input', cut)
        ctx.compared(len(x))
        ctx.label('sections:%d' % len(sos))
        ctx.nontriv(len(x) >= 8 and np.abs(ref[np.isfinite(ref)]).max(initial=0) > 0 and np.abs(sos[:, [1, 2, 4, 5]]).sum() > 0.1)
    ctx.label('filters:%d' % len(filters))


def malformed(case, ctx):
    st_, sl, cl, ns, nc = case['stages'], case['sl'], case['cl'], case['ns'], case['nc']
    out = vh.run_exe(ctx.shared['exe'], struct.pack('<iiiiii', 1, st_, sl, cl, ns, nc))
    e, = struct.unpack('<i', out)
    good = st_ >= 1 and sl == 4 * st_ and cl == 6 * st_ and not ns and not nc
    check((e == 0) == good, '%d sections with %d states and %d coefficients (states %s, coefficients %s): check returned %d', st_, sl, cl, 'missing' if ns else 'given', 'missing' if nc else 'given', e)
    ctx.compared()
    ctx.nontriv(not good)


def binding(case, ctx):
    m = pyext.load('eml_signal', ctx.shared['eml_signal'])
    f = case['filter']
    sos = design(f)
    x = sig(f['sig'])
    if case['columns'] != 6 or case['ndim'] != 2:
        bad = np.zeros((len(sos), case['columns'])) if case['ndim'] == 2 else (np.zeros(6) if case['ndim'] == 1 else np.zeros((0, 6)))
        try:
            m.iirfilter(bad, x)
        except Exception:
            ctx.nontriv()
            return ctx.compared()
        raise vh.Violation('iirfilter accepted coefficients of shape %s' % (bad.shape,))
    if not stable(sos):
        return
    keep = x.copy()
    with ctx.sut('iirfilter'):
        y = np.asarray(m.iirfilter(sos, x))
        again = np.asarray(m.iirfilter(sos, x))
    check(y.shape == x.shape and np.array_equal(x, keep), 'shape %s, or input changed', y.shape)
    check(np.array_equal(y, again), 'a second call gives another output')
    ref, bound = reference(sos, x)
    check((np.abs(y - ref) <= bound).all(), 'iirfilter differs from the reference')
    ctx.compared(len(x))
    ctx.nontriv(len(x) >= 8)


FLT = lambda a, b: st.integers(0, 1000).map(lambda v: a + (b - a) * v / 1000.0)
SIG = st.tuples(st.sampled_from(['noise', 'noise', 'impulse', 'late', 'step', 'tone', 'alternate', 'ints']), st.integers(0, 10 ** 6), st.integers(0, 200), st.sampled_from([1.0, 1.0, 1e-6, 1000.0, 1e6])).map(list)
RND = st.fixed_dictionaries({'kind': st.just('random'), 'sections': st.lists(st.tuples(FLT(0, 0.99), FLT(0, 3.14), FLT(0, 1.5), FLT(0, 3.14), FLT(-2, 2), st.sampled_from([0, 0, 1, 2])).map(list), min_size=1, max_size=6), 'sig': SIG})
DES = st.fixed_dictionaries({'kind': st.sampled_from(['butter', 'cheby1', 'cheby2', 'ellip']), 'order': st.integers(1, 6), 'lo': FLT(0.05, 0.9), 'hi': FLT(0.1, 0.95), 'btype': st.sampled_from(['low', 'high', 'band', 'bandstop']), 'sig': SIG})
FILT = st.one_of(RND, DES)
MANY = st.fixed_dictionaries({'kind': st.just('many'), 'sections': st.one_of(st.integers(7, 80), st.sampled_from([31, 32, 63, 64, 65, 130, 260])), 'seed': st.integers(0, 10 ** 6), 'sig': SIG})
SUBTESTS = [
    Sub('stream', lambda: st.fixed_dictionaries({'filters': st.lists(FILT, min_size=1, max_size=3), 'seed': st.integers(0, 10 ** 6), 'burst': st.sampled_from([1, 3, 20, 500])}), stream, quick=700),
    Sub('many-sections', lambda: st.fixed_dictionaries({'filters': st.lists(MANY, min_size=1, max_size=2), 'seed': st.integers(0, 10 ** 6), 'burst': st.sampled_from([3, 20, 500])}), stream, quick=80),
    Sub('malformed', lambda: st.integers(-1, 8).flatmap(lambda s: st.fixed_dictionaries({'stages': st.just(s), 'sl': st.one_of(st.just(4 * s), st.just(4 * s), st.integers(-1, 40)), 'cl': st.one_of(st.just(6 * s), st.just(6 * s), st.integers(-1, 50)),
                                                                                          'ns': st.sampled_from([0, 0, 0, 1]), 'nc': st.sampled_from([0, 0, 0, 1])})), malformed, quick=300),
    Sub('binding', lambda: st.fixed_dictionaries({'filter': FILT, 'columns': st.sampled_from([6, 6, 6, 5, 3, 7, 12]), 'ndim': st.sampled_from([2, 2, 2, 2, 1, 0])}), binding, quick=200),
]
