"""P03: quantisation is bounded, monotone and invertible to one step, in Python and C."""
import struct
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'P03'
RULE = ('python: a case is a data set (values, scale, dtype, shape), quantiser settings (dtype, quantile, maximum, out_max) and probe values at, below and beyond the fitted range. '
        'c: a case is a scale and values (also lengths that do not match). Non-trivial: values inside the range that are no exact multiples of the step, and values beyond it.')
ASSUMPTIONS = ['oracle: exact scaling in float64; the fitted range is out_max/scale_', 'negative values given to an unsigned type are beyond the range and saturate at 0']

DRIVER = r'''
#include "drv.h"
#include <eml_common.h>
#include <eml_quantizer.h>
int main(void) {
  EmlQuantizer q; q.scale = in_f32();
  int n=in_i32(), m=in_i32();
  float *v=in_f32s(n);
  int16_t *o=(int16_t*)malloc(m*2+2), *p=(int16_t*)malloc(m*2+2);
  for (int i=0;i<m;i++) o[i]=p[i]=0x55aa;
  int u=-9, w=-9;
  out_i32(eml_quantizer_check_forward_int16(&q, v, n, o, m, &u, &w)); out_i32(u); out_i32(w); drv_out(o, m*2);
  out_i32(eml_quantizer_forward_int16(&q, v, n, p, m)); drv_out(p, m*2);
  float *b=(float*)malloc(n*4+4); for (int i=0;i<n;i++) b[i]=1234.5f;
  out_i32(eml_quantizer_inverse_int16(&q, o, m, b, n)); drv_out(b, n*4);
  drv_flush(); return 0;
}
'''


def build():
    return {'exe': vh.cc(DRIVER, 'quant')}


def py_body(case, ctx):
    from emlearn.preprocessing import Quantizer
    rng = np.random.RandomState(case['seed'])
    X = rng.normal(size=tuple(case['shape']))
    if case['style'] == 'positive':
        X = np.abs(X)
    elif case['style'] == 'negative':
        X = -np.abs(X)
    elif case['style'] == 'zero':
        X = X * 0
    elif case['style'] == 'heavy':
        X = X ** 5
    X = X * case['scale']
    idt = case['in']
    if idt.startswith('int') or idt.startswith('uint'):
        ii = np.iinfo(idt)
        m = np.abs(X).max() or 1.0
        X = np.clip(np.round(X / m * (ii.max + 1)), ii.min, ii.max).astype(idt)
        if case['style'] == 'negative' and ii.min < 0:
            X.flat[0] = ii.min
    elif idt == 'float16':
        X = np.clip(X, -60000, 60000).astype(idt)
    else:
        X = X.astype(idt)
    kw = dict(dtype=case['dtype'], max_quantile=case['quantile'])
    if case['max_value'] is not None:
        kw['max_value'] = case['max_value']
    isint = np.issubdtype(np.dtype(case['dtype']), np.integer)
    lim = np.iinfo(case['dtype']).max if isint else None
    if case['out_max'] is not None:
        kw['out_max'] = lim if isint and case['out_max'] > lim else case['out_max']
    elif not isint:
        kw['out_max'] = 1.0
    om = float(kw.get('out_max', lim if isint else 1.0))
    if case['max_value'] is None:
        q = case['quantile'] or 0.0
        Xf = X.astype(float)
        largest = max(np.quantile(Xf, 1 - q), -np.quantile(Xf, q))
        if largest <= 0 and case['style'] != 'zero' or (largest < 1e-30 and case['style'] != 'zero') or largest > 1e30:
            ctx.label('degenerate range')
            return
    with ctx.sut('Quantizer'):
        z = Quantizer(**kw)
        z.fit(X)
        Y = z.transform(X)
        B = z.inverse_transform(Y)
    check(Y.dtype == np.dtype(case['dtype']) and Y.shape == X.shape and B.shape == X.shape, 'shape or type %s %s', Y.shape, Y.dtype)
    s = float(z.scale_)
    check(np.isfinite(s) and s > 0, 'scale %s', s)
    edge = om / s
    if case['max_value'] is not None:
        check(abs(edge - case['max_value']) <= 1e-6 * abs(case['max_value']), 'range is %s, set to %s', edge, case['max_value'])
    elif case['style'] != 'zero':
        check(abs(edge - largest) <= 1e-3 * largest, 'range is %s, the data has %s', edge, largest)
    P = np.concatenate([X.astype(float).ravel(), np.array([f * edge for f in (-1e6, -3, -1.001, -1, -.999, -.5, -1e-3, 0, 1e-4, .3, .5, .75, .999, 1, 1.001, 2, 1e6)]), np.array([v * edge for v in case['probe']])])
    src = P.astype(case['pdt'])
    P = src.astype(float)
    ok = np.isfinite(P)
    P, src = P[ok], src[ok]
    with ctx.sut('transform'):
        Q = z.transform(src)
        R = z.inverse_transform(Q)
    lo = 0.0 if np.dtype(case['dtype']).kind == 'u' else -om
    exact = np.clip(P * s, lo, om)
    qf = Q.astype(float)
    tiny = np.finfo(case['dtype']).eps * om if not isint else 0
    step = 1.0 if isint else max(np.finfo(case['dtype']).eps * om, 1e-7 * om)
    if isint:
        check((qf <= om).all() and (qf >= lo).all(), 'values %s outside the limits of the output [%s, %s]', Q[(qf > om) | (qf < lo)][:3], lo, om)
    check((qf <= om * (1 + 1e-6) + tiny).all() and (qf >= lo * (1 + 1e-6) - tiny).all(), 'values %s outside the limits of the output', Q[(qf > om * (1 + 1e-6) + tiny) | (qf < lo * (1 + 1e-6) - tiny)][:3])
    rel = 4e-15 * np.abs(exact) + 1e-9
    bad = np.nonzero(~(np.abs(qf - exact) <= step + rel))[0]
    check(len(bad) == 0, '%s becomes %s, expected about %s', P[bad[:3]], Q[bad[:3]], exact[bad[:3]])
    o = np.argsort(P, kind='stable')
    check((np.diff(qf[o]) >= 0).all(), 'order of values changed')
    inside = (np.abs(P) <= edge) & ((P >= 0) | (lo < 0))
    bad = np.nonzero(~(np.abs(R - P)[inside] <= (step + rel[inside]) / s * 1.000001 + 1e-12 * edge))[0]
    check(len(bad) == 0, 'round trip of %s gives %s (step %s)', P[inside][bad[:3]], R[inside][bad[:3]], step / s)
    ctx.compared(len(P))
    ctx.label('dtype:' + case['dtype'], 'data:' + case['in'], 'style:' + case['style'])
    ctx.nontriv(((np.abs(P * s) % 1 > 0) & inside).any() and (np.abs(P) > edge).any())


def c_body(case, ctx):
    v = np.array(case['v'], dtype='<f4')
    s = np.float32(case['scale'])
    n, m = len(v), max(len(v) + case['extra'], 0)
    try:
        out = vh.run_exe(ctx.shared['exe'], struct.pack('<fii', s, n, m) + v.tobytes())
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    r = np.frombuffer(out, dtype=[('e', '<i4'), ('u', '<i4'), ('w', '<i4'), ('o', '<i2', (m,)), ('e2', '<i4'), ('p', '<i2', (m,)), ('e3', '<i4'), ('b', '<f4', (n,))])[0]
    if m != n:
        for k in ('e', 'e2', 'e3'):
            check(r[k] != 0, 'wrong size %d for %d accepted', m, n)
        check((r['o'] == 0x55aa).all() and (r['p'] == 0x55aa).all() and (r['b'] == 1234.5).all(), 'wrong size: output written')
        ctx.label('size mismatch')
        return
    check(r['e'] == 0 and r['e2'] == 0 and r['e3'] == 0, 'error %s %s %s', r['e'], r['e2'], r['e3'])
    x = v.astype(float) * float(s)
    want = np.clip(x, -32767, 32767)
    o = r['o'].astype(float)
    tol = 1 + np.abs(want) * 2e-7
    bad = np.nonzero(~(np.abs(o - want) <= tol))[0]
    check(len(bad) == 0, '%s * %s becomes %s', v[bad[:3]], s, o[bad[:3]])
    check((np.abs(o) <= 32767).all(), 'outside limits')
    check(np.array_equal(r['o'], r['p']), 'the two functions differ')
    k = np.argsort(v, kind='stable')
    check((np.diff(o[k]) >= 0).all(), 'order changed')
    sure_u, sure_o = (x < -32767 * (1 + 1e-6)).sum(), (x > 32767 * (1 + 1e-6)).sum()
    may_u, may_o = (x < -32767 * (1 - 1e-6)).sum(), (x > 32767 * (1 - 1e-6)).sum()
    check(sure_u <= r['u'] <= may_u and sure_o <= r['w'] <= may_o, 'underflows %d overflows %d, expected %d and %d', r['u'], r['w'], sure_u, sure_o)
    back = r['b'].astype(float)
    check((np.abs(back - o / float(s)) <= np.abs(o / float(s)) * 3e-7 + 1e-44).all(), 'inverse of %s gives %s', o[:3], back[:3])
    ins = np.abs(x) <= 32767
    check((np.abs(back - v)[ins] <= (1 + np.abs(x[ins]) * 4e-7) / float(s) * 1.00001 + 1e-44).all(), 'round trip of %s gives %s', v[ins][:3], back[ins][:3])
    # the Python quantiser with the same scale
    from emlearn.preprocessing import Quantizer
    q = Quantizer(dtype='int16', max_value=32767.0 / float(s))
    with ctx.sut('Quantizer'):
        q.fit(np.zeros((1, 1)))
        y = q.transform(v.astype(float)).astype(float)
    bad = np.nonzero(np.abs(y - o) > 1 + np.abs(want) * 2e-7)[0]
    check(len(bad) == 0, 'Python gives %s, C %s for %s', y[bad[:3]], o[bad[:3]], v[bad[:3]])
    ctx.compared(n)
    ctx.label('c')
    ctx.nontriv(ins.any() and (~ins).any())


@st.composite
def py_cases(draw):
    return {'shape': draw(st.sampled_from([[20, 3], [50], [4, 5, 6], [1, 1], [200, 2]])), 'style': draw(st.sampled_from(['normal', 'normal', 'positive', 'negative', 'zero', 'heavy'])),
            'scale': draw(st.sampled_from([1.0, 1e-6, 100.0, 1e9])), 'in': draw(st.sampled_from(['float64', 'float64', 'float32', 'float16', 'int16', 'int8', 'uint8', 'int32'])),
            'pdt': draw(st.sampled_from(['float64', 'float32', 'float32'])),
            'dtype': draw(st.sampled_from(['int16', 'int16', 'int8', 'int32', 'uint8', 'uint16', 'int64', 'float32', 'float16'])), 'quantile': draw(st.sampled_from([0.0001, None, 0.1, 0.0])),
            'max_value': draw(st.sampled_from([None, None, 1.0, 9.0, 3, 0.001, 1e5])), 'out_max': draw(st.sampled_from([None, None, 100, 127, 1000])), 'probe': draw(st.lists(st.floats(-2, 2), max_size=10)),
            'seed': draw(st.integers(0, 2 ** 20))}


@st.composite
def c_cases(draw):
    scale = draw(st.sampled_from([1.0, 3640.8, 32767.0, 0.01, 1e-4, 1e6]))
    val = st.one_of(st.floats(-1.3, 1.3).map(lambda f: f * 32767 / scale), st.floats(-1e-2, 1e-2).map(lambda f: f * 32767 / scale), st.integers(-4, 4).map(lambda i: (i + (32767 if i % 2 else -32767)) / scale),
                    st.sampled_from([1e30, -1e30, 0.0]), st.integers(-40, 40).map(lambda i: i / 2 / scale))
    return {'scale': scale, 'v': draw(st.lists(val, min_size=0, max_size=40)), 'extra': draw(st.sampled_from([0] * 6 + [1, -1, 5]))}


SUBTESTS = [
    Sub('python', py_cases, py_body, quick=2500),
    Sub('c', c_cases, c_body, quick=2500),
]
