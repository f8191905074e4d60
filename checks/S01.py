"""S01: the FFT equals the discrete Fourier transform for every supported length (differential against double precision)."""
import struct
import numpy as np
from hypothesis import strategies as st
import vh, pyext
from vh import Sub, check

PROPERTY = 'S01'
RULE = ('transform: power-of-two lengths 1 to 16384 with real and complex inputs of several kinds (noise, tones, impulses, steps, few large values among small ones, all scales from 1e-30 to 1e30) compared with numpy in double precision, '
        'with guard values around the buffers; linear: sums, scalings, circular shifts and the inverse by conjugation; refused: lengths that are not powers of two and tables of the wrong size; binding: eml_audio.rfft built from /repo. '
        'Non-trivial: length at least 4 with at least 2 different non-zero inputs, or a refused length.')
ASSUMPTIONS = ['the root-mean-square error allowed is 2*log2(n)+2 single-precision units of the root-mean-square of the result, and the largest error 4 times that times sqrt(n) for single values',
               'inputs whose transform overflows single precision are left out']

DRIVER = r'''
#include "drv.h"
#include <eml_fft.h>
#define G 8
static float *guarded(int n, float *v) { float *p=(float*)malloc((n+2*G)*4); for (int i=0;i<n+2*G;i++) p[i]=-7.25f-i%3; if (v) memcpy(p+G,v,n*4); return p; }
int main(void) {
  int k=in_i32();
  for (int c=0;c<k;c++) {
    int n=in_i32(), tl=in_i32(), fn=in_i32(), ft=in_i32();
    float *re=in_f32s(n), *im=in_f32s(n);
    float *s=guarded(tl,0), *co=guarded(tl,0);
    EmlFFT t={ft, s+G, co+G};
    out_i32(eml_fft_fill(t, fn));
    drv_out(s,(tl+2*G)*4); drv_out(co,(tl+2*G)*4);
    t.length=tl;
    float *r=guarded(n,re), *i=guarded(n,im);
    out_i32(eml_fft_forward(t, r+G, i+G, n));
    drv_out(r,(n+2*G)*4); drv_out(i,(n+2*G)*4);
    free(re); free(im); free(s); free(co); free(r); free(i);
  }
  drv_flush(); return 0;
}
'''
G = 8
EPS = 2.0 ** -24


def build():
    d = pyext.build(['eml_audio'])
    d['exe'] = vh.cc(DRIVER, 'fft')
    return d


def guard(n):
    return np.array([-7.25 - i % 3 for i in range(n + 2 * G)], dtype='<f4')


def run(ctx, jobs):
    """jobs: (n, table length, n given to fill, length claimed to fill, re, im)"""
    inp = [struct.pack('<i', len(jobs))]
    for n, tl, fn, ft, re, im in jobs:
        inp.append(struct.pack('<iiii', n, tl, fn, ft) + re.astype('<f4').tobytes() + im.astype('<f4').tobytes())
    try:
        out = vh.run_exe(ctx.shared['exe'], b''.join(inp))
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    pos = 0
    res = []
    for n, tl, fn, ft, re, im in jobs:
        fe, = struct.unpack_from('<i', out, pos)
        pos += 4
        bufs = []
        for m in (tl, tl):
            bufs.append(np.frombuffer(out, '<f4', m + 2 * G, pos))
            pos += 4 * (m + 2 * G)
        e, = struct.unpack_from('<i', out, pos)
        pos += 4
        for m in (n, n):
            bufs.append(np.frombuffer(out, '<f4', m + 2 * G, pos))
            pos += 4 * (m + 2 * G)
        for b, name in zip(bufs, ('sin table', 'cos table', 'real', 'imag')):
            g = guard(len(b) - 2 * G)
            check(np.array_equal(b[:G], g[:G]) and np.array_equal(b[len(b) - G:], g[len(b) - G:]), 'n=%d: values outside of the %s buffer were changed', n, name)
        res.append((fe, e, [b[G:len(b) - G] for b in bufs]))
    return res


def signal(spec, n):
    kind, seed, scale, cplx = spec
    rng = np.random.RandomState(seed % 2 ** 31)
    i = np.arange(n)
    def one(off):
        if kind == 'noise':
            return rng.normal(size=n)
        if kind == 'tone':
            f = (seed // 7 + off) % max(n, 1)
            return np.cos(2 * np.pi * f * i / n + seed % 10)
        if kind == 'impulse':
            v = np.zeros(n)
            v[(seed + off) % n] = 1
            return v
        if kind == 'step':
            return np.where(i < (seed + off) % (n + 1), 1.0, -0.5)
        if kind == 'dc':
            return np.ones(n)
        if kind == 'ramp':
            return i * 1.0 - seed % n
        if kind == 'wide':
            return rng.normal(size=n) * 10.0 ** rng.uniform(-6, 0, size=n)
        return rng.randint(-3, 4, size=n).astype(float)
    re = one(0)
    im = one(3) if cplx else np.zeros(n)
    if cplx == 2:
        re = np.zeros(n)
    return (re * scale).astype(np.float32), (im * scale).astype(np.float32)


def compare(n, re, im, gr, gi, what, k=1.0):
    x = re.astype(np.float64) + 1j * im.astype(np.float64)
    ref = np.fft.fft(x)
    check(np.isfinite(gr).all() and np.isfinite(gi).all(), '%s n=%d: result is not finite', what, n)
    got = gr.astype(np.float64) + 1j * gi.astype(np.float64)
    d = np.abs(got - ref)
    rms = np.sqrt(np.mean(np.abs(ref) ** 2))
    lv = np.log2(n) if n > 1 else 0
    tol = k * EPS * (2 * lv + 2) * rms + n * 1e-44
    e = np.sqrt(np.mean(d ** 2))
    check(e <= tol, '%s n=%d: root-mean-square error %g of %g (%.1f times what is allowed)', what, n, e, rms, e / tol)
    worst = int(np.argmax(d))
    check(d[worst] <= 4 * np.sqrt(n) * tol, '%s n=%d: bin %d is %s, expected %s', what, n, worst, got[worst], ref[worst])
    return got


def transform(case, ctx):
    n = 1 << case['p']
    re, im = signal(case['sig'], n)
    (fe, e, (s, c, r, i)), = run(ctx, [(n, n // 2, n, n // 2, re, im)])
    check(fe == 0 and e == 0, 'n=%d: fill returned %d, forward returned %d', n, fe, e)
    a = 2 * np.pi * np.arange(n // 2) / n
    if n > 1:
        check(np.abs(s - np.sin(a)).max() <= 6e-7 and np.abs(c - np.cos(a)).max() <= 6e-7, 'n=%d: tables differ from sine and cosine', n)
    compare(n, re, im, r, i, case['sig'][0])
    ctx.compared(2 * n)
    ctx.label('n=%d' % n, case['sig'][0])
    ctx.nontriv(n >= 4 and len(set(re.tolist()) | set(im.tolist())) > 2)


def linear(case, ctx):
    n = 1 << case['p']
    a, b = signal(case['a'], n), signal(case['b'], n)
    sh = case['shift'] % n
    x = [v.astype(np.float64) for v in a]
    jobs = [a, b, (a[0] + b[0], a[1] + b[1]), (np.roll(a[0], sh), np.roll(a[1], sh))]
    res = run(ctx, [(n, n // 2, n, n // 2, u, v) for u, v in jobs])
    z = []
    for (fe, e, (s, c, r, i)) in res:
        check(e == 0, 'forward returned %d', e)
        z.append(r.astype(np.float64) + 1j * i.astype(np.float64))
    lv = 2 * np.log2(n) + 2
    scale = np.sqrt(np.mean(np.abs(z[0]) ** 2)) + np.sqrt(np.mean(np.abs(z[1]) ** 2))
    tol = EPS * (lv + 2) * scale * 2 + n * 1e-44
    rms = lambda v: np.sqrt(np.mean(np.abs(v) ** 2))
    check(rms(z[2] - z[0] - z[1]) <= tol, 'n=%d: transform of the sum differs from the sum of transforms', n)
    check(rms(z[3] - z[0] * np.exp(-2j * np.pi * sh * np.arange(n) / n)) <= tol, 'n=%d: transform of the signal shifted by %d differs', n, sh)
    # inverse through conjugation gives the input back
    (fe, e, (s, c, r, i)), = run(ctx, [(n, n // 2, n, n // 2, z[0].real.astype(np.float32), -z[0].imag.astype(np.float32))])
    back = (r.astype(np.float64) - 1j * i.astype(np.float64)) / n
    check(rms(back - (x[0] + 1j * x[1])) <= EPS * 2 * (lv + 2) * (rms(x[0] + 1j * x[1])) + 1e-44 * n, 'n=%d: forward and inverse do not give the input back', n)
    ctx.compared(4 * n)
    ctx.nontriv(n >= 4)


def refused(case, ctx):
    n, tl, fn, ft = case['n'], case['tl'], case['fn'], case['ft']
    re = np.arange(n, dtype=np.float32) + 1
    im = -re
    # the table buffer is never smaller than what the caller claims
    alloc = max(tl, ft, 0)
    (fe, e, (s, c, r, i)), = run(ctx, [(n, alloc, fn, ft, re, im)])
    g = guard(alloc)[G:len(guard(alloc)) - G]
    if ft != fn // 2:
        check(fe != 0, 'fill of a table of %d for length %d returned success', ft, fn)
        check(np.array_equal(s, g) and np.array_equal(c, g), 'fill was refused, but changed the table')
    else:
        check(fe == 0, 'fill of a table of %d for length %d returned %d', ft, fn, fe)
    good = n >= 1 and n & (n - 1) == 0 and alloc == n // 2
    check((e == 0) == good, 'transform of length %d with a table of %d returned %d', n, alloc, e)
    if not good:
        check(np.array_equal(r, re) and np.array_equal(i, im), 'transform of length %d was refused, but changed its buffers', n)
        ctx.nontriv()
    ctx.compared()


def binding(case, ctx):
    m = pyext.load('eml_audio', ctx.shared['eml_audio'])
    n = case['n'] if case['n'] else 1 << case['p']
    re, _ = signal(case['sig'], n)
    try:
        out = np.asarray(m.rfft(re))
    except Exception as e:
        check(n & (n - 1) != 0 or n == 0, 'rfft of length %d raised %s', n, e)
        ctx.nontriv()
        return
    check(n & (n - 1) == 0, 'rfft of length %d did not raise', n)
    check(out.shape == (n,), 'rfft gave shape %s', out.shape)
    ref = np.fft.fft(re.astype(np.float64))
    rms = np.sqrt(np.mean(np.abs(ref) ** 2))
    lv = np.log2(n) if n > 1 else 0
    check(np.abs(out - ref.real).max() <= 4 * np.sqrt(n) * EPS * (2 * lv + 2) * rms + n * 1e-44, 'rfft of length %d differs from the real part of the transform', n)
    ctx.compared(n)
    ctx.nontriv(n >= 4)


@st.composite
def sig(draw):
    return [draw(st.sampled_from(['noise', 'noise', 'tone', 'impulse', 'step', 'dc', 'ramp', 'wide', 'small'])), draw(st.integers(0, 10 ** 6)),
            draw(st.one_of(st.just(1.0), st.sampled_from([1e-30, 1e-10, 1000.0, 1e10, 1e28, 32767.0]))), draw(st.sampled_from([0, 0, 1, 1, 2]))]


P = st.one_of(st.integers(0, 10), st.integers(1, 8), st.integers(0, 14))
SUBTESTS = [
    Sub('transform', lambda: st.fixed_dictionaries({'p': P, 'sig': sig()}), transform, quick=1200),
    Sub('linear', lambda: st.fixed_dictionaries({'p': st.integers(1, 11), 'a': sig().map(lambda s: s[:2] + [1.0, s[3]]), 'b': sig().map(lambda s: s[:2] + [2.0, s[3]]), 'shift': st.integers(0, 4000)}), linear, quick=300),
    Sub('refused', lambda: st.fixed_dictionaries({'n': st.one_of(st.integers(0, 70), st.sampled_from([128, 255, 256, 1000, 1023, 1025])), 'tl': st.one_of(st.integers(0, 40), st.sampled_from([64, 128, 512])),
                                                  'fn': st.integers(0, 70), 'ft': st.integers(0, 40)}).flatmap(lambda d: st.sampled_from([d, dict(d, tl=d['n'] // 2, ft=d['fn'] // 2), dict(d, tl=d['n'] // 2, ft=min(d['ft'], d['n'] // 2)), dict(d, fn=d['n'], ft=d['n'] // 2, tl=d['n'] // 2)])), refused, quick=600),
    Sub('binding', lambda: st.fixed_dictionaries({'p': st.integers(0, 12), 'n': st.one_of(st.just(0), st.integers(0, 100)), 'sig': sig()}), binding, quick=200),
]
