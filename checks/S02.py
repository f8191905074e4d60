"""S02: mel filterbank and spectrogram match their triangular-filter definition (differential against the definition in double precision)."""
import struct
import numpy as np
from hypothesis import strategies as st
import vh, pyext
from vh import Sub, check

PROPERTY = 'S02'
RULE = ('matrix: for a generated configuration (transform length, sample rate, number of filters, frequency range) every unit spectrum is reduced, which gives the whole weight matrix; filter: random spectra for larger configurations; spectrogram: the whole step '
        'for generated signals; sizes: buffer lengths, table lengths and filter counts that do or do not fit, ranges beyond half the sample rate; window; binding: the Python functions. '
        'Non-trivial: at least two filters with a non-zero weight, or a refused size.')
ASSUMPTIONS = ['mel frequencies follow the formula given in the header (HTK); filters are not normalised; weights may differ by what single-precision rounding of the filter frequencies implies',
               'valid configurations have an even transform length of at least 4 and 0 <= fmin < fmax <= samplerate/2; beyond that only memory safety and correctness of an accepted result are checked',
               'the window is the symmetric Hann window']

DRIVER = r'''
#include "drv.h"
#include <eml_audio.h>
int main(void) {
  int k=in_i32();
  for (int c=0;c<k;c++) {
    int op=in_i32();
    EmlAudioMel m; m.n_mels=in_i32(); m.fmin=in_f32(); m.fmax=in_f32(); m.n_fft=in_i32(); m.samplerate=in_i32();
    int a=in_i32(), b=in_i32(), tl=in_i32();
    if (op==0) {            /* a: spectrum length, b: output length */
      int rows=in_i32();
      float *out=(float*)malloc((b?b:1)*4);
      for (int r=0;r<rows;r++) {
        float *s=in_f32s(a);
        for (int i=0;i<b;i++) out[i]=-99.0f;
        EmlVector vs={s,a}, vo={out,b};
        out_i32(eml_audio_melspec(m, vs, vo)); drv_out(s, a*4); drv_out(out, b*4); free(s);
      }
      free(out);
    } else if (op==1) {     /* a: in/out length, b: temp length, tl: table length */
      (void)in_i32();
      float *s=in_f32s(a), *t=(float*)malloc((b?b:1)*4), *si=(float*)malloc((tl?tl:1)*4), *co=(float*)malloc((tl?tl:1)*4);
      for (int i=0;i<b;i++) t[i]=1e9f;
      EmlFFT f={tl,si,co};
      eml_fft_fill(f, tl*2);
      EmlVector vs={s,a}, vt={t,b};
      out_i32(eml_audio_melspectrogram(m, f, vs, vt)); drv_out(s, a*4);
      free(s); free(t); free(si); free(co);
    } else if (op==2) {     /* window of length a */
      (void)in_i32();
      float *s=in_f32s(a);
      out_i32(eml_signal_hann_apply(s, a)); drv_out(s, a*4); free(s);
    } else {                /* power: a: in length, b: out length, tl: n_fft */
      (void)in_i32();
      float *s=in_f32s(a), *t=(float*)malloc((b?b:1)*4);
      for (int i=0;i<b;i++) t[i]=-99.0f;
      EmlVector vs={s,a}, vt={t,b};
      out_i32(eml_audio_power_spectrogram(vs, vt, tl)); drv_out(t, b*4); free(s); free(t);
    }
  }
  drv_flush(); return 0;
}
'''
EPS = 2.0 ** -24


def build():
    d = pyext.build(['eml_audio'])
    d['exe'] = vh.cc(DRIVER, 'mel')
    return d


def exe(ctx, jobs):
    inp = struct.pack('<i', len(jobs)) + b''.join(jobs)
    try:
        return vh.run_exe(ctx.shared['exe'], inp)
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)


def job(op, c, a, b, tl, rows, data):
    return struct.pack('<iiffii', op, c['n_mels'], c['fmin'], c['fmax'], c['n_fft'], c['sr']) + struct.pack('<iiii', a, b, tl, rows) + np.asarray(data, dtype='<f4').tobytes()


def config(c):
    """The frequencies as fractions of what is possible -> a configuration."""
    sr = c['sr']
    ny = sr / 2.0
    lo, hi = sorted([c['lo'], c['hi']])
    if hi - lo < 0.02:
        hi = min(lo + 0.05, 1.0)
        lo = hi - 0.05
    return dict(n_mels=c['n_mels'], n_fft=c['n_fft'], sr=sr, fmin=float(np.float32(lo * ny)), fmax=float(np.float32(hi * ny)) if hi < 1 else float(np.float32(ny)))


def definition(c):
    """Weights and what rounding may change of them."""
    mel = lambda f: 2595 * np.log10(1 + f / 700.0)
    m = np.linspace(mel(c['fmin']), mel(c['fmax']), c['n_mels'] + 2)
    f = 700 * (10 ** (m / 2595) - 1)
    fk = np.arange(c['n_fft'] // 2 + 1) * c['sr'] / float(c['n_fft'])
    lo, ce, hi = f[:-2, None], f[1:-1, None], f[2:, None]
    W = np.maximum(0, np.minimum((fk - lo) / (ce - lo), (hi - fk) / (hi - ce)))
    d = 3e-6 * (hi + 700)
    T = np.minimum(1.0, 2 * d / np.minimum(ce - lo, hi - ce) + 2e-6)
    T = np.where((fk >= lo - d) & (fk <= hi + d), T, 0.0)
    return W, T, fk


def bound(W, T, x):
    return T @ np.abs(x) + (W @ np.abs(x)) * EPS * (8 + W.shape[1] ** 0.5 * 2) + 1e-40


def matrix(case, ctx):
    c = config(case)
    W, T, fk = definition(c)
    L = c['n_fft'] // 2 + 1
    X = np.eye(L, dtype=np.float32)
    out = exe(ctx, [job(0, c, L, c['n_mels'], 0, L, X)])
    pos = 0
    for k in range(L):
        e, = struct.unpack_from('<i', out, pos)
        s = np.frombuffer(out, '<f4', L, pos + 4)
        o = np.frombuffer(out, '<f4', c['n_mels'], pos + 4 + 4 * L)
        pos += 4 + 4 * L + 4 * c['n_mels']
        check(e == 0, 'configuration %s returned %d', c, e)
        check(np.array_equal(s, X[k]), 'the spectrum was changed')
        check((o >= 0).all(), '%s: negative weight %s for bin %d', c, o, k)
        bad = np.abs(o - W[:, k]) > T[:, k] + 1e-6 * W[:, k]
        check(not bad.any(), '%s: bin %d (%.6g Hz) has weight %r in filter %d, the definition gives %r', c, k, fk[k], *(lambda i: (float(o[i]), i, float(W[i, k])))(int(np.argmax(bad))))
        ctx.compared(len(o))
    ctx.label('filters:%d' % min(c['n_mels'], 16), 'empty filters' if (W.sum(1) == 0).any() else 'no empty filters')
    ctx.nontriv((W.max(1) > 0.01).sum() >= 2 and (T.max(1) < 0.1).sum() >= 2)


def spectrum(spec, n):
    kind, seed, scale = spec
    rng = np.random.RandomState(seed)
    if kind == 'power':
        x = rng.uniform(size=n) ** 2
    elif kind == 'signed':
        x = rng.normal(size=n)
    elif kind == 'peaks':
        x = np.where(rng.uniform(size=n) < 0.05, 1.0, 0.0)
    elif kind == 'ones':
        x = np.ones(n)
    else:
        x = 10.0 ** rng.uniform(-8, 0, size=n)
    return (x * scale).astype(np.float32)


def filt(case, ctx):
    c = config(case)
    W, T, fk = definition(c)
    L = c['n_fft'] // 2 + 1
    a = L + case['extra']
    x = spectrum(case['spec'], a)
    out = exe(ctx, [job(0, c, a, c['n_mels'], 0, 1, x)])
    e, = struct.unpack_from('<i', out, 0)
    check(e == 0, 'configuration %s with a spectrum of %d returned %d', c, a, e)
    o = np.frombuffer(out, '<f4', c['n_mels'], 4 + 4 * a).astype(float)
    xd = x[:L].astype(float)
    judge(c, W, T, xd, o, bound(W, T, xd))
    if (x >= 0).all():
        check((o >= 0).all(), '%s: negative output for a non-negative spectrum', c)
    ctx.compared(len(o))
    ctx.nontriv(((W @ np.abs(xd)) > 3 * bound(W, T, xd)).sum() >= 2)


def judge(c, W, T, xd, o, tol):
    ref = W @ xd
    bad = ~(np.abs(o - ref) <= tol)
    check(not bad.any(), '%s: filter %d gives %r, the definition gives %r (tolerance %g)', c, *(lambda i: (i, float(o[i]), float(ref[i]), float(tol[i])))(int(np.argmax(bad))))


def audio(spec, n):
    kind, seed, scale = spec
    rng = np.random.RandomState(seed)
    i = np.arange(n)
    if kind == 'power':
        x = np.sin(2 * np.pi * rng.uniform(0, 0.5) * i + rng.uniform(0, 6.3))
    elif kind == 'signed':
        x = rng.normal(size=n)
    elif kind == 'peaks':
        x = np.where(i == seed % n, 1.0, 0.0)
    elif kind == 'ones':
        x = np.ones(n)
    else:
        x = sum(rng.uniform() * np.cos(2 * np.pi * rng.uniform(0, 0.5) * i + rng.uniform(0, 6.3)) for _ in range(4))
    return (x * scale).astype(np.float32)


def spectro_ref(c, x):
    n = c['n_fft']
    W, T, fk = definition(c)
    w = 0.5 * (1 - np.cos(2 * np.pi * np.arange(n) / (n - 1)))
    X = np.fft.fft(x.astype(float) * w)
    lv = np.log2(n)
    rms = np.sqrt(np.mean(np.abs(X) ** 2))
    X = np.abs(X[:n // 2 + 1])
    P = X ** 2 / n
    dX = 4 * EPS * (2 * lv + 4) * rms + 2 * EPS * (lv + 4) * X
    dP = (2 * X * dX + dX ** 2) / n + 1e-42
    return W, T, P, bound(W, T, P) + (W + T) @ dP


def spectrogram(case, ctx):
    c = config(case)
    n = c['n_fft']
    if c['n_mels'] > n:
        c['n_mels'] = n
    x = audio(case['spec'], n)
    out = exe(ctx, [job(1, c, n, n + case['extra'], n // 2, 0, x)])
    e, = struct.unpack_from('<i', out, 0)
    check(e == 0, 'configuration %s returned %d', c, e)
    o = np.frombuffer(out, '<f4', c['n_mels'], 4).astype(float)
    W, T, P, tol = spectro_ref(c, x)
    judge(c, W, T, P, o, tol)
    ctx.compared(len(o))
    ctx.nontriv(((W @ P) > 3 * tol).sum() >= 2)


def sizes(case, ctx):
    c = config(case)
    c['fmax'] = c['fmax'] * case['beyond'] if case['beyond'] else c['fmax']
    n = c['n_fft']
    L = n // 2 + 1
    valid = c['fmax'] <= c['sr'] / 2
    if case['op'] == 0:
        a, b = max(L + case['da'], 0), max(c['n_mels'] + case['db'], 0)
        x = spectrum(case['spec'], a)
        out = exe(ctx, [job(0, c, a, b, 0, 1, x)])
        e, = struct.unpack_from('<i', out, 0)
        o = np.frombuffer(out, '<f4', b, 4 + 4 * a).astype(float)
        fits = a >= L and b == c['n_mels']
        if not fits:
            check(e != 0, '%s: spectrum of %d and output of %d were accepted', c, a, b)
            check((o == -99).all(), '%s: refused, but the output was changed', c)
        elif valid:
            check(e == 0, '%s: returned %d', c, e)
        if e == 0:
            W, T, fk = definition(c)
            xd = x[:L].astype(float)
            judge(c, W, T, xd, o, bound(W, T, xd))
    elif case['op'] == 1:
        a, b, tl = max(n + case['da'], 0), max(n + case['db'], 0), max(n // 2 + case['dt'], 0)
        if case['half']:
            a = b = n // 2 if case['half'] == 1 else n * 2
            tl = a // 2
        x = audio(case['spec'], a) if a else np.zeros(0, dtype=np.float32)
        out = exe(ctx, [job(1, c, a, b, tl, 0, x)])
        e, = struct.unpack_from('<i', out, 0)
        fits = a == n and b >= n and tl == n // 2 and c['n_mels'] <= n
        if not fits:
            check(e != 0, '%s: buffers of %d and %d with a table of %d were accepted', c, a, b, tl)
        elif valid:
            check(e == 0, '%s: returned %d', c, e)
    else:
        fits = valid = True
        a, b = max(n + case['da'], 0), max(L + case['db'], 0)
        x = spectrum(case['spec'], a)
        out = exe(ctx, [job(3, c, a, b, n, 0, x)])
        e, = struct.unpack_from('<i', out, 0)
        o = np.frombuffer(out, '<f4', b, 4).astype(float)
        if a < L or b != L:
            fits = False
            check(e != 0, 'power of %d values into %d for length %d was accepted', a, b, n)
            check((o == -99).all(), 'refused, but the output was changed')
        else:
            check(e == 0, 'power of %d values into %d for length %d returned %d', a, b, n, e)
            ref = x[:L].astype(float) ** 2 / n
            check((np.abs(o - ref) <= 1e-6 * ref + 1e-44).all(), 'power differs from the square over the length')
    ctx.compared()
    ctx.label('op%d %s' % (case['op'], 'fits' if fits else 'does not fit'), 'in range' if valid else 'beyond range')
    ctx.nontriv(not fits or not valid)


def window(case, ctx):
    n = case['n']
    x = audio(case['spec'], n)
    c = dict(n_mels=1, n_fft=4, sr=8, fmin=0, fmax=4)
    out = exe(ctx, [job(2, c, n, 0, 0, 0, x)])
    e, = struct.unpack_from('<i', out, 0)
    o = np.frombuffer(out, '<f4', n, 4).astype(float)
    w = 0.5 * (1 - np.cos(2 * np.pi * np.arange(n) / (n - 1))) if n > 1 else np.ones(n)
    ref = w * x.astype(float)
    check(e == 0, 'window returned %d', e)
    check((np.abs(o - ref) <= 4 * EPS * (np.abs(ref) + 1e-7 * np.abs(x))+1e-44).all(), 'window of length %d differs from the Hann window', n)
    ctx.compared(n)
    ctx.nontriv(n >= 3)


def binding(case, ctx):
    m = pyext.load('eml_audio', ctx.shared['eml_audio'])
    c = config(case)
    n = c['n_fft']
    L = n // 2 + 1
    args = (c['sr'], n, c['n_mels'], c['fmin'], c['fmax'])
    if case['op'] == 0:
        x = spectrum(case['spec'], L + case['da'])
        keep = x.copy()
        try:
            o = np.asarray(m.melfilter(x, *args)).astype(float)
        except Exception as e:
            check(case['da'] != 0, 'melfilter%s raised %s', args, e)
            return ctx.nontriv()
        check(case['da'] == 0, 'melfilter%s accepted %d values', args, len(x))
        W, T, fk = definition(c)
        judge(c, W, T, x.astype(float), o, bound(W, T, x.astype(float)))
    else:
        x = audio(case['spec'], n + case['da'])
        keep = x.copy()
        power2 = n & (n - 1) == 0
        try:
            o = np.asarray(m.melspectrogram(x, *args)).astype(float)
        except Exception as e:
            check(case['da'] != 0 or not power2 or c['n_mels'] > n, 'melspectrogram%s raised %s', args, e)
            return ctx.nontriv()
        check(case['da'] == 0 and power2, 'melspectrogram%s accepted %d values', args, len(x))
        W, T, P, tol = spectro_ref(c, x)
        judge(c, W, T, P, o, tol)
    check(o.shape == (c['n_mels'],), 'shape %s', o.shape)
    check(np.array_equal(x, keep), 'the input was modified')
    ctx.compared(len(o))
    ctx.nontriv(c['n_mels'] >= 2)


SR = st.one_of(st.sampled_from([8000, 16000, 22050, 44100, 48000]), st.integers(100, 192000))
FR = st.one_of(st.sampled_from([0.0, 1.0, 0.0, 1.0]), st.integers(0, 1000).map(lambda v: v / 1000.0))
SPEC = st.tuples(st.sampled_from(['power', 'signed', 'peaks', 'ones', 'wide']), st.integers(0, 10 ** 6), st.sampled_from([1.0, 1.0, 1000.0, 1e-6, 32768.0])).map(list)


def cfg(nfft, nm=40, **kw):
    return st.fixed_dictionaries(dict(n_fft=nfft, sr=SR, n_mels=st.one_of(st.integers(1, 8), st.integers(1, nm)), lo=FR, hi=FR, **kw))


EVEN = st.one_of(st.sampled_from([4, 8, 16, 32, 64, 128]), st.integers(2, 64).map(lambda v: 2 * v))
POW = st.sampled_from([4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048])
BIG = st.one_of(POW, st.integers(2, 1200).map(lambda v: 2 * v))
D = st.sampled_from([0, 0, 0, 1, -1, -2, 5])
SUBTESTS = [
    Sub('matrix', lambda: cfg(EVEN), matrix, quick=400),
    Sub('filter', lambda: cfg(BIG, 128, spec=SPEC, extra=st.sampled_from([0, 0, 1, 7])), filt, quick=600),
    Sub('spectrogram', lambda: cfg(POW, 64, spec=SPEC, extra=st.sampled_from([0, 0, 3])), spectrogram, quick=700),
    Sub('sizes', lambda: cfg(POW.filter(lambda v: v <= 256), 40, spec=SPEC, op=st.integers(0, 2), da=D, db=D, dt=st.sampled_from([0, 0, 0, 1, -1]), half=st.sampled_from([0, 0, 0, 0, 1, 2]),
                             beyond=st.sampled_from([0, 0, 0, 1.01, 1.05, 1.2, 2.0])), sizes, quick=800),
    Sub('window', lambda: st.fixed_dictionaries({'n': st.one_of(st.integers(0, 20), st.integers(1, 1025)), 'spec': SPEC}).filter(lambda c: c['n'] > 0), window, quick=150),
    Sub('binding', lambda: cfg(BIG, 40, spec=SPEC, op=st.integers(0, 1), da=st.sampled_from([0, 0, 0, 1, -1])), binding, quick=200),
]
