"""L01: the code-generating command line tools emit exactly the requested tables (differential against scipy/librosa through a compiled program)."""
import os, sys, io, struct, contextlib
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'L01'
RULE = ('a case is a set of options, some left out, for eml-window-function or eml-mel-filterbank, run through the tool\'s main() in an empty directory (some through "python -m"); the file it wrote is compiled into a program that prints all its values, which are compared with '
        'scipy.signal.get_window or librosa.filters.mel for those options. refused: unknown windows and names that are not identifiers. Non-trivial: at least two options differ from the default and the table has at least 4 values, or a refusal.')
ASSUMPTIONS = ['0 <= fmin < fmax <= samplerate/2', 'a line may be longer than --linewrap only where it holds no space']


def run_tool(mod, args, how, cwd, main=None):
    """Returns (error or None)."""
    old, oldcwd = sys.argv, os.getcwd()
    if how == 'module':
        import subprocess
        r = subprocess.run([sys.executable, '-m', 'emlearn.tools.' + mod] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return None if r.returncode == 0 else r.stdout.decode('utf8', 'replace')[-300:]
    import importlib
    m = importlib.import_module('emlearn.tools.' + mod)
    buf = io.StringIO()
    try:
        os.chdir(cwd)
        sys.argv = [mod] + args
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            m.main()
    except (Exception, SystemExit) as e:
        if isinstance(e, SystemExit) and not e.code:
            return None
        return '%s: %s %s' % (type(e).__name__, e, buf.getvalue()[-200:])
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return None


def arguments(case):
    out = []
    for i, (k, v) in enumerate(case['opts'].items()):
        if v is None:
            continue
        if v is True and k == 'symmetric':
            out.append('--symmetric')
        elif v is False and k == 'symmetric':
            continue
        elif (case['style'] >> (i % 8)) & 1 or str(v).startswith('-'):
            out.append('--%s=%s' % (k, v))
        else:
            out += ['--' + k, str(v)]
    if case['style'] & 256:
        # order does not matter
        pairs, i = [], 0
        while i < len(out):
            n = 2 if '=' not in out[i] and out[i] != '--symmetric' else 1
            pairs.append(out[i:i + n])
            i += n
        out = [a for p in reversed(pairs) for a in p]
    return out


def generate(mod, case, ctx, name, out):
    d = vh.fresh_dir('tool')
    os.makedirs(os.path.join(d, 'sub'))
    target = out or name + '.h'
    if case.get('exists'):
        with open(os.path.join(d, target), 'w') as f:
            f.write('old content ' * 5000)
    err = run_tool(mod, arguments(case), case['how'], d)
    check(err is None, '%s %s: failed with %s', mod, arguments(case), err)
    files = sorted(os.path.join(p[len(d) + 1:], f) for p, _, fs in os.walk(d) for f in fs)
    check(files == [target], '%s %s: wrote %s, expected %s', mod, arguments(case), files, target)
    text = open(os.path.join(d, target)).read()
    width = case['opts'].get('linewrap') or 70
    for l in text.splitlines():
        check(len(l) <= width or ' ' not in l.strip() or l.startswith('//'), '%s: a line of %d characters with --linewrap %d: %r', mod, len(l), width, l[:120])
    return d, os.path.join(d, target)


def program(header, d, body):
    prog = '#include "drv.h"\n#include "%s"\n#include "%s_other.h"\nint main(void) { %s drv_flush(); return 0; }\n' % (header, 'x', body)
    try:
        exe = vh.cc(prog.replace('#include "x_other.h"\n', ''), 'tab', san=False, opt='-O0', out_dir=vh.fresh_dir('cc'))
    except vh.CompileError as e:
        raise vh.Violation('the generated file does not compile: %s\n%s' % (str(e)[:300], open(header).read()[:300]))
    try:
        return vh.run_exe(exe)
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    finally:
        vh.rm(os.path.dirname(exe))


def window(case, ctx):
    import scipy.signal
    o = case['opts']
    kind, n = o['window'] or 'hann', o['length'] or 1024
    name = o['name'] or '%s_%d_lut' % (kind, n)
    d, path = generate('window_function', case, ctx, name, o['out'])
    try:
        out = program(path, d, 'out_i32({0}_length); out_i32((int)(sizeof({0})/sizeof({0}[0]))); const float *p = {0}; drv_out(p, sizeof({0}));'.format(name))
    finally:
        vh.rm(d)
    a, b = struct.unpack_from('<ii', out, 0)
    check(a == n and b == n, '%s: length constant %d and array of %d for length %d', o, a, b, n)
    got = np.frombuffer(out, '<f4', n, 8)
    ref = scipy.signal.get_window(kind, n, fftbins=not o['symmetric']).astype(np.float32)
    bad = got != ref
    check(not bad.any(), '%s: value %d is %r, scipy gives %r', o, *(lambda i: (i, float(got[i]), float(ref[i])))(int(np.argmax(bad))))
    ctx.compared(n)
    ctx.label(kind, 'symmetric' if o['symmetric'] else 'periodic', case['how'])
    ctx.nontriv(n >= 4 and sum(v is not None for v in o.values()) >= 2)


def mel(case, ctx):
    import librosa
    o = dict(case['opts'])
    bands, fft, sr = o['bands'] or 32, o['fft'] or 1024, o['samplerate'] or 16000
    fmin = o['fmin'] or 0
    if o['fmax'] is not None and not fmin < o['fmax'] <= sr // 2:
        o['fmax'] = None
    if fmin >= sr // 2 - 1:
        o['fmin'] = None
        fmin = 0
    case = dict(case, opts=o)
    fmax = o['fmax'] if o['fmax'] is not None else sr / 2
    name = o['name'] or 'mel_%d_%d' % (fft, bands)
    htk = o['htk'] == 'True'
    norm = None if o['normalize'] == 'False' else 'slaney'
    d, path = generate('mel_filterbank', case, ctx, name, o['out'])
    N = name
    body = ''.join('out_i32(%s_%s);' % (N, k) for k in ('bands', 'length', 'nfft'))
    body += ''.join('out_f32((float)%s_%s);' % (N, k) for k in ('samplerate', 'fmin', 'fmax'))
    body += ''.join('out_i32((int)(sizeof(%s_%s)/4)); drv_out(%s_%s, sizeof(%s_%s));' % ((N, k) * 3) for k in ('starts', 'ends', 'lut', 'frequencies'))
    try:
        out = program(path, d, body)
    finally:
        vh.rm(d)
    v = struct.unpack_from('<iiifff', out, 0)
    pos = 24
    arr = []
    for t in ('<i4', '<i4', '<f4', '<f4'):
        n, = struct.unpack_from('<i', out, pos)
        arr.append(np.frombuffer(out, t, n, pos + 4))
        pos += 4 + 4 * n
    starts, ends, lut, freqs = arr
    check(v[0] == bands and len(starts) == bands and len(ends) == bands and v[1] == len(lut), '%s: sizes %s %s', o, v, [len(a) for a in arr])
    check(v[2] == fft and v[3] == np.float32(sr) and v[4] == np.float32(fmin) and v[5] == np.float32(fmax), '%s: parameters in the file are %s', o, v[2:])
    ref = librosa.filters.mel(sr=sr, n_fft=fft, n_mels=bands, fmin=fmin, fmax=fmax, htk=htk, norm=norm).astype(np.float32)
    got = np.zeros_like(ref)
    k = 0
    for b in range(bands):
        check(0 <= starts[b] and ends[b] < ref.shape[1], '%s: band %d goes from %d to %d', o, b, starts[b], ends[b])
        n = ends[b] - starts[b] + 1
        got[b, starts[b]:ends[b] + 1] = lut[k:k + n]
        k += max(n, 0)
    check(k == len(lut), '%s: %d coefficients used of %d', o, k, len(lut))
    bad = got != ref
    if bad.any():
        b, i = np.argwhere(bad)[0]
        raise vh.Violation('%s: band %d has %r for bin %d, librosa gives %r' % (o, b, float(got[b, i]), i, float(ref[b, i])))
    check(len(freqs) == bands, '%d frequencies for %d bands', len(freqs), bands)
    rf = librosa.filters.mel_frequencies(n_mels=bands, fmin=fmin, fmax=fmax, htk=htk).astype(np.float32)
    check(np.allclose(freqs, rf, rtol=1e-6, atol=1e-6), '%s: frequencies are %s, librosa gives %s', o, freqs[:4], rf[:4])
    ctx.compared(ref.size)
    ctx.label('htk' if htk else 'slaney', 'normalized' if norm else 'not normalized', case['how'], 'empty bands' if (ref.max(1) == 0).any() else 'no empty bands')
    ctx.nontriv(bands >= 2 and sum(x is not None for x in o.values()) >= 2)


def refused(case, ctx):
    d = vh.fresh_dir('tool')
    try:
        err = run_tool(case['tool'], case['args'], 'main', d)
        files = os.listdir(d)
    finally:
        vh.rm(d)
    check(err is not None, '%s %s: succeeded', case['tool'], case['args'])
    check(not files, '%s %s: failed (%s), but wrote %s', case['tool'], case['args'], err, files)
    ctx.compared()
    ctx.nontriv()


WINDOWS = 'boxcar triang blackman hamming hann bartlett flattop parzen bohman blackmanharris nuttall barthann'.split()
opt = lambda s: st.one_of(st.none(), s, s)
IDENT = st.from_regex(r'[a-z_][A-Za-z0-9_]{2,12}x', fullmatch=True)
OUT = st.sampled_from([None, None, 'out.h', 'sub/table.h', 'table.inc'])
WRAP = st.one_of(st.integers(1, 30), st.integers(20, 200))
HOW = st.sampled_from(['main'] * 30 + ['module'])
W = st.fixed_dictionaries({'window': opt(st.sampled_from(WINDOWS)), 'length': opt(st.one_of(st.integers(1, 12), st.integers(1, 300), st.sampled_from([512, 1000]))), 'symmetric': st.booleans(), 'name': opt(IDENT), 'out': OUT, 'linewrap': opt(WRAP)})
BOOL = st.sampled_from([None, 'True', 'False'])
M = st.fixed_dictionaries({'bands': opt(st.one_of(st.integers(1, 8), st.integers(1, 60))), 'fft': opt(st.one_of(st.sampled_from([64, 128, 256, 512]), st.integers(4, 300))), 'samplerate': opt(st.one_of(st.sampled_from([8000, 11025, 22050, 44100]), st.integers(100, 48000))),
                           'fmin': opt(st.integers(0, 2000)), 'fmax': opt(st.integers(100, 20000)), 'htk': BOOL, 'normalize': BOOL, 'name': opt(IDENT), 'out': OUT, 'linewrap': opt(WRAP)})
wrap = lambda o: st.fixed_dictionaries({'opts': o, 'style': st.integers(0, 511), 'how': HOW, 'exists': st.booleans()})
BADNAME = st.sampled_from(['1abc', 'a-b', 'a b', 'for', 'int', 'x.y', 'a\n', 'static', '-', 'é'])
SUBTESTS = [
    Sub('window', lambda: wrap(W), window, quick=320),
    Sub('mel', lambda: wrap(M), mel, quick=220),
    Sub('refused', lambda: st.one_of(
        st.fixed_dictionaries({'tool': st.just('window_function'), 'args': st.one_of(BADNAME.map(lambda n: ['--name=' + n]), st.sampled_from([['--window=nosuch'], ['--length=-3'], ['--length=x'], ['--nosuch=1'], ['--window=']][:4]))}),
        st.fixed_dictionaries({'tool': st.just('mel_filterbank'), 'args': st.one_of(BADNAME.map(lambda n: ['--name=' + n]), st.sampled_from([['--bands=x'], ['--fft=1.5'], ['--nosuch=1'], ['--fmin=x']]))})), refused, quick=60),
]


def build():
    import librosa, librosa.filters, scipy.signal      # once, before the shards fork
    librosa.filters.mel(sr=8000, n_fft=64, n_mels=4)
    return {}
