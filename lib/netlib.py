"""Reference forward pass with a running float32 error bound, and the C driver for nets."""
import struct
import numpy as np
import vh
from vh import check

U = 2.0 ** -24


def forward(weights, biases, acts, X):
    """float64 outputs and a bound on the float32 error of each."""
    a = X.astype(np.float64)
    e = np.zeros_like(a)
    for W, b, act in zip(weights, biases, acts):
        W = np.asarray(W, dtype=np.float64)
        b = np.asarray(b, dtype=np.float64)
        mag = np.abs(a) @ np.abs(W) + np.abs(b)
        z = a @ W + b
        e = e @ np.abs(W) * 1.001 + (W.shape[0] + 4) * U * mag + 1e-37
        if act == 'identity':
            a = z
        elif act == 'relu':
            a = np.maximum(z, 0)
        elif act == 'tanh':
            a = np.tanh(z)
            e = e + 4 * U
        elif act == 'logistic':
            with np.errstate(over='ignore'):
                a = 1 / (1 + np.exp(-z))
            e = np.minimum(e, 1) + 8 * U
        elif act == 'softmax':
            m = z.max(axis=1, keepdims=True)
            ex = np.exp(z - m)
            a = ex / ex.sum(axis=1, keepdims=True)
            em = e.max(axis=1, keepdims=True)
            zm = np.abs(z).max(axis=1, keepdims=True)
            e = np.broadcast_to(np.minimum(2 * em * 1.1 + 16 * U * (zm + 1 + np.log(z.shape[1])) + (z.shape[1] + 8) * U, 1.0), a.shape)
        else:
            raise vh.HarnessError('activation ' + act)
    return a, e


def weights_for(shape, style, scale, rng):
    n_in, n_out = shape
    if style == 'dense':
        w = rng.normal(size=shape) * scale
    elif style == 'sparse':
        w = np.where(rng.uniform(size=shape) < 0.3, rng.normal(size=shape) * scale, 0.0)
    elif style == 'single':
        w = np.zeros(shape)
        for o in range(n_out):
            w[rng.randint(n_in), o] = scale * (1 if rng.uniform() < .7 else -1)
    elif style == 'ramp':
        w = (np.arange(n_in * n_out).reshape(shape) % 7 - 3) * scale / 3.0
    else:
        raise vh.HarnessError(style)
    return w


def driver(parts, n_in, n_out, n_proba):
    """parts: list of (name, code, calls) with calls in {'predict','proba','regress','regress1'}."""
    s = ['#include "drv.h"\n#include <math.h>\n'] + [c for _, c, _ in parts]
    body = []
    for name, _, calls in parts:
        if 'predict' in calls:
            body.append('out_i32(%s_predict(x, nf));' % name)
        if 'proba' in calls:
            body.append('{ float *o=(float*)malloc(%d*4); for(int i=0;i<%d;i++) o[i]=NAN; out_i32(eml_net_predict_proba(&%s, x, nf, o, %d)); drv_out(o,%d*4); free(o);}'
                        % (n_proba, n_proba, name, n_proba, n_proba))
        if 'regress' in calls:
            body.append('{ float *o=(float*)malloc(%d*4); for(int i=0;i<%d;i++) o[i]=NAN; out_i32(%s_regress(x, nf, o, %d)); drv_out(o,%d*4); free(o);}'
                        % (n_out, n_out, name, n_out, n_out))
        if 'regress1' in calls:
            body.append('out_f32(%s_regress1(x, nf));' % name)
    s.append('''
int main(void) {
  int n = in_i32(), nf = in_i32();
  for (int r=0; r<n; r++) {
    float *x = (float *)in_block(nf*sizeof(float));
    %s
    free(x);
  }
  drv_flush();
  return 0;
}''' % '\n    '.join(body))
    return '\n'.join(s)


def run(parts, X, n_out, n_proba):
    d = vh.fresh_dir('n')
    try:
        try:
            exe = vh.cc(driver(parts, X.shape[1], n_out, n_proba), out_dir=d, opt='-O0')
        except vh.CompileError as e:
            raise vh.Violation('generated network code does not compile: %s' % str(e)[:600])
        try:
            out = vh.run_exe(exe, struct.pack('<ii', *X.shape) + np.ascontiguousarray(X, dtype=np.float32).tobytes())
        except vh.Crash as e:
            raise vh.Violation('generated network code crashed: %s' % e)
    finally:
        vh.rm(d)
    f = []
    for name, _, calls in parts:
        if 'predict' in calls:
            f.append((name + '.predict', '<i4'))
        if 'proba' in calls:
            f += [(name + '.proba_err', '<i4'), (name + '.proba', '<f4', (n_proba,))]
        if 'regress' in calls:
            f += [(name + '.regress_err', '<i4'), (name + '.regress', '<f4', (n_out,))]
        if 'regress1' in calls:
            f.append((name + '.regress1', '<f4'))
    a = np.frombuffer(out, dtype=np.dtype(f))
    check(len(a) == len(X), 'driver gave %d rows for %d', len(a), len(X))
    return a


def proba_of(out, err):
    """Class probabilities of a classifier output layer (1 logistic output: binary)."""
    if out.shape[1] == 1:
        return np.hstack([1 - out, out]), np.hstack([err, err]) + 2 * U
    return out, err


def compare_classifier(label, pred, proba, want, err, ctx):
    """want/err: reference probabilities and error bounds."""
    if proba is not None:
        d = np.abs(proba - want)
        bad = np.nonzero(~(d <= err + 1e-6).all(axis=1))[0]
        check(len(bad) == 0, '%s: probabilities %s expected %s', label, proba[bad[:2]].tolist(), want[bad[:2]].tolist())
        check((np.abs(proba.sum(axis=1) - 1) < 1e-3).all(), '%s: probabilities do not sum to 1', label)
        ctx.compared(len(proba))
    if pred is not None:
        pred = np.asarray(pred)
        nc = want.shape[1]
        check(((pred >= 0) & (pred < nc)).all(), '%s: predicted class %s of %d', label, pred[(pred < 0) | (pred >= nc)][:3], nc)
        s = np.sort(want, axis=1)
        clear = (s[:, -1] - s[:, -2]) > 2 * err.max(axis=1) + 1e-6
        bad = np.nonzero(clear & (pred != want.argmax(axis=1)))[0]
        check(len(bad) == 0, '%s: class %s expected %s (probabilities %s)', label, pred[bad[:3]], want.argmax(axis=1)[bad[:3]], want[bad[:2]].tolist())
        ctx.compared(int(clear.sum()))
        if not clear.all():
            ctx.label('rows with tie skipped')
