"""P02: fixed-point conversion and arithmetic."""
import struct
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'P02'
RULE = ('python: a case is a format (integer/fraction/sign bits) and a list of numbers around its limits, steps and halves of steps. c: a case is a list of operand pairs for the 16.16 operations, '
        'run in a sanitized program. Non-trivial: some number is not a whole multiple of the step / some product or quotient is not exact.')
ASSUMPTIONS = ['oracle: exact rational arithmetic', 'C multiplication drops the low 8 bits of each operand (its definition): error bound (|x|+|y|)*2^-8 + 2^-16; conversions to float are rounded to single precision']

DRIVER = r'''
#include "drv.h"
#include <eml_fixedpoint.h>
int main(void) {
  int op=in_i32(), n=in_i32();
  for (int i=0;i<n;i++) {
    if (op==0) { float f=in_f32(); eml_q16_t q = EML_Q16_FROMFLOAT(f); out_i32(q); out_f32(EML_Q16_TOFLOAT(q)); }
    else if (op==1) { int32_t a=in_i32(), b=in_i32(); out_i32(eml_q16_mul(a,b)); }
    else if (op==2) { int32_t a=in_i32(), b=in_i32(); out_i32(eml_q16_div(a,b)); }
    else if (op==3) { int32_t a=in_i32(); out_i32(EML_Q16_FROMINT(a)); out_i32(EML_Q16_TOINT(EML_Q16_FROMINT(a))); }
    else { int32_t a=in_i32(); out_i32(EML_Q16_TOINT(a)); out_f32(EML_Q16_TOFLOAT(a)); }
  }
  drv_flush(); return 0;
}
'''


def build():
    return {'exe': vh.cc(DRIVER, 'fixed', flags=['-fno-sanitize=shift-base,shift'])}


def py_body(case, ctx):
    from emlearn import fixedpoint
    ib, fb, sb = case['ib'], case['fb'], case['sb']
    fmt = fixedpoint.FixedPointFormat(integer_bits=ib, fraction_bits=fb, sign_bits=sb)
    check(fmt.total_bits == ib + fb + sb, 'total_bits %s', fmt.total_bits)
    step = Fraction(1, 2 ** fb)
    hi = Fraction(2 ** ib)
    lo = -hi if sb else Fraction(0)
    xs = []
    for kind, v in case['v']:
        if kind == 'step':
            x = float(Fraction(v, 2 ** (fb + 1)))
        elif kind == 'edge':
            x = float(hi) - v / 2.0 ** fb if v > 0 else float(lo) - v / 2.0 ** fb
        elif kind == 'rel':
            x = v * float(hi)
        else:
            x = v
        xs.append(x)
    xs = np.array(xs, dtype=case['ndtype'])
    ex = [Fraction(float(x)) for x in xs]
    inr = [lo <= x < hi for x in ex]
    ins = xs[inr]
    if len(ins):
        with ctx.sut('from_float'):
            q = fixedpoint.from_float(ins, fmt)
            back = fixedpoint.to_float(q, fmt)
        check(len(q) == len(ins) and np.issubdtype(np.asarray(q).dtype, np.integer), 'from_float gave %r', q)
        for x, k, b in zip([e for e, i in zip(ex, inr) if i], q, back):
            k = int(k)
            check(abs(Fraction(k) * step - x) < step, '%s becomes %d, which is %s', float(x), k, float(k * step))
            check(float(lo) / float(step) <= k < float(hi) / float(step), '%s becomes %d, outside the format', float(x), k)
            check(not (k > 0 and x < 0) and not (k < 0 and x > 0), 'sign of %s changed: %d', float(x), k)
            check(Fraction(float(b)) == Fraction(k) * step or abs(k) > 2 ** 53, 'to_float(%d) gave %s', k, b)
        o = np.argsort(ins.astype(float), kind='stable')
        check((np.diff(np.asarray(q)[o].astype(object)) >= 0).all(), 'order changed')
        ctx.compared(len(ins))
    for x, e, i in zip(xs, ex, inr):
        if i:
            continue
        try:
            k = fixedpoint.from_float(np.array([x]), fmt)
        except Exception:
            ctx.label('out of range refused')
            continue
        k = int(k[0])
        edge = hi if e >= hi else lo
        # not refused: must be saturated or still represent the number, not a wrapped value
        okay = abs(Fraction(k) * step - e) <= step or abs(Fraction(k) * step - edge) <= step
        check(okay, '%s is out of range and becomes %d, which is %s', float(x), k, float(k * step))
    ctx.label('format %d.%d' % (ib, fb) if (ib, fb) in ((15, 16), (8, 23)) else 'other format')
    ctx.nontriv(any((e / step).denominator != 1 for e, i in zip(ex, inr) if i))


def c_body(case, ctx):
    op, v = case['op'], case['v']
    S = Fraction(1, 65536)
    if op == 'float':
        f = np.array([a for a in v], dtype='<f4')
        inp = struct.pack('<ii', 0, len(f)) + f.tobytes()
        dt = [('q', '<i4'), ('f', '<f4')]
    elif op in ('mul', 'div'):
        keep = []
        for a, b in v:
            if op == 'mul':
                m = Fraction(a, 65536) * Fraction(b, 65536)
                if abs(m) < 32760:
                    keep.append((a, b))
            elif b and abs(Fraction(a, b)) < 32767:
                keep.append((a, b))
        v = keep
        inp = struct.pack('<ii', 1 if op == 'mul' else 2, len(v)) + b''.join(struct.pack('<ii', a, b) for a, b in v)
        dt = [('q', '<i4')]
    elif op == 'int':
        v = [a for a in v if -32768 <= a < 32768]
        inp = struct.pack('<ii', 3, len(v)) + np.array(v, dtype='<i4').tobytes()
        dt = [('q', '<i4'), ('i', '<i4')]
    else:
        inp = struct.pack('<ii', 4, len(v)) + np.array(v, dtype='<i4').tobytes()
        dt = [('i', '<i4'), ('f', '<f4')]
    try:
        r = np.frombuffer(vh.run_exe(ctx.shared['exe'], inp), dtype=dt)
    except vh.Crash as e:
        raise vh.Violation('%s: %s' % (op, e))
    nt = False
    if op == 'float':
        for x, q, g in zip(f, r['q'], r['f']):
            x = Fraction(float(x))
            y = Fraction(int(q)) * S
            check(abs(y - x) < S and not (y > 0 and x < 0) and not (y < 0 and x > 0), 'FROMFLOAT(%s) gave %d', float(x), int(q))
            check(abs(Fraction(float(g)) - y) <= abs(y) / 2 ** 23, 'TOFLOAT(%d) gave %s', int(q), float(g))
            nt |= (x / S).denominator != 1
        ctx.compared(len(f))
    elif op == 'mul':
        for (a, b), q in zip(v, r['q']):
            m = Fraction(a, 65536) * Fraction(b, 65536)
            bound = (abs(Fraction(a, 65536)) + abs(Fraction(b, 65536))) / 256 + Fraction(1, 65536)
            check(abs(Fraction(int(q)) * S - m) <= bound, 'mul(%d, %d) gave %d, exact %s', a, b, int(q), float(m))
            if a % 256 == 0 and b % 256 == 0:
                check(Fraction(int(q)) * S == m, 'mul(%d, %d) gave %d, exact %s', a, b, int(q), float(m))
            nt |= True
        ctx.compared(len(v))
    elif op == 'div':
        for (a, b), q in zip(v, r['q']):
            check(abs(Fraction(int(q)) - Fraction(a, b) * 65536) <= Fraction(1, 2), 'div(%d, %d) gave %d, exact %s', a, b, int(q), float(Fraction(a, b) * 65536))
            nt |= (Fraction(a, b) * 65536).denominator != 1
        ctx.compared(len(v))
    elif op == 'int':
        for a, q, i in zip(v, r['q'], r['i']):
            check(int(q) == a * 65536 and int(i) == a, 'FROMINT(%d) gave %d, back %d', a, int(q), int(i))
        nt = len(v) > 0
        ctx.compared(len(v))
    else:
        for a, i, g in zip(v, r['i'], r['f']):
            check(abs(Fraction(int(i)) - Fraction(a, 65536)) < 1, 'TOINT(%d) gave %d', a, int(i))
            check(abs(Fraction(float(g)) - Fraction(a, 65536)) <= abs(Fraction(a, 65536)) / 2 ** 23, 'TOFLOAT(%d) gave %s', a, float(g))
        nt = len(v) > 0
        ctx.compared(len(v))
    ctx.label('op:' + op)
    ctx.nontriv(nt)


@st.composite
def py_cases(draw):
    ib, fb, sb = draw(st.one_of(st.sampled_from([(15, 16, 1), (8, 23, 1), (0, 31, 1), (16, 16, 0)]), st.tuples(st.integers(0, 20), st.integers(0, 30), st.integers(0, 1))))
    num = st.one_of(st.tuples(st.just('step'), st.integers(-2 ** 18, 2 ** 18)), st.tuples(st.just('edge'), st.integers(-4, 4)), st.tuples(st.just('rel'), st.floats(-1.2, 1.2)),
                    st.tuples(st.just('abs'), st.floats(-1e30, 1e30)), st.tuples(st.just('rel'), st.floats(-1, 1)))
    return {'ib': ib, 'fb': fb, 'sb': sb, 'v': [list(x) for x in draw(st.lists(num, min_size=1, max_size=25))], 'ndtype': draw(st.sampled_from(['float64', 'float64', 'float32']))}


I32 = st.one_of(st.integers(-2 ** 31, 2 ** 31 - 1), st.integers(-2 ** 17, 2 ** 17), st.integers(-300, 300), st.sampled_from([-2 ** 31, 2 ** 31 - 1, 65536, -65536, 1, -1, 65535]),
                st.integers(-2000, 2000).map(lambda x: x * 65536 // 16))


@st.composite
def c_cases(draw):
    op = draw(st.sampled_from(['float', 'mul', 'mul', 'div', 'div', 'int', 'to']))
    if op == 'float':
        e = st.one_of(st.floats(-32767, 32767, width=32), st.floats(-1, 1, width=32), st.floats(-2 ** -15, 2 ** -15, width=32), st.sampled_from([0.0, 32767.0, -32768.0, 32767.998046875]))
    elif op in ('mul', 'div'):
        e = st.tuples(I32, I32).map(list)
    else:
        e = st.one_of(I32, st.integers(-32768, 32767))
    return {'op': op, 'v': draw(st.lists(e, min_size=1, max_size=60))}


SUBTESTS = [
    Sub('python', py_cases, py_body, quick=3000),
    Sub('c', c_cases, c_body, quick=2500),
]
