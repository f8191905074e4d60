"""D02: the array container behaves as the numpy array it describes (stateful, against a byte model in numpy)."""
import struct
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'D02'
RULE = ('a case is one to three arrays (1 to 3 dimensions, value sizes 1, 2 and 4, also shapes that do not fit their buffer) and a sequence of fill, element write, element read, row shift, row copy, append and sum operations '
        'with arguments in and out of range; after every operation all the buffers, including guard bytes, are compared with numpy arrays. Non-trivial: at least two operations changed data and one was refused, or at least four changed data.')
ASSUMPTIONS = ['fill values are within the 16-bit range; the sum is that of single-precision additions, so it may differ from the exact one by the rounding of as many additions',
               'copies are between arrays that do not overlap']

DRIVER = r'''
#include "drv.h"
#include <eml_array.h>
#define G 32
typedef struct { EmlArray a; uint8_t *buf; int len; int ok; } S;
int main(void) {
  int ns=in_i32(); S s[4]; memset(s, 0, sizeof(s));
  for (int i=0;i<ns;i++) {
    int nd=in_i32(); int32_t d[3]; for (int j=0;j<3;j++) d[j]=in_i32();
    int vs=in_i32(), len=in_i32();
    uint8_t *b=(uint8_t*)in_block(len);
    s[i].len=len; s[i].buf=(uint8_t*)malloc(len+2*G);
    memset(s[i].buf, 0xA5, len+2*G); memcpy(s[i].buf+G, b, len); free(b);
    int e=eml_array_init_full(&s[i].a, nd, d, vs, s[i].buf+G, len);
    out_i32(e); s[i].ok = (e==0);
    out_i32(s[i].ok ? (int32_t)eml_array_storage_size(&s[i].a) : -1);
  }
  int nops=in_i32();
  for (int o=0;o<nops;o++) {
    int op=in_i32(), i=in_i32(), x=in_i32(), y=in_i32(); float f=in_f32();
    S *t=&s[i]; int err=0; float res=-777.0f; int pos=-1;
    if (!t->ok || (op==3 && !s[x].ok) || (op==6 && !s[x].ok)) { err=-1; }
    else if (op==0) err=eml_array_fill(&t->a, f);
    else if (op==1) { uint8_t *p=(uint8_t*)eml_array_data_2d(&t->a, x, y); if (p) { pos=(int)(p-(t->buf+G)); int16_t v=(int16_t)f; if (t->a.value_size==2) memcpy(p,&v,2); else if (t->a.value_size==4) memcpy(p,&f,4); else *p=(uint8_t)(v&255); } else err=1; }
    else if (op==2) err=eml_array_shift_rows(&t->a, x);
    else if (op==3) err=eml_array_copy_rows(&t->a, y, &s[x].a);
    else if (op==4) err=eml_array_sum(&t->a, &res);
    else if (op==5) { uint8_t *p=(uint8_t*)eml_array_data_2d(&t->a, x, y); if (p) pos=(int)(p-(t->buf+G)); else err=1; }
    else err=eml_array_append(&t->a, &s[x].a);
    out_i32(err); out_i32(pos); out_f32(res);
    for (int j=0;j<ns;j++) drv_out(s[j].buf, s[j].len+2*G);
  }
  drv_flush(); return 0;
}
'''
G = 32
OPS = {'fill': 0, 'write': 1, 'shift': 2, 'copy': 3, 'sum': 4, 'read': 5, 'append': 6}


def build():
    return {'exe': vh.cc(DRIVER, 'arr')}


def body(case, ctx):
    arrs = case['arrays']
    inp = [struct.pack('<i', len(arrs))]
    bufs, views, dims = [], [], []
    for k, a in enumerate(arrs):
        d = (a['dims'] + [0, 0, 0])[:3]
        nd = a['ndims']
        need = a['vs']
        for j in range(max(nd, 0)):
            need *= (a['dims'] + [0] * 5)[j]
        size = max(need + a['extra'], 0) if 0 <= need < 500000 else 64
        idx = np.arange(size, dtype=np.int64)
        content = ((a['fill'] * (idx + 1) * 37 + idx * k) % 251).astype(np.uint8)
        inp.append(struct.pack('<iiiiii', nd, *d, a['vs'], size) + content.tobytes())
        valid = 1 <= nd <= 3 and all(x >= 0 for x in d[:nd]) and d[0] >= 1 and need <= size
        bufs.append(content.copy())
        views.append(valid)
        dims.append((nd, d, need))
    ops = []
    for op in case['ops']:
        i = op[1] % len(arrs)
        x, y = op[2], op[3]
        if op[0] in ('copy', 'append'):
            x = x % len(arrs)
            if x == i:
                x = (i + 1) % len(arrs)
            if x == i and op[0] == 'copy':
                continue
        ops.append((op[0], i, x, y, op[4]))
        inp.append(struct.pack('<iiiif', OPS[op[0]], i, x, y, op[4]))
    inp.insert(1 + len(arrs), struct.pack('<i', len(ops)))
    try:
        out = vh.run_exe(ctx.shared['exe'], b''.join(inp))
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    pos = 0
    for k, a in enumerate(arrs):
        e, size = struct.unpack_from('<ii', out, pos)
        pos += 8
        check((e == 0) == views[k], 'array %d: init returned %d for %s dimensions %s in %d bytes', k, e, dims[k][0], dims[k][1], len(bufs[k]))
        if views[k]:
            check(size == dims[k][2], 'array %d: storage size %d, expected %d', k, size, dims[k][2])

    def as2d(k, dtype):
        nd, d, need = dims[k]
        return bufs[k][:need].view(dtype).reshape(d[1], d[0])      # a row is dims[0] elements
    changed = refused = 0
    for no, (name, i, x, y, f) in enumerate(ops):
        err, where, res = struct.unpack_from('<iif', out, pos)
        pos += 12
        nd, d, need = dims[i]
        vs = arrs[i]['vs']
        msg = 'op %d %s on array %d %s of value size %d (args %s %s %s)' % (no, name, i, d[:nd], vs, x, y, f)
        dt = {1: np.uint8, 2: np.dtype('<i2'), 4: np.dtype('<f4')}[vs]
        raw = {1: np.uint8, 2: np.dtype('<u2'), 4: np.dtype('<u4')}[vs]
        if not views[i] or (name in ('copy', 'append') and not views[x]):
            check(err == -1, 'driver')
        else:
            inside = nd == 2 and 0 <= x < d[0] and 0 <= y < d[1]
            ok = True
            if name == 'fill':
                ok = nd == 2 and vs == 2
                if ok:
                    as2d(i, dt)[:] = int(f)
            elif name in ('write', 'read'):
                ok = inside
                if ok:
                    check(where == (y * d[0] + x) * vs, '%s: element is at byte %d', msg, where)
                    if name == 'write':
                        m = as2d(i, dt)
                        m[y, x] = f if vs == 4 else (int(f) if vs == 2 else int(f) & 255)
            elif name == 'shift':
                ok = nd == 2 and -d[1] <= x <= 0
                if ok and x < 0:
                    m = as2d(i, raw)
                    m[:d[1] + x] = m[-x:].copy()
            elif name == 'copy':
                nd2, d2, _ = dims[x]
                ok = nd == 2 and nd2 == 2 and d2[0] == d[0] and arrs[x]['vs'] == vs and y >= 0 and y + d2[1] <= d[1]
                if ok:
                    as2d(i, raw)[y:y + d2[1]] = as2d(x, raw)
            elif name == 'sum':
                ok = nd == 2 and vs == 2
                if ok and err == 0:
                    m = as2d(i, dt).astype(np.float64)
                    tot = np.abs(m).sum()
                    tol = 0 if tot < 2 ** 24 else m.size * tot * 2.0 ** -23
                    check(abs(res - m.sum()) <= tol, '%s: sum %r, exact %r', msg, res, m.sum())
            elif name == 'append':
                # nothing fits at the end of an array of fixed size: never a success without effect
                ok = False
            check((err == 0) == ok, '%s: returned %d, expected %s', msg, err, 'success' if ok else 'an error')
            if not ok:
                refused += 1
                if name == 'sum':
                    check(res == -777.0, '%s: refused, but the output was changed to %r', msg, res)
            elif name in ('fill', 'write', 'copy') or (name == 'shift' and x < 0):
                changed += 1
            ctx.label('%s:%s' % (name, 'ok' if ok else 'refused'))
        for k, b in enumerate(bufs):
            got = np.frombuffer(out, np.uint8, len(b) + 2 * G, pos)
            pos += len(b) + 2 * G
            check((got[:G] == 0xA5).all() and (got[len(got) - G:] == 0xA5).all(), '%s: bytes outside the buffer of array %d were changed', msg, k)
            check(np.array_equal(got[G:len(got) - G], b), '%s: array %d differs: %s expected %s', msg, k, got[G:len(got) - G].tolist()[:40], b.tolist()[:40])
        ctx.compared()
    ctx.nontriv((changed >= 2 and refused) or changed >= 4)


@st.composite
def cases(draw):
    cols = draw(st.integers(1, 8))
    arrays = []
    for _ in range(draw(st.integers(1, 3))):
        nd = draw(st.sampled_from([2] * 12 + [1, 3, 3, 0, 4, -1]))
        c = draw(st.sampled_from([cols] * 4 + [1, 3]))
        d = [c, draw(st.integers(0, 9)), draw(st.integers(0, 4))]
        if draw(st.integers(0, 15)) == 0:
            d[draw(st.integers(0, 2))] = draw(st.sampled_from([-1, -2, 0, 2 ** 31 - 1, -2 ** 31, 65536]))
            if draw(st.booleans()):
                d[draw(st.integers(0, 2))] = draw(st.sampled_from([-1, 2 ** 31 - 1, 65536, 2 ** 30]))
            if max(d) > 1000:
                d = [x or 1 for x in d]       # an empty array with 2**31 columns only takes time
        arrays.append({'ndims': nd, 'dims': d, 'vs': draw(st.sampled_from([2, 2, 2, 2, 1, 4])), 'extra': draw(st.sampled_from([0] * 8 + [1, 7, -1, -3])), 'fill': draw(st.integers(0, 250))})
    a = st.integers(0, 2)
    val = st.one_of(st.integers(-5, 5), st.integers(-32768, 32767)).map(float)
    ix = st.one_of(st.integers(0, cols - 1), st.integers(0, cols - 1), st.integers(-2, 10))
    iy = st.one_of(st.integers(0, 6), st.integers(0, 3), st.integers(-2, 10))
    far = st.sampled_from([0] * 40 + [2 ** 31 - 1, -2 ** 31, 2 ** 31 - 4])
    op = st.one_of(
        st.tuples(st.just('fill'), a, st.just(0), st.just(0), val),
        st.tuples(st.just('write'), a, ix, iy, val), st.tuples(st.just('write'), a, ix, iy, val),
        st.tuples(st.just('read'), a, ix, iy, st.just(0.0)),
        st.tuples(st.just('shift'), a, st.one_of(st.integers(-10, 0), st.integers(-4, 0), st.integers(-12, 3), far), st.just(0), st.just(0.0)),
        st.tuples(st.just('copy'), a, a, st.one_of(st.integers(0, 3), st.integers(-2, 10), far), st.just(0.0)),
        st.tuples(st.just('copy'), a, a, st.integers(0, 5), st.just(0.0)),
        st.tuples(st.just('sum'), a, st.just(0), st.just(0), st.just(0.0)),
        st.tuples(st.just('append'), a, a, st.just(0), st.just(0.0)))
    n = draw(st.integers(1, 25))
    return {'arrays': arrays, 'ops': [list(o) for o in draw(st.lists(op, min_size=n, max_size=n + 5))]}


@st.composite
def large(draw):
    """Arrays of full-scale values: sums beyond the 24 bits a float holds exactly."""
    n = draw(st.integers(100, 900))
    v = draw(st.sampled_from([32767.0, -32768.0, 30001.0]))
    ops = [['fill', 0, 0, 0, v]]
    for _ in range(draw(st.integers(0, 4))):
        ops.append(['write', 0, draw(st.integers(0, 7)), draw(st.integers(0, n - 1)), float(draw(st.integers(-32768, 32767)))])
    ops += [['sum', 0, 0, 0, 0.0], ['shift', 0, -draw(st.integers(0, n)), 0, 0.0], ['sum', 0, 0, 0, 0.0]]
    return {'arrays': [{'ndims': 2, 'dims': [8, n, 0], 'vs': 2, 'extra': 0, 'fill': 1}], 'ops': ops}


@st.composite
def many_elements(draw):
    """More elements (and bytes) than 16 bits can count."""
    c = draw(st.sampled_from([1, 8, 40, 300, 5000]))
    total = draw(st.sampled_from([20000, 35000, 40000, 70000, 90000]))
    n = max(1, total // c)
    vs = draw(st.sampled_from([2, 2, 2, 1, 4]))
    x = st.one_of(st.integers(0, c - 1), st.just(c - 1), st.sampled_from([c, c + 1]))
    y = st.one_of(st.integers(0, n - 1), st.integers(max(0, n - 5), n - 1), st.sampled_from([n, n + 1]))
    m = draw(st.integers(1, n))
    op = st.one_of(
        st.tuples(st.just('write'), st.just(0), x, y, st.integers(-32768, 32767).map(float)),
        st.tuples(st.just('read'), st.just(0), x, y, st.just(0.0)),
        st.tuples(st.just('shift'), st.just(0), st.integers(-n, 0), st.just(0), st.just(0.0)),
        st.tuples(st.just('copy'), st.just(0), st.just(1), st.one_of(st.just(n - m), st.integers(0, n)), st.just(0.0)),
        st.tuples(st.just('sum'), st.just(0), st.just(0), st.just(0), st.just(0.0)))
    return {'arrays': [{'ndims': 2, 'dims': [c, n, 0], 'vs': vs, 'extra': 0, 'fill': draw(st.integers(1, 250))},
                       {'ndims': 2, 'dims': [c, m, 0], 'vs': vs, 'extra': 0, 'fill': draw(st.integers(1, 250))}],
            'ops': [list(o) for o in draw(st.lists(op, min_size=3, max_size=8))]}


SUBTESTS = [Sub('many-elements', lambda: many_elements(), body, quick=120), Sub('history', lambda: cases(), body, quick=3000), Sub('large', lambda: large(), body, quick=150)]
