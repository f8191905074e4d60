"""K02: the on-device nearest-neighbour store behaves as a list of labelled items (stateful, against a list model)."""
import math, struct
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check
from K01 import allowed

PROPERTY = 'K02'
RULE = ('a case is a capacity, feature count, k, and a sequence of add (also of wrong length, over capacity and with unusual labels), predict (also with wrong lengths and too small buffers) and check operations on one or two '
        'stores; after each operation count, data, labels and guard bytes are compared with a list model. Non-trivial: the sequence has successful adds, a successful predict, and a refused call.')
ASSUMPTIONS = ['predictions of an empty store or with fewer items than k, and of labels outside 0..9, must be errors that leave the output as it was']

DRIVER = r'''
#include "drv.h"
#include <eml_neighbors.h>
#define G 16
typedef struct { EmlNeighborsModel m; int16_t *data; int16_t *labels; int cap; int nf; } S;
static int16_t *guarded(int n) { int16_t *p = (int16_t*)malloc((n+2*G)*2); for (int i=0;i<n+2*G;i++) p[i] = (int16_t)(0x5a00+i%7); return p; }
int main(void) {
  int ns = in_i32(); S s[4];
  for (int i=0;i<ns;i++) {
    int cap=in_i32(), nf=in_i32(), k=in_i32();
    s[i].cap=cap; s[i].nf=nf; s[i].data=guarded(cap*nf); s[i].labels=guarded(cap);
    s[i].m.n_features=nf; s[i].m.n_items=0; s[i].m.max_items=cap; s[i].m.data=s[i].data+G; s[i].m.labels=s[i].labels+G; s[i].m.k_neighbors=k;
  }
  int nops = in_i32();
  for (int o=0;o<nops;o++) {
    int op=in_i32(), i=in_i32();
    S *t=&s[i];
    if (op==0) { int len=in_i32(), label=in_i32(); int16_t *v=(int16_t*)in_block(len*2); out_i32(eml_neighbors_add_item(&t->m, v, len, label)); out_i32(0); free(v); }
    else if (op==1) { int len=in_i32(), dl=in_i32(); int16_t *v=(int16_t*)in_block(len*2); EmlNeighborsDistanceItem *d=(EmlNeighborsDistanceItem*)malloc(sizeof(EmlNeighborsDistanceItem)*(dl?dl:1)); int16_t out=-12345;
      out_i32(eml_neighbors_predict(&t->m, v, len, d, dl, &out)); out_i32(out); free(d); free(v); }
    else { int a=in_i32(), b=in_i32(), c=in_i32(); out_i32(eml_neighbors_check(&t->m, a, b, c)); out_i32(0); }
    for (int j=0;j<ns;j++) { out_i32(s[j].m.n_items); drv_out(s[j].data, (s[j].cap*s[j].nf+2*G)*2); drv_out(s[j].labels, (s[j].cap+2*G)*2); }
  }
  drv_flush(); return 0;
}
'''
G = 16


def build():
    return {'exe': vh.cc(DRIVER, 'knn')}


def guard(n):
    return np.array([0x5a00 + i % 7 for i in range(n + 2 * G)], dtype='<i2')


def body(case, ctx):
    stores = case['stores']
    inp = [struct.pack('<i', len(stores))]
    for s in stores:
        inp.append(struct.pack('<iii', s['cap'], s['nf'], s['k']))
    inp.append(struct.pack('<i', len(case['ops'])))
    for op in case['ops']:
        i = op[1] % len(stores)
        s = stores[i]
        if op[0] == 'add':
            v = vals(op[2], s['nf'] + op[4])
            inp.append(struct.pack('<iiii', 0, i, len(v), op[3]) + np.array(v, dtype='<i2').tobytes())
        elif op[0] == 'predict':
            v = vals(op[2], s['nf'] + op[3])
            inp.append(struct.pack('<iiii', 1, i, len(v), max(op[4] + s['cap'], 0)) + np.array(v, dtype='<i2').tobytes())
        else:
            inp.append(struct.pack('<iiiii', 2, i, s['cap'] * s['nf'] + op[2], s['cap'] + op[3], s['cap'] + op[4]))
    try:
        out = vh.run_exe(ctx.shared['exe'], b''.join(inp))
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    pos = 0
    model = [[] for _ in stores]
    ok_add = ok_pred = refused = 0
    for no, op in enumerate(case['ops']):
        i = op[1] % len(stores)
        s = stores[i]
        err, val = struct.unpack_from('<ii', out, pos)
        pos += 8
        where = 'op %d %s' % (no, op)
        if op[0] == 'add':
            v = vals(op[2], s['nf'] + op[4])
            bad = len(v) != s['nf'] or len(model[i]) >= s['cap']
            check((err != 0) == bad, '%s: add returned %d, expected %s', where, err, 'an error' if bad else 'success')
            if bad:
                refused += 1
            else:
                ok_add += 1
                model[i].append((v, op[3]))
        elif op[0] == 'predict':
            v = vals(op[2], s['nf'] + op[3])
            dl = max(op[4] + s['cap'], 0)
            items = model[i]
            bad = len(v) != s['nf'] or dl < len(items) or len(items) < s['k']
            if bad:
                check(err != 0 and val == -12345, '%s: invalid predict returned %d with label %d', where, err, val)
                refused += 1
            else:
                d = np.array([math.isqrt(sum((a - b) ** 2 for a, b in zip(v, x))) for x, _ in items])
                lab = np.array([l for _, l in items])
                t = np.sort(d)[s['k'] - 1]
                poss = lab[d <= t]
                if ((poss < 0) | (poss > 9)).any():
                    # an unusable label among the candidates: an error, or a choice without it
                    if err != 0:
                        check(val == -12345, '%s: error %d with a label', where, err)
                    sure = lab[d < t]
                    must = ((sure < 0) | (sure > 9)).any() or ((poss < 0) | (poss > 9)).all()
                    if must:
                        check(err != 0, '%s: unusable label was counted, label %d', where, val)
                    refused += 1
                else:
                    check(err == 0, '%s: predict returned error %d', where, err)
                    ok = allowed(d, lab, s['k'], 10)
                    check(val in ok, '%s: label %d, the nearest allow %s', where, val, sorted(ok))
                    ok_pred += 1
        else:
            bad = op[2] < 0 or op[3] < 0 or op[4] < 0
            check((err != 0) == bad, '%s: check returned %d', where, err)
        for j, sj in enumerate(stores):
            n, = struct.unpack_from('<i', out, pos)
            pos += 4
            nd, nl = sj['cap'] * sj['nf'] + 2 * G, sj['cap'] + 2 * G
            data = np.frombuffer(out, '<i2', nd, pos)
            pos += nd * 2
            lab = np.frombuffer(out, '<i2', nl, pos)
            pos += nl * 2
            wd, wl = guard(sj['cap'] * sj['nf']), guard(sj['cap'])
            for r, (v, l) in enumerate(model[j]):
                wd[G + r * sj['nf']:G + (r + 1) * sj['nf']] = v
                wl[G + r] = l
            check(n == len(model[j]), '%s: store %d holds %d items, expected %d', where, j, n, len(model[j]))
            check(np.array_equal(data, wd), '%s: data of store %d differs: %s expected %s', where, j, data[G:-G].tolist(), wd[G:-G].tolist())
            check(np.array_equal(lab, wl), '%s: labels of store %d differ: %s expected %s', where, j, lab[G:-G].tolist(), wl[G:-G].tolist())
        ctx.compared()
    ctx.label('stores:%d' % len(stores), 'adds:%d' % min(ok_add // 8 * 8, 40))
    ctx.nontriv(ok_add and ok_pred and refused)


def vals(v, n):
    n = max(n, 0)
    return [v[i % len(v)] if i < len(v) else (v[i % len(v)] * (i + 1)) % 1000 for i in range(n)]


V = st.one_of(st.integers(-5, 5), st.integers(-32768, 32767), st.sampled_from([-32768, 32767, 0]))


@st.composite
def cases(draw):
    stores = draw(st.lists(st.fixed_dictionaries({'cap': st.integers(1, 24), 'nf': st.integers(1, 6), 'k': st.integers(1, 5)}), min_size=1, max_size=2))
    off = st.sampled_from([0] * 8 + [-1, 1])
    lab = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 9), st.sampled_from([10, -1, 32767]) if draw(st.integers(0, 3)) == 0 else st.integers(0, 2))
    add = st.tuples(st.just('add'), st.integers(0, 1), st.lists(V, min_size=1, max_size=6), lab, off)
    pred = st.tuples(st.just('predict'), st.integers(0, 1), st.lists(V, min_size=1, max_size=6), off, st.sampled_from([0, 0, 0, 0, 3, -1, -30]))
    chk = st.tuples(st.just('check'), st.integers(0, 1), *[st.sampled_from([0, 0, 0, 1, -1])] * 3)
    n = draw(st.integers(1, 40))
    ops = draw(st.lists(st.one_of(add, add, add, pred, pred, chk), min_size=n, max_size=n + 5))
    return {'stores': stores, 'ops': [list(o) for o in ops]}


SUBTESTS = [Sub('history', lambda: cases(), body, quick=1600)]
