"""D03: sorting and integer distance helpers are exact."""
import math, struct
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'D03'
RULE = ('a case is an array to sort (random, few distinct values, sorted, reversed, organ pipe, killer sequences; lengths to 5000), a list of integers to take the root of (squares and their neighbours), '
        'or pairs of int16 vectors. Non-trivial: the array needs reordering / the values are not all 0.')
ASSUMPTIONS = ['oracle: Python sorted(), math.isqrt and exact integer arithmetic']

DRIVER = r'''
#include "drv.h"
#include <eml_neighbors.h>
int main(void) {
  int op = in_i32();
  if (op==0) { int n=in_i32(); uint32_t *v=(uint32_t*)in_block((size_t)n*4); EmlNeighborsDistanceItem *d=(EmlNeighborsDistanceItem*)malloc(sizeof(*d)*(n?n:1));
    for (int i=0;i<n;i++) { d[i].index=i; d[i].distance=v[i]; }
    out_i32(eml_neighbors_sort_distances(d, n));
    for (int i=0;i<n;i++) { out_i32(d[i].index); drv_out(&d[i].distance, 4); } }
  else if (op==1) { int n=in_i32(); for (int i=0;i<n;i++) out_i32(eml_isqrt(in_i32())); }
  else { int n=in_i32(), len=in_i32(); for (int i=0;i<n;i++) { int16_t *a=(int16_t*)in_block(len*2), *b=(int16_t*)in_block(len*2); uint32_t r=eml_distance_euclidean_int16(a,b,len); drv_out(&r,4); free(a); free(b); } }
  drv_flush(); return 0;
}
'''


def build():
    return {'exe': vh.cc(DRIVER, 'd03')}


def run(ctx, data):
    try:
        return vh.run_exe(ctx.shared['exe'], data, timeout=20)
    except vh.Crash as e:
        raise vh.Violation('crash or hang: %s' % e)


def arr(case):
    rng = np.random.RandomState(case['seed'])
    n = case['n']
    s = case['style']
    if s == 'list':
        v = np.array(case['v'], dtype=np.uint32)
    elif s == 'random':
        v = rng.randint(0, 2 ** 32, size=n, dtype=np.uint64)
    elif s == 'few':
        v = rng.randint(0, 3, size=n)
    elif s == 'sorted':
        v = np.sort(rng.randint(0, 1000, size=n))
    elif s == 'reversed':
        v = np.sort(rng.randint(0, 1000, size=n))[::-1]
    elif s == 'pipe':
        v = np.concatenate([np.arange((n + 1) // 2), np.arange(n // 2)[::-1]])
    elif s == 'equal':
        v = np.full(n, 7)
    else:  # nearly sorted
        v = np.arange(n)
        for _ in range(min(5, n)):
            i, j = rng.randint(n), rng.randint(n)
            v[i], v[j] = v[j], v[i]
    return v.astype('<u4')


def sort_body(case, ctx):
    v = arr(case)
    out = run(ctx, struct.pack('<ii', 0, len(v)) + v.tobytes())
    err, = struct.unpack_from('<i', out)
    a = np.frombuffer(out, dtype=[('i', '<i4'), ('d', '<u4')], offset=4)
    check(err == 0 and len(a) == len(v), 'sort returned %d', err)
    check((np.diff(a['d'].astype(np.int64)) >= 0).all(), 'not in order: %s', a['d'][:40].tolist())
    check(sorted(a['i'].tolist()) == list(range(len(v))), 'items lost or duplicated')
    check(np.array_equal(v[a['i']], a['d']), 'item and distance separated')
    ctx.compared(len(v))
    ctx.label('sort:' + case['style'])
    ctx.nontriv((np.diff(v.astype(np.int64)) < 0).any())


def sqrt_body(case, ctx):
    v = []
    for x, o in case['v']:
        v.append(min(max(x * x + o, 0), 2 ** 31 - 1) if o is not None else x)
    out = np.frombuffer(run(ctx, struct.pack('<ii', 1, len(v)) + np.array(v, dtype='<i4').tobytes()), '<i4')
    for x, r in zip(v, out):
        check(int(r) == math.isqrt(x), 'isqrt(%d) gave %d', x, int(r))
    ctx.compared(len(v))
    ctx.nontriv(any(v))


def dist_body(case, ctx):
    rng = np.random.RandomState(case['seed'])
    n, L = 20, case['len']
    m = case['mag']
    A = rng.randint(-m, m, size=(n, L))
    B = rng.randint(-m, m, size=(n, L))
    if case['corner']:
        A = np.where(rng.uniform(size=A.shape) < .7, np.where(A < 0, -m, m - 1), A)
        B = np.where(rng.uniform(size=A.shape) < .7, -A - (A < 0) * 1, B)
        B = np.clip(B, -m, m - 1)
    if case['v']:
        w = np.array((case['v'] * L)[:L])
        A[0], B[0] = w, np.clip(-w, -32768, 32767)
    inp = b''.join(A[i].astype('<i2').tobytes() + B[i].astype('<i2').tobytes() for i in range(n))
    out = np.frombuffer(run(ctx, struct.pack('<iii', 2, n, L) + inp), '<u4')
    for i in range(n):
        want = math.isqrt(int(((A[i] - B[i]) ** 2).sum()))
        check(int(out[i]) == want, 'distance of %s and %s: %d expected %d', A[i][:6].tolist(), B[i][:6].tolist(), int(out[i]), want)
    ctx.compared(n)
    ctx.label('distance above 2^15' if (out > 32768).any() else 'small distance')
    ctx.nontriv(L > 0)


def sort_cases():
    return st.one_of(
        st.fixed_dictionaries({'style': st.just('list'), 'n': st.just(0), 'seed': st.just(0), 'v': st.lists(st.integers(0, 6), max_size=40)}),
        st.fixed_dictionaries({'style': st.sampled_from(['random', 'few', 'sorted', 'reversed', 'pipe', 'equal', 'nearly']),
                               'n': st.one_of(st.integers(0, 40), st.integers(41, 400), st.sampled_from([15, 16, 17, 32, 33, 1000, 5000])), 'seed': st.integers(0, 2 ** 20), 'v': st.just([])}))


SUBTESTS = [
    Sub('sort', sort_cases, sort_body, quick=1500),
    Sub('isqrt', lambda: st.fixed_dictionaries({'v': st.lists(st.one_of(st.tuples(st.integers(0, 46340), st.sampled_from([0, -1, 1])).map(list),
                                                                 st.tuples(st.integers(0, 2 ** 31 - 1), st.none()).map(list)), min_size=1, max_size=120)}), sqrt_body, quick=500),
    Sub('distance', lambda: st.fixed_dictionaries({'len': st.one_of(st.integers(0, 12), st.sampled_from([1, 2, 100])), 'mag': st.sampled_from([3, 200, 20000, 32768]), 'corner': st.booleans(),
                                                   'v': st.lists(st.integers(-32768, 32767), max_size=3), 'seed': st.integers(0, 2 ** 20)}), dist_body, quick=600),
]
