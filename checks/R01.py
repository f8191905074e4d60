"""R01: C entry points refuse what does not fit, stay within the lengths given, and name their errors."""
import math, struct
import numpy as np
from hypothesis import strategies as st
import vh, rows, treelib as tl
from vh import Sub, check

PROPERTY = 'R01'
RULE = ('a case is one model (network, trees, Bayes, mixture, elliptic envelope, neighbours; given as C structures or as generated code) or one signal/helper function, with features, outputs and working buffers each of the right '
        'length, a little off, zero or missing; all buffers are heap blocks of exactly the length passed, under AddressSanitizer. Non-trivial: the call is one that must be refused, or one that must succeed with all lengths exact.')
ASSUMPTIONS = ['a model is consistent: the arrays it points to have the lengths its counts say (layer sizes chained, node and leaf numbers within the tables)',
               'missing (NULL) pointers are given for features, outputs and working buffers of inference functions, not for signal helpers',
               'lengths of CSV, array, FFT, spectrogram, quantizer, neighbour store functions: see D01, D02, S01, S02, P03, K02']

DRIVER = r'''
#include "drv.h"
#include <math.h>
#include <eml_net.h>
#include <eml_trees.h>
#include <eml_bayes.h>
#include <eml_mixture.h>
#include <eml_distance.h>
#include <eml_neighbors.h>
#include <eml_iir.h>
#include <eml_fft.h>
#include <eml_vector.h>
#include <eml_audio.h>
#include <eml_test.h>
#include <eml_benchmark.h>
#include <eml_net_fixedpoint.h>
#define SENT 12345.5f
/* flag 0: NULL */
static float *fbuf(int *n) { int f=in_i32(); *n=in_i32(); if (!f) return NULL; float *p=(float*)malloc(*n?*n*4:1); for (int i=0;i<*n;i++) p[i]=SENT; return p; }
static float *fin(int *n) { int f=in_i32(); *n=in_i32(); float *p=in_f32s(*n); if (!f) { free(p); return NULL; } return p; }
static int16_t *hin(int *n) { int f=in_i32(); *n=in_i32(); int16_t *p=(int16_t*)in_block(*n*2); if (!f) { free(p); return NULL; } return p; }
static void res_f(const float *p, int n) { int32_t k = p ? n : 0; out_i32(k); drv_out(p, (size_t)k*4); }
static void net(void) {
  EmlNet m; int nl=in_i32(); EmlNetLayer *l=(EmlNetLayer*)malloc(nl?nl*sizeof(*l):1);
  for (int i=0;i<nl;i++) { int a; int ni=in_i32(), no=in_i32(), act=in_i32(); l[i].n_inputs=ni; l[i].n_outputs=no; l[i].activation=(EmlNetActivationFunction)act; l[i].weights=fin(&a); l[i].biases=fin(&a); }
  int hasl=in_i32(); m.layers = hasl ? l : NULL; m.n_layers=nl;
  int a1,a2; m.activations1=fbuf(&a1); m.activations2=fbuf(&a2); m.activations_length=a1;
  int fn=in_i32(); int nf,no; float *x=fin(&nf); float *o=fbuf(&no);
  int32_t r=0; float v=0;
  if (fn==0) r=eml_net_predict(&m,x,nf); else if (fn==1) r=eml_net_predict_proba(&m,x,nf,o,no); else if (fn==2) r=eml_net_regress(&m,x,nf,o,no); else v=eml_net_regress1(&m,x,nf);
  out_i32(r); out_f32(v); res_f(o,no);
}
static void trees(void) {
  EmlTrees m; m.n_nodes=in_i32(); m.nodes=(EmlTreesNode*)malloc(m.n_nodes?m.n_nodes*sizeof(EmlTreesNode):1);
  for (int i=0;i<m.n_nodes;i++) { m.nodes[i].feature=in_i32(); m.nodes[i].value=in_i32(); m.nodes[i].left=in_i32(); m.nodes[i].right=in_i32(); }
  m.n_trees=in_i32(); m.tree_roots=(int32_t*)in_block(m.n_trees*4);
  int mis=in_i32(); m.n_leaves=in_i32(); uint8_t *lb=(uint8_t*)malloc(m.n_leaves+mis+1); m.leaves=lb+mis; lb=(uint8_t*)realloc(lb, m.n_leaves+mis?m.n_leaves+mis:1); m.leaves=lb+mis; drv_in(m.leaves, m.n_leaves);
  m.leaf_bits=in_i32(); m.n_features=in_i32(); m.n_classes=in_i32();
  int fn=in_i32(); int nf,no; int16_t *x=hin(&nf); float *o=fbuf(&no);
  int32_t r=0; float v=0;
  if (fn==0) r=eml_trees_predict(&m,x,nf); else if (fn==1) r=eml_trees_predict_proba(&m,x,nf,o,no); else if (fn==2) r=eml_trees_regress(&m,x,nf,o,no); else v=eml_trees_regress1(&m,x,nf);
  out_i32(r); out_f32(v); res_f(o,no);
}
static void bayes(void) {
  EmlBayesModel m; m.n_classes=in_i32(); m.n_features=in_i32(); int n=m.n_classes*m.n_features;
  m.summaries=(EmlBayesSummary*)in_block(n*sizeof(EmlBayesSummary)); int hasm=in_i32(); int nf; float *x=fin(&nf);
  out_i32(eml_bayes_predict(hasm?&m:NULL,x,nf));
}
static void ee(void) {
  EmlEllipticEnvelope m; int a; m.n_features=in_i32(); m.decision_boundary=in_f32(); m.means=fin(&a); m.precision=fin(&a); int nf,no; float *x=fin(&nf); float *o=fbuf(&no);
  out_i32(eml_elliptic_envelope_predict(&m,x,nf,o)); res_f(o,no);
}
static void mixture(void) {
  EmlMixtureModel m; int a; m.n_components=in_i32(); m.n_features=in_i32(); m.covariance_type=(EmlCovarianceType)in_i32(); m.means=fin(&a); m.precisions=fin(&a); m.log_dets=fin(&a); m.log_weights=fin(&a);
  int hasm=in_i32(), fn=in_i32(); int nf,np,ns,nr; float *x=fin(&nf); float *p=fbuf(&np); float *s=fbuf(&ns); float *r=fbuf(&nr);
  EmlMixtureModel *mm = hasm?&m:NULL; int32_t e;
  if (fn==0) e=eml_mixture_predict_log_proba(mm,x,nf,p); else if (fn==1) e=eml_mixture_score(mm,x,nf,p,s); else e=eml_mixture_predict_proba(mm,x,nf,p,s,r);
  out_i32(e); res_f(p,np); res_f(s,ns); res_f(r,nr);
}
static void knn(void) {
  EmlNeighborsModel m; int a; m.n_features=in_i32(); m.n_items=in_i32(); m.max_items=in_i32(); m.k_neighbors=in_i32(); m.data=hin(&a); m.labels=hin(&a);
  int nf; int16_t *x=hin(&nf); int df=in_i32(), dl=in_i32(); EmlNeighborsDistanceItem *d = df ? (EmlNeighborsDistanceItem*)malloc(dl?dl*sizeof(*d):1) : NULL; int of=in_i32();
  int16_t *o = of ? (int16_t*)malloc(2) : NULL; if (o) *o=-12345;
  out_i32(eml_neighbors_predict(&m,x,nf,d,dl,o)); out_i32(o?*o:0);
}
static void helper(void) {
  int fn=in_i32(); int n,k; 
  if (fn==0) { EmlVector d, s; d.data=fin(&d.length); s.data=fin(&s.length); int loc=in_i32(); out_i32(eml_vector_set(d,s,loc)); res_f(d.data,d.length); }
  else if (fn==1) { EmlVector d; d.data=fin(&d.length); float v=in_f32(); out_i32(eml_vector_set_value(d,v)); res_f(d.data,d.length); }
  else if (fn==2) { n=in_i32(); char *t=(char*)malloc(n+1); drv_in(t,n); t[n]=0; float *v=fbuf(&k); int32_t got=-1; out_i32(eml_test_parse_csv_line(t,v,k,&got)); out_i32(got); res_f(v,k); }
  else if (fn==3) { EmlIIR f; f.n_stages=in_i32(); int sf=in_i32(), cf=in_i32(); f.states_length=in_i32(); f.coefficients_length=in_i32(); float dummy[1]={0}; f.states=sf?dummy:NULL; f.coefficients=cf?dummy:NULL; out_i32(eml_iir_check(f)); }
  else if (fn==4) { EmlFFT t; t.length=in_i32(); n=in_i32(); t.sin=(float*)malloc(t.length?t.length*4:1); t.cos=(float*)malloc(t.length?t.length*4:1); out_i32(eml_fft_fill(t,n)); float *re=fbuf(&k); float *im=fbuf(&k); 
    for (int i=0;i<t.length;i++) { t.sin[i]=0.25f; t.cos[i]=0.5f; } for (int i=0;i<k;i++) { re[i]=(float)i; im[i]=1.0f; } out_i32(eml_fft_forward(t,re,im,k)); }
  else if (fn==5) { float *v=fin(&n); float mn=SENT,mx=SENT,ls=SENT; int e1=eml_minmax(v,n,&mn,&mx); int e2=eml_logsumexp(v,n,&ls); out_i32(e1); out_i32(e2); out_f32(mn); out_f32(mx); out_f32(ls); out_f32(eml_signal_mean(v,n)); out_i32(eml_net_argmax(v,n)); }
  else if (fn==6) { float *v=fbuf(&n); out_i32(eml_benchmark_fill(v,n)); res_f(v,n); }
  else if (fn==7) { n=in_i32(); eml_fixed32_t *v=(eml_fixed32_t*)in_block(n*4); out_i32(eml_argmax_fixed32(v,n)); }
  else if (fn==10) { EmlNeighborsModel q; memset(&q,0,sizeof(q)); q.n_features=in_i32(); q.n_items=in_i32(); q.max_items=in_i32(); q.k_neighbors=1; int a=in_i32(), b=in_i32(), d=in_i32(); out_i32(eml_neighbors_check(&q,a,b,d)); }
  else if (fn==8) { float *v=fin(&n); int e=eml_signal_hann_apply(v,n); out_i32(e); res_f(v,n); }
  else { EmlVector a; a.data=fin(&a.length); int s=in_i32(), e=in_i32(); EmlVector v=eml_vector_view(a,s,e); out_i32(v.length); res_f(v.data,v.length); }
}
static void errors(void) {
  static const int codes[] = {EmlOk, EmlSizeMismatch, EmlUnsupported, EmlUninitialized, EmlPostconditionFailed, EmlUnknownError};
  int fn=in_i32(); int c=in_i32(); 
  const char *s;
  if (fn==0) s = eml_error_str((EmlError)codes[c]); else s = eml_error_str((EmlError)c);
  out_i32((int)strlen(s)); drv_out(s, strlen(s));
  out_i32(EmlErrors); out_i32(eml_error_valid((EmlError)(fn==0?codes[c]:c)));
}
int main(void) {
  int n=in_i32();
  for (int i=0;i<n;i++) {
    int op=in_i32();
    switch (op) { case 1: net(); break; case 2: trees(); break; case 3: bayes(); break; case 4: ee(); break; case 5: mixture(); break; case 6: knn(); break; case 7: helper(); break; case 8: errors(); break; default: exit(77); }
  }
  drv_flush(); return 0;
}
'''


def build():
    return {'exe': vh.cc(DRIVER, 'r01')}


class Msg:
    def __init__(self, op):
        self.b = [struct.pack('<i', 1), struct.pack('<i', op)]

    def i(self, *v):
        self.b += [struct.pack('<i', int(x)) for x in v]
        return self

    def f(self, v):
        self.b.append(struct.pack('<f', v))
        return self

    def fin(self, a, ok=True):
        a = np.asarray(a, dtype='<f4').ravel()
        self.i(1 if ok else 0, len(a)).b.append(a.tobytes())
        return self

    def hin(self, a, ok=True):
        a = np.asarray(a, dtype='<i2').ravel()
        self.i(1 if ok else 0, len(a)).b.append(a.tobytes())
        return self

    def fbuf(self, n, ok=True):
        return self.i(1 if ok else 0, n)

    def raw(self, b):
        self.b.append(b)
        return self

    def run(self, ctx, what):
        try:
            return Out(vh.run_exe(ctx.shared['exe'], b''.join(self.b)))
        except vh.Crash as e:
            raise vh.Violation('%s: %s' % (what, e))


class Out:
    def __init__(self, b):
        self.b, self.p = b, 0

    def i(self):
        v, = struct.unpack_from('<i', self.b, self.p)
        self.p += 4
        return v

    def f(self):
        v, = struct.unpack_from('<f', self.b, self.p)
        self.p += 4
        return v

    def fs(self):
        n = self.i()
        a = np.frombuffer(self.b, dtype='<f4', count=n, offset=self.p)
        self.p += 4 * n
        return a

    def text(self):
        n = self.i()
        s = self.b[self.p:self.p + n]
        self.p += n
        return s.decode('latin1')


def off(n):
    """A length: mostly the right one."""
    return st.one_of(*[st.just(0)] * 6, st.integers(-3, 3), st.just(-n), st.integers(-n, n))


PRESENT = st.sampled_from([1] * 15 + [0])


def length(n, d):
    return max(n + d, 0)


# ------------------------------------------------------------------ networks

@st.composite
def net_case(draw):
    nl = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 1, 0]))
    sizes = draw(st.lists(st.integers(1, 6), min_size=nl + 1, max_size=nl + 1))
    acts = [draw(st.sampled_from([0, 1, 2, 4, 3, 9 if draw(st.integers(0, 5)) == 0 else 1])) for _ in range(nl)]
    if nl and draw(st.booleans()):
        acts[-1] = 2 if sizes[-1] == 1 else 3
    return {'sizes': sizes, 'acts': acts, 'seed': draw(st.integers(0, 9999)), 'bad_weights': draw(st.sampled_from([None] * 12 + [0, 1, 2])), 'layers': draw(PRESENT),
            'act_off': draw(st.sampled_from([0, 0, 0, 0, 0, 1, 3, -1, -2])), 'a1': draw(PRESENT), 'a2': draw(PRESENT), 'fn': draw(st.integers(0, 3)),
            'x': draw(PRESENT), 'x_off': draw(off(sizes[0])), 'out': draw(PRESENT), 'out_off': draw(off(2))}


def net_body(c, ctx):
    rng = np.random.RandomState(c['seed'])
    sizes, acts = c['sizes'], c['acts']
    nl = len(acts)
    m = Msg(1).i(nl)
    w_ok = True
    for l in range(nl):
        ni, no = sizes[l], sizes[l + 1]
        bad = c['bad_weights'] is not None and c['bad_weights'] % 3 == l
        m.i(ni, no, acts[l]).fin(rng.normal(size=(ni, no)) * .5, ok=not (bad and c['seed'] % 2)).fin(rng.normal(size=no), ok=not (bad and not c['seed'] % 2))
        w_ok = w_ok and not bad
    largest = max(sizes) if nl else 1
    al = max(largest + c['act_off'], 0)
    nx = length(sizes[0], c['x_off'])
    n_out = (sizes[-1] if nl else 1)
    n_proba = 2 if n_out == 1 else n_out
    want_out = n_proba if c['fn'] == 1 else n_out
    no = length(want_out, c['out_off'])
    fn = c['fn']
    m.i(c['layers']).fbuf(al, c['a1']).fbuf(al, c['a2']).i(fn).fin(rng.normal(size=nx), ok=c['x']).fbuf(no, c['out'])
    o = m.run(ctx, 'network call')
    r, v, out = o.i(), o.f(), o.fs()
    ok = bool(nl >= 2 and w_ok and c['layers'] and c['a1'] and c['a2'] and al >= largest and c['x'] and nx == sizes[0] and all(a in (0, 1, 2, 3, 4) for a in acts))
    if fn in (1, 2):
        ok = ok and bool(c['out']) and no == want_out
    if fn == 3:
        ok = ok and n_out == 1
    name = ['eml_net_predict', 'eml_net_predict_proba', 'eml_net_regress', 'eml_net_regress1'][fn]
    if ok:
        if fn == 0:
            check(0 <= r < max(n_out, 2), '%s of a valid call: %d', name, r)
        elif fn == 1:
            proba_layer = acts[-1] == 2 if n_out == 1 else acts[-1] == 3
            if proba_layer:
                check(r == 0 and abs(out.sum() - 1) < 1e-3, '%s of a valid call: error %d, output %s', name, r, out)
            elif r == 0:
                check(abs(out.sum() - 1) < 2e-3, '%s: success with probabilities that sum to %s', name, out.sum())
        elif fn == 2:
            check(r == 0 and np.isfinite(out).all() and not (out == 12345.5).any(), '%s of a valid call: error %d, output %s', name, r, out)
        else:
            check(math.isfinite(v), '%s of a valid call: %s', name, v)
    else:
        if fn == 0:
            check(r < 0, '%s of an invalid call gives class %d', name, r)
        elif fn == 3:
            check(math.isnan(v), '%s of an invalid call gives %s', name, v)
        else:
            check(r != 0, '%s of an invalid call reports success', name)
    ctx.compared(1)
    ctx.label('net ' + ('valid' if ok else 'refused'))
    ctx.nontriv()


# ------------------------------------------------------------------ trees

@st.composite
def trees_case(draw):
    nf = draw(st.one_of(st.integers(1, 5), st.just(127)))
    return {'nf': nf, 'nodes': draw(st.integers(1, 12)), 'trees': draw(st.integers(1, 4)), 'bits': draw(st.sampled_from([0, 0, 8, 8, 32, 32, 5, 16])),
            'classes': draw(st.sampled_from([1, 2, 3, 5, 30, 31, 100])), 'seed': draw(st.integers(0, 9999)), 'mis': draw(st.integers(0, 3)), 'fn': draw(st.integers(0, 3)),
            'x': draw(PRESENT), 'x_off': draw(st.one_of(st.just(0), st.just(0), st.integers(-3, 3), st.just(-nf), st.integers(-nf, 0))), 'out': draw(PRESENT), 'out_off': draw(off(3))}


def trees_body(c, ctx):
    rng = np.random.RandomState(c['seed'])
    nf, bits, nc, fn = c['nf'], c['bits'], c['classes'], c['fn']
    if bits == 32:
        nc = 0
    n_leaves = rng.randint(1, 6)
    nodes, roots = [], []
    for t in range(c['trees']):
        base, k = len(nodes), rng.randint(1, c['nodes'] + 1)
        roots.append(base)
        # children after parents: a chain of decision nodes with leaves, and some skips
        for i in range(k):
            ch = []
            for s in range(2):
                if i + 1 < k and rng.randint(3):
                    ch.append(rng.randint(1, k - i))
                else:
                    ch.append(-1 - rng.randint(n_leaves))
            nodes.append((rng.randint(nf), rng.randint(-50, 50), ch[0], ch[1]))
    if bits == 32:
        vals = rng.normal(size=n_leaves).astype('<f4')
        leaves = vals.tobytes()
    elif bits == 0:
        leaves = bytes(rng.randint(0, nc, size=n_leaves).astype(np.uint8).tolist())
    else:
        leaves = bytes(rng.randint(0, 256, size=n_leaves * nc).astype(np.uint8).tolist())
    nx = min(length(nf, c['x_off']), 127)
    x = rng.randint(-60, 60, size=nx)
    want_out = 1 if fn == 2 else nc
    no = length(want_out, c['out_off'])
    m = Msg(2).i(len(nodes))
    for n in nodes:
        m.i(*n)
    m.i(len(roots)).raw(np.array(roots, dtype='<i4').tobytes()).i(c['mis'], len(leaves)).raw(leaves).i(bits, nf, nc, fn).hin(x, ok=c['x']).fbuf(no, c['out'])
    o = m.run(ctx, 'tree call')
    r, v, out = o.i(), o.f(), o.fs()
    ok = bool(c['x']) and nx == nf
    if fn in (0, 1):
        ok = ok and bits in (0, 8)
        if fn == 0:
            ok = ok and nc <= 30
        else:
            ok = ok and bool(c['out']) and no == nc
    else:
        ok = ok and bits == 32
        if fn == 2:
            ok = ok and bool(c['out']) and no >= 1

    def leaf(root):
        i = root
        while True:
            f, t, l, rr = nodes[i]
            ch = l if x[f] < t else rr
            if ch < 0:
                return -ch - 1
            i += ch
    name = ['eml_trees_predict', 'eml_trees_predict_proba', 'eml_trees_regress', 'eml_trees_regress1'][fn]
    if ok:
        reached = [leaf(q) for q in roots]
        if fn in (2, 3):
            want = float(np.mean(vals[reached].astype(float)))
            got = float(out[0]) if fn == 2 else v
            check(r == 0 and abs(got - want) < 1e-5, '%s of a valid call: error %d value %s expected %s', name, r, got, want)
            if fn == 2:
                check((out[1:] == 12345.5).all(), '%s wrote outputs beyond the first', name)
        else:
            p = np.zeros(nc)
            for q in reached:
                if bits == 0:
                    p[leaves[q]] += 1
                else:
                    p += np.frombuffer(leaves, dtype=np.uint8)[q * nc:(q + 1) * nc] / 255.
            if fn == 1:
                check(r == 0 and np.abs(out - p / len(roots)).max() < 1e-5, '%s of a valid call: error %d, %s expected %s', name, r, out[:6], (p / len(roots))[:6])
            else:
                check(0 <= r < nc and p[r] >= p.max() - 1e-4, '%s of a valid call: class %d of votes %s', name, r, p[:8])
    else:
        if fn == 0:
            check(r < 0, '%s of an invalid call gives class %d', name, r)
        elif fn == 3:
            check(math.isnan(v), '%s of an invalid call gives %s', name, v)
        else:
            check(r != 0, '%s of an invalid call reports success', name)
    ctx.compared(1)
    ctx.label('trees ' + ('valid' if ok else 'refused'))
    ctx.nontriv()


# ------------------------------------------------------------------ other models

@st.composite
def model_case(draw):
    nf = draw(st.integers(1, 6))
    return {'kind': draw(st.sampled_from(['bayes', 'ee', 'mixture', 'mixture', 'knn', 'knn'])), 'nf': nf, 'n': draw(st.integers(1, 6)), 'seed': draw(st.integers(0, 9999)),
            'model': draw(PRESENT), 'x': draw(PRESENT), 'x_off': draw(off(nf)), 'out': draw(PRESENT), 'out2': draw(PRESENT), 'out3': draw(PRESENT), 'fn': draw(st.integers(0, 2)),
            'cov': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3])), 'k': draw(st.integers(1, 7)), 'd_off': draw(st.sampled_from([0, 0, 0, 1, -1, -2])), 'cap_off': draw(st.integers(0, 3)),
            'empty': draw(st.sampled_from([0, 0, 0, 0, 0, 1]))}


def model_body(c, ctx):
    rng = np.random.RandomState(c['seed'])
    nf, n = c['nf'], c['n']
    nx = length(nf, c['x_off'])
    fits = bool(c['x']) and nx == nf
    x = rng.randint(-50, 50, size=nx)
    k = c['kind']
    if k == 'bayes':
        s = np.stack([rng.randint(-50 * 65536, 50 * 65536, size=n * nf), rng.randint(65536 // 2, 65536 * 20, size=n * nf), rng.randint(-65536, 65536 * 4, size=n * nf)], axis=1).astype('<i4')
        r = Msg(3).i(n, nf).raw(s.tobytes()).i(c['model']).fin(x, ok=c['x']).run(ctx, 'eml_bayes_predict').i()
        ok = fits and c['model'] and n >= 2
        check((0 <= r < n) if ok else r < 0, 'eml_bayes_predict of %s call gives %d (%d classes)', 'a valid' if ok else 'an invalid', r, n)
    elif k == 'ee':
        mean, A = rng.normal(size=nf), rng.normal(size=(nf, nf))
        P = A @ A.T + np.eye(nf)
        b = -float(rng.uniform(1, 3000))
        o = Msg(4).i(nf).f(b).fin(mean).fin(P).fin(x, ok=c['x']).fbuf(1, c['out']).run(ctx, 'eml_elliptic_envelope_predict')
        r, out = o.i(), o.fs()
        ok = fits
        if ok:
            d = float((x - mean) @ P @ (x - mean))
            check(r in (0, 1), 'eml_elliptic_envelope_predict of a valid call: %d', r)
            if abs(-d - b) > 1e-4 * (abs(d) + 1):
                check(r == (1 if -d < b else 0), 'eml_elliptic_envelope_predict: %d at distance %s boundary %s', r, d, b)
            if c['out']:
                check(abs(out[0] - d) <= 1e-4 * (abs(d) + 1), 'distance %s expected %s', out[0], d)
        else:
            check(r < 0, 'eml_elliptic_envelope_predict of an invalid call: %d', r)
    elif k == 'mixture':
        cov = c['cov']
        nprec = [n * nf * nf, nf * nf, n * nf, n][cov]
        nn = 0 if c['empty'] else n
        o = Msg(5).i(nn, nf, cov).fin(rng.normal(size=n * nf)).fin(rng.normal(size=nprec) * .1).fin(rng.normal(size=n)).fin(rng.normal(size=n)).i(c['model'], c['fn']) \
            .fin(x, ok=c['x']).fbuf(n, c['out']).fbuf(1, c['out2']).fbuf(n, c['out3']).run(ctx, 'mixture function')
        r, p, s, q = o.i(), o.fs(), o.fs(), o.fs()
        fn = c['fn']
        name = ['eml_mixture_predict_log_proba', 'eml_mixture_score', 'eml_mixture_predict_proba'][fn]
        ok = fits and cov == 0 and c['model'] and nn and c['out'] and (fn == 0 or c['out2']) and (fn < 2 or c['out3'])
        check((r == 0) == bool(ok), '%s of %s call returns %d', name, 'a valid' if ok else 'an invalid', r)
        if ok:
            check(np.isfinite(p).all() and not (p == 12345.5).any(), '%s leaves outputs unset: %s', name, p)
            if fn == 2:
                check(abs(q.sum() - 1) < 1e-3, '%s: responsibilities %s', name, q)
    else:
        cap = n + c['cap_off']
        ni = 0 if c['empty'] else n
        data = rng.randint(-100, 100, size=(cap, nf))
        labels = rng.randint(0, 10, size=cap)
        dl = max(ni + c['d_off'], 0)
        o = Msg(6).i(nf, ni, cap, c['k']).hin(data).hin(labels).hin(x, ok=c['x']).i(c['out2'], dl, c['out']).run(ctx, 'eml_neighbors_predict')
        r, lab = o.i(), o.i()
        ok = fits and c['out2'] and dl >= ni and c['out'] and c['k'] <= ni
        check((r == 0) == bool(ok), 'eml_neighbors_predict of %s call (k=%d items=%d distances=%d) returns %d', 'a valid' if ok else 'an invalid', c['k'], ni, dl, r)
        if ok:
            check(lab in labels[:ni], 'label %d is not one of the stored %s', lab, labels[:ni])
        elif c['out']:
            check(lab == -12345, 'refused call gives label %d', lab)
    ctx.compared(1)
    ctx.label(k + (' valid' if ok else ' refused'))
    ctx.nontriv()


# ------------------------------------------------------------------ helpers

INT = st.one_of(st.integers(-4, 12), st.sampled_from([2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1]))


@st.composite
def helper_case(draw):
    fn = draw(st.integers(0, 10))
    c = {'fn': fn, 'seed': draw(st.integers(0, 9999)), 'n': draw(st.integers(1, 12))}
    if fn == 0:
        c.update(d=draw(st.integers(0, 8)), s=draw(st.integers(0, 8)), loc=draw(INT))
    elif fn == 2:
        c.update(vals=draw(st.lists(st.one_of(st.integers(-10**6, 10**6).map(float), st.floats(-1e4, 1e4, width=32, allow_nan=False)), min_size=0, max_size=8)), sep=draw(st.sampled_from([',', ';'])), room=draw(st.integers(0, 8)), nl=draw(st.booleans()))
    elif fn == 3:
        c.update(stages=draw(st.integers(-1, 4)), s=draw(PRESENT), c=draw(PRESENT), so=draw(st.sampled_from([0, 0, 0, 1, -1, 4])), co=draw(st.sampled_from([0, 0, 0, 1, -1, 6])))
    elif fn == 4:
        c.update(table=draw(st.sampled_from([0, 1, 2, 4, 8, 3])), fill=draw(st.sampled_from([0, 1, 2, 3, 4, 8, 16, 6, 5])), fft=draw(st.sampled_from([0, 1, 2, 3, 4, 8, 16, 6, 5, 7])))
    elif fn == 10:
        off = st.sampled_from([0, 0, 0, 1, 5, -1, -1, -4, -300])
        cap = draw(st.sampled_from([1, 2, 7, 50, 400, 5000, 32767]))
        c.update(cap=cap, items=draw(st.one_of(st.just(0), st.just(cap), st.integers(0, cap))), nf=draw(st.sampled_from([1, 2, 3, 9, 100, 700])), do=draw(off), lo=draw(off), so=draw(off))
    elif fn == 9:
        a = draw(st.integers(0, c['n']))
        c.update(a=a, b=draw(st.integers(a, c['n'])))
    return c


def helper_body(c, ctx):
    rng = np.random.RandomState(c['seed'])
    fn, n = c['fn'], c['n']
    m = Msg(7).i(fn)
    if fn == 0:
        d, s = rng.normal(size=c['d']).astype('<f4'), rng.normal(size=c['s']).astype('<f4')
        o = m.fin(d).fin(s).i(c['loc']).run(ctx, 'eml_vector_set')
        r, got = o.i(), o.fs()
        ok = c['loc'] >= 0 and c['loc'] + len(s) <= len(d)
        want = d.copy()
        if ok:
            want[c['loc']:c['loc'] + len(s)] = s
        check((r == 0) == ok, 'eml_vector_set(%d values, %d values, %d) returns %d', len(d), len(s), c['loc'], r)
        check((got == want).all(), 'eml_vector_set(%d values, %d values, %d): %s expected %s', len(d), len(s), c['loc'], got, want)
    elif fn == 1:
        v = float(np.float32(rng.normal()))
        o = m.fin(rng.normal(size=n)).f(v).run(ctx, 'eml_vector_set_value')
        check(o.i() == 0 and (o.fs() == np.float32(v)).all(), 'eml_vector_set_value does not set the values')
    elif fn == 2:
        txt = c['sep'].join(repr(float(np.float32(v))) for v in c['vals']) + ('\n' if c['nl'] and c['vals'] else '')
        t = txt.encode()
        o = m.i(len(t)).raw(t).fbuf(c['room']).run(ctx, 'eml_test_parse_csv_line')
        r, got, v = o.i(), o.i(), o.fs()
        ok = len(c['vals']) <= c['room']
        check((r == 0) == ok, 'eml_test_parse_csv_line of %r with room for %d returns %d', txt, c['room'], r)
        if ok:
            check(got == len(c['vals']), 'eml_test_parse_csv_line of %r: %d values', txt, got)
            check((v[:got] == np.array(c['vals'], dtype=np.float32)).all() and (v[got:] == 12345.5).all(), 'eml_test_parse_csv_line of %r: %s', txt, v)
    elif fn == 3:
        ns = c['stages']
        r = m.i(ns, c['s'], c['c'], max(ns, 0) * 4 + c['so'], max(ns, 0) * 6 + c['co']).run(ctx, 'eml_iir_check').i()
        ok = ns >= 1 and c['s'] and c['c'] and c['so'] == 0 and c['co'] == 0
        check((r == 0) == bool(ok), 'eml_iir_check %s returns %d', c, r)
    elif fn == 4:
        o = m.i(c['table'], c['fill']).fbuf(c['fft']).fbuf(c['fft']).run(ctx, 'FFT')
        r, q = o.i(), o.i()
        check((r == 0) == (c['table'] == c['fill'] // 2), 'eml_fft_fill(table of %d, n=%d) returns %d', c['table'], c['fill'], r)
        n = c['fft']
        ok = n >= 1 and (n & (n - 1)) == 0 and c['table'] == n // 2
        check((q == 0) == ok, 'eml_fft_forward(table of %d, n=%d) returns %d', c['table'], n, q)
    elif fn == 5:
        v = (rng.normal(size=n) * rng.choice([1, 10, 60])).astype('<f4')
        o = m.fin(v).run(ctx, 'eml_minmax/eml_logsumexp')
        e1, e2, mn, mx, ls, mean, am = o.i(), o.i(), o.f(), o.f(), o.f(), o.f(), o.i()
        from scipy.special import logsumexp
        check(e1 == 0 and mn == v.min() and mx == v.max(), 'eml_minmax of %s: %d %s %s', v, e1, mn, mx)
        w = float(logsumexp(v.astype(float)))
        check(e2 == 0 and abs(ls - w) <= 1e-5 * (abs(w) + 10), 'eml_logsumexp of %s: %d %s expected %s', v, e2, ls, w)
        check(abs(mean - v.astype(float).mean()) <= 1e-5 * (np.abs(v).max() + 1), 'eml_signal_mean of %s: %s', v, mean)
        check(0 <= am < n and v[am] == v.max(), 'eml_net_argmax of %s: %d', v, am)
    elif fn == 10:
        lens = [int(np.clip(w + c[k], 0, 32767)) for w, k in ((c['cap'] * c['nf'], 'do'), (c['cap'], 'lo'), (c['cap'], 'so'))]
        r = m.i(c['nf'], c['items'], c['cap'], *lens).run(ctx, 'eml_neighbors_check').i()
        ok = lens[0] >= c['cap'] * c['nf'] and lens[1] >= c['cap'] and lens[2] >= c['cap']
        check((r == 0) == ok, 'eml_neighbors_check for %d items of %d features (%d stored) with room for %s data, label and distance values returns %d', c['cap'], c['nf'], c['items'], lens, r)
        ctx.label('neighbors check ' + ('ok' if ok else 'refused'))
    elif fn == 6:
        o = m.fbuf(n).run(ctx, 'eml_benchmark_fill')
        r, v = o.i(), o.fs()
        check(r == 0 and np.isfinite(v).all() and not (v == 12345.5).any(), 'eml_benchmark_fill: %d %s', r, v)
    elif fn == 7:
        v = rng.randint(-2**31, 2**31, size=n) if c['seed'] % 2 else rng.randint(-2, 3, size=n)
        r = m.i(n).raw(v.astype('<i4').tobytes()).run(ctx, 'eml_argmax_fixed32').i()
        check(0 <= r < n and v[r] == v.max(), 'eml_argmax_fixed32 of %s: %d', v.tolist(), r)
    elif fn == 8:
        v = rng.normal(size=n).astype('<f4')
        o = m.fin(v).run(ctx, 'eml_signal_hann_apply')
        r, got = o.i(), o.fs()
        w = v * (0.5 * (1 - np.cos(2 * np.pi * np.arange(n) / (n - 1))) if n > 1 else 1)
        check(r == 0 and np.abs(got - w).max() < 1e-5, 'eml_signal_hann_apply: %s expected %s', got, w)
    else:
        v = rng.normal(size=n).astype('<f4')
        o = m.fin(v).i(c['a'], c['b']).run(ctx, 'eml_vector_view')
        ln, got = o.i(), o.fs()
        check(ln == c['b'] - c['a'] and (got == v[c['a']:c['b']]).all(), 'eml_vector_view(%d, %d): %s', c['a'], c['b'], got)
    ctx.compared(1)
    ctx.label('helper %d' % fn)
    ctx.nontriv()


# ------------------------------------------------------------------ error descriptions

NAMES = ['ok', 'sizemismatch', 'unsupported', 'uninitialized', 'postconditionfailed', 'unknownerror']


def error_body(c, ctx):
    o = Msg(8).i(c['fn'], c['code']).run(ctx, 'eml_error_str')
    s, n, valid = o.text(), o.i(), o.i()
    norm = ''.join(ch for ch in s.lower() if ch.isalnum())
    if c['fn'] == 0:
        check(valid, 'error code %d is not valid', c['code'])
        want = NAMES[c['code']]
        check(want in norm and not any(w in norm for w in NAMES[1:] if w != want), 'description of %s is %r', want, s)
    elif not 0 <= c['code'] < n:
        check(not valid and norm not in NAMES and len(s) > 0, 'description of invalid code %d: %r', c['code'], s)
    ctx.compared(1)
    ctx.nontriv()


# ------------------------------------------------------------------ generated code

@st.composite
def gen_case(draw):
    kind = draw(st.sampled_from(['tree-clf', 'tree-clf', 'tree-reg', 'net-inline', 'net-loadable', 'net-regress', 'bayes', 'mixture', 'ee']))
    c = {'kind': kind, 'dx': draw(st.lists(st.integers(-3, 4), min_size=1, max_size=4)), 'dout': draw(st.lists(st.integers(-3, 4), min_size=1, max_size=3)), 'seed': draw(st.integers(0, 9999))}
    if kind.startswith('tree'):
        c['method'] = draw(st.sampled_from(['inline', 'inline', 'loadable']))
        dt = ['int16_t'] if c['method'] == 'loadable' else ['int16_t', 'float', 'int8_t', 'int32_t']
        c['forest'] = draw(tl.forest_case('clf' if kind == 'tree-clf' else 'reg', dtypes=dt, max_features=5, max_nodes=6, max_trees=3, leaf=st.integers(-50, 50).map(float)))
        c['bits'] = draw(st.sampled_from([0, 0, 8, 3]))
    else:
        c.update(nf=draw(st.integers(1, 5)), n=draw(st.integers(2, 4)))
    return c


def gen_body(c, ctx):
    import emlearn
    kind = c['kind']
    rng = np.random.RandomState(c['seed'])
    ctype, dtype = 'float', '<f4'
    calls = []       # (declared result, C call with L features and M outputs, right M)
    with ctx.sut('convert/save of ' + kind):
        if kind.startswith('tree'):
            f = c['forest']
            est = tl.make_estimator(f)
            kw = {'leaf_bits': c['bits']} if kind == 'tree-clf' else {}
            nf, ctype = f['n_features'], f['dtype']
            dtype = tl.NP_DT[f['dtype']]
            code = emlearn.convert(est, method=c['method'], dtype=f['dtype'], **kw).save(name='mod')
            if kind == 'tree-clf':
                calls = [('class', 'mod_predict(x, L)', None, f['n_classes']), ('proba', 'mod_predict_proba(x, L, o, M)', f['n_classes'], None)]
            else:
                calls = [('value', 'mod_predict(x, L)', None, None)]
        else:
            nf, n = c['nf'], c['n']
            X = rng.normal(size=(30, nf))
            y = np.arange(30) % n
            if kind.startswith('net'):
                from sklearn.neural_network import MLPClassifier, MLPRegressor
                if kind == 'net-regress':
                    est = MLPRegressor(hidden_layer_sizes=(4,), max_iter=2, random_state=0).fit(X, rng.normal(size=(30, n)))
                else:
                    est = MLPClassifier(hidden_layer_sizes=(4, 3), max_iter=2, random_state=0).fit(X, y)
                code = emlearn.convert(est, method='inline' if kind == 'net-inline' else 'loadable', return_type='regressor' if kind == 'net-regress' else 'classifier').save(name='mod')
                calls = [('err', 'mod_regress(x, L, o, M)', n, None)] if kind == 'net-regress' else [('class', 'mod_predict(x, L)', None, n)]
            elif kind == 'bayes':
                from sklearn.naive_bayes import GaussianNB
                code = emlearn.convert(GaussianNB().fit(X, y)).save(name='mod')
                calls = [('class', 'mod_predict(x, L)', None, n)]
            elif kind == 'mixture':
                from sklearn.mixture import GaussianMixture
                code = emlearn.convert(GaussianMixture(n, random_state=0, reg_covar=1e-2).fit(X)).save(name='mod')
                calls = [('err', 'mod_score(x, L, o, &s)', -n, None), ('err', 'mod_predict_proba(x, L, o, &s, o2)', -n, None), ('err', 'mod_predict_log_proba(x, L, o)', -n, None)]
            else:
                from sklearn.covariance import EllipticEnvelope
                code = emlearn.convert(EllipticEnvelope(random_state=0, support_fraction=1.0).fit(X)).save(name='mod')
                calls = [('value', 'mod_predict(x, L)', None, None)]
    # every call at the right and at some wrong lengths, each in buffers of exactly that length
    plan = []
    for res, call, mout, nc in calls:
        for dx in [0] + c['dx']:
            L = max(nf + dx, 0)
            if c['kind'].startswith('tree') and c['method'] == 'loadable':
                L = min(L, 127)
            for do in ([0] + c['dout'] if mout is not None and mout > 0 else [0]):
                M = max((abs(mout) if mout else 0) + do, 0)
                plan.append((res, call, L, M, L == nf and (mout is None or M == abs(mout)), nc))
    body = []
    for res, call, L, M, ok, nc in plan:
        rtype = 'float' if res == 'value' else 'int'
        body.append('{ const int L=%d, M=%d; %s *x=(%s*)malloc(L?L*sizeof(%s):1); for (int i=0;i<L;i++) x[i]=(%s)(i%%7-3); float *o=(float*)malloc(M?M*4:1); float *o2=(float*)malloc(M?M*4:1); float s=0; (void)s; for (int i=0;i<M;i++) { o[i]=NAN; o2[i]=NAN; } '
                    '%s r=%s; out_f32((float)r); free(x); free(o); free(o2); }' % (L, M, ctype, ctype, ctype, ctype, rtype, call))
    src = '#include "drv.h"\n#include <math.h>\n%s\nint main(void) {\n%s\ndrv_flush(); return 0; }' % (code, '\n'.join(body))
    d = vh.fresh_dir('g')
    try:
        try:
            exe = vh.cc(src, out_dir=d, opt='-O0')
        except vh.CompileError as e:
            raise vh.Violation('generated %s code does not compile: %s' % (kind, str(e)[:600]))
        try:
            out = np.frombuffer(vh.run_exe(exe), dtype='<f4')
        except vh.Crash as e:
            raise vh.Violation('generated %s code: %s' % (kind, e))
    finally:
        vh.rm(d)
    check(len(out) == len(plan), 'driver gave %d results', len(out))
    for (res, call, L, M, ok, nc), r in zip(plan, out):
        where = '%s code: %s with L=%d M=%d (model: %d features)' % (kind, call, L, M, nf)
        if res == 'class':
            check((0 <= r < nc) if ok else r < 0, '%s returns %s', where, r)
        elif res == 'value':
            check(np.isfinite(r) if ok else np.isnan(r), '%s returns %s', where, r)
        else:
            check((r == 0) == ok, '%s returns %s', where, r)
        ctx.compared(1)
    ctx.label('generated ' + kind)
    ctx.nontriv(any(not p[4] for p in plan))


SUBTESTS = [
    Sub('net', net_case, net_body, quick=3000),
    Sub('trees', trees_case, trees_body, quick=3000),
    Sub('models', model_case, model_body, quick=4000),
    Sub('helpers', helper_case, helper_body, quick=2500),
    Sub('errors', lambda: st.fixed_dictionaries({'fn': st.sampled_from([0, 0, 1]), 'code': st.integers(0, 5)}).flatmap(
        lambda c: st.just(c) if c['fn'] == 0 else st.one_of(st.integers(-5, 40), st.sampled_from([2**31 - 1, -2**31])).map(lambda v: {'fn': 1, 'code': v})), error_body, quick=150),
    Sub('generated', gen_case, gen_body, quick=120),
]
