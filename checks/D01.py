"""D01: CSV written by the device library reads back as what was written (round-trip, model of the format, faulty streams)."""
import struct
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'D01'
RULE = ('roundtrip: column names and rows of floats are written through a memory stream or a FILE, and read back through a stream that splits reads in a generated pattern, with generated buffer sizes; content: arbitrary text (rows with '
        'missing or extra columns, blank lines, no last newline, lines longer than the buffer, more columns than the caller has room for) is read and compared with a reference reader; faults: the n-th read, seek or write fails or is short. '
        'long: the round-trip on files over 65535 bytes, over 255 columns and names over 255 characters. Non-trivial: at least two rows were read back and compared, or a malformed line or an injected fault was reported as an error.')
ASSUMPTIONS = ['column names hold neither delimiter, newline nor NUL (the format has no quoting)',
               'nothing is read after the first error except where the call was refused before reading',
               'the tool is compiled with the default settings and with another delimiter, float format and float buffer size']

DRIVER = r'''
#include "drv.h"
#include <eml_csv.h>
#include <eml_fileio.h>
typedef struct { uint8_t *d; int len, cap, pos; int *chunks; int nchunks, ci; int fail_read, fail_seek, fail_write, short_write; int reads, seeks, writes, injected; FILE *f; } M;
static int m_read(void *c, uint8_t *b, size_t n) {
  M *m=(M*)c; m->reads++;
  if (m->fail_read && m->reads==m->fail_read) { m->injected++; return -1; }
  if (m->nchunks) { size_t k=m->chunks[m->ci++ % m->nchunks]; if (k<n) n=k; }
  if (m->f) return eml_fileio_read(m->f, b, n);
  if (m->pos>m->len) return 0;
  if ((size_t)(m->len-m->pos)<n) n=m->len-m->pos;
  if (n) memcpy(b, m->d+m->pos, n);
  m->pos+=n; return (int)n;
}
static int m_seek(void *c, size_t p) { M *m=(M*)c; m->seeks++; if (m->fail_seek && m->seeks==m->fail_seek) { m->injected++; return -1; } if (m->f) return eml_fileio_seek(m->f, p); m->pos=(int)p; return 0; }
static int m_write(void *c, const uint8_t *b, size_t n) {
  M *m=(M*)c; m->writes++;
  if (m->fail_write && m->writes==m->fail_write) { m->injected++; return -1; }
  if (m->short_write && m->writes==m->short_write && n>0) { m->injected++; n=n-1; }
  if (m->f) return eml_fileio_write(m->f, b, n);
  if (m->pos+(int)n>m->cap) { m->cap=2*(m->pos+(int)n)+64; m->d=(uint8_t*)realloc(m->d, m->cap); }
  if (n) memcpy(m->d+m->pos, b, n);
  m->pos+=n; if (m->pos>m->len) m->len=m->pos; return (int)n;
}
int main(void) {
  M m; memset(&m,0,sizeof(m));
  int usefile=in_i32();
  m.fail_read=in_i32(); m.fail_seek=in_i32(); m.fail_write=in_i32(); m.short_write=in_i32();
  m.nchunks=in_i32(); m.chunks=(int*)in_block(m.nchunks*4);
  if (usefile) m.f=tmpfile();
  int mode=in_i32();
  if (mode==0) { /* write */
    EmlCsvWriter w; memset(&w,0,sizeof(w)); w.write=m_write; w.seek=m_seek; w.stream=&m;
    int nc=in_i32(); const char **names=(const char**)malloc(sizeof(char*)*(nc?nc:1));
    for (int i=0;i<nc;i++) { int l=in_i32(); char *s=(char*)malloc(l+1); drv_in(s,l); s[l]=0; names[i]=s; }
    out_i32(eml_csv_writer_write_header(&w, names, nc)); out_i32(m.injected); out_i32(m.f ? (int)ftell(m.f) : m.len);
    int nr=in_i32();
    for (int r=0;r<nr;r++) { int k=in_i32(); float *v=in_f32s(k); out_i32(eml_csv_writer_write_data(&w, v, k)); out_i32(m.injected); out_i32(m.f ? (int)ftell(m.f) : m.len); free(v); }
    int len;
    if (m.f) { fflush(m.f); len=(int)ftell(m.f); rewind(m.f); uint8_t *b=(uint8_t*)malloc(len+1); len=fread(b,1,len,m.f); out_i32(len); drv_out(b,len); }
    else { len=m.len; out_i32(len); drv_out(m.d,len); }
  } else {
    m.len=in_i32(); m.d=(uint8_t*)in_block(m.len);
    if (m.f) { fwrite(m.d,1,m.len,m.f); rewind(m.f); }
  }
  if (in_i32()) { /* read */
    if (m.f) rewind(m.f);
    m.pos=0;
    EmlCsvReader r; memset(&r,0,sizeof(r)); r.read=m_read; r.seek=m_seek; r.stream=&m;
    int first=1;
    while (1) {
      int bl=in_i32(); if (bl<0) break;
      int cl=in_i32();
      char *buf=(char*)malloc(bl?bl:1); char **cols=(char**)malloc(sizeof(char*)*(cl?cl:1));
      for (int i=0;i<cl;i++) cols[i]=NULL;
      int ret = first ? (int)eml_csv_reader_read_header(&r, buf, bl, cols, cl) : eml_csv_reader_read_data(&r, buf, bl, cols, cl);
      int n = first ? (ret==0 ? (int)r.n_columns : 0) : (ret>0 ? ret : 0);
      out_i32(ret); out_i32(m.injected); out_i32(n);
      if (n>cl) { fprintf(stderr,"ERROR: more columns than the caller has room for\n"); drv_flush(); return 3; }
      for (int i=0;i<n;i++) { int off = (int)(cols[i]-buf); int l=(int)strlen(cols[i]); out_i32(off>=0 && off+l<bl); out_i32(l); drv_out(cols[i], l); }
      if (!first || ret==0) first=0;
      free(buf); free(cols);
      int bad = (ret<0) || (first && ret!=0);
      if (bad && !in_i32()) break; else if (!bad) (void)in_i32();
    }
  }
  drv_flush(); return 0;
}
'''
VARIANTS = {'plain': (',', '%.6f', 20, []), 'other': (';', '%.4e', 14, ['-DEML_CSV_DELIMITER=";"', '-DEML_CSV_FLOAT_FORMAT="%.4e"', '-DEML_CSV_FLOAT_MAXSIZE=14'])}


def build():
    return {k: vh.cc(DRIVER, 'csv_' + k, flags=v[3]) for k, v in VARIANTS.items()}


def head(case):
    ch = case['chunks']
    f = case.get('faults', [0, 0, 0, 0])
    return struct.pack('<i', case['file']) + struct.pack('<iiii', *f) + struct.pack('<i', len(ch)) + struct.pack('<%di' % len(ch), *ch)


class Rd:
    def __init__(self, data):
        self.d, self.p = data, 0

    def i(self):
        v, = struct.unpack_from('<i', self.d, self.p)
        self.p += 4
        return v

    def b(self, n):
        v = self.d[self.p:self.p + n]
        self.p += n
        return v


def run(case, ctx, data):
    try:
        return Rd(vh.run_exe(ctx.shared[case['variant']], data))
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)


def clean(name, delim):
    return name.replace(delim, '_').replace('\n', '|').replace('\0', '0').encode('utf8', 'surrogatepass')


def roundtrip(case, ctx):
    delim, fmt, maxsize, _ = VARIANTS[case['variant']]
    names = [clean(n, delim) for n in case['names']]
    nc = len(names)
    f32 = np.float32
    inp = [head(case), struct.pack('<ii', 0, nc)]
    for n in names:
        inp.append(struct.pack('<i', len(n)) + n)
    rows = []
    for r in case['rows']:
        k = max(nc + r[1], 0)
        v = [float(np.nan if r[0][i % len(r[0])] != r[0][i % len(r[0])] else f32(r[0][i % len(r[0])] if i < len(r[0]) else r[0][i % len(r[0])] + i)) for i in range(k)]
        rows.append(v)
    inp.append(struct.pack('<i', len(rows)))
    for v in rows:
        inp.append(struct.pack('<i', len(v)) + np.array(v, dtype='<f4').tobytes())
    # what must have been written
    dl = delim.encode()
    header = dl.join(names) + b'\n'
    lines, accepted = [], []
    for v in rows:
        txt = [(fmt % x).encode() for x in v]
        good = len(v) == nc and all(len(t) < maxsize for t in txt)
        accepted.append(good)
        if good:
            lines.append((dl.join(txt) + b'\n', txt))
    reads = [len(header) + case['slack']] + [len(l) + case['slack'] for l, _ in lines] + [40] * 2
    inp.append(struct.pack('<i', 1))
    for bl in reads:
        inp.append(struct.pack('<iii', bl, nc + case['room'], 0))
    inp.append(struct.pack('<i', -1))
    out = run(case, ctx, b''.join(inp))
    err, inj, at = out.i(), out.i(), out.i()
    faults = any(case.get('faults', [0] * 4)[2:])
    if inj:
        check(err != 0, 'header: the stream failed to write, but %d was returned', err)
        ctx.nontriv()
        return ctx.label('write fault')
    check(err == 0, 'header: returned %d', err)
    check(at == len(header), 'header: wrote %d bytes, expected %r', at, header)
    for k, v in enumerate(rows):
        err, inj2, at2 = out.i(), out.i(), out.i()
        if inj2 > inj:
            check(err != 0, 'row %d: the stream failed to write, but %d was returned', k, err)
            ctx.nontriv()
            return ctx.label('write fault')
        check((err == 0) == accepted[k], 'row %d %s for %d columns: returned %d, expected %s', k, v, nc, err, 'success' if accepted[k] else 'an error')
        if not accepted[k]:
            check(at2 == at, 'row %d was refused, but %d bytes were written', k, at2 - at)
            ctx.label('refused row')
        at = at2
    text = out.b(out.i())
    want = header + b''.join(l for l, _ in lines)
    check(text == want, 'written %r, expected %r', text[:300], want[:300])
    # and back
    for k in range(len(lines) + 3):
        ret, inj2, n = out.i(), out.i(), out.i()
        what = 'header' if k == 0 else 'row %d' % (k - 1)
        cols = []
        for _ in range(n):
            check(out.i() == 1, '%s: column outside of the buffer', what)
            cols.append(out.b(out.i()))
        if inj2 > inj and (ret < 0 or (k == 0 and ret != 0)):
            ctx.nontriv()
            return ctx.label('read fault')
        if k == 0:
            check(ret == 0 and cols == names, 'header read back as %r (returned %d), written %r', cols, ret, names)
        elif k <= len(lines):
            check(ret == nc and cols == lines[k - 1][1], '%s read back as %r (returned %d), written %r', what, cols, ret, lines[k - 1][1])
            acc = [float(t) for t in cols]
            orig = [v for v, g in zip(rows, accepted) if g][k - 1]
            for a, b in zip(acc, orig):
                if case['variant'] == 'plain' and b == b and abs(b) != np.inf:
                    check(abs(a - b) <= 5.0e-7 + 1e-12 + abs(b) * 1e-15, '%s: value %r read back as %r', what, b, a)
        else:
            check(ret == 0 and n == 0, 'after the last row: returned %d with %d columns', ret, n)
        check(inj2 == inj, '%s: a failed read or seek went unnoticed and gave %d', what, ret) if inj2 > inj and ret == 0 and 0 < k <= len(lines) else None
        ctx.compared()
    ctx.label('rows:%d' % min(len(lines), 8), 'file:%d' % case['file'], 'columns:%d' % min(nc, 8))
    ctx.nontriv(len(lines) >= 2)


def content(case, ctx):
    delim = VARIANTS[case['variant']][0].encode()
    text = b''
    for row in case['lines']:
        text += delim.join(clean(c, delim.decode()) for c in row) + b'\n'
    if case['cut'] and text:
        text = text[:-min(case['cut'], len(text))]
    inp = [head(case), struct.pack('<ii', 1, len(text)) + text, struct.pack('<i', 1)]
    steps = case['reads']
    for bl, cl in steps:
        inp.append(struct.pack('<ii', bl, cl))
        inp.append(struct.pack('<i', 1))        # continue, decided below by the model
    # the driver stops where the model says that the outcome ends the history
    loc, ncols, done, first = 0, None, 0, True
    model = []
    for bl, cl in steps:
        if not first and cl < ncols:
            model.append(('refused', None))
            continue
        part = text[loc:loc + bl]
        if not part:
            if bl == 0 and loc < len(text):
                model.append(('any', None))
                break
            model.append(('error', None) if first else ('eof', None))
            if first:
                break
            continue
        e = part.find(b'\n')
        if e < 0:
            model.append(('error', None))
            break
        cols = part[:e].split(delim)
        if len(cols) > cl or (not first and len(cols) != ncols):
            model.append(('error', None))
            break
        model.append(('row', cols))
        if first:
            ncols = len(cols)
        loc += e + 1
        first = False
    # rebuild the input: stop flags per step
    inp = inp[:3]
    for (bl, cl), m in zip(steps, model):
        inp.append(struct.pack('<iii', bl, cl, 1 if m[0] == 'refused' else 0))
    inp.append(struct.pack('<i', -1))
    inp[1] = struct.pack('<ii', 1, len(text)) + text
    out = run(case, ctx, b''.join(inp))
    inj = 0
    errors = rows = 0
    for k, m in enumerate(model):
        ret, inj2, n = out.i(), out.i(), out.i()
        cols = []
        for _ in range(n):
            check(out.i() == 1, 'call %d: column outside of the buffer', k)
            cols.append(out.b(out.i()))
        bad = ret < 0 or (k == 0 and ret != 0)
        what = 'call %d with a buffer of %d and room for %d columns on %r' % (k, steps[k][0], steps[k][1], text[:200])
        if inj2 > inj:
            check(bad, '%s: the stream failed, but %d was returned', what, ret) if m[0] != 'row' else None
            if bad:
                ctx.label('fault reported')
                ctx.nontriv()
                return
            inj = inj2
        if m[0] == 'any':
            return
        if m[0] in ('error', 'refused'):
            check(bad, '%s: returned %d (%r), expected an error', what, ret, cols)
            errors += 1
        elif m[0] == 'eof':
            check(ret == 0, '%s: returned %d, expected end of file', what, ret)
        else:
            check(not bad and cols == m[1] and (k == 0 or ret == len(m[1])), '%s: returned %d %r, expected %r', what, ret, cols, m[1])
            rows += 1
        ctx.compared()
    ctx.label('errors:%d' % errors, 'lines:%d' % min(rows, 6))
    ctx.nontriv(errors or rows >= 3)


NAME = st.one_of(st.text(st.characters(codec='ascii', exclude_characters='\0\n'), max_size=12), st.sampled_from(['time', 'x', '', ' ', 'a b', '"q"', '-1.5']), st.text(st.characters(exclude_categories=['Cs']), max_size=5))
FLT = st.one_of(st.floats(-1000, 1000, width=32), st.floats(width=32), st.sampled_from([0.0, -0.0, 1e12, -1e11, 99999.99, 1e-7, 123456789012.0, -99999995904.0]), st.integers(-10 ** 6, 10 ** 6).map(float))
CHUNKS = st.one_of(st.just([]), st.lists(st.integers(1, 9), min_size=1, max_size=5), st.just([1]))


@st.composite
def rt(draw, faults=False):
    nc = draw(st.integers(1, 8))
    names = draw(st.lists(NAME, min_size=nc, max_size=nc))
    rows = draw(st.lists(st.tuples(st.lists(FLT, min_size=1, max_size=nc), st.sampled_from([0] * 12 + [-1, 1])), max_size=8))
    c = {'variant': draw(st.sampled_from(['plain', 'plain', 'other'])), 'file': draw(st.sampled_from([0, 0, 0, 1])), 'chunks': draw(CHUNKS), 'names': names, 'rows': [list(r) for r in rows],
         'slack': draw(st.sampled_from([0, 0, 1, 5, 60, 300])), 'room': draw(st.sampled_from([0, 0, 1, 3]))}
    if faults:
        f = [0, 0, 0, 0]
        f[draw(st.integers(0, 3))] = draw(st.integers(1, 25))
        c['faults'] = f
    return c


@st.composite
def ct(draw):
    nc = draw(st.integers(1, 5))
    cell = st.one_of(st.text(st.sampled_from('ab01.-" '), max_size=6), st.just('1.5'), st.just(''), NAME)
    row = st.lists(cell, min_size=nc, max_size=nc) if draw(st.booleans()) else st.one_of(st.lists(cell, min_size=nc, max_size=nc), st.lists(cell, min_size=nc, max_size=nc), st.lists(cell, min_size=1, max_size=7), st.just(['']))
    lines = draw(st.lists(row, max_size=6))
    bl = st.one_of(st.just(200), st.just(200), st.integers(1, 40))
    cl = st.one_of(st.just(8), st.just(8), st.just(nc), st.integers(0, 8))
    reads = draw(st.lists(st.tuples(bl, cl), min_size=1, max_size=9))
    f = [0, 0, 0, 0]
    if draw(st.integers(0, 4)) == 0:
        f[draw(st.integers(0, 1))] = draw(st.integers(1, 8))
    return {'variant': draw(st.sampled_from(['plain', 'plain', 'other'])), 'file': draw(st.sampled_from([0, 0, 0, 1])), 'chunks': draw(CHUNKS), 'lines': lines, 'cut': draw(st.sampled_from([0, 0, 0, 1, 2, 5])),
            'reads': [list(r) for r in reads], 'faults': f}


def long_body(case, ctx):
    """Files, names and tables beyond what 8 and 16 bit counters reach: the round-trip on expanded data."""
    rng = np.random.RandomState(case['seed'])
    nc = case['columns']
    names = ['%s%d' % (case['stem'], i) for i in range(nc)]
    names[case['seed'] % nc] = case['stem'] + 'n' * case['name_length']
    rows = [[[float(v) for v in np.float32(rng.uniform(-1000, 1000, size=nc) * 10.0 ** rng.randint(-3, 4))], 0] for _ in range(case['rows'])]
    c = {k: case[k] for k in ('variant', 'file', 'chunks', 'slack', 'room')}
    c.update(names=names, rows=rows)
    roundtrip(c, ctx)
    ctx.label('long names' if case['name_length'] > 255 else 'short names', 'bytes>65535:%d' % (nc * case['rows'] * 9 > 65535), 'columns>255:%d' % (nc > 255))


def longs():
    shape = st.one_of(st.tuples(st.integers(1, 12), st.integers(200, 1500)), st.tuples(st.integers(120, 400), st.integers(1, 60)), st.tuples(st.integers(13, 100), st.integers(60, 200)))
    return shape.flatmap(lambda s: st.fixed_dictionaries({
        'columns': st.just(s[0]), 'rows': st.just(s[1]), 'seed': st.integers(0, 10 ** 6), 'stem': st.sampled_from(['c', 'a b', '']), 'name_length': st.sampled_from([0, 100, 128, 255, 256, 300, 1000]),
        'variant': st.sampled_from(['plain', 'plain', 'other']), 'file': st.sampled_from([0, 0, 1]), 'chunks': st.sampled_from([[], [], [7], [100, 1]]), 'slack': st.sampled_from([0, 1, 300]), 'room': st.sampled_from([0, 1])}))


SUBTESTS = [Sub('roundtrip', lambda: rt(), roundtrip, quick=1200), Sub('long', longs, long_body, quick=48), Sub('faults', lambda: rt(True), roundtrip, quick=500), Sub('content', lambda: ct(), content, quick=1600)]
