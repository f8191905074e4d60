"""Run generated C code row by row in a sanitized program."""
import struct
import numpy as np
import vh
from vh import check


def run(code, X, snippet, fields, what='generated code', pre='', dtype=np.float32, ctype='float', opt='-O0', cxx=False):
    """snippet: C statements that see `const <ctype> *x` (exact-size heap block) and `int nf`, and write the fields with out_*()."""
    src = '''#include "drv.h"
#include <math.h>
%s
%s
int main(void) {
  int n = in_i32(), nf = in_i32();
  for (int r=0; r<n; r++) {
    %s *x = (%s *)in_block(nf*sizeof(%s));
    %s
    free(x);
  }
  drv_flush();
  return 0;
}''' % (code, pre, ctype, ctype, ctype, snippet)
    d = vh.fresh_dir('r')
    try:
        try:
            exe = vh.cc(src, out_dir=d, opt=opt)
        except vh.CompileError as e:
            raise vh.Violation('%s does not compile: %s' % (what, str(e)[:700]))
        try:
            out = vh.run_exe(exe, struct.pack('<ii', X.shape[0], X.shape[1]) + np.ascontiguousarray(X, dtype=dtype).tobytes())
        except vh.Crash as e:
            raise vh.Violation('%s crashed: %s' % (what, e))
    finally:
        vh.rm(d)
    dt = np.dtype(fields)
    check(len(out) == len(X) * dt.itemsize, '%s gave %d bytes for %d rows', what, len(out), len(X))
    return np.frombuffer(out, dtype=dt)
