"""P01: generated C constants and arrays carry the exact values given."""
import struct
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'P01'
RULE = ('declarations: a case is up to 8 declarations (array, constant, struct, fixed-point array) with generated values; one program with all of them is compiled with the warning flags of the '
        'library and prints the stored bytes. identifiers: a case is one string. Non-trivial: at least one value needs more than 6 digits or is outside 0..100 / the string is not empty.')
ASSUMPTIONS = ['oracle: numpy casts to the C type; an own recogniser and keyword table for identifiers', 'floats are finite in single precision; integers fit the declared type']

FLAGS = ['-Wall', '-Wextra', '-Wno-unused-variable', '-Wno-unused-function', '-Wno-unused-parameter', '-Wno-unused-result', '-Werror', '-Wfloat-conversion', '-Wdouble-promotion']
NPT = {'float': '<f4', 'int': '<i4', 'int8_t': '<i1', 'int16_t': '<i2', 'int32_t': '<i4', 'uint8_t': '<u1', 'uint16_t': '<u2', 'uint32_t': '<u4', 'short int': '<i2', 'unsigned int': '<u4', 'int64_t': '<i8', 'uint64_t': '<u8'}


def container(values, how, dtype):
    if how == 'list':
        return list(values)
    if how == 'tuple':
        return tuple(values)
    if how == 'np64':
        return np.array(values, dtype=float if dtype == 'float' else np.uint64 if dtype == 'uint64_t' else np.int64)
    return np.array(values, dtype=NPT[dtype])


def decl_body(case, ctx):
    from emlearn import cgen
    from emlearn.fixedpoint import FixedPointFormat
    code, expect, prints = [], [], []
    nontriv = False
    for i, d in enumerate(case['decls']):
        kind, dtype, vals = d['kind'], d['dtype'], d['values']
        name = 'v%d_%s' % (i, d['suffix'])
        with ctx.sut('cgen %s' % kind):
            if kind == 'array':
                v = container(vals, d['how'], dtype)
                kw = {}
                if d['give_size']:
                    kw['size'] = len(vals)
                code.append(cgen.array_declare(name, dtype=dtype, modifiers=d['mod'], values=v, end=d['end'], indent=d['indent'], **kw))
                prints.append('drv_out(%s, sizeof(%s));' % (name, name))
                expect.append(('array %s' % dtype, np.array(vals, dtype=NPT[dtype]), v))
            elif kind == 'constant':
                code.append(cgen.constant_declare(name, container(vals[:1], d['how'], dtype)[0], dtype=dtype))
                prints.append('{ %s t = %s; drv_out(&t, sizeof(t)); }' % (dtype, name))
                expect.append(('constant %s' % dtype, np.array(vals[:1], dtype=NPT[dtype]), vals[:1]))
            elif kind == 'struct':
                arr = name + '_arr'
                v = container(vals, d['how'], dtype)
                code.append(cgen.array_declare(arr, dtype=dtype, values=v))
                code.append('typedef struct { int n; const %s *p; int m; } T_%s;' % (dtype, name))
                code.append(cgen.struct_declare(name, 'T_' + name, values=[len(vals), arr, -7], modifiers=d['mod']))
                prints.append('if (%s.n != %d || %s.m != -7) { fprintf(stderr, "struct fields"); exit(3); } drv_out(%s.p, sizeof(%s));' % (name, len(vals), name, name, arr))
                expect.append(('struct %s' % dtype, np.array(vals, dtype=NPT[dtype]), vals))
            elif kind == 'empty':
                code.append(cgen.array_declare(name, size=len(vals), dtype=dtype, modifiers='static'))
                prints.append('drv_out(%s, sizeof(%s));' % (name, name))
                expect.append(('uninitialised', np.zeros(len(vals), dtype=NPT[dtype]), None))
            else:
                fb = d['fb']
                lim = 2.0 ** (31 - fb)
                v = np.array([x % lim * (1 if k % 2 else -1) for k, x in enumerate(vals)])
                fmt = FixedPointFormat(integer_bits=31 - fb, fraction_bits=fb)
                code.append(cgen.array_declare_fixedpoint(name, fixedpoint=fmt, values=v, modifiers=d['mod']))
                prints.append('drv_out(%s, sizeof(%s));' % (name, name))
                expect.append(('fixed', v * 2.0 ** fb, v))
        nontriv |= any(abs(x) > 100 or (dtype == 'float' and '%.6f' % x != repr(float(x))) for x in vals)
    src = '#include "drv.h"\n#include <eml_common.h>\n#include <eml_fixedpoint.h>\n' + '\n'.join(code) + '\nint main(void) {\n' + '\n'.join(prints) + '\n drv_flush(); return 0; }\n'
    d = vh.fresh_dir('p')
    try:
        try:
            exe = vh.cc(src, out_dir=d, opt='-O0', san=False, flags=FLAGS)
        except vh.CompileError as e:
            raise vh.Violation('generated declarations do not compile: %s' % str(e)[:800])
        try:
            out = vh.run_exe(exe)
        except vh.Crash as e:
            raise vh.Violation('generated declarations: %s' % e)
    finally:
        vh.rm(d)
    pos = 0
    for what, want, given in expect:
        if what == 'fixed':
            got = np.frombuffer(out, '<i4', len(want), pos)
            pos += 4 * len(want)
            bad = np.nonzero(~(np.abs(got - want) < 1.0 + 1e-9))[0]
            check(len(bad) == 0, 'fixed-point value %s is stored as %s', np.asarray(given)[bad[:1]], got[bad[:1]])
        else:
            got = np.frombuffer(out, want.dtype, len(want), pos)
            pos += want.nbytes
            bad = np.nonzero(got != want)[0]
            check(len(bad) == 0, '%s: value %r is stored as %r', what, want[bad[:1]], got[bad[:1]])
        ctx.compared(len(want))
        ctx.label(what)
    check(pos == len(out), 'sizes of the declared objects differ')
    ctx.nontriv(nontriv)


FLOATS = st.one_of(st.floats(-10, 10), st.floats(width=32, allow_nan=False, allow_infinity=False), st.sampled_from([0.1, 1e-7, -1e-7, 1e-38, 1e-45, 3.4028234e38, -3.4028234e38, 16777217.0, 123456.789, 1e10, 0.0, 1.0, 5e-324]),
                   st.integers(-1000000, 1000000).map(float), st.floats(-3e38, 3e38))


@st.composite
def decl(draw):
    kind = draw(st.sampled_from(['array', 'array', 'array', 'constant', 'struct', 'empty', 'fixed']))
    dtype = 'float' if kind == 'fixed' else draw(st.sampled_from(['float', 'float', 'float'] + sorted(NPT)))
    if kind == 'fixed':
        v = st.floats(0, 1e6)
    elif dtype == 'float':
        v = FLOATS
    else:
        ii = np.iinfo(NPT[dtype])
        v = st.one_of(st.integers(max(ii.min, -20), 20), st.integers(int(ii.min), int(ii.max)), st.sampled_from([int(ii.min), int(ii.max)]))
    vals = draw(st.lists(v, min_size=1, max_size=12))
    return {'kind': kind, 'dtype': dtype, 'values': vals, 'how': draw(st.sampled_from(['list', 'tuple', 'np64', 'typed'])), 'mod': draw(st.sampled_from(['static const', 'const', 'static'])),
            'end': draw(st.sampled_from(['', '\n'])), 'indent': draw(st.sampled_from(['', '   '])), 'give_size': draw(st.booleans()), 'fb': draw(st.sampled_from([16, 23, 8, 30, 1])),
            'suffix': draw(st.sampled_from(['a', 'weights', 'B2', '_x']))}


def mismatch(case, ctx):
    """A stated size that differs from the number of values is refused."""
    from emlearn import cgen
    v = container(case['values'], case['how'], case['dtype'])
    n = len(case['values'])
    try:
        s = cgen.array_declare('v', size=case['size'], dtype=case['dtype'], values=v)
    except Exception as e:
        check(case['size'] != n, 'size %d with %d values: %r', case['size'], n, e)
    else:
        check(case['size'] == n, 'size %d with %d values was accepted: %s', case['size'], n, s[:200])
    ctx.compared()
    ctx.nontriv(case['size'] != n)


KEYWORDS = set('''auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union
unsigned void volatile while inline restrict _Bool _Complex _Imaginary _Alignas _Alignof _Atomic _Generic _Noreturn _Static_assert _Thread_local
alignas alignof bool constexpr false nullptr static_assert thread_local true typeof typeof_unqual _BitInt _Decimal128 _Decimal32 _Decimal64'''.split())


def ident_body(case, ctx):
    from emlearn import cgen
    s = case['s']
    letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
    valid = len(s) > 0 and s[0] in letters and all(c in letters + '0123456789' for c in s)
    with ctx.sut('identifier_is_valid'):
        v = cgen.identifier_is_valid(s)
        r = cgen.identifier_is_reserved(s)
    check(bool(v) == valid, 'identifier_is_valid(%r) is %r', s, v)
    if s in KEYWORDS:
        check(r, 'identifier_is_reserved(%r) is %r', s, r)
    elif valid and s.lower() not in {k.lower() for k in KEYWORDS} and not s.startswith('_'):
        check(not r, 'identifier_is_reserved(%r) is %r', s, r)
    usable = valid and not r
    try:
        cgen.assert_valid_identifier(s)
        ok = True
    except ValueError:
        ok = False
    except Exception as e:
        raise vh.Violation('assert_valid_identifier(%r) raised %r' % (s, e))
    check(ok == usable, 'assert_valid_identifier(%r): %s', s, 'accepted' if ok else 'refused')
    ctx.compared()
    ctx.label('keyword' if s in KEYWORDS else 'valid' if valid else 'invalid')
    ctx.nontriv(len(s) > 0)


def idents():
    base = st.from_regex(r'[_a-zA-Z][_a-zA-Z0-9]{0,12}', fullmatch=True)
    bad = st.sampled_from(['\n', ' ', '-', '+', '.', '$', '\t', 'é', 'ß', '0', '9', '\0', '(', '\r', '１', 'ª'])

    @st.composite
    def mutated(draw):
        s = draw(base)
        i = draw(st.one_of(st.just(0), st.just(len(s)), st.integers(0, len(s))))
        return s[:i] + draw(bad) + s[i:]
    kw = st.sampled_from(sorted(KEYWORDS))
    near = st.tuples(kw, st.sampled_from(['', '', '_', '1', '\n', ' '])).map(''.join)
    return st.fixed_dictionaries({'s': st.one_of(base, mutated(), near, st.text(max_size=8))})


SUBTESTS = [
    Sub('declarations', lambda: st.fixed_dictionaries({'decls': st.lists(decl(), min_size=1, max_size=8)}), decl_body, quick=600),
    Sub('mismatch', lambda: st.fixed_dictionaries({'size': st.integers(1, 12), 'values': st.lists(st.integers(0, 100), min_size=1, max_size=12), 'how': st.sampled_from(['list', 'tuple', 'np64', 'typed']),
                                                   'dtype': st.sampled_from(sorted(NPT))}), mismatch, quick=300),
    Sub('identifiers', idents, ident_body, quick=6000),
]
