"""X02: saved code is what is in the file, compiles cleanly on its own and together with other models, and agrees with predict()."""
import os, subprocess
import numpy as np
from hypothesis import strategies as st
import vh, zoo
from vh import Sub, check

PROPERTY = 'X02'
RULE = ('together: 1 to 4 models of drawn kinds and settings, saved under drawn names, each compiled alone by gcc and clang as strict C99 and as C++ with warnings as errors, then all included in one program (C and C++, '
        'AddressSanitizer) whose results are compared with the Python objects and with the originals; names: one model and a drawn identifier; files: saving to files, names from files. '
        'Non-trivial: programs with at least two models, or names of an unusual form.')
ASSUMPTIONS = ['names are C identifiers that are not keywords of C or C++, do not begin with an underscore and a capital or two underscores, do not begin with eml or Eml, are not names of the C library, '
               'and no name in a program is another one followed by an underscore and more (those are the names of its parts)',
               'warnings: -Wall -Wextra -Wpedantic and the flags that emlearn itself compiles with (unused variables, functions and parameters are allowed)',
               'float results of C and Python may differ by rounding of the compiler (1e-6 relative)']

WARN = ['-Wall', '-Wextra', '-Wpedantic', '-Wpointer-arith', '-Wdouble-promotion', '-Wfloat-conversion', '-Wno-unused-parameter', '-Wno-unused-variable', '-Wno-unused-function', '-Werror']
COMPILERS = {
    'gcc c99': ['gcc', '-std=c99', '-x', 'c'], 'clang c99': ['clang', '-std=c99', '-x', 'c', '-Wno-unused-const-variable'],
    'g++ c++11': ['g++', '-std=c++11', '-x', 'c++'], 'g++ c++17': ['g++', '-std=c++17', '-x', 'c++'], 'clang++ c++14': ['clang++', '-std=c++14', '-x', 'c++', '-Wno-unused-const-variable'],
    'gcc c11': ['gcc', '-std=c11', '-x', 'c'], 'gcc -O2': ['gcc', '-std=c99', '-O2', '-x', 'c'],
}

KEYWORDS = set('''auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while
alignas alignof and and_eq asm atomic_cancel bitand bitor bool catch char8_t char16_t char32_t class compl concept consteval constexpr constinit const_cast co_await co_return co_yield decltype delete dynamic_cast explicit export false friend
mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public reflexpr reinterpret_cast requires static_assert static_cast synchronized template this thread_local throw true try typeid typename using virtual wchar_t xor xor_eq
linux unix i386 main stdin stdout stderr errno assert
y0 y1 yn j0 j1 jn gamma lgamma tgamma signgam exp exp2 expm1 log log2 log10 log1p logb pow sqrt cbrt fabs fmin fmax fmod floor ceil round trunc sin cos tan asin acos atan atan2 sinh cosh tanh erf erfc hypot ldexp frexp modf rint nan abs div index rindex time
free malloc calloc realloc memcpy memset strlen exit abort dup dup2 fdopen fread fwrite fflush printf puts read write open close link system signal raise bsearch qsort rand srand random remove rename dirname basename drem gammaf finite isinf isnan scalb significand select
NAN NULL INFINITY BUFSIZ EOF M_PI
drv_in drv_out drv_f drv_flush in_i32 in_f32 in_block in_f32s out_i32 out_f32'''.split())


def name_ok(n):
    return n not in KEYWORDS and not n.startswith('__') and not (len(n) > 1 and n[0] == '_' and n[1].isupper()) and not n.lower().startswith('eml') and not n.endswith('_t') and not n.startswith(('run_case_', 'vq_')) and not n.startswith('str') and not n.startswith('is') and not n.startswith('mem')


def compile_alone(code, which, what):
    d = vh.fresh_dir('a')
    try:
        p = os.path.join(d, 'model.h')
        with open(p, 'w') as f:
            f.write(code)
        src = os.path.join(d, 'use.c')
        with open(src, 'w') as f:
            f.write('#include "model.h"\n')
        cmd = COMPILERS[which] + WARN + ['-fsyntax-only' if '-O2' not in which else '-c', '-I', vh.INC, src] + ([] if '-O2' not in which else ['-o', os.path.join(d, 'o.o')])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        if r.returncode != 0:
            out = r.stdout.decode('utf8', 'replace')
            if 'Killed' in out:
                raise vh.HarnessError('compiler killed')
            raise vh.Violation('%s does not compile cleanly by itself (%s): %s' % (what, which, '\n'.join([l for l in out.splitlines() if 'error' in l or 'warning' in l][:4])[:700]))
    finally:
        vh.rm(d)


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool((np.abs(a - b) <= 1e-6 * np.maximum(np.abs(a), np.abs(b)) + 1e-7).all())


def together_body(case, ctx):
    models = []
    for mc, name in zip(case['models'], case['names']):
        m = zoo.Model(mc, max_rows=10)
        if not m.usable:
            continue
        try:
            c = m.convert()
            code = c.save(name=name)
        except Exception:
            ctx.label('not converted')       # what may be refused is judged by other checks
            continue
        models.append((m, name, code, c))
    if not models:
        return
    for i, (m, name, code, c) in enumerate(models):
        w = case['compilers'][i % len(case['compilers'])]
        compile_alone(code, w, '%s model %s' % (m.zoo, name))
        ctx.label('alone:' + w)
    order = [models[i] for i in sorted(range(len(models)), key=lambda i: case['order'][i])]
    prog = [(m, n, code) for m, n, code, c in order]
    cxx = case['cxx']
    res = zoo.run_together(prog, cxx=cxx, compiler_std='-std=c++11' if cxx else '-std=c99', pre=case['pre'])
    for (m, n, code, c), r in zip(order, res):
        m.judge(r, '%s %s' % (m.zoo, n))
        if case['py']:
            with ctx.sut('Python predictions of ' + m.zoo):
                p = m.python(c)
            for k in p:
                if k in r:
                    check(close(p[k], r[k]), '%s %s: C code gives %s for %s(), Python %s', m.zoo, n, r[k][:3].tolist(), k, p[k][:3].tolist())
                    ctx.compared(len(p[k]))
        ctx.label('kind:' + m.zoo)
    ctx.label('models:%d' % len(models), 'c++' if cxx else 'c')
    ctx.nontriv(len(models) > 1 or len({m.zoo for m, *_ in models}) > 1)


FIXED = ['features', 'out', 'err', 'i', 'values', 'features_length', 'length', 'n_features', 'node', 'nodes', 'outputs', 'offset', 'leaves', 'distance', 'x', 'n', 'model', 'data', 'labels', 'name', 'classes', 'class_', 'votes',
         'votes_length', 'n_classes', 'out_length', 'most_voted_class', 'most_voted_votes', 'most_voted_proba', '_class', 'self', 'buf1', 'buf2', 'layers', 'weights', 'biases', 'sum', 'avg', 'tree', 'trees', 'net', 'bayes', 'mixture', 'predict', 'predict_proba',
         'regress', 'means', 'precisions', 'n_components', 'log_dets', 'log_weights', 'probabilities', 'score', 'dist', 'dist2', 'summaries', 'a', 'a1', '_a', 'A', 'Z9', 'aB_cD', 'a__b', 'x_', 'very_' + 'long' * 30, 'proba', 'label', 'k', 'p', 's',
         'features_', 'mymodel', 'mytree', 'mynet', 'classifier', 'model_nodes', 'scores', 'max', 'min', 'index', 'row', 'error', 'result', 'ret', 'v', 'f', 'leaf', 'leaf_proportions', 'n_outputs', 'activations', 'layer', 'out_class', 'inputs', 'input', 'output', 'int16', 'float32']


def ident():
    return st.one_of(st.sampled_from(FIXED), st.sampled_from(FIXED), st.from_regex(r'[A-Za-z_][A-Za-z0-9_]{0,12}', fullmatch=True)).filter(name_ok)


def distinct(names):
    for a in names:
        for b in names:
            if a is not b and (a == b or b.startswith(a + '_')):
                return False
    return True


def together_st():
    def mk(n):
        return st.fixed_dictionaries({
            'models': st.lists(zoo.model_st(), min_size=n, max_size=n), 'names': st.lists(ident(), min_size=n, max_size=n, unique=True).filter(distinct),
            'compilers': st.lists(st.sampled_from(sorted(COMPILERS)), min_size=n, max_size=n), 'order': st.permutations(list(range(n))), 'cxx': st.booleans(), 'py': st.sampled_from([True, True, False]),
            'pre': st.sampled_from(['', '', '#include <eml_net.h>\n#include <eml_trees.h>', '#include <eml_neighbors.h>\n#include <eml_bayes.h>\n#include <eml_mixture.h>\n#include <eml_distance.h>', '#include <eml_fixedpoint.h>\n#include <eml_csv.h>'])})
    return st.sampled_from([1, 2, 2, 3, 4]).flatmap(mk)


PARTS = ['a', 'b', 'x', '1', '2', 'A', 'B', 'one', 'two', 'left', 'right', '_1', '_2', 'model', '0', '00']


@st.composite
def alike_names(draw, n):
    """Names that are the same but for a part: at the end, at the front, in the middle, by case, by length."""
    stem = draw(st.sampled_from(['net', 'my_model', 'detector', 'classifier_version', 'm', 'verylongname' * 6, 'Sensor', 'a_b_c_d_e']))
    tail = draw(st.sampled_from(['', '', '', '_model', '_of_kitchen', 'x']))
    form = draw(st.sampled_from(['end', 'end', 'front', 'case', 'length']))
    if form == 'case':
        names = [stem.lower() + tail, stem.upper() + tail, stem.capitalize() + 'Q' + tail, stem.lower() + 'Q' + tail][:n]
    elif form == 'length':
        names = [stem + 'z' * i + tail for i in range(n)]
    else:
        parts = draw(st.lists(st.sampled_from(PARTS), min_size=n, max_size=n, unique=True))
        names = [stem + p + tail if form == 'end' else 'q' + p + '_' + stem + tail for p in parts]
    return names


def alike_st():
    """Models of one kind with almost the same name."""
    def mk(t):
        n, kind = t
        return st.fixed_dictionaries({
            'models': st.lists(zoo.model_st([kind]), min_size=n, max_size=n), 'names': alike_names(n).filter(lambda l: distinct(l) and all(name_ok(x) for x in l) and len(set(l)) == n),
            'compilers': st.lists(st.sampled_from(sorted(COMPILERS)), min_size=n, max_size=n), 'order': st.permutations(list(range(n))), 'cxx': st.booleans(), 'py': st.just(False), 'pre': st.just('')})
    return st.tuples(st.sampled_from([2, 2, 3, 4]), st.sampled_from(zoo.KINDS)).flatmap(mk)


# ------------------------------------------------------------ names

BASE = {}


def base_models():
    """One small converted model of each kind, per worker."""
    if not BASE:
        import warnings
        P = {
            'tree-clf': dict(fit=1, kind='clf', ens='rf', dtype='int16_t', n_features=2, n_classes=3, n_samples=30, spread=10, max_depth=2, max_leaf_nodes=None, min_samples_leaf=1, n_estimators=2, weights=False, seed=3, rowseed=1),
            'tree-reg': dict(fit=1, kind='reg', ens='rf', dtype='int16_t', n_features=2, n_classes=1, n_samples=30, spread=10, max_depth=2, max_leaf_nodes=None, min_samples_leaf=1, n_estimators=2, weights=False, seed=3, rowseed=1),
            'mlp-clf': dict(task='multi', n_out=3, n_features=2, hidden=[2], activation='relu', style='dense', scale=1.0, bias=0.5, rowscale=1.0, iters=1, explicit=True, seed=1),
            'mlp-reg': dict(task='reg', n_out=2, n_features=2, hidden=[2, 2], activation='tanh', style='dense', scale=1.0, bias=0.5, rowscale=1.0, iters=1, explicit=True, seed=1),
            'nb': dict(n_classes=3, n_features=2, spread=10.0, offset=0.0, std=1.0, stdvar=0.0, priorconc=1.0, equal=True, explicit=False, style='fit', far=1.0, seed=1),
            'ee': dict(n_features=2, corr=0.4, aniso=0.0, scale=1.0, offset=0.0, contamination=0.1, support=None, bound=None, near=0.3, explicit=True, seed=1),
            'gmm': dict(n_components=2, n_features=2, cov='full', bayes=False, spread=5.0, corr=0.4, scale=1.0, offset=0.0, iters=5, seed=1),
            'knn': dict(n=10, n_features=2, n_classes=3, k=3, style='cluster', noise=100, order='random', algorithm='auto', seed=1),
        }
        V = [('tree-clf', m, b) for m in ('inline', 'loadable') for b in (0, 8)] + [('tree-reg', 'inline', None), ('tree-reg', 'loadable', None), ('mlp-clf', 'loadable', None), ('mlp-clf', 'inline', None), ('mlp-reg', 'loadable', None),
                                                                               ('nb', None, None), ('ee', None, None), ('gmm', None, None), ('knn', None, None)]
        for z, meth, bits in V:
            c = dict(P[z], zoo=z, method=meth)
            if bits is not None:
                c['leaf_bits'] = bits
            m = zoo.Model(c, max_rows=4)
            BASE['%s/%s/%s' % (z, meth, bits)] = (m, m.convert())
    return BASE


HIDDEN = ('features', 'features_length', 'n_features', 'out', 'out_length', 'err')    # parameters of the generated functions; the object itself has the model's name
VARIANTS = ['tree-clf/inline/0', 'tree-clf/inline/8', 'tree-clf/loadable/0', 'tree-clf/loadable/8', 'tree-reg/inline/None', 'tree-reg/loadable/None', 'mlp-clf/loadable/None', 'mlp-clf/inline/None', 'mlp-reg/loadable/None',
            'nb/None/None', 'ee/None/None', 'gmm/None/None', 'knn/None/None']


def names_body(case, ctx):
    m, c = base_models()[case['variant']]
    name = case['name']
    try:
        code = c.save(name=name)
    except Exception as e:
        if name in HIDDEN and isinstance(e, ValueError) and repr(name) in str(e):
            ctx.label('name of a parameter refused')
            return
        raise vh.Violation('%s refuses the name %r: %s' % (case['variant'], name, str(e)[:200]))
    compile_alone(code, case['compiler'], '%s saved as %s' % (case['variant'], name))
    if case['run']:
        [r] = zoo.run_together([(m, name, code)], cxx=case['cxx'], compiler_std='-std=c++11' if case['cxx'] else '-std=c99')
        m.judge(r, '%s saved as %s' % (case['variant'], name))
        ctx.label('names run')
    ctx.compared()
    ctx.nontriv(name in FIXED or '_' in name or len(name) < 3)


def names_st():
    return st.fixed_dictionaries({'variant': st.sampled_from(VARIANTS), 'name': ident(), 'compiler': st.sampled_from(sorted(COMPILERS)), 'run': st.sampled_from([False, False, True]), 'cxx': st.booleans()})


# ------------------------------------------------------------ files

def files_body(case, ctx):
    m, c = base_models()[case['variant']]
    if case['name'] in HIDDEN:
        return
    d = vh.fresh_dir('f')
    try:
        sub = os.path.join(d, case['dir']) if case['dir'] else d
        os.makedirs(sub, exist_ok=True)
        p = os.path.join(sub, case['name'] + case['ext'])
        if case['old'] is not None:
            with open(p, 'w') as f:
                f.write('x' * case['old'])
        if case['relative']:
            os.chdir(sub)
            given = os.path.basename(p)
        else:
            given = p
        kw = {}
        if case['csv'] and m.zoo.startswith('tree'):
            kw['format'] = 'csv'
        with ctx.sut('save'):
            ref = c.save(name=case['name'], **kw)
            if case['how'] == 'both':
                code = c.save(name=case['name'], file=given, **kw)
            else:
                code = c.save(file=given, **kw)
        with open(p, newline='') as f:
            text = f.read()
        check(isinstance(code, str) and len(code) > 0, 'save returned %r', type(code))
        check(text == code, 'the file differs from what save() returned')
        check(code == ref, 'saving to a file gives other code than saving by name')
        check(sorted(os.listdir(sub)) == [os.path.basename(p)], 'files written: %s', os.listdir(sub))
        ctx.compared(2)
        ctx.nontriv()
    finally:
        os.chdir(vh.tmp_root())
        vh.rm(d)


def files_st():
    return st.fixed_dictionaries({'variant': st.sampled_from(VARIANTS), 'name': ident(), 'ext': st.sampled_from(['.h', '.h', '', '.c', '.hpp', '.csv', '.H']), 'dir': st.sampled_from(['', 'a', 'my dir', 'x.y', 'a/b', '1']), 'relative': st.booleans(),
                                  'how': st.sampled_from(['both', 'file']), 'old': st.sampled_from([None, None, 10, 100000]), 'csv': st.booleans()})


SUBTESTS = [
    Sub('together', together_st, together_body, quick=150),
    Sub('alike', alike_st, together_body, quick=60),
    Sub('names', names_st, names_body, quick=400),
    Sub('files', files_st, files_body, quick=300),
]
