"""A01: Arduino library install, histories of installs and updates against a model of the file tree."""
import os, sys, io, base64, contextlib, subprocess
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'A01'
RULE = ('a case is a starting file tree in a scratch folder (include folders with headers, other files and odd names, library folders that exist, are missing or are files) and 1..8 operations: install or update (by function, by main() with arguments in any form, by "python -m", with default folders '
        'under a scratch HOME and several platforms), edits of the include folders, user files in the library, removals. After each operation the whole tree is compared with a model. Non-trivial: at least one successful install or update and 2 operations or more.')
ASSUMPTIONS = ['headers are the files eml_*.h directly in the include folder', 'the tree holds no symbolic links', 'a header that is no longer provided stays in the library on update']

ROOTS = ['inc', 'inc [1]', 'other inc', 'inc*', 'empty?']
LIBS = ['libs', 'my libs', 'no/such', 'deep/libs', 'file', 'home/Arduino/libraries']


def snapshot(root):
    out = {}
    for p, ds, fs in os.walk(root):
        for d in ds:
            out[os.path.relpath(os.path.join(p, d), root)] = None
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as fh:
                out[os.path.relpath(q, root)] = fh.read()
    return out


def content(c):
    kind, n = c
    if kind == 'version':
        return b'0.%d.1\n' % n
    if kind == 'bytes':
        return bytes((i * (n + 7) + n) % 256 for i in range(n))
    if kind == 'big':
        return (b'// line %d\r\n' % n) * 8000
    return b'#ifndef X\n#define X %d\n#endif' % n


def put(root, path, data):
    p = os.path.join(root, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)


def is_header(name):
    return name.startswith('eml_') and name.endswith('.h')


def model_install(tree, inc, lib, update, real_inc=None):
    """Returns (new tree, None) or (tree, reason for the refusal)."""
    if real_inc is not None:
        files = real_inc
    else:
        if inc not in tree or tree[inc] is not None:
            return tree, 'no include folder'
        files = {p[len(inc) + 1:]: v for p, v in tree.items() if p.startswith(inc + '/') and '/' not in p[len(inc) + 1:] and v is not None}
    T = lib + '/emlearn'
    if T in tree and not update:
        return tree, 'exists'
    if not any(is_header(f) for f in files):
        return tree, 'no headers'
    parent = os.path.dirname(lib)
    if parent and (parent not in tree or tree[parent] is not None):
        return tree, 'no parent'
    if tree.get(lib) is not None or tree.get(T) is not None:
        return tree, 'is a file'
    new = dict(tree)
    new[lib] = None
    new[T] = None
    for f, v in files.items():
        if is_header(f) or f == 'VERSION.txt':
            new[T + '/' + f] = v
    return new, None


def real_include():
    d = vh.INC
    return {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d) if is_header(f) or f == 'VERSION.txt'}


def do_install(root, op):
    """Runs the operation on the code under test. Returns None or the error."""
    from emlearn.arduino import install as m
    inc, lib = os.path.join(root, op['inc']), os.path.join(root, op['lib'])
    how = op['how']
    if op['relative']:
        inc, lib = op['inc'], op['lib']
    if op['slash']:
        lib += '/'
    env = {'HOME': os.path.join(root, 'home')}
    old_argv, old_home, old_plat, cwd = sys.argv, os.environ.get('HOME'), sys.platform, os.getcwd()
    buf = io.StringIO()
    try:
        os.chdir(root)
        os.environ.update(env)
        if how == 'function':
            with contextlib.redirect_stdout(buf):
                if op['default_inc']:
                    from emlearn.common import get_include_dir
                    inc = get_include_dir()
                r = m.install_arduino_library(inc, lib, update=op['update']) if op['update'] or op['slash'] else m.install_arduino_library(inc, lib)
            if os.path.realpath(r) != os.path.realpath(os.path.join(lib, 'emlearn')):
                raise vh.Violation('install_arduino_library returned %r' % r)
            return None
        args = []
        if not op['default_lib']:
            args += ['--arduino-library-dir=' + lib] if op['eq'] else ['--arduino-library-dir', lib]
        if not op['default_inc']:
            args += ['--emlearn-include-dir=' + inc] if op['eq'] else ['--emlearn-include-dir', inc]
        if op['update']:
            args.insert(0 if op['eq'] else len(args), '--update')
        if how == 'module':
            r = subprocess.run([sys.executable, '-m', 'emlearn.arduino.install'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return None if r.returncode == 0 else r.stdout.decode('utf8', 'replace')[-300:]
        sys.argv = ['install'] + args
        if op['default_lib']:
            sys.platform = op['platform']
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            m.main()
        return None
    except (Exception, SystemExit) as e:
        if isinstance(e, vh.Violation):
            raise
        if isinstance(e, SystemExit) and not e.code:
            return None
        return '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv, sys.platform = old_argv, old_plat
        if old_home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = old_home
        os.chdir(cwd)


def show(tree):
    return sorted('%s%s' % (k, '/' if v is None else '') for k, v in tree.items())


def histories(case, ctx):
    base = vh.fresh_dir('ard')
    root = os.path.join(base, 'a', 'b', 'root')
    os.makedirs(root)
    try:
        os.makedirs(os.path.join(root, 'home'))
        os.makedirs(os.path.join(root, 'deep'))
        put(root, 'file', b'a file')
        for d in case['dirs']:
            if not os.path.exists(os.path.join(root, d)):
                os.makedirs(os.path.join(root, d))
        for i, name, c in case['files']:
            put(root, os.path.join(ROOTS[i], name), content(c))
        if case['blocked']:
            os.makedirs(os.path.join(root, 'my libs'), exist_ok=True)
            if not os.path.exists(os.path.join(root, 'my libs', 'emlearn')):
                put(root, 'my libs/emlearn', b'not a folder')
        tree = snapshot(root)
        done = 0
        for k, op in enumerate(case['ops']):
            where = 'operation %d (%s)' % (k, op)
            if op['op'] == 'install':
                op = dict(op, inc=ROOTS[op['i']], lib=LIBS[op['l']])
                if op['how'] == 'function':
                    op['default_lib'] = False
                if op['default_lib']:
                    if op['how'] == 'module':
                        op['platform'] = 'linux'
                    box = {'darwin': 'home/Documents/Arduino'}.get(op['platform'], 'home/Arduino')
                    op['lib'] = box + '/libraries'
                    if box not in tree:
                        want, why = tree, 'no sketchbook'
                    else:
                        want, why = model_install(tree, op['inc'], op['lib'], op['update'], real_include() if op['default_inc'] else None)
                else:
                    want, why = model_install(tree, op['inc'], op['lib'], op['update'], real_include() if op['default_inc'] else None)
                err = do_install(root, op)
                got = snapshot(root)
                if why is None:
                    check(err is None, '%s failed: %s', where, err)
                    done += 1
                    ctx.label('update' if op['lib'] + '/emlearn' in tree else 'install', 'by ' + op['how'])
                else:
                    check(err is not None, '%s succeeded, although: %s', where, why)
                    ctx.label('refused: ' + why)
                if got != want:
                    lost, new = sorted(set(want) - set(got)), sorted(set(got) - set(want))
                    diff = sorted(p for p in got if p in want and got[p] != want[p])
                    raise vh.Violation('%s: missing %s, unexpected %s, different content %s' % (where, lost, new, diff))
                tree = want
                ctx.compared(len(want))
            else:
                if op['op'] == 'edit':
                    put_p = os.path.join(ROOTS[op['i']], op['name'])
                    if tree.get(put_p, 0) is not None:
                        put(root, put_p, content(op['c']))
                elif op['op'] == 'user':
                    p = os.path.join(root, LIBS[op['l']])
                    if os.path.isdir(p):
                        q = os.path.join(p, 'emlearn') if os.path.isdir(os.path.join(p, 'emlearn')) else p
                        put(q, op['name'], content(op['c']))
                elif op['op'] == 'remove':
                    p = os.path.join(root, ROOTS[op['i']], op['name'])
                    if os.path.isfile(p):
                        os.remove(p)
                elif op['op'] == 'uninstall':
                    p = os.path.join(root, LIBS[op['l']], 'emlearn')
                    if os.path.isdir(p):
                        for pp, ds, fs in os.walk(p, topdown=False):
                            for f in fs:
                                os.remove(os.path.join(pp, f))
                            os.rmdir(pp)
                tree = snapshot(root)
        check(os.listdir(os.path.join(base, 'a', 'b')) == ['root'] and os.listdir(os.path.join(base, 'a')) == ['b'], 'files appeared outside the folders given')
    finally:
        vh.rm(base)
    ctx.nontriv(done >= 1 and len(case['ops']) >= 2)


HDR = st.one_of(st.sampled_from(['eml_trees.h', 'eml_net.h', 'eml_common.h', 'eml_a.h', 'eml_.h', 'eml_x y.h', 'eml_[1].h']), st.from_regex(r'eml_[a-zA-Z0-9_.-]{0,8}\.h', fullmatch=True))
OTHER = st.sampled_from(['VERSION.txt', 'VERSION.txt', '__init__.py', 'eml_x.hpp', 'eml_x.h.bak', 'xeml_a.h', 'eml.h.txt', 'tools/eml_in.h', 'readme', 'EML_A.H', 'VERSION.txt2', 'eml_a.c'])
NAME = st.one_of(HDR, HDR, OTHER)
CONT = st.tuples(st.sampled_from(['header', 'header', 'bytes', 'version', 'big']), st.integers(0, 300))
INC = st.sampled_from([0] * 9 + [1, 2, 3, 4])
LIB = st.sampled_from([0] * 8 + [1, 1, 2, 3, 4, 5])
INSTALL = st.fixed_dictionaries({'op': st.just('install'), 'i': INC, 'l': LIB, 'update': st.booleans(), 'how': st.sampled_from(['function'] * 12 + ['main'] * 12 + ['module']), 'relative': st.booleans(), 'slash': st.booleans(), 'eq': st.booleans(),
                                 'default_inc': st.sampled_from([False, False, False, False, True]), 'default_lib': st.sampled_from([False, False, False, True]), 'platform': st.sampled_from(['linux', 'linux', 'darwin', 'freebsd13'])})
OP = st.one_of(INSTALL, INSTALL, INSTALL, st.fixed_dictionaries({'op': st.just('edit'), 'i': INC, 'name': NAME, 'c': CONT}), st.fixed_dictionaries({'op': st.just('user'), 'l': LIB, 'name': st.one_of(HDR, st.sampled_from(['mine.txt', 'library.properties', 'VERSION.txt', 'sub/x.h'])), 'c': CONT}),
               st.fixed_dictionaries({'op': st.just('remove'), 'i': INC, 'name': NAME}), st.fixed_dictionaries({'op': st.just('uninstall'), 'l': LIB}))
CASE = st.fixed_dictionaries({'files': st.lists(st.tuples(INC, NAME, CONT), min_size=1, max_size=12), 'dirs': st.lists(st.sampled_from(ROOTS + ['libs', 'my libs', 'deep/libs', 'home/Arduino', 'home/Arduino/libraries', 'home/Documents/Arduino', 'libs/other', 'libs/emlearn']), max_size=7),
                              'blocked': st.sampled_from([False, False, False, True]), 'ops': st.one_of(st.lists(OP, min_size=2, max_size=4), st.lists(OP, min_size=3, max_size=8))})
SUBTESTS = [Sub('histories', lambda: CASE, histories, quick=4000, thorough=60000)]


def build():
    import emlearn.arduino.install
    return {}
