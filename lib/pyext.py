"""Builds the pybind11 extensions of /repo/bindings in a scratch directory and imports them."""
import os, sys, subprocess, sysconfig, importlib.util
import vh

_mods = {}


def build(names):
    """Compile the named extensions, in parallel. Returns {name: path}."""
    import pybind11
    d = vh.fresh_dir('ext')
    procs, out = [], {}
    for n in names:
        p = os.path.join(d, n + sysconfig.get_config_var('EXT_SUFFIX'))
        cmd = ['g++', '-std=c++14', '-O1', '-g0', '-w', '-shared', '-fPIC', '-fvisibility=hidden', '-I', vh.INC, '-I', os.path.join(vh.REPO, 'bindings'), '-I', pybind11.get_include(),
               '-I', sysconfig.get_path('include'), os.path.join(vh.REPO, 'bindings', n + '.cpp'), '-o', p]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), n))
        out[n] = p
    for pr, n in procs:
        txt = pr.communicate(timeout=300)[0]
        if pr.returncode != 0:
            raise vh.CompileError(txt.decode('utf8', 'replace')[-3000:])
    return out


def load(name, path):
    if name not in _mods:
        spec = importlib.util.spec_from_file_location(name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[name] = m
    return _mods[name]
