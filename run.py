#!/usr/bin/env python3
"""run.py <PROPERTY> [--replay FILE]: run the check of one property (see DESIGN.md)."""
import os, sys
VENV = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and os.path.exists(VENV) and not os.environ.get('VERIF_REEXEC'):
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(VENV, [VENV] + sys.argv)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, 'checks'))
sys.path.insert(0, os.path.join(here, 'lib'))
import vh
vh.setup_env()
import warnings
warnings.simplefilter('ignore')
import importlib, traceback
try:
    if sys.argv[1] == '--selftest':
        import hypothesis, numpy, sklearn
        print('ok: python', sys.version.split()[0], 'hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'sklearn', sklearn.__version__)
        sys.stdout.flush()
        os._exit(0)
    import numpy
    _err = numpy.geterr()
    mod = importlib.import_module(sys.argv[1])
    rc = vh.main(mod, sys.argv[2:])
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
