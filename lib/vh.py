"""Shared machinery of the checks: case generation loop (Hypothesis), shards,
counters, evidence, replay files, known findings, C builds.

A check module (checks/<ID>.py) defines

    PROPERTY = 'T01'
    RULE     = 'how cases are made and what makes one non-trivial'
    def build(): ...                # optional, run once before the shards fork
    SUBTESTS = [Sub(name, strategy_factory, body, quick=N, thorough=N), ...]

A *case* is plain JSON data drawn by Hypothesis; body(case, ctx) is a pure
function of the case and of the code in /repo, so a shrunk failing case is
stored as JSON and replayed without Hypothesis.
"""
import os, sys, json, time, hashlib, shutil, subprocess, tempfile, traceback, struct, signal

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
INC = os.path.join(REPO, 'emlearn')


def setup_env():
    for k, v in dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                     CUDA_VISIBLE_DEVICES='-1', TF_CPP_MIN_LOG_LEVEL='2', OMP_NUM_THREADS='1',
                     OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', LC_ALL='C.UTF-8',
                     NUMBA_DISABLE_CACHE='1',
                     ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
                     UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=0').items():
        os.environ[k] = v
    for k in ('PYTHONPATH',):
        os.environ[k] = REPO
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)      # at the end: numpy etc come from the emlearn environment


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself could not do its work."""


class StopSearch(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, body, quick=100, thorough=None, max_shrink_s=60, shards=None):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.max_shrink_s = max_shrink_s
        self.shards = shards      # None: split over all workers. 1: only the first worker


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class Ctx:
    """Counters and helpers given to a body."""
    def __init__(self, shared=None):
        self.evaluations = 0
        self.comparisons = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.shared = shared or {}
        self._cur = None
        self._nt = False

    def begin(self, sub, case):
        self._cur = (sub.name, case)
        self._nt = False
        self.evaluations += 1

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def compared(self, n=1):
        self.comparisons += int(n)

    def nontriv(self, cond=True):
        if not cond or self._nt:
            return
        self._nt = True
        name, case = self._cur
        c = canon(case)
        h = hashlib.blake2b((name + c).encode(), digest_size=8).hexdigest()
        if h not in self.nontrivial:
            self.nontrivial.add(h)
            if len(self.samples) < 3 and len(c) < 1500:
                self.samples.append({'subtest': name, 'case': case})

    def sut(self, what):
        return _Sut(what)


class _Sut:
    """Exceptions of the code under test, where it has to work, are violations."""
    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None or issubclass(t, (Violation, HarnessError, StopSearch)) or not issubclass(t, BaseException):
            return False
        if issubclass(t, (Exception, SystemExit)):
            if issubclass(t, (MemoryError, subprocess.TimeoutExpired)):
                return False
            if issubclass(t, subprocess.CalledProcessError) and v.returncode in (-9, 137):
                raise HarnessError('killed: %s' % v)
            last = traceback.extract_tb(tb)[-1]
            raise Violation('%s raised %s: %s [%s:%s]' % (self.what, t.__name__, str(v)[:300], os.path.basename(last.filename), last.name)) from v
        return False


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# ---------------------------------------------------------------- C helpers

DRV_H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static void drv_in(void *p, size_t n) { if (n && fread(p, 1, n, stdin) != n) { fprintf(stderr, "drv: short input\n"); exit(77); } }
/* results go to a copy of stdout, so that what the library prints does not mix with them */
#ifdef __cplusplus
extern "C" {
#endif
extern int dup(int); extern int dup2(int, int); extern FILE *fdopen(int, const char *);
#ifdef __cplusplus
}
#endif
static FILE *drv_f;
static void drv_out(const void *p, size_t n) { if (!drv_f) { drv_f = fdopen(dup(1), "wb"); dup2(2, 1); } if (n) fwrite(p, 1, n, drv_f); }
static int32_t in_i32(void) { int32_t v; drv_in(&v, 4); return v; }
static float in_f32(void) { float v; drv_in(&v, 4); return v; }
static void *in_block(size_t n) { void *p = malloc(n ? n : 1); drv_in(p, n); return p; }
static float *in_f32s(int n) { float *p = (float *)malloc(n ? (size_t)n*4 : 1); drv_in(p, (size_t)n*4); return p; }
static void out_i32(int32_t v) { drv_out(&v, 4); }
static void out_f32(float v) { drv_out(&v, 4); }
static void drv_flush(void) { if (drv_f) fflush(drv_f); }
'''

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
_tmp_root = None


def tmp_root():
    global _tmp_root
    if _tmp_root is None:
        _tmp_root = tempfile.mkdtemp(prefix='verif-')
    return _tmp_root


def fresh_dir(prefix='d'):
    return tempfile.mkdtemp(prefix=prefix, dir=tmp_root())


class CompileError(Exception):
    pass


def cc(code, name='prog', flags=(), san=True, opt='-O1', cxx=False, out_dir=None, extra_files=None, std='-std=c99', compiler=None, timeout=240):
    """Compile one C (or C++) source text into an executable, return its path."""
    d = out_dir or fresh_dir('cc')
    with open(os.path.join(d, 'drv.h'), 'w') as f:
        f.write(DRV_H)
    for fn, txt in (extra_files or {}).items():
        with open(os.path.join(d, fn), 'w') as f:
            f.write(txt)
    src = os.path.join(d, name + ('.cpp' if cxx else '.c'))
    with open(src, 'w') as f:
        f.write(code)
    exe = os.path.join(d, name)
    comp = compiler or ('g++' if cxx else 'gcc')
    cmd = [comp] + ([std] if std else []) + [opt] + ([] if '-Werror' in flags else ['-w']) + ['-I', d, '-I', INC] + (SAN if san else []) + list(flags) + [src, '-o', exe, '-lm']
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError('compiler timeout')
    if r.returncode != 0:
        out = r.stdout.decode('utf8', 'replace')
        if 'Killed signal' in out or 'virtual memory exhausted' in out:
            raise HarnessError('compiler out of memory')
        raise CompileError(out[-3000:])
    return exe


class Crash(Exception):
    def __init__(self, rc, err):
        self.rc, self.err = rc, err
        Exception.__init__(self, 'rc=%s %s' % (rc, err))


def run_exe(exe, data=b'', args=(), timeout=120, cwd=None):
    """Run a driver. Returns stdout bytes. Raises Crash if it did not end with 0."""
    try:
        r = subprocess.run([exe] + list(args), input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise Crash('timeout', 'no answer after %d s' % timeout)
    if r.returncode == 77:
        raise HarnessError('driver protocol error: ' + r.stderr.decode('utf8', 'replace')[-500:])
    if r.returncode in (-9, 137):
        raise HarnessError('driver killed')
    if r.returncode != 0:
        raise Crash(r.returncode, summarize_san(r.stderr.decode('utf8', 'replace')))
    return r.stdout


def summarize_san(err):
    keep = [l for l in err.splitlines() if 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'SUMMARY' in l]
    return ' | '.join(keep[:3]) if keep else err[-300:]


def rm(path):
    shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------- known findings

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def is_known(prop, key):
    return any(f['property'] == prop and f['key'] == key for f in load_known())


# ---------------------------------------------------------------- the search

def _stable_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=7).digest(), 'big')


def search(sub, ctx, seed, max_examples, deadline):
    """Run one subtest. Returns a failure dict or None."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    state = {'best': None, 'first': None, 'deadline': deadline, 'truncated': False, 'drawn': 0, 'run': 0}
    # Hypothesis starts with the simplest case, then small ones, and repeats cases and parts of them: it draws more than are run,
    # no case is run twice, and a small budget is not spent on the simple ones (larger budgets keep them).
    draws = 4 * max_examples + 40
    warm = draws // 10 + 2 if max_examples <= 40 else 1
    seen = set()

    @hypothesis.seed(seed)
    @settings(max_examples=draws, deadline=None, database=None, derandomize=False,
              report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
    @given(sub.strategy())
    def go(case):
        now = time.time()
        if state['best'] is None and now > state['deadline']:
            state['truncated'] = True
            raise StopSearch()
        if state['first'] is not None and now > state['first'] + sub.max_shrink_s:
            raise StopSearch()
        if state['first'] is None:
            state['drawn'] += 1
            if state['run'] >= max_examples:
                raise StopSearch()
            if state['drawn'] <= warm:
                return
            h = hashlib.blake2b(canon(case).encode(), digest_size=8).digest()
            if h in seen:
                return
            seen.add(h)
            state['run'] += 1
        ctx.begin(sub, case)
        try:
            sub.body(case, ctx)
        except Violation as e:
            if state['first'] is None:
                state['first'] = time.time()
            size = len(canon(case))
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, case, str(e))
            # one place, whatever the message, so that the shrinker may move between cases
            raise Violation('violation')

    try:
        go()
    except StopSearch:
        pass
    except Violation:
        pass
    except BaseException as e:
        # Hypothesis wraps (Flaky, MultipleFailures). Without any recorded violation it is the harness' fault.
        if state['best'] is None:
            raise
    if state['truncated']:
        ctx.label('truncated:' + sub.name)
    if state['best'] is not None:
        size, case, msg = state['best']
        return {'subtest': sub.name, 'case': case, 'message': msg}
    return None


def _worker(mod, shard, shards, seed, tier, budget, shared, out_path):
    rc = 0
    res = {'failures': [], 'error': None}
    ctx = Ctx(shared)
    try:
        global _tmp_root
        _tmp_root = tempfile.mkdtemp(prefix='w%d-' % shard, dir=tmp_root())
        os.chdir(_tmp_root)
        t_end = time.time() + budget
        subs = mod.SUBTESTS
        order = list(subs)
        for i, sub in enumerate(order):
            n = sub.quick if tier == 'quick' else sub.thorough
            k = min(sub.shards or shards, shards)
            if shard >= k:
                continue
            per = n // k + (1 if shard < n % k else 0)
            if per <= 0:
                continue
            # Each subtest may use what is left of the time, leaving some to those after it.
            left = t_end - time.time()
            rest = len(order) - i
            dl = time.time() + (left if rest == 1 else max(left * 2.5 / (rest + 1.5), 5))
            t0 = time.time()
            f = search(sub, ctx, _stable_seed(seed, mod.PROPERTY, sub.name, shard), per, min(dl, t_end))
            ctx.labels['seconds:' + sub.name] = round(ctx.labels.get('seconds:' + sub.name, 0) + time.time() - t0, 1)
            if f is not None:
                res['failures'].append(f)
                break
    except BaseException as e:
        res['error'] = traceback.format_exc()[-3000:]
    res.update(evaluations=ctx.evaluations, comparisons=ctx.comparisons, nontrivial=sorted(ctx.nontrivial),
               labels=ctx.labels, samples=ctx.samples)
    with open(out_path, 'w') as f:
        json.dump(res, f, default=_json_default)
    sys.stdout.flush()
    os._exit(0)


def _json_default(o):
    try:
        return o.item()
    except Exception:
        return repr(o)


def run_body(mod, name, case, shared):
    sub = [s for s in mod.SUBTESTS if s.name == name][0]
    ctx = Ctx(shared)
    ctx.begin(sub, case)
    sub.body(case, ctx)


def main(mod, argv):
    prop = mod.PROPERTY
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    replay = None
    if '--replay' in argv:
        replay = argv[argv.index('--replay') + 1]
        replay = os.path.abspath(replay)
    os.chdir(tmp_root())
    code = 2
    try:
        shared = {}
        try:
            if hasattr(mod, 'build'):
                shared = mod.build() or {}
        except CompileError as e:
            # The library's own headers do not compile in a correct driver program.
            print('harness: driver does not compile\n%s' % e)
            code = 2
            return code
        if replay:
            r = json.load(open(replay))
            try:
                run_body(mod, r['subtest'], r['case'], shared)
            except Violation as e:
                print('reproduced: %s' % e)
                print('VIOLATION property=%s replay=%s' % (prop, replay))
                return 1
            print('replay: not reproduced')
            return 0
        code = _main_search(mod, prop, tier, seed, t0, shared)
        return code
    finally:
        os.chdir('/')
        rm(tmp_root())


def _main_search(mod, prop, tier, seed, t0, shared):
    # saved regressions (shrunk failures of the past) first: seconds only
    failures = []
    n_reg = 0
    reg_dir = os.path.join(VERIF, 'regressions', prop)
    if os.path.isdir(reg_dir):
        for fn in sorted(os.listdir(reg_dir)):
            if not fn.endswith('.json'):
                continue
            r = json.load(open(os.path.join(reg_dir, fn)))
            n_reg += 1
            try:
                run_body(mod, r['subtest'], r['case'], shared)
            except Violation as e:
                failures.append({'subtest': r['subtest'], 'case': r['case'], 'message': 'saved case %s: %s' % (fn, e)})
    known_lines = []
    for f in load_known():
        if f['property'] != prop:
            continue
        try:
            run_body(mod, f['subtest'], f['case'], shared)
        except Violation as e:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        else:
            known_lines.append('note: known finding no longer fails: property=%s %s' % (prop, f['what']))
    shards = int(os.environ.get('VERIF_WORKERS', getattr(mod, 'WORKERS', 8)))
    budget = float(os.environ.get('VERIF_BUDGET', getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 3000)))
    results = []
    if not failures:
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(shards):
            out = os.path.join(tmp_root(), 'res%d.json' % i)
            pid = os.fork()
            if pid == 0:
                try:
                    _worker(mod, i, shards, seed, tier, budget, shared, out)
                finally:
                    os._exit(3)
            pids.append((pid, out))
        errors = []
        for pid, out in pids:
            _, st = os.waitpid(pid, 0)
            if not os.path.exists(out):
                errors.append('worker died with status %s' % st)
                continue
            r = json.load(open(out))
            results.append(r)
            if r['error']:
                errors.append(r['error'])
        for r in results:
            failures += r['failures']
    else:
        errors = []
    labels = {}
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = round(labels.get(k, 0) + v, 1)
    nontriv = set()
    for r in results:
        nontriv |= set(r['nontrivial'])
    samples = []
    for r in results:
        samples += r['samples']
    # a few samples from different subtests
    seen, pick = {}, []
    for s in samples:
        if seen.get(s['subtest'], 0) < 2 and len(pick) < 8:
            seen[s['subtest']] = seen.get(s['subtest'], 0) + 1
            pick.append(s)
    evals = sum(r['evaluations'] for r in results) + n_reg
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(nontriv), 'rule': mod.RULE,
            'samples': pick, 'comparisons': sum(r['comparisons'] for r in results),
            'saved_cases_replayed': n_reg,
            'distribution': dict(sorted(labels.items())),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=_json_default)
    for l in known_lines:
        print(l)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d comparisons, %.1f s' % (
        prop, tier, seed, evals, len(nontriv), ev['coverage']['comparisons'], time.time() - t0))
    if failures:
        failures.sort(key=lambda f: len(canon(f['case'])))
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for f in failures:
            if f['subtest'] in shown:
                continue
            shown.add(f['subtest'])
            path = os.path.join(rd, '%s-%s.json' % (prop, f['subtest']))
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'subtest': f['subtest'], 'case': f['case'], 'message': f['message']}, fh, indent=1, default=_json_default)
            print('  %s: %s' % (f['subtest'], f['message'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('harness error:\n' + '\n---\n'.join(e for e in errors[:2]))
        return 2
    if evals == 0:
        print('harness error: nothing evaluated')
        return 2
    return 0
