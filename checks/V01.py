"""V01: the Pareto front is exactly the set of non-dominated candidates (direct O(n^2) dominance oracle)."""
import os
import numpy as np
from hypothesis import strategies as st
import vh
from vh import Sub, check

PROPERTY = 'V01'
RULE = ('front: a case is a table of 0..60 candidates (values from small sets, so that ties and duplicates are frequent, or free floats/integers, some missing), with free column names, column order, index and dtypes, '
        'a direction, an optional minimum performance, a permutation and a list of rows to repeat. The rows returned are compared with pairwise dominance. plot: the lines drawn by plot_pareto_front are compared with the same oracle. '
        'Non-trivial: at least 4 complete candidates, of which some are dominated and at least 2 points are on the front.')
ASSUMPTIONS = ['of candidates with equal cost and performance one or more may be reported', 'values are finite or missing, integers below 2^53']


def dominance(cost, perf, higher):
    """Mask of the non-dominated candidates among those without missing values."""
    s = [-p if higher else p for p in perf]
    n = len(cost)
    ok = [not (np.isnan(cost[i]) or np.isnan(s[i])) for i in range(n)]
    return [ok[i] and not any(ok[j] and cost[j] <= cost[i] and s[j] <= s[i] and (cost[j] < cost[i] or s[j] < s[i]) for j in range(n)) for i in range(n)]


def num(v):
    return float('nan') if v is None else v


def table(case, rows):
    import pandas
    cost = [num(r[0]) for r in rows]
    perf = [num(r[1]) for r in rows]
    cols = {case['cost']: cost, case['perf']: perf, case['extra']: [r[2] for r in rows], case['tag']: list(range(len(rows)))}
    order = sorted(cols, key=lambda c: (hash_of(c, case['order']), c))
    df = pandas.DataFrame({c: cols[c] for c in order}, columns=order)
    if case['dtype'] != 'object' and len(rows):
        for c in (case['cost'], case['perf']):
            if case['dtype'] != 'auto' and not df[c].isna().any() and (df[c] == df[c].round()).all() and df[c].min() >= 0 and df[c].max() < 100:
                df[c] = df[c].astype(case['dtype'])
    if case['index'] == 'strings':
        df.index = ['r%d' % i for i in range(len(rows))]
    elif case['index'] == 'reversed':
        df.index = range(len(rows), 0, -1)
    elif case['index'] == 'repeated':
        df.index = [i // 2 for i in range(len(rows))]
    return df, cost, perf


def hash_of(c, k):
    return sum(ord(x) * (i + k) for i, x in enumerate(c)) % 97


def run(case, rows, ctx):
    from emlearn.evaluate.pareto import find_pareto_front
    df, cost, perf = table(case, rows)
    before = df.copy(deep=True)
    kw = {}
    if case['min'] is not None:
        kw['min_performance'] = case['min']
    if case['cost'] != 'mean_test_compute' or case['style']:
        kw['cost_metric'] = case['cost']
    if case['perf'] != 'mean_test_accuracy' or case['style']:
        kw['performance_metric'] = case['perf']
    if not case['higher'] or case['style']:
        kw['higher_is_better'] = case['higher']
    with ctx.sut('find_pareto_front'):
        out = find_pareto_front(df, **kw)
    check(df.equals(before) and list(df.columns) == list(before.columns) and list(df.index) == list(before.index), 'the table given was changed')
    check(list(out.columns) == list(df.columns), 'columns are %s, of the table %s', list(out.columns), list(df.columns))
    ids = [int(v) for v in out[case['tag']]]
    check(len(set(ids)) == len(ids) and all(0 <= i < len(rows) for i in ids), 'rows %s reported', ids)
    check(out.equals(df.iloc[ids]), 'rows were changed:\n%s\n%s', out, df.iloc[ids])
    nd = dominance(cost, perf, case['higher'])
    reach = [nd[i] and (case['min'] is None or (perf[i] >= case['min'] if case['higher'] else perf[i] <= case['min'])) for i in range(len(rows))]
    for i in ids:
        check(reach[i], 'row %d (cost %r, performance %r) is reported, but %s', i, cost[i], perf[i], 'does not reach the minimum' if nd[i] else 'is dominated or incomplete')
    pts = set((cost[i], perf[i]) for i in ids)
    for i in range(len(rows)):
        check(not reach[i] or (cost[i], perf[i]) in pts, 'row %d (cost %r, performance %r) is not dominated, but not reported', i, cost[i], perf[i])
    return pts, nd, df


def front(case, ctx):
    rows = case['rows']
    pts, nd, df = run(case, rows, ctx)
    if rows:
        other = [rows[i % len(rows)] for i in case['perm']] + [r for i, r in enumerate(rows) if i not in set(p % len(rows) for p in case['perm'])]
        pts2, _, _ = run(case, other, ctx)
        check(pts == pts2, 'the front of a reordered table with repetitions has other points: %s, %s', sorted(pts), sorted(pts2))
    ctx.compared(len(rows))
    full = sum(r[0] is not None and r[1] is not None for r in rows)
    allp = set((rows[i][0], rows[i][1]) for i in range(len(rows)) if nd[i])
    if full != len(rows):
        ctx.label('missing values')
    ctx.label('higher' if case['higher'] else 'lower', 'cut' if case['min'] is not None else 'no cut', 'ties' if len(set(map(tuple, (r[:2] for r in rows)))) < len(rows) else 'distinct')
    ctx.nontriv(full >= 4 and sum(nd) < full and len(allp) >= 2)


def plot(case, ctx):
    import matplotlib.pyplot as plt
    from emlearn.evaluate.pareto import plot_pareto_front
    import pandas
    rows = case['rows']
    groups = {'numbers': [r[2] for r in rows], 'strings': ['abc'[r[2]] for r in rows], None: None}[case['hue']]
    df = pandas.DataFrame({case['cost']: [r[0] for r in rows], case['perf']: [r[1] for r in rows], 'mean_test_size': [1.0 + i for i in range(len(rows))]})
    if groups is not None:
        df['group'] = groups
    before = df.copy(deep=True)
    kw = dict(cost_metric=case['cost'], performance_metric=case['perf'], plot_other=case['other'], pareto_global=case['global'])
    if case['min'] is not None:
        kw['pareto_cut'] = case['min']
    with ctx.sut('plot_pareto_front'):
        g = plot_pareto_front(df, hue=None if groups is None else 'group', **kw)
    lines = [(str(l.get_label()), np.array(l.get_xydata())) for a in g.axes.flat for l in a.lines]
    plt.close('all')
    check(df.equals(before), 'the table given was changed')
    nd = dominance(df[case['cost']].tolist(), df[case['perf']].tolist(), True)
    fr = [i for i in range(len(rows)) if nd[i] and (case['min'] is None or rows[i][1] >= case['min'])]
    pts = lambda ids: sorted(set((float(rows[i][0]), float(rows[i][1])) for i in ids))
    if groups is None:
        want = {None: pts(fr)}
    else:
        want = {str(k): pts([i for i in fr if case['global'] or groups[i] == k]) for k in set(groups)}
    got = {}
    for name, xy in lines:
        got.setdefault(name if groups is not None else None, []).extend((float(a), float(b)) for a, b in xy)
    shared = groups is not None and not case['global']      # of equal candidates in several groups, one may stand for all
    for k in want:
        line = got.get(k, [])
        check(line == want[k] or (shared and set(line) <= set(want[k]) and line == sorted(line)), 'the line for %r goes through %s, the front is %s', k, line, want[k])
    everything = set(p for k in want for p in got.get(k, []))
    check(everything == set(pts(fr)), 'the lines go through %s, the front is %s', sorted(everything), pts(fr))
    ctx.compared(len(want))
    ctx.label('hue %s' % case['hue'])
    ctx.nontriv(len(fr) >= 2 and len(fr) < len(rows))


small = st.one_of(st.integers(0, 3), st.integers(0, 6))
val = st.one_of(small, small, st.integers(-1000, 1000), st.floats(-1e6, 1e6).map(lambda v: round(v, 6)), st.floats(-1, 1, width=32), st.floats(-1e300, 1e300), st.integers(-2**40, 2**40))
maybe = lambda s: st.one_of(s, s, s, s, s, s, s, s, s, st.none())


def rowlist():
    return st.sampled_from([small, small, val, st.floats(0, 1), st.integers(0, 30)]).flatmap(
        lambda v: st.sampled_from([v, maybe(v)]).flatmap(lambda w: st.one_of(st.lists(st.tuples(w, w, st.integers(0, 3)), max_size=12), st.lists(st.tuples(w, w, st.integers(0, 3)), min_size=5, max_size=60))))


NAMES = st.one_of(st.sampled_from(['mean_test_score', 'mean_test_compute', 'mean_test_accuracy', 'score', 'cost', 'a', 'index', '0', 'performance']), st.text('abc_1 ', min_size=1, max_size=6))
FOUR = st.lists(NAMES, min_size=4, max_size=4, unique=True)
FRONT = st.tuples(FOUR, st.booleans()).flatmap(lambda t: st.fixed_dictionaries({
    'cost': st.just(t[0][0] if t[1] else ('mean_test_compute' if 'mean_test_compute' not in t[0] else t[0][0])), 'perf': st.just(t[0][1] if t[1] or 'mean_test_accuracy' in t[0] else 'mean_test_accuracy'), 'extra': st.just(t[0][2]), 'tag': st.just(t[0][3]),
    'rows': rowlist(), 'order': st.integers(0, 20), 'dtype': st.sampled_from(['auto', 'auto', 'int64', 'uint8', 'float32', 'int8']), 'index': st.sampled_from(['default', 'strings', 'reversed', 'repeated']),
    'min': st.one_of(st.none(), st.none(), val), 'higher': st.booleans(), 'style': st.booleans(), 'perm': st.lists(st.integers(0, 200), max_size=40)}))
PLOT = st.fixed_dictionaries({'rows': st.lists(st.tuples(st.integers(0, 30), st.integers(0, 30), st.integers(0, 2)), min_size=1, max_size=25), 'hue': st.sampled_from(['numbers', 'strings', None]), 'global': st.booleans(), 'other': st.booleans(),
                              'cost': st.sampled_from(['mean_test_compute', 'c', 'time']), 'perf': st.sampled_from(['mean_test_accuracy', 'p', 'mean_test_score']), 'min': st.one_of(st.none(), st.integers(0, 30))})
SUBTESTS = [
    Sub('front', lambda: FRONT, front, quick=4000, thorough=60000),
    Sub('plot', lambda: PLOT, plot, quick=100, thorough=1200),
]


def build():
    import pandas, seaborn, matplotlib
    matplotlib.use('Agg')
    import emlearn.evaluate.pareto
    return {}
