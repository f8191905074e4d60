"""T04: inline code == loadable code == exported CSV of one converted tree model."""
import re
import numpy as np
from hypothesis import strategies as st
import vh, treelib as tl
from T03 import LEAF
from vh import Sub, check

PROPERTY = 'T04'
RULE = ('a case is one tree model (hard or soft classifier, or regressor) with dtype, leaf bits and >=100 rows; the inline code, the loadable '
        'code (int16 features) and an interpreter of the exported CSV are run on each row. Non-trivial: at least 2 different outputs over the rows.')
ASSUMPTIONS = ['the CSV is interpreted as the arrays of the C model: relative jumps for nodes, -1-index for leaves',
               'rows within 1e-5 (relative) of a threshold are not compared for the CSV of float models']


def parse_csv(text):
    items = {'f': [], 'c': [], 'lb': [], 'l': [], 'r': [], 'n': []}
    for line in text.replace('\r\n', '\n').split('\n'):
        if not line:
            continue
        key, _, rest = line.partition(',')
        if key not in items:
            raise vh.Violation('CSV line of unknown kind: %r' % line[:100])
        items[key].append(rest)
    return items


def num_list(s):
    s = s.strip().strip('[]').replace(',', ' ')
    try:
        return [float(v) for v in s.split()]
    except ValueError:
        raise vh.Violation('CSV leaf is not numeric: %r' % s[:100])


def csv_model(text, case, nc, soft):
    it = parse_csv(text)
    check(len(it['f']) == len(it['c']) == len(it['lb']) == 1, 'CSV must have one row each of f, c, lb')
    check(int(it['f'][0]) == case['n_features'], 'CSV feature count %s', it['f'])
    check(int(it['c'][0]) == (nc if case['kind'] == 'clf' else 0), 'CSV class count %s', it['c'])
    leaves = [num_list(l) for l in it['l']]
    nodes = []
    for n in it['n']:
        t = n.split(',')
        check(len(t) == 4, 'CSV node row %r', n)
        nodes.append((int(t[0]), float(t[1]), int(t[2]), int(t[3])))
    roots = [int(r) for r in it['r']]
    width = nc if soft else 1
    check(all(len(l) == width for l in leaves), 'CSV leaf rows must have %d values', width)
    # structure: every reference valid, everything reachable, no cycles (jumps go forward)
    reach_n, reach_l, todo = set(), set(), list(roots)
    check(all(0 <= r < len(nodes) for r in roots), 'CSV root out of range')
    while todo:
        i = todo.pop()
        if i in reach_n:
            continue
        reach_n.add(i)
        f, th, l, r = nodes[i]
        check(0 <= f < case['n_features'], 'CSV node %d tests feature %d', i, f)
        for c in (l, r):
            if c < 0:
                check(-c - 1 < len(leaves), 'CSV node %d refers to leaf %d of %d', i, -c - 1, len(leaves))
                reach_l.add(-c - 1)
            else:
                check(c > 0 and i + c < len(nodes), 'CSV node %d jumps to %d of %d', i, i + c, len(nodes))
                todo.append(i + c)
    check(len(reach_n) == len(nodes), 'CSV has unreachable nodes')
    check(len(reach_l) == len(leaves), 'CSV has unreachable leaves')
    return roots, nodes, leaves


def csv_eval(model, X, near):
    roots, nodes, leaves = model
    out, ok = [], np.ones(len(X), bool)
    for k, x in enumerate(X):
        vals = []
        for r in roots:
            i = r
            while True:
                f, th, l, rr = nodes[i]
                v = float(np.float32(x[f]))
                if near and abs(v - th) <= 1e-5 * max(abs(th), 1e-30):
                    ok[k] = False
                c = l if v <= th else rr
                if c < 0:
                    vals.append(leaves[-c - 1])
                    break
                i += c
        out.append(vals)
    return np.array(out, dtype=float), ok      # rows, trees, width


def body(case, ctx):
    import emlearn
    est, X, nc = tl.prepare(case)
    dtype, bits, kind = case['dtype'], case.get('leaf_bits', 0), case['kind']
    soft = bits > 0
    kw = {'leaf_bits': bits} if soft else {}
    models, csvs = [], []
    for m in tl.methods_for(dtype):
        with ctx.sut('convert(method=%s, dtype=%s)' % (m, dtype)):
            c = emlearn.convert(est, method=m, dtype=dtype, **kw)
            code = c.save(name='mod_' + m)
            csvs.append(c.save(name='mod_' + m, format='csv'))
        models.append(dict(name='mod_' + m, code=code, clf=kind == 'clf', proba=kind == 'clf', n_classes=nc))
    check(len(set(csvs)) == 1, 'CSV export depends on the inference method')
    res = tl.run_models(models, dtype, X)
    a = res[0]
    if len(res) == 2:
        b = res[1]
        if kind == 'clf':
            bad = np.nonzero(a['pred'] != b['pred'])[0]
            check(len(bad) == 0, 'inline predicts %s, loadable %s for row %s', a['pred'][bad[:3]], b['pred'][bad[:3]], tl.describe_rows(X, bad))
            check(np.abs(a['proba'] - b['proba']).max() < 1e-6, 'probabilities of inline and loadable differ')
        else:
            d = np.abs(a['pred'].astype(float) - b['pred'].astype(float))
            tolr = 1e-6 * tl.leaf_values(est, X)[:, :, 0].__abs__().mean(axis=0) + 1e-43
            check((d <= tolr).all(), 'values of inline and loadable differ: %s %s', a['pred'][d > tolr][:3], b['pred'][d > tolr][:3])
        ctx.compared(len(X))
        ctx.label('inline vs loadable')
    model = csv_model(csvs[0], case, nc, soft)
    vals, ok = csv_eval(model, X, dtype == 'float')
    if kind == 'reg':
        want = vals[:, :, 0].mean(axis=1)
        tol = (vals.shape[1] + 4) * 2.0 ** -23 * np.abs(vals[:, :, 0]).mean(axis=1) + 1e-43
        bad = np.nonzero(ok & ~(np.abs(a['pred'] - want) <= tol))[0]
        check(len(bad) == 0, 'C gives %s, the CSV describes %s, row %s', a['pred'][bad[:3]], want[bad[:3]], tl.describe_rows(X, bad))
    else:
        if soft:
            p = vals.mean(axis=1) / 255.0
        else:
            p = np.zeros((len(X), nc))
            for t in range(vals.shape[1]):
                p[np.arange(len(X)), vals[:, t, 0].astype(int)] += 1.0 / vals.shape[1]
        d = np.abs(p - a['proba']).max(axis=1)
        bad = np.nonzero(ok & (d > 1e-5))[0]
        check(len(bad) == 0, 'C gives %s, the CSV describes %s, row %s', a['proba'][bad[:2]], p[bad[:2]], tl.describe_rows(X, bad))
    ctx.compared(int(ok.sum()))
    ctx.label('kind:%s%s' % (kind, '-soft' if soft else ''), 'dtype:' + dtype)
    ctx.nontriv(len(np.unique(a['pred'])) >= 2)


DT = ['int16_t', 'int16_t', 'int16_t', 'int16_t', 'float', 'float', 'int8_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']


def bits(s):
    return st.tuples(s, st.sampled_from([0, 0, 3, 5, 8])).map(lambda t: dict(t[0], leaf_bits=t[1]))


SUBTESTS = [
    Sub('classifier', lambda: bits(tl.forest_case('clf', dtypes=DT)), body, quick=200),
    Sub('regressor', lambda: tl.forest_case('reg', dtypes=DT, leaf=LEAF), body, quick=120),
    Sub('fitted-classifier', lambda: bits(tl.fit_case('clf')), body, quick=48),
    Sub('fitted-regressor', lambda: tl.fit_case('reg'), body, quick=48),
    Sub('large', lambda: bits(tl.forest_case('clf', dtypes=['int16_t'], max_trees=40, max_nodes=60)), body, quick=16),
    Sub('many-leaves', lambda: bits(tl.big_case('clf', 700)), body, quick=8),
    Sub('many-leaves-regressor', lambda: tl.big_case('reg', 900), body, quick=6),
    Sub('many-trees', lambda: bits(tl.crowd_case('clf')), body, quick=6),
    Sub('many-trees-regressor', lambda: tl.crowd_case('reg'), body, quick=6),
    Sub('large-tables', lambda: st.tuples(tl.big_case('clf', 1500), st.sampled_from([5, 8])).map(lambda t: dict(t[0], leaf_bits=t[1], n_classes=30)), body, quick=5),
]
