"""V02: tree model metrics equal direct counts on the trained trees and on the converted model."""
import pickle, re
import numpy as np
from hypothesis import strategies as st
import vh, treelib as tl
from T03 import LEAF
from vh import Sub, check

PROPERTY = 'V02'
RULE = ('a case is a tree estimator (generated shapes put into sklearn objects, or real fits) with voting mode and dtype, and rows around its thresholds; every metric is computed on the estimator and on the converted model, and compared with a direct walk over the '
        'trees and, where the features are 16 bit integers, with the sizes in the compiled loadable model. Non-trivial: at least 2 trees or 3 decision nodes, and leaves of at least 2 contents.')
ASSUMPTIONS = ['a tree node takes 8 bytes and the leaf table one byte per class index or class proportion, 4 bytes per regression value, as in EmlTrees',
               'the cost counts all nodes on the path of a row, the leaf included']


def walk(t):
    """(children_left, children_right, feature, threshold, value) of the tree, as python lists."""
    return [a.tolist() for a in (t.children_left, t.children_right, t.feature, t.threshold)] + [t.value[:, 0, :]]


def direct(est):
    nodes, depths, leaves = 0, [], []
    for m in tl.members(est):
        l, r, f, th, v = walk(m.tree_)
        deepest, todo = 0, [(0, 0)]
        n = 0
        while todo:
            i, d = todo.pop()
            deepest = max(deepest, d)
            if l[i] < 0:
                leaves.append(v[i])
            else:
                n += 1
                todo += [(l[i], d + 1), (r[i], d + 1)]
        nodes += max(n, 1)
        depths.append(deepest)
    return nodes, depths, leaves


def path_lengths(est, X):
    X = X.astype(np.float32)
    total = np.zeros(len(X))
    for m in tl.members(est):
        l, r, f, th, v = walk(m.tree_)
        for k, x in enumerate(X):
            i, n = 0, 1
            while l[i] >= 0:
                i = l[i] if float(x[f[i]]) <= th[i] else r[i]
                n += 1
            total[k] += n
    return total


def metrics(case, ctx):
    import emlearn
    from emlearn.evaluate import trees as ev
    est, X, nc = tl.prepare(case)
    clf = case['kind'] == 'clf'
    before = pickle.dumps(est)
    kw = dict(dtype=case['dtype'])
    if clf and case['bits'] is not None:
        kw['leaf_bits'] = case['bits']
    soft = clf and case['bits'] is not None and case['bits'] > 1
    nodes, depths, leaves = direct(est)
    X = X[:case['rows']]
    with ctx.sut('metrics of %s' % type(est).__name__):
        model = emlearn.convert(est, method='inline', **kw)
        y = np.zeros(len(X))
        extra = [(), (X, y), (X,)][case['args']]
        got = {n: getattr(ev, n)(est, *extra) for n in ('model_size_nodes', 'model_size_leaves', 'model_size_bytes', 'tree_depth_average', 'tree_depth_difference', 'count_trees')}
        conv = {n: getattr(ev, n)(model, *extra) for n in ('model_size_nodes', 'model_size_leaves', 'model_size_bytes')}
        sized = ev.model_size_bytes(model, node_size=case['ns'], leaf_size=case['ls'])
        cost = [ev.compute_cost_estimate(est, d, *([y] if case['args'] == 1 else [])) for d in (X, X.tolist())]
    check(pickle.dumps(est) == before, 'the estimator was changed')
    check(got['count_trees'] == len(depths), 'count_trees %r, %d trees', got['count_trees'], len(depths))
    check(abs(got['tree_depth_average'] - np.mean(depths)) < 1e-9 * (1 + max(depths)), 'tree_depth_average %r, depths %s', got['tree_depth_average'], depths)
    check(got['tree_depth_difference'] == max(depths) - min(depths), 'tree_depth_difference %r, depths %s', got['tree_depth_difference'], depths)
    for w, g in (('estimator', got), ('model', conv)):
        check(g['model_size_nodes'] == nodes, 'model_size_nodes of the %s %r, %d decision nodes', w, g['model_size_nodes'], nodes)
    if clf:
        hard = len(set(int(np.argmax(v)) for v in leaves))
        n_leaves, width = hard, 1
    else:
        lo, hi = len(set(np.float32(v[0]) for v in leaves)), len(set(float(v[0]) for v in leaves))
        n_leaves, width = hi, 4
        if lo != hi:
            n_leaves = got['model_size_leaves']
            check(lo <= n_leaves <= hi, 'model_size_leaves %r, %d to %d distinct leaves', n_leaves, lo, hi)
    check(got['model_size_leaves'] == n_leaves, 'model_size_leaves of the estimator %r, %d distinct leaves', got['model_size_leaves'], n_leaves)
    check(got['model_size_bytes'] == nodes * 8 + n_leaves * width, 'model_size_bytes of the estimator %r, %d nodes of 8, %d leaves of %d', got['model_size_bytes'], nodes, n_leaves, width)
    if soft:
        distinct = np.unique(np.array(leaves), axis=0)
        apart, kept = 2.0 / (2 ** case['bits'] - 2) + 2.0 / 255, []
        for v in distinct:
            if all(np.abs(v - k).max() > apart for k in kept):
                kept.append(v)
        n_leaves, width = conv['model_size_leaves'], nc
        check(len(kept) <= n_leaves <= len(distinct), 'model_size_leaves %r with %d bits, %d to %d distinct leaves', n_leaves, case['bits'], len(kept), len(distinct))
    check(conv['model_size_leaves'] == n_leaves, 'model_size_leaves of the model %r, %d distinct leaves', conv['model_size_leaves'], n_leaves)
    check(conv['model_size_bytes'] == nodes * 8 + n_leaves * width, 'model_size_bytes of the model %r, %d nodes of 8, %d leaves of %d', conv['model_size_bytes'], nodes, n_leaves, width)
    if case['ns'] is not None and case['ls'] is not None:
        check(sized == nodes * case['ns'] + n_leaves * case['ls'], 'model_size_bytes with node_size=%r leaf_size=%r is %r', case['ns'], case['ls'], sized)
    want = path_lengths(est, X).mean()
    for c in cost:
        check(abs(c - want) <= 1e-9 * want, 'compute_cost_estimate %r, average path %r', c, want)
    ctx.compared(12)
    if case['dtype'] == 'int16_t' and case['c']:
        agree(case, est, kw, nodes, n_leaves * width, ctx)
    ctx.label(case['kind'], case['ens'], 'soft' if soft else 'plain', 'single leaf trees' if min(depths) == 0 else 'no single leaf trees', 'compiled' if case['dtype'] == 'int16_t' and case['c'] else 'not compiled')
    ctx.nontriv((len(depths) > 1 or nodes > 2) and n_leaves > 1)


def agree(case, est, kw, nodes, leaf_bytes, ctx):
    import emlearn
    with ctx.sut('save'):
        code = emlearn.convert(est, method='loadable', **kw).save(name='m')
    exe = None
    try:
        exe = vh.cc('#include "drv.h"\n%s\nint main(void) { out_i32(m.n_nodes); out_i32(m.n_leaves); out_i32(sizeof(EmlTreesNode)); out_i32(m.n_trees); drv_flush(); return 0; }' % code, san=False, opt='-O0')
        out = np.frombuffer(vh.run_exe(exe), '<i4').tolist()
    except vh.CompileError as e:
        raise vh.Violation('generated code does not compile: %s' % str(e)[:400])
    except vh.Crash as e:
        raise vh.Violation('crash: %s' % e)
    finally:
        if exe:
            vh.rm(exe.rsplit('/', 1)[0])
    check(out[0] == nodes and out[1] == leaf_bytes, 'the generated model has %d nodes and %d bytes of leaves, reported are %d and %d', out[0], out[1], nodes, leaf_bytes)
    check(out[0] * out[2] + out[1] == nodes * 8 + leaf_bytes, 'node size %d', out[2])
    ctx.compared(3)


def with_opts(s):
    return st.tuples(s, st.fixed_dictionaries({'bits': st.sampled_from([None, None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8]), 'args': st.integers(0, 2), 'ns': st.sampled_from([None, 1, 4, 6, 8, 12]), 'ls': st.sampled_from([None, 0, 1, 3, 8]),
                                              'rows': st.sampled_from([1, 2, 10, 60]), 'c': st.sampled_from([True, True, False])})).map(lambda t: dict(t[0], **t[1]))


SUBTESTS = [
    Sub('shapes', lambda: with_opts(st.sampled_from(['clf', 'clf', 'reg']).flatmap(lambda k: tl.forest_case(k, dtypes=('int16_t', 'float', 'int8_t', 'int32_t'), max_nodes=20, leaf=None if k == 'clf' else LEAF))), metrics, quick=900),
    Sub('fits', lambda: with_opts(st.sampled_from(['clf', 'clf', 'reg']).flatmap(tl.fit_case)), metrics, quick=400),
]


def build():
    import emlearn.evaluate.trees
    return {}
