"""C01: tree classifiers. Oracle: the estimator's own leaf walk (tree_.apply) and a vote over tree_.value."""
import numpy, emlearn
from vlib import core, cc, treegen, treedrv, treetab


def check_outputs(rec, tag, est, Q, leaf_bits, out, info):
    c, e, p, mod = out
    k = int(est.n_classes_)
    rec.ev('predict_calls', len(Q))
    rec.ev('predict_proba_calls', len(Q))
    rec.require(not (e != 0).any(), f'{tag}:proba-error', lambda: f'predict_proba returned {set(e.tolist())} {info}')
    rec.require(not mod.any(), f'{tag}:features-modified', info)
    bad = (c < 0) | (c >= k)
    if not rec.require(not bad.any(), f'{tag}:not-a-class', lambda: f'predict returned {set(c[bad].tolist())}, classes {k} {info}'):
        return
    if leaf_bits == 0:
        votes = treegen.hard_votes(est, Q)
        want = votes.argmax(axis=1)
        top = numpy.sort(votes, axis=1)
        rec.ev('vote_ties', int((top[:, -1] == top[:, -2]).sum()) if k > 1 else 0)
        w = numpy.nonzero(c != want)[0]
        rec.require(len(w) == 0, f'{tag}:hard-vote-class', lambda: f'{len(w)}/{len(Q)} rows; row {Q[w[0]].tolist()} votes {votes[w[0]].tolist()} C says {c[w[0]]} {info}', row=Q[w[0]] if len(w) else None)
        wp = votes / votes.sum(axis=1, keepdims=True)
        d = numpy.abs(p - wp).max(axis=1)
        w = numpy.nonzero(~(d < 1e-5))[0]
        rec.require(len(w) == 0, f'{tag}:hard-vote-proba', lambda: f'{len(w)} rows; got {p[w[0]].tolist()} want {wp[w[0]].tolist()} {info}')
    else:
        wp = treegen.soft_proba(est, Q)
        tol = 0.5 / (2**leaf_bits - 2) + 1 / 255 + 1e-5
        d = numpy.abs(p - wp).max(axis=1)
        w = numpy.nonzero(~(d <= tol))[0]
        rec.require(len(w) == 0, f'{tag}:soft-vote-proba', lambda: f'{len(w)}/{len(Q)} rows, max error {d.max()} > {tol}; got {p[w[0]].tolist()} want {wp[w[0]].tolist()} {info}')
        mx = p.max(axis=1)
        got = p[numpy.arange(len(Q)), c]
        w = numpy.nonzero(got < mx - 1e-5)[0]
        rec.require(len(w) == 0, f'{tag}:soft-vote-argmax', lambda: f'predict {c[w[0]]} but probabilities {p[w[0]].tolist()} {info}')
        s = numpy.sort(wp, axis=1)
        margin = s[:, -1] - s[:, -2] if k > 1 else numpy.ones(len(Q))
        clear = margin > 2 * tol
        rec.ev('soft_clear_margin', clear.sum())
        w = numpy.nonzero(clear & (c != wp.argmax(axis=1)))[0]
        rec.require(len(w) == 0, f'{tag}:soft-vote-class', lambda: f'{len(w)} rows; got {c[w[0]]} want {wp[w[0]].tolist()} {info}')


def table_case(rec, i):
    """EmlTrees tables of sizes beyond what training reaches"""
    g = core.rng('C01', 'table', i)
    size = treetab.sizes(g, i)
    bits = 8 if i % 6 == 0 else int(g.choice([0, 8]))
    t = treetab.table(g, bits, n_features=int(g.choice([1, 3, 20, 127])), n_classes=int(g.choice([2, 3, 10, 29, 30])), **size)
    Q = treetab.queries(g, t, core.pick(150, 400))
    info = f'table leaf_bits={bits} {size} nodes={len(t["nodes"])} features={t["features"]} classes={t["classes"]}'
    o = treetab.run(t, Q)
    leaf = treetab.walk(t, Q)
    rec.ev('table_rows', len(Q)); rec.ev('table_leaves_above_16k', int((leaf > 16384).sum())); rec.ev('table_nodes', len(t['nodes']))
    k = t['classes']
    if bits == 0:
        votes = numpy.stack([numpy.bincount(t['leaves'][leaf[:, r]], minlength=k) for r in range(len(Q))]).astype(float)
    else:
        votes = sum(t['leaves'][l].astype(float) for l in leaf) / 255
    wp = votes / len(leaf)
    tol = 1e-5
    rec.require(not o['e'].any(), 'table:proba-error', info)
    w = numpy.nonzero(~(numpy.abs(o['p'] - wp).max(axis=1) < tol))[0]
    rec.require(len(w) == 0, 'table:proba', lambda: f'{len(w)}/{len(Q)} rows; leaves {leaf[:5, w[0]].tolist()} got {o["p"][w[0]].tolist()} want {wp[w[0]].tolist()} {info}')
    top = numpy.sort(wp, axis=1)
    clear = (top[:, -1] - top[:, -2] > 2 * tol) | (bits == 0)
    w = numpy.nonzero(clear & (o['c'] != wp.argmax(axis=1)))[0]
    rec.require(len(w) == 0, 'table:class', lambda: f'{len(w)}/{len(Q)} rows; got {o["c"][w[0]]} want {wp[w[0]].tolist()} {info}')
    rec.distinct_rows(Q, f'table{i}')


def model_case(rec, key):
    kind, i = key
    if kind == 'table':
        return table_case(rec, i)
    g = core.rng('C01', kind, i)
    dtype = 'int16_t' if g.random() < 0.55 else str(g.choice(['float', 'int8_t', 'int32_t']))
    if dtype in ('int8_t', 'int32_t') and core.rng('C01', kind, i, 'unsigned').random() < .35:
        dtype = 'uint8_t' if dtype == 'int8_t' else 'uint16_t'
    leaf_bits = int(g.choice([0, 0, 0, 3, 4, 5, 6, 7, 8]))
    if kind == 'classes':
        leaf_bits = 0 if i % 2 else leaf_bits or 8
    large = kind in ('many', 'long', 'wide')
    if large:
        dtype = 'int16_t'
        leaf_bits = 8 if kind == 'wide' else 0 if kind == 'long' or i % 4 else leaf_bits
        est, X = treegen.large_classifier(g, kind, forest=i % 2 == 1)
        rec.ev('large_models')
        rec.ev('large_forest_leaves', sum((t.children_left == -1).sum() for t in treegen.subtrees(est)))
        rec.ev('largest_tree_nodes', max(t.node_count for t in treegen.subtrees(est)))
    else:
        est, X = treegen.classifier(g, dtype, 'inline' if dtype != 'int16_t' else 'both', big=(kind == 'big'), k=int(g.integers(11, 31)) if kind == 'classes' else None)
    k = int(est.n_classes_)
    nq = core.pick(200, 500)
    Q, hits = treegen.queries(g, est, X, dtype, nq)
    rec.ev('threshold_hits', hits)
    info = f'{type(est).__name__} dtype={dtype} leaf_bits={leaf_bits} features={X.shape[1]} classes={k} trees={len(treegen.subtrees(est))}'
    methods = (['inline'] if kind != 'long' else []) + (['loadable'] if dtype == 'int16_t' and X.shape[1] <= 127 else [])
    kw = dict(leaf_bits=leaf_bits) if leaf_bits or g.random() < 0.5 else {}
    models = {m: emlearn.convert(est, method=m, dtype=dtype, **kw) for m in methods}
    parts = [('m_' + m, models[m].save(name='m_' + m), k, True) for m in methods]
    exe = cc.compile_c(treedrv.classifier_driver(parts, dtype), san=True, flags=('-std=c99', '-O1', '-w') if kind != 'big' and not large else ('-std=c99', '-O0', '-w'))
    outs = treedrv.parse_classifier(treedrv.drive(exe, Q), len(Q), [k] * len(parts))
    for m, out in zip(methods, outs):
        check_outputs(rec, m, est, Q, leaf_bits, out, info)
        rec.ev(f'models_{m}')
    rec.ev(f'dtype_{dtype}')
    rec.ev('models_soft' if leaf_bits else 'models_hard')
    rec.distinct_rows(Q, f'{kind}{i}')
    if len(outs) == 2:
        a, b = outs
        w = numpy.nonzero(a[0] != b[0])[0]
        rec.ev('inline_vs_loadable', len(Q))
        rec.require(len(w) == 0 or leaf_bits != 0 and (numpy.abs(a[2] - b[2]).max() < 1e-6), 'inline-vs-loadable:class', lambda: f'row {Q[w[0]].tolist()}: {a[0][w[0]]} vs {b[0][w[0]]} {info}')
        rec.require(numpy.abs(a[2] - b[2]).max() < 1e-5, 'inline-vs-loadable:proba', info)
    rec.sample(dict(model=info, rows=len(Q), first_row=Q[0][:8], prediction=int(outs[0][0][0]), proba=outs[0][2][0][:6]))
    # the same through the Python API (fewer rows: each call is a subprocess with text I/O)
    if kind == 'api':
        m = methods[int(g.integers(0, len(methods)))]
        sub = Q[:60]
        j = methods.index(m)
        pred = numpy.array(models[m].predict(sub))
        proba = models[m].predict_proba(sub)
        rec.ev('python_predict_rows', len(sub))
        n = len(Q)
        sel = [numpy.nonzero((Q == r).all(axis=1))[0][0] for r in sub]
        rec.require(numpy.array_equal(pred, outs[j][0][sel]), f'python-{m}:class', lambda: f'{pred.tolist()} vs {outs[j][0][sel].tolist()} {info}')
        if i % 7 == 0:       # a long batch
            rep = core.rng('C01', 'batch', i).integers(0, len(sub), size=int(g.choice([3000, 5000, 9001])))
            p2, q2 = numpy.asarray(models[m].predict(sub[rep])), models[m].predict_proba(sub[rep])
            rec.ev('python_long_batches')
            rec.require(numpy.array_equal(p2, pred[rep]) and numpy.array_equal(q2, proba[rep]), f'python-{m}:long-batch', lambda: f'{len(rep)} rows: first difference at row {numpy.nonzero(p2 != pred[rep])[0][:3] if len(p2) == len(rep) else len(p2)} {info}')
        rec.require(proba.shape == (len(sub), k) and numpy.abs(proba - outs[j][2][sel]).max() < 1e-8, f'python-{m}:proba', info)


def main():
    c = core.Check('C01')
    keys = [(k, i) for k, n in (('wide', core.pick(1, 4)), ('long', core.pick(4, 8)), ('many', core.pick(4, 30))) for i in range(n)]
    keys += [('table', i) for i in range(core.pick(12, 120))] if treetab.available() else []
    keys += [('classes', i) for i in range(core.pick(8, 80))]
    keys += [('api', i) for i in range(core.pick(28, 160))]
    keys += [('gen', i) for i in range(core.pick(130, 1400))]
    keys += [('big', i) for i in range(core.pick(2, 16))]
    c.run(model_case, keys)
    c.finish('one case = one (model, input row) pair; rows sit on, just below or just above a split threshold of their own '
             'decision path, at the type limits, or are (mixed) training rows; distinct rows per model are counted',
             dict(predict_calls=5000, threshold_hits=2000, models_inline=20, models_loadable=10, models_soft=10, models_hard=10,
                  vote_ties=20, python_predict_rows=200, large_models=7, python_long_batches=3, inline_vs_loadable=1000),
             ['scikit-learn tree_.apply is the reference walk', 'int32 inputs limited to +-2^24 because scikit-learn itself converts inputs to float32'])

main()
