"""C02: tree regressors. Oracle: mean over the trees of tree_.value at the leaf the estimator itself reaches."""
import numpy, emlearn
from vlib import core, cc, treegen, treedrv, treetab



def table_case(rec, i):
    """EmlTrees tables of sizes beyond what training reaches"""
    g = core.rng('C02', 'table', i)
    size = treetab.sizes(g, i)
    t = treetab.table(g, 32, n_features=int(g.choice([1, 3, 20, 127])), n_classes=1, **size)
    Q = treetab.queries(g, t, core.pick(150, 400))
    info = f'table {size} nodes={len(t["nodes"])} features={t["features"]}'
    o = treetab.run(t, Q)
    leaf = treetab.walk(t, Q)
    vals = t['leaves'].astype(float)[leaf]
    want = vals.mean(axis=0)
    tol = 2.0**-23 * (4 + len(vals)) * numpy.maximum(numpy.abs(vals).max(axis=0), 1e-30)
    rec.ev('table_rows', len(Q)); rec.ev('table_leaves_above_16k', int((leaf > 16384).sum())); rec.ev('table_nodes', len(t['nodes']))
    rec.require(not o['e'].any(), 'table:error', info)
    w = numpy.nonzero(~(numpy.abs(o['v'] - want) <= tol) | (o['v'] != o['v1']))[0]
    rec.require(len(w) == 0, 'table:value', lambda: f'{len(w)}/{len(Q)} rows; leaves {leaf[:5, w[0]].tolist()} got {o[w[0]]} want {want[w[0]]} {info}')
    rec.distinct_rows(Q, f'table{i}')


def model_case(rec, key):
    kind, i = key
    if kind == 'table':
        return table_case(rec, i)
    g = core.rng('C02', kind, i)
    dtype = 'int16_t' if g.random() < 0.55 else str(g.choice(['float', 'int8_t', 'int32_t']))
    if dtype in ('int8_t', 'int32_t') and core.rng('C02', kind, i, 'unsigned').random() < .35:
        dtype = 'uint8_t' if dtype == 'int8_t' else 'uint16_t'
    if kind in ('many', 'long'):
        dtype = 'int16_t'
        est, X = treegen.large_regressor(g, kind, forest=i % 2 == 1)
        rec.ev('large_models')
        rec.ev('largest_tree_nodes', max(t.node_count for t in treegen.subtrees(est)))
    else:
        est, X = treegen.regressor(g, dtype, 'inline' if dtype != 'int16_t' else 'both')
    Q, hits = treegen.queries(g, est, X, dtype, core.pick(200, 500))
    rec.ev('threshold_hits', hits)
    info = f'{type(est).__name__} dtype={dtype} features={X.shape[1]} trees={len(treegen.subtrees(est))}'
    methods = (['inline'] if kind != 'long' else []) + (['loadable'] if dtype == 'int16_t' and X.shape[1] <= 127 else [])
    models = {m: emlearn.convert(est, method=m, dtype=dtype) for m in methods}
    parts = [('m_' + m, models[m].save(name='m_' + m)) for m in methods]
    exe = cc.compile_c(treedrv.regressor_driver(parts, dtype), san=True)
    raw = treedrv.drive(exe, Q)
    outs = numpy.frombuffer(raw, '<f4').reshape(len(methods), len(Q)).astype(float)
    vals = numpy.stack([v[:, 0] for v in treegen.leaf_values(est, Q)])     # trees x rows
    want = vals.mean(axis=0)
    # single precision: each leaf is rounded, the sum of n terms too
    scale = numpy.abs(vals).max(axis=0)
    tol = 2.0**-23 * (4 + len(vals)) * numpy.maximum(scale, 1e-30)
    for m, out in zip(methods, outs):
        rec.ev('predict_calls', len(Q))
        rec.ev(f'models_{m}')
        w = numpy.nonzero(~(numpy.abs(out - want) <= tol))[0]
        rec.require(len(w) == 0, f'{m}:value', lambda: f'{len(w)}/{len(Q)} rows; row {Q[w[0]].tolist()}: C {out[w[0]]!r}, mean of leaves {want[w[0]]!r}, leaves {vals[:, w[0]].tolist()} {info}', row=Q[w[0]] if len(w) else None)
    if len(outs) == 2:
        rec.ev('inline_vs_loadable', len(Q))
        d = numpy.abs(outs[0] - outs[1])
        rec.require((d <= tol).all(), 'inline-vs-loadable', lambda: f'{d.max()} {info}')
    rec.ev(f'dtype_{dtype}')
    rec.ev('forests' if len(vals) > 1 else 'single_trees')
    rec.distinct_rows(Q, f'{kind}{i}')
    rec.sample(dict(model=info, rows=len(Q), first_row=Q[0][:8], got=outs[0][0], want=want[0]))
    if kind == 'api':
        m = methods[int(g.integers(0, len(methods)))]
        sub = Q[:60]
        if dtype == 'float':
            sub = sub[[all(abs(v) < 1e30 for v in r) for r in sub.astype(float)]]
            if len(sub) == 0:
                return
        sel = [numpy.nonzero((Q == r).all(axis=1))[0][0] for r in sub]
        pred = numpy.asarray(models[m].predict(sub), dtype=float).reshape(-1)
        rec.ev('python_predict_rows', len(sub))
        j = methods.index(m)
        t = tol[sel] + 1e-8 * scale[sel]
        rec.require(pred.shape == (len(sub),) and (numpy.abs(pred - outs[j][sel]) <= t).all(), f'python-{m}:value',
                    lambda: f'{pred[:5].tolist()} vs {outs[j][sel][:5].tolist()} {info}')


def main():
    c = core.Check('C02')
    keys = [(k, i) for k, n in (('long', core.pick(2, 8)), ('many', core.pick(3, 20))) for i in range(n)]
    keys += [('table', i) for i in range(core.pick(12, 120))] if treetab.available() else []
    keys += [('api', i) for i in range(core.pick(24, 140))]
    keys += [('gen', i) for i in range(core.pick(150, 1500))]
    c.run(model_case, keys)
    c.finish('one case = one (model, input row) pair; rows sit on, just below or just above a split threshold of their own '
             'decision path, at the type limits, or are (mixed) training rows; distinct rows per model are counted',
             dict(predict_calls=5000, threshold_hits=2000, models_inline=20, models_loadable=10, forests=10, single_trees=5,
                  python_predict_rows=200, large_models=4, inline_vs_loadable=1000),
             ['scikit-learn tree_.apply is the reference walk', 'int32 inputs limited to +-2^24 because scikit-learn itself converts inputs to float32'])

main()
