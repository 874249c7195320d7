"""C03: CSV export and tables of tree ensembles. Monitor: an independent reader of the export (and of the EmlTrees struct of the
compiled C code) walks every query; the reference is the leaf that the estimator's own tree_.apply reaches."""
import copy, io, math, os
import numpy, emlearn
from vlib import core, cc, treegen, treedrv


def parse_csv(text):
    t = dict(l=[], r=[], n=[])
    for line in text.split('\r\n'):
        p = line.split(',')
        k = p[0]
        if k in ('f', 'c', 'lb'):
            if k in t:
                raise core.Violation('csv:duplicate-header', line)
            t[k] = int(p[1])
        elif k == 'l':
            t['l'].append(tuple(float(v) for v in p[1:]))
        elif k == 'r':
            t['r'].append(int(p[1]))
        elif k == 'n':
            if len(p) != 5:
                raise core.Violation('csv:node-fields', line)
            t['n'].append((int(p[1]), float(p[2]), int(p[3]), int(p[4]), p[2]))
        else:
            raise core.Violation('csv:unknown-line', line[:100])
    return t


def structure(rec, tag, nodes, roots, n_leaves, n_features, info):
    """references inside, no cycle, everything reachable"""
    seen_n, seen_l = set(), set()
    for r in roots:
        if not rec.require(0 <= r < len(nodes), f'{tag}:root-outside', f'{r} of {len(nodes)} {info}'):
            return False
        stack = [r]
        while stack:
            i = stack.pop()
            if i in seen_n:
                continue
            seen_n.add(i)
            f = nodes[i][0]
            if not rec.require(0 <= f < n_features, f'{tag}:feature-outside', f'{f} {info}'):
                return False
            for c in nodes[i][2:4]:
                if c >= 0:
                    if not rec.require(c > 0 and i + c < len(nodes), f'{tag}:child-outside', f'node {i} child {c} of {len(nodes)} {info}'):
                        return False
                    stack.append(i + c)
                else:
                    if not rec.require(-c - 1 < n_leaves, f'{tag}:leaf-outside', f'node {i} leaf {-c - 1} of {n_leaves} {info}'):
                        return False
                    seen_l.add(-c - 1)
    ok = rec.require(len(seen_n) == len(nodes), f'{tag}:unreachable-node', f'{len(nodes) - len(seen_n)} of {len(nodes)} {info}')
    ok &= rec.require(len(seen_l) == n_leaves, f'{tag}:unreachable-leaf', f'{n_leaves - len(seen_l)} of {n_leaves} {info}')
    rec.ev('references_checked', 2 * len(nodes) + len(roots))
    return ok


def walk(nodes, root, Q, thresholds):
    """vectorised walk of all rows; returns leaf index per row"""
    F = numpy.array([n[0] for n in nodes])
    L = numpy.array([n[2] for n in nodes])
    R = numpy.array([n[3] for n in nodes])
    idx = numpy.full(len(Q), root)
    rows = numpy.arange(len(Q))
    near = numpy.full(len(Q), numpy.inf)
    for _ in range(len(nodes) + 1):
        act = idx >= 0
        if not act.any():
            return -idx - 1, near
        i = idx[act]
        v = Q[rows[act], F[i]].astype(float)
        near[act] = numpy.minimum(near[act], numpy.abs(v - thresholds[i]))
        c = numpy.where(v <= thresholds[i], L[i], R[i])
        idx[act] = numpy.where(c >= 0, i + c, c)
    raise core.Violation('walk:endless', f'no leaf after {len(nodes)} steps')


def leaf_want(est, classifier, leaf_bits, Q):
    vals = treegen.leaf_values(est, Q)
    if not classifier:
        return [v[:, :1] for v in vals]
    if leaf_bits == 0:
        return [v.argmax(axis=1)[:, None].astype(float) for v in vals]
    return [v / v.sum(axis=1, keepdims=True) for v in vals]


DUMP = r'''
int main(int argc, char **argv) {
    v_open(argv);
    v_i32(m_a.n_nodes); v_i32(m_a.n_trees); v_i32(m_a.n_leaves); v_i32(m_a.leaf_bits); v_i32(m_a.n_features); v_i32(m_a.n_classes);
    for (int i = 0; i < m_a.n_nodes; i++) { v_i32(m_a.nodes[i].feature); v_i32(m_a.nodes[i].value); v_i32(m_a.nodes[i].left); v_i32(m_a.nodes[i].right); }
    for (int i = 0; i < m_a.n_trees; i++) { v_i32(m_a.tree_roots[i]); }
    for (int i = 0; i < m_a.n_leaves; i++) { v_i32(m_a.leaves[i]); }
    v_close(); return 0;
}
'''


def model_case(rec, key):
    kind, i = key
    g = core.rng('C03', kind, i)
    classifier = bool(g.random() < 0.6)
    method = 'loadable' if g.random() < 0.5 else 'inline'
    dtype = 'int16_t' if method == 'loadable' else str(g.choice(['float', 'int8_t', 'int32_t', 'int16_t']))
    leaf_bits = int(g.choice([0, 0, 0, 3, 5, 7, 8])) if classifier else 32
    if dtype in ('int8_t', 'int32_t') and core.rng('C03', kind, i, 'unsigned').random() < .35:
        dtype = 'uint8_t' if dtype == 'int8_t' else 'uint16_t'
    if kind != 'gen':
        classifier, method, dtype, leaf_bits = kind != 'values', 'loadable', 'int16_t', {'long': 0, 'many': 0, 'wide': 8, 'values': 32}[kind]
        if classifier:
            est, X = treegen.large_classifier(g, kind, forest=i % 2 == 0)
        else:
            est, X = treegen.large_values(g)
        rec.ev('large_models'); rec.ev('largest_forest_leaves', sum(int((t.children_left == -1).sum()) for t in treegen.subtrees(est)))
    elif classifier:
        est, X = treegen.classifier(g, dtype, 'both')
    else:
        est, X = treegen.regressor(g, dtype, 'both')
    trees = treegen.subtrees(est)
    k = int(est.n_classes_) if classifier else 0
    info = f'{type(est).__name__} dtype={dtype} method={method} leaf_bits={leaf_bits} features={X.shape[1]} classes={k} trees={len(trees)}'
    model = emlearn.convert(est, method=method, dtype=dtype, **(dict(leaf_bits=leaf_bits) if classifier and leaf_bits else {}))
    before = copy.deepcopy(getattr(model, 'forest_', ()))
    d = core.scratch('exp')
    order = int(g.integers(0, 3))
    c0 = model.save(name='m_a') if order != 0 else None
    t1 = model.save(name='m_a', format='csv')
    t2 = model.save(file=os.path.join(d, 'm_a.csv'), format='csv')
    c1 = model.save(name='m_a')
    t3 = model.save(name='m_a', format='csv')
    ref = emlearn.convert(est, method=method, dtype=dtype, **(dict(leaf_bits=leaf_bits) if classifier and leaf_bits else {})).save(name='m_a')
    rec.ev('exports', 3)
    rec.require(t1 == t2 == t3, 'export:differs-between-calls', info)
    with open(os.path.join(d, 'm_a.csv'), newline='') as f:
        rec.require(f.read() == t1, 'export:file-differs', info)
    rec.require((c0 is None or c0 == c1) and c1 == ref, 'export:changes-generated-code', info)
    same = len(before) == len(getattr(model, 'forest_', ())) and all(len(a) == len(b) and all(numpy.array_equal(x, y) for x, y in zip(a, b)) for a, b in zip(before, getattr(model, 'forest_', ())))
    rec.require(same, 'export:changes-model', info)

    t = parse_csv(t1)
    nodes, roots, leaves = t['n'], t['r'], t['l']
    rec.require(t.get('f') == X.shape[1], 'csv:features', f"{t.get('f')} {info}")
    rec.require(t.get('c') == k, 'csv:classes', f"{t.get('c')} {info}")
    rec.require(t.get('lb') == leaf_bits, 'csv:leaf-bits', f"{t.get('lb')} {info}")
    if not rec.require(len(roots) == len(trees), 'csv:roots', f'{len(roots)} {info}'):
        return
    if not structure(rec, 'csv', nodes, roots, len(leaves), X.shape[1], info):
        return
    rec.require(len(set(leaves)) == len(leaves), 'csv:duplicate-leaves', info)
    width = k if classifier and leaf_bits else 1
    if not rec.require(all(len(l) == width for l in leaves), 'csv:leaf-width', info):
        return
    rec.require(all(len(n[4].split('.')[-1].split('e')[0]) <= 6 for n in nodes if '.' in n[4] and 'e' not in n[4]), 'csv:decimals', info)
    n_dec = sum(max(1, int((tr.children_left != -1).sum())) for tr in trees)
    rec.require(len(nodes) == n_dec, 'csv:node-count', f'{len(nodes)} vs {n_dec} {info}')

    Q, hits = treegen.queries(g, est, X, dtype, core.pick(150, 400))
    rec.ev('threshold_hits', hits)
    want = leaf_want(est, classifier, leaf_bits, Q)
    L = numpy.array(leaves, dtype=float)
    tol = 0.5 / (2**leaf_bits - 2) + 1 / 255 + 1e-5 if classifier and leaf_bits else 0.0
    th = numpy.array([n[1] for n in nodes])
    for ti, (r, w) in enumerate(zip(roots, want)):
        leaf, near = walk(nodes, r, Q, th)
        got = L[leaf]
        if classifier and leaf_bits:
            got = got / 255.0
            bad = (numpy.abs(got - w) > tol).any(axis=1)
        elif classifier:
            bad = (got != w).any(axis=1)
        else:
            bad = (numpy.abs(got - w) > 1e-12 * numpy.abs(w) + 1e-300).any(axis=1)
        decisive = near > 1e-6 if dtype == 'float' else numpy.ones(len(Q), bool)
        decisive |= numpy.array([len(trees[ti].value) == 1] * len(Q))
        bad &= decisive
        rec.ev('walks', int(decisive.sum()))
        b = numpy.nonzero(bad)[0]
        if not rec.require(len(b) == 0, 'csv:leaf-value', lambda: f'tree {ti} row {Q[b[0]].tolist()}: {got[b[0]].tolist()} want {w[b[0]].tolist()} {info}'):
            break
    # thresholds keep 6 decimals: every exported threshold is one of its tree, in node order of the export
    own = sorted(float(v) for tr in trees for v in tr.threshold[tr.children_left != -1])
    single = sum(len(tr.value) == 1 for tr in trees)
    mine = sorted(th.tolist())
    if not single and len(own) == len(mine):
        worst = max(abs(a - b) for a, b in zip(own, mine))
        rel = max(abs(a - b) / max(1.0, abs(a)) for a, b in zip(own, mine))
        rec.require(rel <= 5.0001e-7, 'csv:threshold-precision', f'{worst} {info}')
    rec.ev('models_csv')
    rec.ev('leaf_kind_' + ('soft' if classifier and leaf_bits else 'hard' if classifier else 'value'))
    rec.distinct_rows(Q, f'{kind}{i}')
    rec.sample(dict(model=info, nodes=len(nodes), leaves=len(leaves), roots=roots[:5], first_node=nodes[0], export=t1[:200]))

    if method == 'loadable':
        exe = cc.compile_c(cc.READER + c1 + DUMP, flags=('-std=c99', '-O0', '-w'))
        cc.put(d + '/in')
        cc.run(exe, [d + '/in', d + '/out'])
        a = numpy.fromfile(d + '/out', dtype='<i4')
        nn, nt, nl, lb, nf, nc = a[:6].tolist()
        cn = a[6:6 + 4 * nn].reshape(nn, 4).tolist()
        cr = a[6 + 4 * nn:6 + 4 * nn + nt].tolist()
        cl = a[6 + 4 * nn + nt:]
        rec.require(len(cl) == nl and (nt, nf, nc) == (len(trees), X.shape[1], k), 'struct:header', f'{(nt, nf, nc)} {info}')
        per = 1
        if classifier and leaf_bits:
            per = k
            table = cl.reshape(-1, k) / 255.0
        elif classifier:
            table = cl[:, None].astype(float)
        else:
            per = 4
            table = cl.astype(numpy.uint8).tobytes()
            table = numpy.frombuffer(table, '<f4')[:, None].astype(float)
        rec.require(lb == (8 if classifier and leaf_bits else leaf_bits), 'struct:leaf-bits', f'{lb} {info}')
        if structure(rec, 'struct', cn, cr, len(cl) // per, X.shape[1], info):
            for ti, (r, w) in enumerate(zip(cr, want)):
                leaf, _ = walk(cn, r, Q, numpy.array([n[1] for n in cn], dtype=float))
                got = table[leaf]
                bad = (numpy.abs(got - w) > (tol if classifier else 1.0001 * 2.0**-24 * numpy.abs(w) + 1e-44)).any(axis=1)
                b = numpy.nonzero(bad)[0]
                rec.ev('struct_walks', len(Q))
                if not rec.require(len(b) == 0, 'struct:leaf-value', lambda: f'tree {ti} row {Q[b[0]].tolist()}: {got[b[0]].tolist()} want {w[b[0]].tolist()} {info}'):
                    break
        rec.ev('models_struct')


def main():
    c = core.Check('C03')
    c.run(model_case, [(k, i) for k, n in (('long', core.pick(2, 6)), ('many', core.pick(2, 6)), ('wide', core.pick(1, 3)), ('values', core.pick(4, 20))) for i in range(n)])
    c.run(model_case, [('gen', i) for i in range(core.pick(220, 2500))])
    c.finish('one case = one (model, input row) pair walked through the exported tables of every tree; rows sit on or next to split '
             'thresholds of their own path, at the type limits, or are (mixed) training rows; for float features rows nearer than 1e-6 '
             'to a threshold are not judged, because the export keeps 6 decimals',
             dict(walks=20000, struct_walks=5000, references_checked=2000, models_csv=50, models_struct=20, exports=100, large_models=9,
                  leaf_kind_soft=5, leaf_kind_hard=5, leaf_kind_value=5),
             ['the CSV layout (f/c/lb/l/r/n lines, relative child references, negative = leaf) is the documented interchange format'])

main()
