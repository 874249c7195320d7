"""Forest tables in the documented EmlTrees layout, built directly rather than through a trained model: reaches table sizes
(tens of thousands of leaves, hundreds of thousands of nodes, child jumps near the int16 limit) that training cannot in reasonable
time. The reference is a vectorised walk over the same table."""
import numpy
from . import cc

INT = numpy.int64


def table(g, leaf_bits, n_leaves, n_features, n_trees, tree_nodes, n_classes):
    """-> dict of arrays; tree_nodes decision nodes per tree, breadth first or depth first, children behind their parent"""
    nodes, roots = [], []
    for t in range(n_trees):
        m = tree_nodes
        base = len(nodes)
        roots.append(base)
        depth_first = g.random() < .5
        ch = numpy.zeros((m, 2), INT)
        # a random binary tree: node j > 0 takes a free slot of an earlier node
        slots = [(0, 0), (0, 1)]
        for j in range(1, m):
            if depth_first:
                i = len(slots) - 1 - min(int(g.integers(0, 3)), len(slots) - 1)
            else:
                i = int(g.integers(0, min(len(slots), 40)))
            p, side = slots.pop(i)
            ch[p, side] = j - p
            slots += [(j, 0), (j, 1)]
        leaf = g.integers(0, n_leaves, size=(m, 2))
        edge = g.random((m, 2)) < .15
        leaf = numpy.where(edge, n_leaves - 1 - g.integers(0, min(3, n_leaves), size=(m, 2)), leaf)
        ch = numpy.where(ch == 0, -leaf - 1, ch)
        f = g.integers(0, n_features, size=m)
        v = g.integers(-32768, 32768, size=m)
        nodes += numpy.column_stack([f, v, ch]).tolist()
    nodes = numpy.array(nodes, INT)
    if leaf_bits == 0:
        data = g.integers(0, n_classes, size=n_leaves).astype('u1')
    elif leaf_bits == 8:
        d = g.integers(0, 256, size=(n_leaves, n_classes)) * (g.random((n_leaves, n_classes)) < g.choice([.1, .5, 1]))
        d[numpy.arange(n_leaves), g.integers(0, n_classes, size=n_leaves)] = g.integers(1, 256, size=n_leaves)
        data = d.astype('u1')
    else:
        data = (g.normal(size=n_leaves) * 10.0 ** g.integers(-3, 6)).astype('f4')
    return dict(nodes=nodes, roots=numpy.array(roots, INT), leaves=data, leaf_bits=leaf_bits, features=n_features, classes=n_classes)


def walk(t, Q):
    """-> leaf numbers, trees x rows"""
    out = []
    for r in t['roots']:
        idx = numpy.full(len(Q), r, INT)
        live = numpy.arange(len(Q))
        while len(live):
            n = t['nodes'][idx[live]]
            c = numpy.where(Q[live, n[:, 0]] <= n[:, 1], n[:, 2], n[:, 3])
            idx[live] = numpy.where(c >= 0, idx[live] + c, c)
            live = live[c >= 0]
        out.append(-idx - 1)
    return numpy.array(out)


def queries(g, t, n):
    """rows around the thresholds of nodes on their own path"""
    Q = g.integers(-32768, 32768, size=(n, t['features'])).astype('i2')
    for k in range(n):
        for r in g.choice(t['roots'], size=min(3, len(t['roots'])), replace=False):
            i = int(r)
            while i >= 0:
                f, v, a, b = t['nodes'][i]
                if g.random() < .3:
                    Q[k, f] = min(32767, max(-32768, v + int(g.integers(-1, 2))))
                c = a if Q[k, f] <= v else b
                i = i + c if c >= 0 else -1
    return Q


DRIVER = cc.READER + r'''
#include <eml_trees.h>
int main(int argc, char **argv) {
    v_open(argv);
    int64_t nn, nr, nl, total;
    int32_t *dim = (int32_t *)v_get(4, NULL);
    const int rows = dim[0], m = dim[1], bits = dim[2], k = dim[3];
    int32_t *raw = (int32_t *)v_get(4, &nn); nn /= 4;
    int32_t *roots = (int32_t *)v_get(4, &nr);
    uint8_t *leaves = (uint8_t *)v_get(1, &nl);
    int16_t *X = (int16_t *)v_get(2, &total);
    EmlTreesNode *nodes = (EmlTreesNode *)calloc(nn, sizeof(EmlTreesNode));
    for (int64_t i = 0; i < nn; i++) { nodes[i].feature = raw[4*i]; nodes[i].value = raw[4*i+1]; nodes[i].left = raw[4*i+2]; nodes[i].right = raw[4*i+3]; }
    EmlTrees f; memset(&f, 0, sizeof(f));
    f.n_nodes = nn; f.nodes = nodes; f.n_trees = nr; f.tree_roots = roots; f.n_leaves = nl; f.leaves = leaves;
    f.leaf_bits = bits; f.n_features = m; f.n_classes = k;
    for (int i = 0; i < rows; i++) {
        int16_t *row = (int16_t *)malloc(2 * m); memcpy(row, X + (int64_t)i * m, 2 * m);
        if (bits == 32) {
            float out[1] = {-7.0f};
            v_i32(eml_trees_regress(&f, row, m, out, 1)); v_put(out, 4, 1);
            v_f32(eml_trees_regress1(&f, row, m));
        } else {
            float *out = (float *)malloc(4 * k);
            v_i32(eml_trees_predict(&f, row, m));
            v_i32(eml_trees_predict_proba(&f, row, m, out, k)); v_put(out, 4, k);
            free(out);
        }
        free(row);
    }
    free(nodes); free(raw); free(roots); free(leaves); free(X); free(dim); v_close(); return 0;
}
'''
EXE = {}


def run(t, Q):
    if 'exe' not in EXE:
        EXE['exe'] = cc.compile_c(DRIVER, san=True)
    from .core import scratch
    d = scratch('tab')
    i4 = lambda a: numpy.ascontiguousarray(a, 'i4')
    cc.put(d + '/in', i4([len(Q), t['features'], t['leaf_bits'], t['classes']]), i4(t['nodes'].ravel()), i4(t['roots']),
           numpy.frombuffer(numpy.ascontiguousarray(t['leaves']).tobytes(), 'u1'), Q)
    cc.run(EXE['exe'], [d + '/in', d + '/out'], what='tables')
    raw = open(d + '/out', 'rb').read()
    if t['leaf_bits'] == 32:
        return numpy.frombuffer(raw, numpy.dtype([('e', '<i4'), ('v', '<f4'), ('v1', '<f4')]))
    return numpy.frombuffer(raw, numpy.dtype([('c', '<i4'), ('e', '<i4'), ('p', '<f4', (t['classes'],))]))


def sizes(g, i, leaf_max=32768):
    """case 0..2 are the big ones"""
    if i % 6 == 0:
        return dict(n_leaves=leaf_max - int(g.integers(0, 5)), n_trees=3, tree_nodes=int(g.integers(20000, 32768)))
    if i % 6 == 1:
        return dict(n_leaves=int(g.integers(20000, leaf_max)), n_trees=40, tree_nodes=int(g.integers(3000, 6000)))
    return dict(n_leaves=int(g.choice([1, 2, 10, 255, 256, 257, 4000])), n_trees=int(g.choice([1, 2, 7, 127, 128, 300])), tree_nodes=int(g.choice([1, 2, 5, 60, 200])))


def available():
    """the tables are filled through the field names of the struct: not judged where those have other names"""
    from . import core
    try:
        EXE['exe'] = cc.compile_c(DRIVER, san=True)
        return True
    except core.Violation:
        return False
