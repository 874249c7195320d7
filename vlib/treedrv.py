"""C drivers around generated tree code."""
import numpy
from . import cc
from .treegen import NPTYPE


def classifier_driver(parts, dtype):
    """parts: list of (name, code, n_classes, has_proba)"""
    s = cc.READER
    for name, code, k, proba in parts:
        s += '\n' + code + '\n'
    s += f'''
int main(int argc, char **argv) {{
    int64_t total; v_open(argv);
    int64_t hdr; int32_t *dim = (int32_t *)v_get(4, &hdr);
    {dtype} *X = ({dtype} *)v_get(sizeof({dtype}), &total);
    const int n = dim[0], m = dim[1];
'''
    for name, code, k, proba in parts:
        s += f'''
    {{
        for (int i = 0; i < n; i++) {{
            {dtype} *row = ({dtype} *)malloc(sizeof({dtype}) * m);
            memcpy(row, X + (int64_t)i * m, sizeof({dtype}) * m);
            const int32_t c = {name}_predict(row, m);
            v_i32(c);
            float *out = (float *)malloc(sizeof(float) * {k});
            for (int j = 0; j < {k}; j++) {{ out[j] = -7.0f; }}
            {f'v_i32((int32_t){name}_predict_proba(row, m, out, {k}));' if proba else 'v_i32(0);'}
            v_put(out, 4, {k});
            v_i32(memcmp(row, X + (int64_t)i * m, sizeof({dtype}) * m) != 0);
            free(out); free(row);
        }}
    }}
'''
    s += '    free(X); free(dim); v_close(); return 0;\n}\n'
    return s


def regressor_driver(parts, dtype):
    s = cc.READER
    for name, code in parts:
        s += '\n' + code + '\n'
    s += f'''
int main(int argc, char **argv) {{
    int64_t total; v_open(argv);
    int32_t *dim = (int32_t *)v_get(4, NULL);
    {dtype} *X = ({dtype} *)v_get(sizeof({dtype}), &total);
    const int n = dim[0], m = dim[1];
'''
    for name, code in parts:
        s += f'''
    for (int i = 0; i < n; i++) {{
        {dtype} *row = ({dtype} *)malloc(sizeof({dtype}) * m);
        memcpy(row, X + (int64_t)i * m, sizeof({dtype}) * m);
        v_f32({name}_predict(row, m));
        free(row);
    }}
'''
    s += '    free(X); free(dim); v_close(); return 0;\n}\n'
    return s


def drive(exe, Q, what='inference'):
    import os
    from .core import scratch
    d = scratch('io')
    cc.put(d + '/in', numpy.array(Q.shape, dtype=numpy.int32), Q)
    cc.run(exe, [d + '/in', d + '/out'], what=what)
    return open(d + '/out', 'rb').read()


def parse_classifier(raw, n, ks):
    """-> list of (pred, err, proba, modified)"""
    res, off = [], 0
    for k in ks:
        dt = numpy.dtype([('c', '<i4'), ('e', '<i4'), ('p', '<f4', (k,)), ('mod', '<i4')])
        a = numpy.frombuffer(raw, dtype=dt, count=n, offset=off)
        off += dt.itemsize * n
        res.append((a['c'], a['e'], a['p'].reshape(n, k), a['mod']))
    assert off == len(raw), (off, len(raw))
    return res
