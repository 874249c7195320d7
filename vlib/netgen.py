"""Random networks, double-precision reference with a forward error bound, C driver."""
import numpy
from . import cc

U = 2.0**-24


def act(name, z):
    if name == 'identity':
        return z
    if name == 'relu':
        return numpy.maximum(z, 0)
    if name == 'tanh':
        return numpy.tanh(z)
    if name == 'logistic':
        with numpy.errstate(over='ignore'):
            return 1.0 / (1.0 + numpy.exp(-z))
    if name == 'softmax':
        e = numpy.exp(z - z.max(axis=1, keepdims=True))
        return e / e.sum(axis=1, keepdims=True)
    raise ValueError(name)


def act_err(name, z, out, err):
    """bound of |computed - exact| after the activation, for an error err before it"""
    if name in ('identity', 'relu'):
        return err
    if name == 'tanh':
        return numpy.minimum(err, 2.0) + 4 * U
    if name == 'logistic':
        lo, hi = act('logistic', z - err), act('logistic', z + err)
        return (hi - lo) + 8 * U
    if name == 'softmax':
        d = err.max(axis=1, keepdims=True) + 4 * U * numpy.abs(z).max(axis=1, keepdims=True)
        k = z.shape[1]
        # p is multiplied by at most exp(2d); relative rounding of exp/log with an argument of this size
        s = numpy.abs(z - z.max(axis=1, keepdims=True)) + numpy.log(k) + 1
        with numpy.errstate(over='ignore'):
            rel = numpy.expm1(numpy.minimum(2 * d + (8 + k) * U * s, 50))
        return numpy.minimum(out * rel + 1e-37 + 4 * U * out, 1.0)
    raise ValueError(name)


def forward(X, weights, biases, activations):
    """exact (double) outputs for float32-rounded inputs/weights, and the single-precision error bound"""
    x = numpy.asarray(X, numpy.float32).astype(float)
    e = numpy.zeros_like(x)
    for w, b, a in zip(weights, biases, activations):
        w = numpy.asarray(w, float)
        b = numpy.asarray(b, float)
        n = w.shape[0]
        z = x @ w + b
        mag = numpy.abs(x) @ numpy.abs(w) + numpy.abs(b)
        magn = (numpy.abs(x) + e) @ numpy.abs(w) + numpy.abs(b)
        e = e @ numpy.abs(w) + (n + 4) * U * magn + 1e-40
        o = act(a, z)
        e = act_err(a, z, o, e)
        x = o
    return x, e


def driver(nets, n_features, n_out):
    """nets: (name, code, kind) with kind loadable / inline"""
    s = cc.READER
    for name, code, kind in nets:
        s += '\n' + code + '\n'
    s += f'''
int main(int argc, char **argv) {{
    int64_t total; v_open(argv);
    int32_t *dim = (int32_t *)v_get(4, NULL);
    float *X = (float *)v_get(4, &total);
    const int n = dim[0], m = dim[1];
'''
    np_ = max(2, n_out)
    for name, code, kind in nets:
        s += f'''
    for (int i = 0; i < n; i++) {{
        float *row = (float *)malloc(4 * m);
        memcpy(row, X + (int64_t)i * m, 4 * m);
        v_i32((int32_t){name}_predict(row, m));
'''
        if kind == 'loadable':
            s += f'''
        float *p = (float *)malloc(4 * {np_}); for (int j = 0; j < {np_}; j++) {{ p[j] = -7.0f; }}
        v_i32((int32_t)eml_net_predict_proba(&{name}, row, m, p, {np_})); v_put(p, 4, {np_}); free(p);
        float *o = (float *)malloc(4 * {n_out}); for (int j = 0; j < {n_out}; j++) {{ o[j] = -7.0f; }}
        v_i32((int32_t){name}_regress(row, m, o, {n_out})); v_put(o, 4, {n_out}); free(o);
        v_f32({'%s_regress1(row, m)' % name if n_out == 1 else '0.0f'});
'''
        else:
            s += f'''
        v_i32((int32_t){name}_infer(row, m, {name}_activations1, {name}_activations2, {name}_activations_length));
        v_put({name}_activations2, 4, {n_out});
'''
        s += f'''
        v_i32(memcmp(row, X + (int64_t)i * m, 4 * m) != 0); free(row);
    }}
'''
    s += '    free(X); free(dim); v_close(); return 0;\n}\n'
    return s


def parse(raw, kinds, n, n_out):
    np_ = max(2, n_out)
    L = numpy.dtype([('c', '<i4'), ('pe', '<i4'), ('p', '<f4', (np_,)), ('re', '<i4'), ('o', '<f4', (n_out,)), ('o1', '<f4'), ('mod', '<i4')])
    I = numpy.dtype([('c', '<i4'), ('ie', '<i4'), ('o', '<f4', (n_out,)), ('mod', '<i4')])
    res, off = [], 0
    for k in kinds:
        dt = L if k == 'loadable' else I
        res.append(numpy.frombuffer(raw, dtype=dt, count=n, offset=off))
        off += dt.itemsize * n
    assert off == len(raw), (off, len(raw))
    return res


def decision(o, err, single_logistic):
    """(class, decided) of the reference outputs given the error bound"""
    if o.shape[1] == 1:
        c = (o[:, 0] > 0.5).astype(int)
        return c, numpy.abs(o[:, 0] - 0.5) > err[:, 0]
    c = o.argmax(axis=1)
    idx = numpy.arange(len(o))
    others = o + err
    others[idx, c] = -numpy.inf
    return c, (o - err)[idx, c] > others.max(axis=1)
