"""One small random model of every convertible family, with how its generated C is called. Used by checks that cut across families."""
import numpy, emlearn
from . import treegen

FAMILIES = ['tree_clf_inline', 'tree_clf_loadable', 'tree_reg_inline', 'tree_reg_loadable', 'mlp_clf_loadable', 'mlp_clf_inline',
            'mlp_reg_loadable', 'bayes', 'knn', 'elliptic', 'gmm', 'bgmm']


class Model:
    """est: fitted estimator; kw: convert arguments; Q: query rows in the C feature type; n_out: number of values per row of record()"""
    def __init__(self, family, est, kw, Q, X, dtype='float', k=0, info=''):
        self.family, self.est, self.kw, self.Q, self.X, self.dtype, self.k, self.info = family, est, kw, Q, X, dtype, k, info
        self.m = Q.shape[1]

    def convert(self):
        return emlearn.convert(self.est, **self.kw)

    @property
    def header_free(self):
        return self.family in ('tree_clf_inline', 'tree_reg_inline')

    @property
    def stateless(self):
        return self.family.startswith('tree') or self.family in ('bayes', 'elliptic', 'gmm', 'bgmm')

    def declarations(self, n):
        if self.family == 'knn':
            return f'static EmlNeighborsDistanceItem {n}_vdist[{len(self.X)}];\n'
        return ''

    def body(self, n):
        """C statements: writes self.words int32/float words to `int32_t *o` for the features `x` of length `m`"""
        f, k = self.family, self.k
        if f.startswith('tree_clf'):
            return f'''vo[0] = {n}_predict(vx, vm); float vp[{k}]; for (int vj = 0; vj < {k}; vj++) {{ vp[vj] = -7.0f; }}
            vo[1] = {n}_predict_proba(vx, vm, vp, {k}); memcpy(vo + 2, vp, 4 * {k});'''
        if f.startswith('tree_reg'):
            return f'float vr = {n}_predict(vx, vm); memcpy(vo, &vr, 4);'
        if f == 'mlp_clf_loadable':
            return f'''vo[0] = {n}_predict(vx, vm); float vp[{k}]; for (int vj = 0; vj < {k}; vj++) {{ vp[vj] = -7.0f; }}
            vo[1] = eml_net_predict_proba(&{n}, vx, vm, vp, {k}); memcpy(vo + 2, vp, 4 * {k});'''
        if f == 'mlp_clf_inline':
            return f'vo[0] = {n}_predict(vx, vm);'
        if f == 'mlp_reg_loadable':
            return f'''float vr[{k}]; for (int vj = 0; vj < {k}; vj++) {{ vr[vj] = -7.0f; }}
            vo[0] = {n}_regress(vx, vm, vr, {k}); memcpy(vo + 1, vr, 4 * {k});'''
        if f == 'bayes':
            return f'vo[0] = {n}_predict(vx, vm);'
        if f == 'knn':
            return f'int16_t vr = -1; vo[0] = eml_neighbors_predict(&{n}, vx, vm, {n}_vdist, {len(self.X)}, &vr); vo[1] = vr;'
        if f == 'elliptic':
            return f'float vr = {n}_predict(vx, vm), vd = -1.0f; memcpy(vo, &vr, 4); vo[1] = eml_elliptic_envelope_predict(&{n}_classifier, vx, vm, &vd); memcpy(vo + 2, &vd, 4);'
        return f'''float vp[{k}], vr[{k}], vs = -7.0f; for (int vj = 0; vj < {k}; vj++) {{ vp[vj] = vr[vj] = -7.0f; }}
            vo[0] = {n}_predict_proba(vx, vm, vp, &vs, vr); memcpy(vo + 1, vp, 4 * {k}); memcpy(vo + 1 + {k}, vr, 4 * {k}); memcpy(vo + 1 + 2 * {k}, &vs, 4);'''

    @property
    def words(self):
        f, k = self.family, self.k
        return {'tree_clf_inline': 2 + k, 'tree_clf_loadable': 2 + k, 'tree_reg_inline': 1, 'tree_reg_loadable': 1, 'mlp_clf_loadable': 2 + k,
                'mlp_clf_inline': 1, 'mlp_reg_loadable': 1 + k, 'bayes': 1, 'knn': 2, 'elliptic': 3, 'gmm': 2 + 2 * k, 'bgmm': 2 + 2 * k}[f]

    @property
    def err_words(self):
        """indices of words that are 0 for success"""
        return {'tree_clf_inline': [1], 'tree_clf_loadable': [1], 'mlp_clf_loadable': [1], 'mlp_reg_loadable': [0], 'knn': [0], 'gmm': [0], 'bgmm': [0]}.get(self.family, [])


def make(g, family, nq=40, small=True):
    """random fitted model of the family"""
    if family.startswith('tree'):
        method = family.split('_')[-1]
        dtype = 'int16_t' if method == 'loadable' else str(g.choice(['float', 'int8_t', 'int16_t', 'int32_t']))
        while True:
            est, X = (treegen.classifier if 'clf' in family else treegen.regressor)(g, dtype, method)
            if X.shape[1] <= 127 and (not small or X.shape[1] < 60):
                break
        Q, _ = treegen.queries(g, est, X, dtype, nq)
        kw = dict(method=method, dtype=dtype)
        if 'clf' in family:
            kw['leaf_bits'] = int(g.choice([0, 0, 3, 4, 8]))
        k = int(est.n_classes_) if 'clf' in family else 0
        return Model(family, est, kw, Q, X, dtype, k, f'{type(est).__name__} {kw} features={X.shape[1]} classes={k}')
    m = int(g.choice([1, 2, 3, 5, 9]))
    n = 60
    X = g.normal(size=(n, m)) * 10.0 ** g.choice([-1, 0, 0, 1])
    pick = lambda: X[g.integers(0, n, nq)] + g.normal(size=(nq, m)) * X.std() * g.choice([0.0, 0.5, 3.0], size=(nq, 1))
    if family.startswith('mlp'):
        from sklearn.neural_network import MLPClassifier, MLPRegressor
        layers = tuple(int(v) for v in g.choice([1, 2, 3, 6, 10], size=int(g.integers(1, 4))))
        a = str(g.choice(['relu', 'tanh', 'logistic', 'identity']))
        seed = int(g.integers(0, 2**31 - 1))
        if 'clf' in family:
            k = int(g.choice([2, 3, 5]))
            y = (X @ g.normal(size=(m, k))).argmax(axis=1)
            y[:k] = numpy.arange(k)
            est = MLPClassifier(hidden_layer_sizes=layers, activation=a, max_iter=20, learning_rate_init=0.05, random_state=seed).fit(X, y)
            kw = dict(method=family.split('_')[-1])
        else:
            k = int(g.choice([1, 1, 2, 3]))
            y = X @ g.normal(size=(m, k))
            est = MLPRegressor(hidden_layer_sizes=layers, activation=a, max_iter=20, random_state=seed).fit(X, y[:, 0] if k == 1 else y)
            kw = dict(method='loadable', return_type='regressor')
        return Model(family, est, kw, pick().astype(numpy.float32), X, 'float', k, f'{type(est).__name__} {layers} {a} {kw} features={m} out={k}')
    if family == 'bayes':
        from sklearn.naive_bayes import GaussianNB
        k = int(g.choice([2, 3, 6, 12]))
        y = numpy.arange(n) % k
        X = X / X.std() + g.normal(size=(k, m))[y] * 3
        est = GaussianNB().fit(X, y)
        return Model(family, est, {}, pick().astype(numpy.float32), X, 'float', k, f'GaussianNB features={m} classes={k}')
    if family == 'knn':
        from sklearn.neighbors import KNeighborsClassifier
        k = int(g.choice([1, 2, 4, 10]))
        X = g.integers(-30000, 30000, size=(n, m)).astype(float)
        y = numpy.arange(n) % k
        est = KNeighborsClassifier(n_neighbors=int(g.choice([1, 3, 5]))).fit(X, y)
        Q = numpy.clip(pick(), -32768, 32767).astype(numpy.int16)
        return Model(family, est, {}, Q, X, 'int16_t', k, f'KNeighborsClassifier features={m} classes={k}')
    if family == 'elliptic':
        from sklearn.covariance import EllipticEnvelope
        est = EllipticEnvelope(contamination=0.1, random_state=0).fit(X)
        return Model(family, est, {}, pick().astype(numpy.float32), X, 'float', 0, f'EllipticEnvelope features={m}')
    from sklearn.mixture import GaussianMixture, BayesianGaussianMixture
    k = int(g.choice([1, 2, 4]))
    cls = GaussianMixture if family == 'gmm' else BayesianGaussianMixture
    est = cls(n_components=k, covariance_type=str(g.choice(['full', 'tied', 'diag', 'spherical'])), random_state=0, max_iter=20).fit(X)
    return Model(family, est, {}, pick().astype(numpy.float32), X, 'float', k, f'{cls.__name__} {est.covariance_type} features={m} components={k}')


def wrong_length_body(mod, n):
    """C statements that make one call with the wrong length `vl` and set vbad when the result is not the documented one"""
    f, k = mod.family, mod.k
    fill = lambda name, c: f'float {name}[{c}]; for (int vj = 0; vj < {c}; vj++) {{ {name}[vj] = -7.0f; }} '
    same = lambda name, c: f'for (int vj = 0; vj < {c}; vj++) {{ if ({name}[vj] != -7.0f) {{ vbad |= 2; }} }} '
    if f == 'tree_clf_loadable':
        return fill('vp', k) + f'if ({n}_predict(vx, vl) >= 0) {{ vbad |= 1; }} if ({n}_predict_proba(vx, vl, vp, {k}) != EmlSizeMismatch) {{ vbad |= 1; }} if ({n}_predict_proba(vx, {mod.m}, vp, vl == {k} ? {k + 1} : vl) != EmlSizeMismatch) {{ vbad |= 1; }}' + same('vp', k)
    if f == 'tree_reg_loadable':
        return f'if (!isnan({n}_predict(vx, vl))) {{ vbad |= 1; }}'
    if f.startswith('mlp') and f.endswith('loadable'):
        o = mod.est.n_outputs_
        p = 2 if o == 1 else o
        s = fill('vp', p) + f'''if ({n}_predict(vx, vl) != -EmlSizeMismatch) {{ vbad |= 1; }} if ({n}_regress(vx, vl, vp, {o}) != EmlSizeMismatch) {{ vbad |= 1; }} if (!isnan({n}_regress1(vx, vl))) {{ vbad |= 1; }}
            if ({n}_regress(vx, {mod.m}, vp, vl == {o} ? {o + 1} : vl) != EmlSizeMismatch) {{ vbad |= 1; }}'''
        if 'clf' in f:
            s += f'if (eml_net_predict_proba(&{n}, vx, vl, vp, {p}) != EmlSizeMismatch) {{ vbad |= 1; }}'
        return s + same('vp', p)
    if f == 'mlp_clf_inline':
        return f'if ({n}_predict(vx, vl) != -EmlSizeMismatch) {{ vbad |= 1; }}'
    if f == 'bayes':
        return f'if ({n}_predict(vx, vl) != -EmlSizeMismatch) {{ vbad |= 1; }}'
    if f == 'knn':
        return f'int16_t vr = -7; if (eml_neighbors_predict(&{n}, vx, vl, {n}_vdist, {len(mod.X)}, &vr) != EmlSizeMismatch) {{ vbad |= 1; }} if (vr != -7) {{ vbad |= 2; }}'
    if f == 'elliptic':
        return f'float vd = -7.0f; if (!isnan({n}_predict(vx, vl))) {{ vbad |= 1; }} if (eml_elliptic_envelope_predict(&{n}_classifier, vx, vl, &vd) != -EmlSizeMismatch) {{ vbad |= 1; }} if (vd != -7.0f) {{ vbad |= 2; }}'
    return fill('vp', k) + fill('vr', k) + f'''float vs = -7.0f; if ({n}_predict_proba(vx, vl, vp, &vs, vr) != -EmlSizeMismatch) {{ vbad |= 1; }} if ({n}_score(vx, vl, vp, &vs) != -EmlSizeMismatch) {{ vbad |= 1; }}
        if ({n}_predict_log_proba(vx, vl, vp) != -EmlSizeMismatch) {{ vbad |= 1; }} if (vs != -7.0f) {{ vbad |= 2; }}''' + same('vp', k) + same('vr', k)


def program(parts, body, pre=''):
    """C program of several models. parts: [(c_name, code, Model)]"""
    from . import cc
    s = cc.READER + pre
    for n, code, mod in parts:
        s += '\n' + code + '\n' + mod.declarations(n)
    for n, code, mod in parts:
        s += f'static void v_call_{n}(const {mod.dtype} *vx, int vm, int32_t *vo) {{ {mod.body(n)} }}\n'
    return s + body


def simple_main(parts, before='', after=''):
    """runs every model over its own vrows (exact-size vrow buffers), writes the words and whether the vrow was modified"""
    s = 'int main(int argc, char **argv) {\n v_open(argv);\n'
    for n, code, mod in parts:
        s += f'''    {{ int64_t vtotal; {mod.dtype} *vX = ({mod.dtype} *)v_get(sizeof({mod.dtype}), &vtotal); const int vm = {mod.m};
        for (int vi = 0; vi < vtotal / vm; vi++) {{
            {mod.dtype} *vrow = ({mod.dtype} *)malloc(sizeof(*vrow) * vm); memcpy(vrow, vX + vi * vm, sizeof(*vrow) * vm);
            int32_t *vo = (int32_t *)malloc(4 * {mod.words}); memset(vo, 0x5a, 4 * {mod.words});
            {before}
            v_call_{n}(vrow, vm, vo);
            {after}
            v_put(vo, 4, {mod.words}); v_i32(memcmp(vrow, vX + vi * vm, sizeof(*vrow) * vm) != 0);
            free(vo); free(vrow);
        }} free(vX); }}
'''
    return s + ' v_close(); return 0; }\n'


def parse(raw, parts, rows):
    res, off = [], 0
    for (n, code, mod), r in zip(parts, rows):
        a = numpy.frombuffer(raw, '<i4', r * (mod.words + 1), off).reshape(r, mod.words + 1)
        off += a.nbytes
        res.append((a[:, :-1], a[:, -1]))
    return res, off
