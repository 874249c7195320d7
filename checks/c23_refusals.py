"""C23: what the C code cannot represent is refused by convert() or save(); what is converted answers with valid classes or values.
A catalogue of unsupported estimators, options and sizes, instantiated with random parameters, and sizes on both sides of every limit."""
import json, os, subprocess, sys, warnings
import numpy
from vlib import core, treegen

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


def blobs(g, n, m, k, scale=1000.0, integer=True):
    c = g.normal(size=(k, m)) * scale
    y = numpy.arange(n) % k
    X = c[y] + g.normal(size=(n, m)) * scale / 50
    if integer:
        X = numpy.clip(numpy.round(X), -32768, 32767)
    return X, y


def tree_est(g, reg=False, m=5, k=3, n=80, scale=1000.0):
    X, y = blobs(g, n, m, k, scale)
    cls = list((treegen.REG if reg else treegen.CLS).values())[int(g.integers(0, 3))]
    kw = {} if 'Decision' in cls.__name__ else dict(n_estimators=int(g.integers(1, 6)))
    return cls(random_state=0, **kw).fit(X, y * 1.5 if reg else y), X


# ---- estimators that are not supported
@case
def estimators(g):
    from sklearn import ensemble, linear_model, svm, cluster, naive_bayes, neighbors, tree, dummy, discriminant_analysis, pipeline, preprocessing, model_selection, multioutput, mixture, covariance, gaussian_process
    X, y = blobs(g, 60, 4, 3)
    X = numpy.abs(X) + 1
    fits = [ensemble.GradientBoostingClassifier(n_estimators=2), ensemble.GradientBoostingRegressor(n_estimators=2), ensemble.AdaBoostClassifier(n_estimators=2), ensemble.AdaBoostRegressor(n_estimators=2),
            ensemble.HistGradientBoostingClassifier(max_iter=2), ensemble.IsolationForest(n_estimators=2), ensemble.BaggingClassifier(n_estimators=2), ensemble.RandomTreesEmbedding(n_estimators=2),
            ensemble.VotingClassifier([('a', tree.DecisionTreeClassifier())]), linear_model.LogisticRegression(max_iter=5), linear_model.LinearRegression(), linear_model.SGDClassifier(), svm.SVC(), svm.LinearSVC(),
            cluster.KMeans(2, n_init=1), naive_bayes.MultinomialNB(), naive_bayes.BernoulliNB(), naive_bayes.ComplementNB(), neighbors.KNeighborsRegressor(), neighbors.RadiusNeighborsClassifier(),
            neighbors.NearestCentroid(), dummy.DummyClassifier(), discriminant_analysis.LinearDiscriminantAnalysis(), covariance.MinCovDet(), covariance.EmpiricalCovariance(), neighbors.LocalOutlierFactor(),
            pipeline.make_pipeline(preprocessing.StandardScaler(), tree.DecisionTreeClassifier()), model_selection.GridSearchCV(tree.DecisionTreeClassifier(), dict(max_depth=[1, 2]), cv=2),
            multioutput.MultiOutputRegressor(tree.DecisionTreeRegressor()), preprocessing.StandardScaler(), neighbors.KernelDensity()]
    est = fits[int(g.integers(0, len(fits)))]
    if isinstance(est, multioutput.MultiOutputRegressor):
        est.fit(X, numpy.column_stack([y, y]))
    else:
        est.fit(X, y)
    return type(est).__name__, est, dict(method=[None, 'inline', 'loadable'][int(g.integers(0, 3))])


@case
def not_estimators(g):
    o = [None, 5, 'RandomForestClassifier', object(), [], treegen.CLS['R'], numpy.zeros(3)][int(g.integers(0, 7))]
    return repr(o)[:30], o, {}


@case
def unfitted(g):
    from sklearn import naive_bayes, neighbors, neural_network, mixture, covariance
    ests = list(treegen.CLS.values()) + list(treegen.REG.values()) + [naive_bayes.GaussianNB, neighbors.KNeighborsClassifier, neural_network.MLPClassifier, neural_network.MLPRegressor,
                                                                     mixture.GaussianMixture, mixture.BayesianGaussianMixture, covariance.EllipticEnvelope]
    c = ests[int(g.integers(0, len(ests)))]
    return c.__name__, c(), {}


@case
def unknown_kind(g):
    est, X = tree_est(g)
    kind = str(g.choice(['randomforestclassifier', 'RandomForest', '', 'SVC', 'Tree', 'KNeighborsRegressor', 'MultinomialNB', 'Functional', 'IsolationForest']))
    return kind, est, dict(kind=kind)


# ---- methods
@case
def unknown_method(g):
    fam = int(g.integers(0, 8))
    method = str(g.choice(['INLINE', 'inlin', 'loadable ', 'pymodule', 'foo', 'c', '', 'loadable,inline']))
    if fam < 3:
        est, X = tree_est(g, reg=bool(g.random() < 0.4))
        return f'{type(est).__name__} {method!r}', est, dict(method=method)
    est = other(g, ['bayes', 'knn', 'elliptic', 'gmm', 'mlp'][fam - 3])
    return f'{type(est).__name__} {method!r}', est, dict(method=method)


def other(g, fam, m=3, k=3, n=60):
    X, y = blobs(g, n, m, k, 10.0 if fam in ('mlp', 'bayes') else 1000.0, fam == 'knn')
    if fam == 'bayes':
        from sklearn.naive_bayes import GaussianNB
        return GaussianNB().fit(X, y)
    if fam == 'knn':
        from sklearn.neighbors import KNeighborsClassifier
        return KNeighborsClassifier(3).fit(X, y)
    if fam == 'elliptic':
        from sklearn.covariance import EllipticEnvelope
        return EllipticEnvelope(random_state=0).fit(g.normal(size=(n, m)))
    if fam == 'gmm':
        from sklearn.mixture import GaussianMixture, BayesianGaussianMixture
        return (GaussianMixture if g.random() < 0.5 else BayesianGaussianMixture)(n_components=k, random_state=0, covariance_type=str(g.choice(['full', 'tied', 'diag', 'spherical']))).fit(X)
    from sklearn.neural_network import MLPClassifier
    return MLPClassifier((5,), max_iter=5, random_state=0).fit(X, y)


@case
def method_without_code(g):
    fam = str(g.choice(['bayes', 'knn', 'elliptic', 'mlp_regressor']))
    if fam == 'mlp_regressor':
        from sklearn.neural_network import MLPRegressor
        X, y = blobs(g, 60, 3, 3, 3.0)
        return 'MLPRegressor inline', MLPRegressor(hidden_layer_sizes=(4,), max_iter=5).fit(X, y), dict(method='inline', return_type='regressor')
    return f'{fam}', other(g, fam), dict(method='loadable' if fam == 'elliptic' else 'inline')


# ---- trees
@case
def loadable_dtype(g):
    est, X = tree_est(g, reg=bool(g.random() < 0.4))
    d = str(g.choice(['float', 'int8_t', 'int32_t', 'uint8_t', 'uint16_t', 'double', 'int', 'int16', 'int64_t']))
    return f'{type(est).__name__} {d}', est, dict(method='loadable', dtype=d)


@case
def loadable_features(g):
    m = int(g.choice([128, 128, 129, 200, 255, 256, 300, 1000]))
    est, X = tree_est(g, reg=bool(g.random() < 0.4), m=m)
    return f'{type(est).__name__} {m} features', est, dict(method='loadable', dtype='int16_t')


@case
def inline_features(g):
    m = int(g.choice([10001, 12000]))
    est, X = tree_est(g, m=m, n=20)
    return f'{type(est).__name__} {m} features', est, dict(method='inline', dtype='int16_t')


@case
def loadable_classes(g):
    k = int(g.choice([31, 31, 32, 40, 64, 127, 128, 200, 256, 300]))
    est, X = tree_est(g, k=k, n=3 * k)
    return f'{type(est).__name__} {k} classes', est, dict(method='loadable', dtype='int16_t', leaf_bits=[None, 0, 4, 8][int(g.integers(0, 4))])


@case
def inline_classes(g):
    # a leaf with a class index has one byte in the tables
    k = int(g.choice([257, 258, 300, 500]))
    est, X = tree_est(g, k=k, n=2 * k)
    return f'{type(est).__name__} {k} classes', est, dict(method='loadable', dtype='int16_t')


@case
def leaf_bits(g):
    reg = bool(g.random() < 0.4)
    est, X = tree_est(g, reg=reg)
    b = int(g.choice([-1, 2, 8, 16, 31, 33, 64] if reg else [-1, -8, 9, 10, 16, 31, 32, 64, 256]))
    return f'{type(est).__name__} leaf_bits={b}', est, dict(leaf_bits=b, method=str(g.choice(['inline', 'loadable'])))


@case
def loadable_thresholds(g):
    m = int(g.choice([1, 3]))
    X = g.integers(-1000, 1000, (60, m)).astype(float)
    y = numpy.arange(60) % 2
    off = float(g.choice([33000, 40000, 100000, -33800, -40000, -70000, 1e7, -1e9, 65536]))
    X[:, -1] = off + y * max(4, abs(off) * 1e-4) + g.integers(0, 2, 60)
    k = int(g.integers(0, 4))
    if k < 2:
        # the first threshold above and below the range
        off = [32768, -32768.5][k]
        X[:, -1] = [(32767, 32769), (-32769, -32768)][k][0] + y * (2 - k)
    X[:, :-1] = 1
    cls = (treegen.REG if g.random() < 0.4 else treegen.CLS)['D']
    return f'{cls.__name__} threshold around {off}', cls(random_state=0).fit(X, y), dict(method='loadable', dtype='int16_t')


@case
def multi_output_trees(g):
    X, y = blobs(g, 60, 4, 3)
    reg = g.random() < 0.5
    cls = list((treegen.REG if reg else treegen.CLS).values())[int(g.integers(0, 3))]
    kw = {} if 'Decision' in cls.__name__ else dict(n_estimators=2)
    Y = numpy.column_stack([y, (y + 1) % 3])
    return f'{cls.__name__}', cls(random_state=0, **kw).fit(X, Y), dict(method=str(g.choice(['inline', 'loadable'])))


def crafted(g, left):
    """a classifier whose root has a left subtree of the given number of decision nodes, so that its right child is left+1 nodes away"""
    from sklearn.tree import DecisionTreeClassifier
    est = DecisionTreeClassifier().fit([[0.0], [1.0], [2.0]], [0, 1, 0])
    t = est.tree_
    st = t.__getstate__()
    rows, vals = [], []

    def leaf(c):
        rows.append((-1, -1, -2, -2.0))
        vals.append(c)
        return len(rows) - 1

    def build(lo, hi, n):
        """balanced subtree over the integers lo..hi with n decision nodes, depth first as scikit-learn numbers them"""
        if n == 0:
            return leaf(int((lo // 3 + lo) % 2))
        i = len(rows)
        rows.append(None)
        vals.append(0)
        nl = (n - 1) // 2
        mid = lo + (hi - lo) // 2 if n > 1 else lo
        l = build(lo, mid, nl)
        r = build(mid + 1, hi, n - 1 - nl)
        rows[i] = (l, r, 0, float(mid) + 0.5)
        return i
    rows.append(None)
    vals.append(0)
    l = build(-32768, 16000, left)
    r = build(16001, 32767, 5)
    rows[0] = (l, r, 0, 16000.5)
    nodes = numpy.zeros(len(rows), st['nodes'].dtype)
    for i, (a, b, f, th) in enumerate(rows):
        nodes[i]['left_child'], nodes[i]['right_child'], nodes[i]['feature'], nodes[i]['threshold'] = a, b, f, th
        nodes[i]['n_node_samples'], nodes[i]['weighted_n_node_samples'] = 1, 1
    values = numpy.zeros((len(rows), 1, 2))
    values[numpy.arange(len(rows)), 0, vals] = 1.0
    st = dict(st, max_depth=40, node_count=len(rows), nodes=nodes, values=values)
    new = type(t)(1, numpy.array([2], numpy.intp), 1)
    new.__setstate__(st)
    est.tree_ = new
    return est


@case
def node_offsets(g):
    left = int(g.choice([32767, 32768, 33000, 40000]))
    return f'{left} nodes below the left of the root', crafted(g, left), dict(method='loadable', dtype='int16_t')


# ---- networks
@case
def mlp_unsupported(g):
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    X, y = blobs(g, 60, 3, 3, 3.0)
    k = int(g.integers(0, 6))
    if k == 0:
        Y = numpy.column_stack([y == 0, y == 1])
        return 'multi-label', MLPClassifier((4,), max_iter=5).fit(X, Y.astype(int)), dict(method=str(g.choice(['inline', 'loadable'])))
    est = MLPClassifier((4,), max_iter=5).fit(X, y)
    if k == 1:
        est.activation = str(g.choice(['elu', 'RELU', 'swish', 'leaky_relu', '']))
        return f'activation {est.activation!r}', est, {}
    if k == 2:
        est.out_activation_ = str(g.choice(['elu', 'sigmoid2', 'log_softmax']))
        return f'output activation {est.out_activation_!r}', est, {}
    if k == 3:
        rt = str(g.choice(['transformer', 'Classifier', '', 'regression']))
        return f'return_type {rt!r}', est, dict(return_type=rt)
    if k == 4:
        return 'fixed-point', est, dict(use_fixedpoint=True, method=str(g.choice(['inline', 'loadable'])))
    return 'no hidden layer', MLPClassifier((), max_iter=5).fit(X, y), {}


# ---- neighbours, naive Bayes
@case
def knn_unsupported(g):
    from sklearn.neighbors import KNeighborsClassifier
    X, y = blobs(g, 60, 3, 3)
    k = int(g.integers(0, 10))
    if k == 9:
        s = float(g.choice([1e-3, 1e-4, 0.5 / 1000, 1.0]))
        X = X * s + (s == 1.0) * g.choice([0, 0.5], X.shape)
        return f'items that are not integers, scale {s}', KNeighborsClassifier(3).fit(X, y), {}
    if k == 0:
        m = str(g.choice(['manhattan', 'chebyshev', 'cosine', 'hamming', 'canberra', 'l1', 'braycurtis', 'cityblock']))
        return f'metric {m}', KNeighborsClassifier(3, metric=m).fit(X, y), {}
    if k == 1:
        p = float(g.choice([1, 3, 1.5, 10]))
        return f'minkowski p={p}', KNeighborsClassifier(3, p=p).fit(X, y), {}
    if k == 2:
        return 'weights distance', KNeighborsClassifier(3, weights='distance').fit(X, y), {}
    if k == 3:
        return 'weights function', KNeighborsClassifier(3, weights=numpy.ones_like).fit(X, y), {}
    if k == 4:
        n = int(g.choice([11, 11, 12, 20, 60]))
        X, y = blobs(g, 3 * n, 3, n)
        return f'{n} classes', KNeighborsClassifier(3).fit(X, y), {}
    if k == 5:
        return 'multi-output', KNeighborsClassifier(3).fit(X, numpy.column_stack([y, y])), {}
    if k == 6:
        X[int(g.integers(0, 60)), int(g.integers(0, 3))] = float(g.choice([32768, -32769, 1e6, -1e9, 65536]))
        return 'feature outside int16', KNeighborsClassifier(3, algorithm='brute').fit(X, y), {}
    if k == 7:
        return 'metric function', KNeighborsClassifier(3, metric=_metric).fit(X, y), {}
    return 'more neighbours than items', KNeighborsClassifier(61).fit(X, y), {}


def _metric(a, b):
    return float(numpy.abs(a - b).sum())


@case
def bayes_unsupported(g):
    from sklearn.naive_bayes import GaussianNB
    X, y = blobs(g, 60, 3, 3, 10.0, False)
    k = int(g.integers(0, 3))
    if k == 0:
        return 'one class', GaussianNB().fit(X, y * 0), {}
    j = int(g.integers(0, 3))
    if k == 1:
        s = float(g.choice([1e-6, 1e-8, 1e-12]))
        X = X * s
        return f'deviations around {s}', GaussianNB(var_smoothing=0).fit(X, y), {}
    off = float(g.choice([32768, 40000, -33000, 1e6, -1e12]))
    X[:, j] = off + X[:, j] * 0.1 * numpy.sign(off) ** 0 + (y * 3 if off > 0 else -y * 3)
    return f'mean around {off}', GaussianNB().fit(X, y), {}


def refused(rec, key):
    import emlearn
    name, i = key
    g = core.rng('C23', name, i)
    what, est, kw = CASES[name](g)
    out = os.path.join(core.scratch('ref'), 'model.h')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = emlearn.convert(est, **kw)
            m.save(file=out, name='model')
    except Exception as e:
        rec.ev('refused')
        rec.ev(f'refused_{name}')
        rec.require(not os.path.exists(out), f'{name}:partial-output', f'{what}: {type(e).__name__} but a file was written')
        rec.case((name, what, repr(kw)))
        rec.sample(dict(case=name, what=what, exception=f'{type(e).__name__}: {str(e)[:80]}'))
        return
    rec.fail(f'{name}:accepted', f'{what} {kw}: converted and saved')


def savings(rec, key):
    """options of save() on a converted model"""
    import emlearn
    g = core.rng('C23', 'save', key)
    models = [(emlearn.convert(tree_est(g)[0], method='inline'), 'tree'), (emlearn.convert(tree_est(g, reg=True)[0], method='loadable'), 'tree')]
    models += [(emlearn.convert(other(g, f)), f) for f in ('bayes', 'knn', 'elliptic', 'gmm', 'mlp')]
    for m, fam in models:
        bad = [dict(), dict(name='9x'), dict(name='for'), dict(name='a b'), dict(name='a-b'), dict(name=''), dict(name='x;'), dict(name='int')]
        if fam == 'tree':
            bad += [dict(name='m', format='json'), dict(name='m', format='C'), dict(name='m', inference=['foo']), dict(name='m', inference=[]), dict(name='m', inference=['inline', 'loadable'])]
        if fam == 'mlp':
            bad += [dict(name='m', inference=['foo']), dict(name='m', inference=['inline', 'loadable'])]
        for kw in bad:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    t = m.save(**kw)
            except Exception:
                rec.ev('saves_refused')
                continue
            rec.fail('save:accepted', f'{fam} {kw}: {str(t)[:100]!r}')
        rec.case((fam, key))
        # wrong feature counts are refused by predict
        X = numpy.zeros((3, 5 if fam == 'tree' else 3))
        for Z in (X[:, :-1], numpy.hstack([X, X]), X[0], X[:0]):
            try:
                r = m.predict(Z)
            except Exception:
                rec.ev('inputs_refused')
                continue
            rec.fail('predict:accepted', f'{fam} shape {Z.shape}: {r}')


# ---- what is converted answers validly, on both sides of the limits
def limits(rec, key):
    import emlearn
    kind, i = key
    g = core.rng('C23', 'limit', kind, i)
    valid = None
    X = None
    if kind in ('loadable', 'inline'):
        m = int(g.choice([126, 127, 128, 129] if kind == 'loadable' and i % 2 else [127, 128, 255, 256, 300] if i % 2 else [3]))
        k = 3 if i % 2 else int(g.choice([29, 30, 31, 32] if kind == 'loadable' else [30, 31, 60, 100, 127, 128, 129, 200, 255, 256]))
        reg = bool(i % 2 and g.random() < 0.3)
        est, X = tree_est(g, reg, m, k, max(80, 3 * k))
        kw = dict(method=kind, dtype='int16_t')
        if not reg:
            kw['leaf_bits'] = [None, 0, 3, 8][int(g.integers(0, 4))]
        desc = f'{type(est).__name__} {m} features {k} classes {kw}'
    elif kind == 'offsets':
        left = [32766, 32765, 32000, 20000, 32767, 32768][i % 6]
        est, reg, kw = crafted(g, left), False, dict(method='loadable', dtype='int16_t')
        X = numpy.array([[-32768], [-20000], [0], [15999], [16000], [16001], [20000], [32767]], float)
        desc = f'right child of the root {left + 1} nodes away'
    elif kind == 'bayes':
        k, m = int(g.choice([2, 9, 10, 11, 20, 40, 127, 128, 300])), int(g.choice([1, 3, 20]))
        if i % 3 == 0:
            k, m = 3, int(g.choice([127, 128, 129, 255, 256, 300]))
        from sklearn.naive_bayes import GaussianNB
        X, y = blobs(g, 4 * k if k > 20 else 80, m, k, 200.0, False)
        est, reg, kw = GaussianNB().fit(X, y), False, {}
        desc = f'GaussianNB {k} classes {m} features'
    elif kind == 'knn':
        from sklearn.neighbors import KNeighborsClassifier
        k, m, n = int(g.choice([9, 10])), int(g.choice([1, 2, 30, 127, 128, 300])), int(g.choice([30, 200, 400]))
        X, y = blobs(g, n, m, k, 8000.0)
        est, reg, kw = KNeighborsClassifier(int(g.choice([1, 5, n // 20 + 1]))).fit(X, y), False, {}
        desc = f'{est} {k} classes {m} features {n} items'
    elif kind == 'gmm':
        k, m = int(g.choice([1, 2, 10, 30, 130])), int(g.choice([1, 2, 20, 60]))
        est = other(g, 'gmm', m, k, max(3 * k, 60))
        X = g.normal(size=(40, m)) * 1000
        reg, kw = False, dict(method=[None, 'loadable', 'inline'][int(g.integers(0, 3))])
        desc = f'{est} {m} features {kw}'
    elif kind == 'elliptic':
        m = int(g.choice([1, 2, 30, 60]))
        est = other(g, 'elliptic', m, 3, 150)
        X = g.normal(size=(40, m)) * 2
        reg, kw = False, {}
        desc = f'EllipticEnvelope {m} features'
    else:
        from sklearn.neural_network import MLPClassifier
        k = int(g.choice([2, 3, 40, 130, 260]))
        m = int(g.choice([1, 3, 130, 260]))
        layers = [(int(g.choice([1, 64, 130, 260, 300])),), (2,) * int(g.choice([20, 126, 130, 200])), (3, int(g.choice([127, 128, 256])), 2)][int(g.integers(0, 3))]
        X, y = blobs(g, max(60, 2 * k), m, k, 1.0, False)
        est, reg, kw = MLPClassifier(layers, max_iter=3, random_state=0).fit(X, y), False, dict(method=str(g.choice(['loadable', 'inline'])))
        desc = f'MLP {len(layers)} layers up to {max(layers)}, {m} features, {k} classes {kw}'
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c = emlearn.convert(est, **kw)
            c.save(name='m')
    except Exception as e:
        rec.ev('limit_refused')
        rec.case((kind, desc))
        over = (kind == 'loadable' and (X.shape[1] > 127 or (not reg and est.n_classes_ > 30))) or (kind == 'offsets' and left > 32766) or (kind == 'inline' and not reg and est.n_classes_ > 256)
        rec.require(over, f'{kind}:representable-refused', f'{desc}: {type(e).__name__} {str(e)[:200]}')
        return
    Q = X[g.integers(0, len(X), min(len(X), 40))]
    got = numpy.asarray(c.predict(Q))
    want = est.predict(Q)
    rec.require(got.shape == want.shape, f'{kind}:shape', f'{got.shape} {desc}')
    if not rec.require(numpy.all(numpy.isfinite(got)), f'{kind}:not-finite', f'{got[:5]} {desc}'):
        return
    if reg:
        ok = numpy.all(numpy.abs(got - want) <= 1e-3 * (1 + numpy.abs(want)))
        rec.require(ok, f'{kind}:values', f'{got[:5]} for {want[:5]}: {desc}')
    else:
        classes = getattr(est, 'classes_', None)
        if kind == 'elliptic':
            valid = [-1, 1]
        elif kind == 'gmm':
            valid = range(est.n_components)
        else:
            valid = range(len(classes)) if kind != 'offsets' else [0, 1]
        bad = sorted(set(got.tolist()) - set(valid))
        rec.require(not bad, f'{kind}:invalid-class', f'{bad[:5]} is not a class: {desc}')
        agree = float(numpy.mean(got == want))
        rec.require(agree >= (1.0 if kind == 'offsets' else 0.8), f'{kind}:classes', f'{agree:.2f} agreement: {desc}')
    rec.ev('limit_converted')
    rec.ev(f'limit_{kind}')
    rec.ev('predictions', len(got))
    rec.case((kind, desc))


def keras_refused(rec, key):
    import emlearn
    os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
    import keras
    from keras import layers as L
    g = core.rng('C23', 'keras', key)
    D = lambda n, a=None, **k: L.Dense(n, activation=a, **k)
    seq = lambda *ls, shape=(4,): keras.Sequential([L.Input(shape), *ls])

    def functional():
        i = L.Input((4,))
        return keras.Model(i, D(2, 'softmax')(D(3, 'relu')(i)))
    acts = ['elu', 'selu', 'softplus', 'softsign', 'swish', 'gelu', 'exponential', 'hard_sigmoid', 'leaky_relu', 'relu6', 'mish', 'log_softmax']
    bad = {f'activation {a}': (lambda a=a: seq(D(3, a), D(2, 'softmax'))) for a in acts}
    bad |= {f'output activation {a}': (lambda a=a: seq(D(3, 'relu'), D(2, a))) for a in acts[:5]}
    bad |= {f'Activation layer {a}': (lambda a=a: seq(D(3), L.Activation(a), D(2, 'softmax'))) for a in acts[5:]}
    bad |= {
        'lambda activation': lambda: seq(D(3, lambda x: x * x), D(2, 'softmax')),
        'LeakyReLU': lambda: seq(D(3), L.LeakyReLU(), D(2, 'softmax')),
        'PReLU': lambda: seq(D(3), L.PReLU(), D(2, 'softmax')),
        'ELU': lambda: seq(D(3), L.ELU(), D(2, 'softmax')),
        'ReLU max': lambda: seq(D(3), L.ReLU(max_value=6), D(2, 'softmax')),
        'ReLU slope': lambda: seq(D(3), L.ReLU(negative_slope=0.1), D(2, 'softmax')),
        'ReLU threshold': lambda: seq(D(3), L.ReLU(threshold=0.5), D(2, 'softmax')),
        'Softmax axis': lambda: seq(D(3, 'relu'), D(2), L.Softmax(axis=0)),
        'two activations': lambda: seq(D(3, 'tanh'), L.Activation('relu'), D(2, 'softmax')),
        'the same activation twice': lambda: seq(D(3, 'sigmoid'), L.Activation('sigmoid'), D(2, 'softmax')),
        'softmax twice': lambda: seq(D(3, 'relu'), D(2, 'softmax'), L.Softmax()),
        'no bias': lambda: seq(D(3, 'relu', use_bias=False), D(2, 'softmax')),
        'no output bias': lambda: seq(D(3, 'relu'), D(2, 'softmax', use_bias=False)),
        'BatchNormalization': lambda: seq(D(3, 'relu'), L.BatchNormalization(), D(2, 'softmax')),
        'Flatten': lambda: seq(L.Flatten(), D(3, 'relu'), D(2, 'softmax'), shape=(2, 2)),
        'Conv1D': lambda: seq(L.Conv1D(2, 2), L.Flatten(), D(2, 'softmax'), shape=(4, 1)),
        'Conv2D': lambda: seq(L.Conv2D(2, 2), L.Flatten(), D(2, 'softmax'), shape=(4, 4, 1)),
        'LSTM': lambda: seq(L.LSTM(2), D(2, 'softmax'), shape=(4, 1)),
        'Rescaling': lambda: seq(L.Rescaling(0.5), D(3, 'relu'), D(2, 'softmax')),
        'Reshape': lambda: seq(D(4, 'relu'), L.Reshape((2, 2)), L.Flatten(), D(2, 'softmax')),
        'Normalization': lambda: seq(L.Normalization(mean=1.0, variance=2.0), D(3, 'relu'), D(2, 'softmax')),
        'nested': lambda: seq(keras.Sequential([L.Input((4,)), D(3, 'relu')]), D(2, 'softmax')),
        'functional': functional,
        'one layer': lambda: seq(D(2, 'softmax')),
        'no layers': lambda: keras.Sequential([L.Input((4,))]),
        'unbuilt': lambda: keras.Sequential([D(3, 'relu'), D(2, 'softmax')]),
    }
    for what, f in bad.items():
        est = f()
        try:
            m = emlearn.convert(est, method='loadable')
            m.save(name='m')
        except Exception:
            rec.ev('keras_refused')
            rec.case(('keras', what))
            continue
        rec.fail('keras:accepted', f'{what}: converted and saved')
    for what, est in {'supported': seq(D(3, 'relu'), L.Dropout(0.5), D(3), L.Activation('tanh'), D(3), L.ReLU(), D(2, 'sigmoid'), ), 'softmax layer': seq(D(3, 'linear'), D(2), L.Softmax())}.items():
        m = emlearn.convert(est, method='loadable')
        X = g.normal(size=(10, 4))
        c, q = m.predict(X), est.predict(X, verbose=0)
        gap = numpy.abs(q[:, 0] - q[:, 1]) > 1e-5
        rec.require(numpy.all((c == q.argmax(axis=1)) | ~gap), 'keras:supported', f'{what}: {c} {q}')
        rec.ev('keras_converted')


SUBCLASS = ['MyModel', 'Ensemble2', 'RegressorEnsemble', 'NotAClassifier', 'ClassifierRegressor', '_X', 'Sequential', 'IsolationForest']


def subclasses(rec, i):
    """with an explicit kind, a subclass converts like the model itself; without, it is refused (or converts the same)"""
    import copy
    import emlearn
    g = core.rng('C23', 'subclass', i)
    fam = ['tree', 'treereg', 'tree', 'treereg', 'bayes', 'knn', 'elliptic', 'gmm', 'mlp'][i % 9]
    kw, save = {}, dict(name='model')
    if fam in ('tree', 'treereg'):
        est, X = tree_est(g, fam == 'treereg', k=int(g.integers(2, 5)))
        kw = dict(method=str(g.choice(['inline', 'loadable'])), dtype='int16_t')
        if fam == 'tree':
            kw['leaf_bits'] = [None, 0, 3, 8][int(g.integers(0, 4))]
    else:
        m = int(g.integers(2, 5))
        est, X = other(g, fam, m), (g.normal(size=(30, m)) * 3)
        if fam == 'knn':
            X = numpy.round(X)
    name = str(g.choice(SUBCLASS))
    sub = copy.deepcopy(est)
    sub.__class__ = type(name, (type(est),), {})
    desc = f'{name}({type(est).__name__}) {kw}'
    plain = emlearn.convert(est, **kw)
    try:
        implicit = emlearn.convert(sub, **kw)
    except Exception:
        rec.ev('refused_subclass_names')
    else:
        rec.require(implicit.save(**save) == plain.save(**save), 'subclass:accepted-other-code', desc)
    try:
        model = emlearn.convert(sub, kind=type(est).__name__, **kw)
    except Exception as e:
        rec.fail('subclass:refused', f'{type(e).__name__}: {e}: {desc}')
        return
    for what in (plain, model):
        what.verbose = 0
    rec.require(model.save(**save) == plain.save(**save), 'subclass:other-code', desc)
    a, b = numpy.asarray(plain.predict(X[:12])), numpy.asarray(model.predict(X[:12]))
    rec.require(a.shape == b.shape and a.dtype == b.dtype and (a == b).all(), 'subclass:other-predictions', lambda: f'{b} want {a} {desc}')
    rec.ev('subclasses_converted')
    rec.case(('subclass', fam, name, str(kw)))


PARTS = dict(refused=refused, keras=keras_refused, savings=savings)


def part(keys):
    """in a process of its own: run these cases and print what was observed"""
    rec = core.Rec()
    for name, key in keys:
        PARTS[name](rec, tuple(key) if isinstance(key, list) else key)
    print('OBSERVED' + json.dumps(dict(events=rec.events, violations=rec.violations, n=rec.evaluations)))


def optimised(rec, keys):
    """the same catalogue, with the assertions of Python disabled"""
    p = subprocess.run([sys.executable, '-O', os.path.abspath(__file__), '--part', json.dumps(keys)], capture_output=True, text=True, cwd=core.scratch('opt'))
    if 'OBSERVED' not in p.stdout:
        rec.fail('optimised:process-fails', f'exit {p.returncode}: {p.stderr[-1500:]}')
        return
    o = json.loads(p.stdout.split('OBSERVED')[1])
    for v in o['violations']:
        rec.fail('optimised:' + v['mechanism'], 'python -O: ' + v['detail'])
    for k, v in o['events'].items():
        if 'refused' in k:
            rec.ev('optimised_' + k, v)
    rec.case(('optimised', repr(keys)), n=o['n'])


def main():
    if sys.argv[1:2] == ['--part']:
        return part(json.loads(sys.argv[2]))
    chk = core.Check('C23')
    n = core.pick(12, 120)
    chk.run(refused, [(name, i) for name in CASES for i in range(n * 3 if name == 'estimators' else n * 2 if name in ('knn_unsupported', 'mlp_unsupported', 'unfitted') else core.pick(3, 12) if name == 'node_offsets' else n)])
    chk.run(limits, [(k, i) for i in range(core.pick(20, 150)) for k in ('loadable', 'inline', 'bayes', 'knn', 'gmm', 'elliptic', 'mlp')] + [('offsets', i) for i in range(6)])
    chk.run(subclasses, range(core.pick(45, 450)))
    chk.run(savings, range(core.pick(2, 8)))
    chk.run(keras_refused, ['keras'], jobs=1)
    q = core.pick(2, 20)
    cases = [('refused', (name, 1000 + i)) for name in CASES for i in range(1 if name == 'node_offsets' else 5 * q if name == 'knn_unsupported' else 3 * q)]
    chk.run(optimised, [cases[i::16] for i in range(16)] + [[('keras', 'keras')]] + [[('savings', 1000 + i)] for i in range(q)])
    need = {f'refused_{k}': 3 for k in CASES}
    chk.finish('a catalogue of unsupported estimators, kinds, methods, types, sizes, layers, metrics and save options, each of which must raise at conversion or saving; models around every limit, which are refused or answer with valid classes',
               dict(need, refused=150, saves_refused=80, inputs_refused=30, keras_refused=40, limit_converted=30, limit_refused=4, predictions=1000, subclasses_converted=30, refused_subclass_names=30, optimised_refused=80, optimised_keras_refused=40, optimised_saves_refused=60),
               ['any exception is a refusal', 'leaf tables of more than 2^15 distinct values are not built: removing their duplicates takes hours'])


main()
