"""Random tree ensembles, hostile queries for them, and the oracle (the estimator's own leaf walk)."""
import numpy
from sklearn.ensemble import (RandomForestClassifier, ExtraTreesClassifier, RandomForestRegressor, ExtraTreesRegressor)
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

RANGES = {'uint8_t': (0, 255), 'uint16_t': (0, 65535), 'int8_t': (-128, 127), 'int16_t': (-32768, 32767), 'int32_t': (-2**24, 2**24), 'float': None}
NPTYPE = {'uint8_t': numpy.uint8, 'uint16_t': numpy.uint16, 'int8_t': numpy.int8, 'int16_t': numpy.int16, 'int32_t': numpy.int32, 'float': numpy.float32}


def features(rng, n, m, dtype):
    """training features: several styles, so that thresholds fall on integers, halves, negatives, limits"""
    if dtype == 'float':
        style = rng.integers(0, 6)
        if style == 0:
            X = rng.normal(size=(n, m))
        elif style == 1:
            X = rng.integers(-5, 6, size=(n, m)).astype(float)
        elif style == 2:
            X = rng.normal(size=(n, m)) * 10.0 ** rng.integers(-7, 7, size=m)
        elif style == 3:
            X = rng.integers(-8, 9, size=(n, m)) * 0.125
        elif style == 4:
            X = rng.normal(size=(n, m)) * 1e-6
        else:
            X = 1.0 + rng.integers(0, 6, size=(n, m)) * 2.0**-23
        return X.astype(numpy.float32)
    lo, hi = RANGES[dtype]
    style = rng.integers(0, 5)
    if style == 0:
        X = rng.integers(lo, hi, size=(n, m), endpoint=True)
    elif style == 1:
        X = rng.integers(-4, 5, size=(n, m))
    elif style == 2:
        X = numpy.clip(rng.normal(size=(n, m)) * (hi / 8), lo, hi)
    elif style == 3:
        X = numpy.where(rng.random((n, m)) < 0.5, rng.integers(lo, lo + 4, size=(n, m)), rng.integers(hi - 3, hi, size=(n, m), endpoint=True))
    else:
        X = rng.integers(-60, 3, size=(n, m))
    return X.astype(NPTYPE[dtype])


def labels(rng, X, k):
    n = len(X)
    Xf = X.astype(float)
    sd = Xf.std(axis=0) + 1e-12
    Z = (Xf - Xf.mean(axis=0)) / sd
    w = rng.normal(size=(X.shape[1], k))
    s = Z @ w + rng.normal(size=(n, k)) * rng.choice([0.0, 0.3, 2.0])
    y = s.argmax(axis=1)
    y[:k] = numpy.arange(k)[:n]      # every class occurs
    return y


def rand_params(rng, kind, k=None):
    p = {}
    r = rng.random()
    if r < 0.3:
        p['max_depth'] = int(rng.integers(1, 8))
    elif r < 0.5:
        p['min_samples_leaf'] = int(rng.integers(2, 12))
    elif r < 0.6:
        p['max_leaf_nodes'] = int(rng.integers(2, 20))
    elif r < 0.7:
        p['min_samples_leaf'] = float(rng.choice([0.2, 0.33, 0.45]))
    if kind != 'D':
        p['n_estimators'] = int(rng.choice([1, 2, 3, 5, 8, 10, 15]))
    if kind == 'R' and rng.random() < 0.3:
        p['bootstrap'] = False
    return p


CLS = {'R': RandomForestClassifier, 'E': ExtraTreesClassifier, 'D': DecisionTreeClassifier}
REG = {'R': RandomForestRegressor, 'E': ExtraTreesRegressor, 'D': DecisionTreeRegressor}


def large_classifier(rng, size, forest=False):
    """int16 classifiers beyond the usual sizes: many trees, many nodes, large leaf tables"""
    if size == 'many':
        X = features(rng, 150, 4, 'int16_t')
        k = int(rng.integers(2, 5))
        y = labels(rng, X, k)
        if rng.random() < .6:      # the trees agree: one class collects (nearly) all of the votes
            X = features(rng, 150, 1, 'int16_t')
            X = numpy.repeat(X, 4, axis=1)
            y = numpy.argsort(numpy.argsort(X[:, 0], kind='stable')) * k // 150
        cls = RandomForestClassifier if rng.random() < .5 else ExtraTreesClassifier
        return cls(int(rng.choice([256, 257, 300, 400, 600])), max_depth=int(rng.integers(1, 4)), random_state=int(rng.integers(2**31 - 1))).fit(X, y), X
    if size == 'long':
        n = 26000
        X = rng.integers(-32768, 32768, size=(n, 3)).astype(numpy.int16)
        y, seed = rng.integers(0, 2 + int(rng.integers(0, 9)), n), int(rng.integers(2**31 - 1))
        if forest:       # more than 2^15 leaves and 2^16 nodes in all
            return ExtraTreesClassifier(5, random_state=seed).fit(X[:20000], y[:20000]), X
        return DecisionTreeClassifier(random_state=seed).fit(X, y), X
    k = int(rng.integers(26, 31))
    X = rng.integers(-32768, 32768, size=(7000, 4)).astype(numpy.int16)
    return RandomForestClassifier(2, min_samples_leaf=3, random_state=int(rng.integers(2**31 - 1))).fit(X, numpy.arange(7000) % k), X


def large_regressor(rng, size, forest=False):
    if size == 'many':
        X = features(rng, 150, 4, 'int16_t')
        y = X.astype(float) @ rng.normal(size=4) + rng.normal(size=150)
        return RandomForestRegressor(int(rng.choice([256, 300, 500])), max_depth=int(rng.integers(1, 4)), random_state=int(rng.integers(2**31 - 1))).fit(X, y), X
    n = 26000
    X = rng.integers(-32768, 32768, size=(n, 3)).astype(numpy.int16)
    y, seed = numpy.round(rng.normal(size=n) * 60) / 4 * (1e-6 if forest else 1), int(rng.integers(2**31 - 1))
    if forest:
        return ExtraTreesRegressor(5, random_state=seed).fit(X[:20000], y[:20000]), X
    return DecisionTreeRegressor(random_state=seed).fit(X, y), X


def wide(rng, cls, dtype):
    """an ensemble of several hundred small trees, the deepest ones last"""
    n = int(rng.choice([129, 200, 257, 300]))
    est, X = (classifier if cls else regressor)(rng, dtype, 'loadable')
    X = features(rng, 150, X.shape[1] if X.ndim == 2 else 4, dtype)
    y = labels(rng, X, 3) if cls else rng.normal(size=len(X))
    est = (ExtraTreesClassifier if cls else ExtraTreesRegressor)(n_estimators=n - 2, max_depth=2, random_state=int(rng.integers(1 << 30)), warm_start=True)
    est.fit(X, y)
    est.set_params(n_estimators=n, max_depth=7)
    est.fit(X, y)
    return est, X


def large_values(rng):
    """regressors with well over a thousand different leaf values, from tiny to huge"""
    n = 900
    X = rng.integers(-32768, 32768, size=(n, 3)).astype(numpy.int16)
    y = rng.normal(size=n) * float(rng.choice([1e-7, 1e-3, 1.0, 1e6]))
    return ExtraTreesRegressor(3, random_state=int(rng.integers(2**31 - 1))).fit(X, y), X


def classifier(rng, dtype, method='inline', big=False, k=None):
    m = int(rng.choice([1, 2, 3, 5, 9, 20, 40]))
    if rng.random() < 0.06:
        m = 127
    if method == 'inline' and rng.random() < 0.04:
        m = 300
    many = k
    k = int(rng.choice([2, 2, 3, 4, 5, 7, 10]))
    if rng.random() < 0.08:
        k = int(rng.choice([1, 20, 29, 30]))
    if many:
        k, m = many, min(m, 9)
    n = int(rng.integers(max(12, k + 1), 160)) if not big else 600
    X = features(rng, n, m, dtype)
    y = labels(rng, X, k)
    kind = rng.choice(list('REDRE'))
    if many:
        kind = rng.choice(list('REER'))
        y = rng.integers(0, k, size=n)
    p = rand_params(rng, kind)
    if rng.random() < 0.15:
        p['class_weight'] = 'balanced'
    if big:
        p = {'n_estimators': 40} if kind != 'D' else {}
    est = CLS[kind](random_state=int(rng.integers(0, 2**31 - 1)), **p)
    # class labels as users have them; predictions are indices into classes_
    lab = y
    r = rng.random()
    if r < 0.2:
        lab = numpy.array([f'c{v:03d}' for v in y])
    elif r < 0.4:
        lab = y * 3 + 5
    sw = rng.random(n) + 0.1 if rng.random() < 0.15 else None
    est.fit(X, lab, sample_weight=sw)
    return est, X


def regressor(rng, dtype, method='inline'):
    m = int(rng.choice([1, 2, 3, 6, 15, 40]))
    if rng.random() < 0.06:
        m = 127
    n = int(rng.integers(8, 140))
    X = features(rng, n, m, dtype)
    Z = (X.astype(float) - X.astype(float).mean(axis=0)) / (X.astype(float).std(axis=0) + 1e-12)
    y = Z @ rng.normal(size=m) + rng.normal(size=n) * 0.3
    style = rng.integers(0, 6)
    scale = [1.0, 1e-6, 1e6, 1e3, 1e-3, 1.0][style]
    y = y * scale
    if style == 5:
        y = numpy.round(y)            # many equal leaves
    if rng.random() < 0.2:
        y = y + 1000.0 * scale
    kind = rng.choice(list('REDRE'))
    p = rand_params(rng, kind)
    est = REG[kind](random_state=int(rng.integers(0, 2**31 - 1)), **p)
    est.fit(X, y)
    return est, X


def subtrees(est):
    return [e.tree_ for e in est.estimators_] if hasattr(est, 'estimators_') else [est.tree_]


def queries(rng, est, X, dtype, n=300):
    """inputs on, just below and just above thresholds on real decision paths; limits; training rows; random"""
    m = X.shape[1]
    t = NPTYPE[dtype]
    base = X[rng.integers(0, len(X), size=n)].copy()
    # mix features of different rows
    other = X[rng.integers(0, len(X), size=n)]
    mix = rng.random((n, m)) < rng.choice([0.0, 0.2, 0.5], size=(n, 1))
    Q = numpy.where(mix, other, base)
    trees = subtrees(est)
    hits = 0
    for i in range(n):
        if rng.random() < 0.15:
            continue
        tr = trees[rng.integers(0, len(trees))]
        # follow the actual path of this row, then sit on one of the thresholds met there
        node, path = 0, []
        row = Q[i].astype(numpy.float32)
        while tr.children_left[node] != -1:
            path.append(node)
            node = tr.children_left[node] if row[tr.feature[node]] <= tr.threshold[node] else tr.children_right[node]
        if not path:
            continue
        nd = path[rng.integers(0, len(path))]
        f, th = tr.feature[nd], tr.threshold[nd]
        if dtype == 'float':
            v = numpy.float32(th)
            c = rng.integers(0, 4)
            if c == 1:
                v = numpy.nextafter(v, numpy.float32(-numpy.inf))
            elif c == 2:
                v = numpy.nextafter(v, numpy.float32(numpy.inf))
            elif c == 3:
                v = numpy.float32(numpy.floor(th))
        else:
            lo, hi = RANGES[dtype]
            v = int(numpy.floor(th)) + int(rng.choice([0, 0, 1, 1, -1, 2]))
            v = min(max(v, lo), hi)
        Q[i, f] = v
        hits += 1
    if dtype == 'float':
        ext = rng.choice(numpy.array([0.0, -0.0, 3e38, -3e38, 1e-30, 1.0, -1.0], dtype=numpy.float32), size=(max(4, n // 20), m))
    else:
        lo, hi = RANGES[dtype]
        ext = rng.choice(numpy.array([lo, hi, 0, -1, 1, lo + 1, hi - 1]), size=(max(4, n // 20), m))
    Q = numpy.concatenate([Q.astype(t), ext.astype(t)])
    return numpy.ascontiguousarray(Q), hits


def leaf_values(est, Q):
    """per tree: value rows of the leaf that the estimator itself reaches  -> list of (n, outputs) arrays"""
    Xf = numpy.ascontiguousarray(Q.astype(numpy.float32))
    return [tr.value[tr.apply(Xf)][:, 0, :] for tr in subtrees(est)]


def hard_votes(est, Q):
    k = int(est.n_classes_)
    votes = numpy.zeros((len(Q), k))
    for v in leaf_values(est, Q):
        votes[numpy.arange(len(Q)), v.argmax(axis=1)] += 1
    return votes


def soft_proba(est, Q):
    vs = leaf_values(est, Q)
    return numpy.mean([v / v.sum(axis=1, keepdims=True) for v in vs], axis=0)
