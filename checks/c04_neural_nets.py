"""C04: neural networks. Oracle: the same forward pass in double precision from the trained weights, with a rigorous bound of the
single-precision rounding error per output; cross-checked against the trained model's own predict functions."""
import os
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
import numpy, emlearn
from vlib import core, cc, netgen
from vlib.treedrv import drive


def inputs(g, X, n):
    m = X.shape[1]
    idx = g.integers(0, len(X), size=n)
    Q = X[idx] + g.normal(size=(n, m)) * g.choice([0.0, 0.1, 1.0], size=(n, 1))
    Q = Q * g.choice([1.0, 1.0, 1.0, 10.0, 100.0, 1e3], size=(n, 1))
    Q[: max(1, n // 20)] = 0.0
    return Q.astype(numpy.float32)




def run_case(rec, g, tag, est, weights, biases, acts, X, classifier, info, est_out):
    """est_out(Q) -> the trained model's own outputs (n, n_out)"""
    m, n_out = weights[0].shape[0], weights[-1].shape[1]
    n = core.pick(150, 500)
    Q = inputs(g, X, n)
    ref, err = netgen.forward(Q, weights, biases, acts)
    own = est_out(Q)
    rec.require((numpy.abs(own - ref) <= err * 4 + 1e-9 * numpy.abs(ref) + 1e-9).all(), 'oracle:disagrees-with-model',
                lambda: f'{numpy.abs(own - ref).max()} {info}')
    cls, decided = netgen.decision(ref, err, True)
    proba_ok = acts[-1] == 'softmax' or (acts[-1] == 'logistic' and n_out == 1)
    kinds = (['loadable'] if len(weights) >= 2 else []) + ['inline']
    models, nets = {}, []
    for k in kinds:
        rt = 'classifier' if (classifier or k == 'inline') else 'regressor'
        models[k] = emlearn.convert(est, method=k, return_type=rt)
        nets.append(('m_' + k, models[k].save(name='m_' + k), k))
    exe = cc.compile_c(netgen.driver(nets, m, n_out), san=True)
    outs = netgen.parse(drive(exe, Q), kinds, n, n_out)
    for k, o in zip(kinds, outs):
        rec.ev('predict_calls', n)
        rec.ev(f'models_{k}')
        rec.require(not o['mod'].any(), f'{k}:features-modified', info)
        e = numpy.abs(o['o'].astype(float) - ref)
        rec.require((o['re' if k == 'loadable' else 'ie'] == 0).all(), f'{k}:error-returned', info)
        w = numpy.nonzero(~(e <= err).all(axis=1))[0]
        rec.ev('outputs_compared', e.size)
        rec.require(len(w) == 0, f'{k}:outputs', lambda: f'{len(w)}/{n} rows; row {Q[w[0]].tolist()}: {o["o"][w[0]].tolist()} want {ref[w[0]].tolist()} error bound {err[w[0]].tolist()} {info}', row=Q[w[0]] if len(w) else None)
        if proba_ok or n_out > 1:
            k_out = max(2, n_out)
            c = o['c']
            rec.require(((c >= 0) & (c < k_out)).all(), f'{k}:not-a-class', lambda: f'{set(c.tolist())} {info}')
            rec.ev('decided_rows', decided.sum())
            w = numpy.nonzero(decided & (c != cls))[0]
            rec.require(len(w) == 0, f'{k}:class', lambda: f'{len(w)} rows; row {Q[w[0]].tolist()}: class {c[w[0]]} want {cls[w[0]]}, outputs {ref[w[0]].tolist()} {info}')
        if k == 'loadable' and proba_ok:
            p = o['p'].astype(float)
            want = ref if n_out > 1 else numpy.concatenate([1 - ref, ref], axis=1)
            we = err if n_out > 1 else numpy.concatenate([err, err], axis=1) + netgen.U
            rec.require((o['pe'] == 0).all(), f'{k}:proba-error', info)
            rec.ev('proba_rows', n)
            w = numpy.nonzero(~(numpy.abs(p - want) <= we).all(axis=1))[0]
            rec.require(len(w) == 0, f'{k}:proba', lambda: f'{p[w[0]].tolist()} want {want[w[0]].tolist()} {info}')
            s = p.sum(axis=1)
            rec.require((numpy.abs(s - 1) <= max(1e-5, 4 * netgen.U * p.shape[1])).all(), f'{k}:proba-sum', lambda: f'{numpy.abs(s - 1).max()} {info}')
        if k == 'loadable' and n_out == 1:
            rec.require(numpy.array_equal(o['o1'], o['o'][:, 0]), f'{k}:regress1', info)
    if len(outs) == 2 and (proba_ok or n_out > 1):
        a, b = outs
        d = decided
        rec.ev('inline_vs_loadable', int(d.sum()))
        rec.require(numpy.array_equal(a['c'][d], b['c'][d]), 'inline-vs-loadable:class', info)
        rec.require((numpy.abs(a['o'].astype(float) - b['o']) <= 2 * err).all(), 'inline-vs-loadable:outputs', info)
    for a in acts:
        rec.ev('act_' + a)
    rec.distinct_rows(Q, tag)
    rec.sample(dict(model=info, rows=n, first_row=Q[0][:6], want=ref[0][:4], bound=err[0][:4], got=outs[0]['o'][0][:4]))
    # through the Python API
    k = kinds[int(g.integers(0, len(kinds)))]
    sub = Q[:40]
    if not classifier and k == 'loadable' and n_out == 1:
        v = numpy.asarray(models[k].predict(sub), float).reshape(-1)
        rec.ev('python_rows', len(sub))
        rec.require((numpy.abs(v - ref[:40, 0]) <= err[:40, 0] + 1e-8 * numpy.abs(ref[:40, 0])).all(), f'python-{k}:value', lambda: f'{v[:4]} {ref[:4, 0]} {info}')
    elif classifier and (proba_ok or n_out > 1):
        c = numpy.asarray(models[k].predict(sub))
        rec.ev('python_rows', len(sub))
        d = decided[:40]
        rec.require(c.shape == (len(sub),) and numpy.array_equal(c[d], cls[:40][d]), f'python-{k}:class', lambda: f'{c.tolist()} {cls[:40].tolist()} {info}')
        if k == 'loadable' and proba_ok:
            p = numpy.asarray(models[k].predict_proba(sub), float)
            want = ref[:40] if n_out > 1 else numpy.concatenate([1 - ref, ref], axis=1)[:40]
            rec.require(p.shape == want.shape and (numpy.abs(p - want) <= err[:40].max(axis=1, keepdims=True) + 1e-7).all(), f'python-{k}:proba', info)
            rec.require(p.shape == want.shape and (numpy.abs(p - outs[kinds.index(k)]['p'][:40]) <= 1e-8).all(), f'python-{k}:proba-text', info)


def sk_case(rec, key):
    kind, i = key
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    g = core.rng('C04', kind, i)
    m = int(g.choice([1, 2, 3, 5, 10, 30, 64]))
    n = 120
    X = g.normal(size=(n, m)) * 10.0 ** g.choice([-2, 0, 0, 1])
    classifier = bool(g.random() < 0.65)
    layers = tuple(int(v) for v in g.choice([1, 2, 3, 5, 8, 16, 33], size=int(g.integers(1, 5))))
    acti = str(g.choice(['relu', 'tanh', 'logistic', 'identity']))
    seed = int(g.integers(0, 2**31 - 1))
    if classifier:
        k = int(g.choice([2, 2, 3, 4, 7, 12]))
        y = (X @ g.normal(size=(m, k)) + g.normal(size=(n, k)) * X.std() * 0.2).argmax(axis=1)
        y[:k] = numpy.arange(k)
        est = MLPClassifier(hidden_layer_sizes=layers, activation=acti, max_iter=int(g.choice([3, 30, 120])), random_state=seed,
                            learning_rate_init=float(g.choice([0.001, 0.02, 0.1])))
    else:
        k = int(g.choice([1, 1, 1, 2, 4]))
        y = (X @ g.normal(size=(m, k))) * 10.0 ** g.choice([-3, 0, 3])
        y = y[:, 0] if k == 1 else y
        est = MLPRegressor(hidden_layer_sizes=layers, activation=acti, max_iter=int(g.choice([3, 60])), random_state=seed)
    h = core.rng('C04', kind, i, 'variant')
    v = h.random()
    if v < 0.15:
        est.set_params(solver='lbfgs')
    elif v < 0.25:
        est.set_params(solver='sgd')
    elif v < 0.35:
        est.set_params(early_stopping=True)
    if h.random() < 0.15:
        X = X.astype(numpy.float32)          # float32 parameters
    try:
        est.fit(X, y)
    except ValueError:                       # sgd can diverge: scikit-learn refuses non-finite weights
        est.set_params(solver='adam', early_stopping=False)
        est.fit(X, y)
    X = X.astype(float)
    if h.random() < 0.2:
        est.coefs_ = [numpy.asfortranarray(w) for w in est.coefs_]      # another memory layout of the same matrices
        rec.ev('fortran_weights')
    if g.random() < 0.25:
        # well trained nets have large weights
        f = float(g.choice([5.0, 20.0]))
        est.coefs_ = [w * f for w in est.coefs_]
        rec.ev('large_weights')
    acts = [est.activation] * (len(est.coefs_) - 1) + [est.out_activation_]
    info = f'{type(est).__name__} layers={[w.shape for w in est.coefs_]} acts={acts}'
    def own(Q):
        if classifier:
            p = est.predict_proba(Q.astype(float))
            return p[:, 1:] if est.coefs_[-1].shape[1] == 1 else p
        return est.predict(Q.astype(float)).reshape(len(Q), -1)
    run_case(rec, g, f'{kind}{i}', est, est.coefs_, est.intercepts_, acts, X, classifier, info, own)
    rec.ev('models_sklearn')


def large_case(rec, key):
    """sizes beyond the usual: more than 2^15 / 2^16 weights in a layer, more than 127 / 255 classes, more than ten layers"""
    kind, i = key
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    g = core.rng('C04', kind, i)
    m, k, classifier = int(g.integers(2, 9)), 3, True
    if kind == 'wide':
        layers = [(180, 190), (300, 230), (260, 128)][i % 3]
    elif kind == 'classes':
        layers, k = (int(g.integers(4, 12)),), int(g.choice([128, 129, 140, 256, 257, 300]))
    elif kind == 'inputs':
        layers, m = (int(g.integers(100, 260)),), int(g.choice([257, 300, 400]))
    else:
        layers = tuple(int(v) for v in g.integers(2, 6, size=int(g.choice([10, 11, 12, 21]))))
        classifier = bool(g.random() < .5)
    n = max(80, k)
    X = g.normal(size=(n, m))
    cls = MLPClassifier if classifier else MLPRegressor
    y = numpy.arange(n) % k if classifier else X[:, 0]
    est = cls(hidden_layer_sizes=layers, activation=str(g.choice(['relu', 'tanh', 'identity'])), max_iter=1, random_state=int(g.integers(0, 2**31 - 1)))
    est.fit(X, y)
    est.coefs_ = [g.normal(size=w.shape) * 1.5 / numpy.sqrt(w.shape[0]) for w in est.coefs_]
    est.intercepts_ = [g.normal(size=b.shape) * .3 for b in est.intercepts_]
    acts = [est.activation] * (len(est.coefs_) - 1) + [est.out_activation_]
    info = f'{type(est).__name__} layers={[w.shape for w in est.coefs_]} acts={acts}'
    own = (lambda Q: est.predict_proba(Q.astype(float))) if classifier else (lambda Q: est.predict(Q.astype(float)).reshape(len(Q), -1))
    run_case(rec, g, f'{kind}{i}', est, est.coefs_, est.intercepts_, acts, X, classifier, info, own)
    rec.ev('large_models'); rec.ev('large_' + kind)


def dead_case(rec, key):
    """a binary classifier whose output is exactly one half: the trained model says class 0"""
    from sklearn.neural_network import MLPClassifier
    kind, i = key
    g = core.rng('C04', kind, i)
    m = int(g.integers(1, 6))
    X = g.normal(size=(40, m))
    est = MLPClassifier(hidden_layer_sizes=tuple(int(v) for v in g.integers(1, 6, size=int(g.integers(1, 3)))), max_iter=1, random_state=1).fit(X, numpy.arange(40) % 2)
    est.coefs_ = [numpy.abs(w) + .1 for w in est.coefs_]
    est.intercepts_ = [b * 0 for b in est.intercepts_]
    Q = -numpy.abs(inputs(g, X, 60)) * (g.random((60, 1)) < .8)
    Q = Q.astype('f4')
    want = est.predict(Q.astype(float))
    assert (est.predict_proba(Q.astype(float)) == .5).all() and (want == 0).all()
    for k in ('loadable', 'inline'):
        mod = emlearn.convert(est, method=k, return_type='classifier')
        exe = cc.compile_c(netgen.driver([('m_one', mod.save(name='m_one'), k)], m, 1), san=True)
        o = netgen.parse(drive(exe, Q), [k], len(Q), 1)[0]
        rec.ev('half_rows', len(Q))
        rec.require((o['o'] == .5).all() and (o['c'] == 0).all(), f'{k}:one-half', lambda: f'outputs {set(o["o"].ravel().tolist())} classes {set(o["c"].tolist())}')


def keras_case(rec, key):
    kind, i = key
    import keras
    g = core.rng('C04', kind, i)
    keras.utils.set_random_seed(int(g.integers(0, 2**31 - 1)))
    m = int(g.choice([1, 2, 4, 9, 20]))
    depth = int(g.integers(1, 5)) if i % 4 else 1 + i % 8 // 4
    classifier = bool(g.random() < 0.7)
    L, acts = [keras.layers.Input((m,))], []
    remap = {'logistic': 'sigmoid', 'identity': 'linear'}
    for j in range(depth):
        last = j == depth - 1
        if last:
            out = int(g.choice([1, 2, 3, 6]))
            a = ('logistic' if out == 1 else 'softmax') if classifier else str(g.choice(['identity', 'tanh', 'relu', 'logistic']))
        else:
            out = int(g.choice([1, 2, 4, 9, 17]))
            a = str(g.choice(['relu', 'tanh', 'logistic', 'identity', 'softmax']))
        style = int(g.integers(0, 3))
        if style == 0:
            L.append(keras.layers.Dense(out, activation=remap.get(a, a)))
        elif style == 1:
            L += [keras.layers.Dense(out), keras.layers.Activation(remap.get(a, a))]
        else:
            L.append(keras.layers.Dense(out))
            if a == 'relu':
                L.append(keras.layers.ReLU())
            elif a == 'softmax':
                L.append(keras.layers.Softmax())
            elif a != 'identity':
                L.append(keras.layers.Activation(remap.get(a, a)))
        if g.random() < 0.3 and not last:
            L.append(keras.layers.Dropout(0.3))
        acts.append(a)
    model = keras.Sequential(L)
    ws = model.get_weights()
    ws = [g.normal(size=w.shape).astype(numpy.float32) * g.choice([0.3, 1.0, 3.0]) for w in ws]
    model.set_weights(ws)
    weights, biases = ws[0::2], ws[1::2]
    X = g.normal(size=(60, m))
    info = f'keras {[w.shape for w in weights]} acts={acts}'
    run_case(rec, g, f'{kind}{i}', model, weights, biases, acts, X, classifier, info,
             lambda Q: numpy.asarray(model(Q), dtype=float))
    rec.ev('models_keras')


def main():
    c = core.Check('C04')
    c.run(large_case, [(k, i) for k, n in (('wide', core.pick(3, 12)), ('classes', core.pick(3, 20)), ('inputs', core.pick(2, 8)), ('deep', core.pick(4, 40))) for i in range(n)])
    c.run(dead_case, [('dead', i) for i in range(core.pick(5, 30))])
    c.run(sk_case, [('sk', i) for i in range(core.pick(150, 1200))])
    c.run(keras_case, [('keras', i) for i in range(core.pick(40, 250))], jobs=1)
    c.finish('one case = one (network, input row) pair judged per output against a double-precision forward pass with a rounding error '
             'bound; inputs are perturbed training rows, scaled up to 1000x (saturating activations), and zeros',
             dict(predict_calls=5000, outputs_compared=10000, decided_rows=3000, proba_rows=1000, models_loadable=40, models_inline=40,
                  models_keras=10, models_sklearn=50, large_models=10, half_rows=500, python_rows=500, inline_vs_loadable=1000,
                  act_relu=5, act_tanh=5, act_logistic=5, act_identity=5, act_softmax=5),
             ['float32 arithmetic with libm functions within 2 ulp; error bound derived per layer from the magnitudes actually summed'])

main()
