"""C08: Gaussian mixtures. Oracle: the estimator's own weighted log-probabilities, score and responsibilities (double precision) with the
forward error bound of a single-precision evaluation of the precision-Cholesky form."""
import numpy, emlearn
from vlib import core, cc
from vlib.treedrv import drive

U = 2.0**-24


def full_chol(est):
    pc, t = est.precisions_cholesky_, est.covariance_type
    k, m = est.means_.shape
    if t == 'full':
        return pc
    if t == 'tied':
        return numpy.stack([pc] * k)
    if t == 'diag':
        return numpy.stack([numpy.diag(v) for v in pc])
    return numpy.stack([v * numpy.eye(m) for v in pc])


def reference(est, Q):
    X = Q.astype(float)
    k, m = est.means_.shape
    lp = est._estimate_weighted_log_prob(X)
    pc = full_chol(est)
    err = numpy.empty_like(lp)
    for c in range(k):
        d = X - est.means_[c]
        y = d @ pc[c]
        a = numpy.abs(pc[c])
        b = (m + 5) * U * (numpy.abs(d) @ a) + 1.01 * U * (numpy.abs(est.means_[c]) @ a)[None]
        e2 = (2 * numpy.abs(y) * b + b * b + (m + 3) * U * y * y).sum(axis=1)
        y2 = (y * y).sum(axis=1)
        rest = numpy.abs(lp[:, c] + 0.5 * y2)
        ld = numpy.abs(numpy.log(numpy.abs(numpy.diag(pc[c])))).sum()
        err[:, c] = 0.5 * e2 + 8 * U * (0.5 * y2 + 2 * m + ld + rest + numpy.abs(lp[:, c]) + 60) + 1e-6
    return lp, err


def make(g, i):
    from sklearn.mixture import GaussianMixture, BayesianGaussianMixture
    k = int(g.choice([1, 1, 2, 3, 5, 8]))
    m = int(g.choice([1, 1, 2, 3, 5, 8]))
    wide = i % 7 == 5
    if wide:
        k, m = ((int(g.choice([20, 40, 70, 130])), int(g.integers(1, 4))) if g.random() < .6 else (int(g.integers(1, 4)), int(g.choice([16, 24, 40]))))
    cov = ['full', 'tied', 'diag', 'spherical'][i % 4]
    bay = (i // 4) % 2
    n = int(25 * k + 10 * m)
    sc = 10.0 ** g.uniform(-2, 2, size=m) if g.random() < 0.5 else numpy.ones(m)
    if i % 7 == 3:     # all deviations very small or very large
        sc = sc * 10.0 ** float(g.choice([-3.5, 3.5]))
    cen = g.normal(size=(k, m)) * g.choice([1.0, 5.0, 30.0]) + g.normal(size=m) * g.choice([0.0, 0.0, 100.0])
    lab = g.integers(0, k, size=n) if g.random() < 0.6 else numpy.minimum(g.geometric(0.6, size=n) - 1, k - 1)
    X = (cen[lab] + g.normal(size=(n, m)) @ g.normal(size=(m, m)) * 0.5 + g.normal(size=(n, m)) * 0.3) * sc
    kw = dict(n_components=k, covariance_type=cov, random_state=int(g.integers(0, 99)), max_iter=5 if wide else 40)
    if i % 7 == 3 and sc.max() < 1:
        kw['reg_covar'] = 1e-6 * float(sc.min()) ** 2
    if bay:
        est = BayesianGaussianMixture(weight_concentration_prior_type=str(g.choice(['dirichlet_process', 'dirichlet_distribution'])), **kw)
    else:
        est = GaussianMixture(**kw)
    return est.fit(X), X, f'{"Bayesian" if bay else ""}GaussianMixture {cov} components={k} features={m}', bay, cov


def driver(name, code, k):
    return cc.READER + code + f'''
int main(int argc, char **argv) {{
    int64_t total; v_open(argv); int32_t *dim = (int32_t *)v_get(4, NULL); float *X = (float *)v_get(4, &total);
    const int n = dim[0], m = dim[1];
    for (int i = 0; i < n; i++) {{
        float *row = (float *)malloc(4 * m); memcpy(row, X + (int64_t)i * m, 4 * m);
        float *p = (float *)malloc(4 * {k}), *r = (float *)malloc(4 * {k}), s1 = -77.0f, s2 = -77.0f;
        for (int j = 0; j < {k}; j++) {{ p[j] = r[j] = -55.0f; }}
        v_i32({name}_predict_log_proba(row, m, p)); v_put(p, 4, {k});
        for (int j = 0; j < {k}; j++) {{ p[j] = -55.0f; }}
        v_i32({name}_score(row, m, p, &s1)); v_f32(s1); v_put(p, 4, {k});
        for (int j = 0; j < {k}; j++) {{ p[j] = -55.0f; }}
        v_i32({name}_predict_proba(row, m, p, &s2, r)); v_f32(s2); v_put(p, 4, {k}); v_put(r, 4, {k});
        v_i32(memcmp(row, X + (int64_t)i * m, 4 * m) != 0);
        free(row); free(p); free(r);
    }}
    free(X); free(dim); v_close(); return 0; }}
'''


def case(rec, i):
    g = core.rng('C08', i)
    est, X, info, bay, cov = make(g, i)
    k, m = est.means_.shape
    nq = core.pick(150, 500)
    pc = full_chol(est)
    comp, comp2 = g.integers(0, k, nq), g.integers(0, k, nq)
    r = g.random((nq, 1))
    far = g.random(nq) < 0.4
    u = g.normal(size=(nq, m)) * numpy.where(far, 10.0 ** g.uniform(0.5, 2.7, size=nq), g.choice([0.1, 1, 3], size=nq))[:, None]
    step = numpy.stack([numpy.linalg.solve(pc[c].T, v) for c, v in zip(comp, u)])
    Q = (est.means_[comp] * (1 - r) + est.means_[comp2] * r + step).astype(numpy.float32)
    Q[0] = est.means_[0]
    model = emlearn.convert(est)
    exe = cc.compile_c(driver('gm', model.save(name='gm'), k), san=True)
    dt = numpy.dtype([('e1', '<i4'), ('lp1', '<f4', (k,)), ('e2', '<i4'), ('s2', '<f4'), ('lp2', '<f4', (k,)),
                      ('e3', '<i4'), ('s3', '<f4'), ('lp3', '<f4', (k,)), ('r', '<f4', (k,)), ('mod', '<i4')])
    a = numpy.frombuffer(drive(exe, Q), dt)
    assert len(a) == nq
    lp, err = reference(est, Q)
    score = est.score_samples(Q.astype(float))
    serr = err.max(axis=1) + 8 * U * numpy.abs(lp).max(axis=1) + (k + 4) * U + 1e-6
    resp = est.predict_proba(Q.astype(float))
    rec.ev('predict_calls', 3 * nq)
    rec.require(not a['mod'].any(), 'features-modified', info)
    rec.require(not (a['e1'].any() or a['e2'].any() or a['e3'].any()), 'error-returned', info)
    for f in ('lp1', 'lp2', 'lp3'):
        w = numpy.argwhere(~(numpy.abs(a[f].reshape(nq, k) - lp) <= err))
        rec.require(len(w) == 0, f'log_proba:{f}', lambda: f'{len(w)} values; {a[f].reshape(nq, k)[w[0][0]]} want {lp[w[0][0]]} +- {err[w[0][0]]} {info}', row=Q[w[0][0]] if len(w) else None)
    for f in ('s2', 's3'):
        w = numpy.nonzero(~(numpy.abs(a[f] - score) <= serr))[0]
        rec.require(len(w) == 0, f'score:{f}', lambda: f'{len(w)} rows; {a[f][w[0]]} want {score[w[0]]} +- {serr[w[0]]} {info}', row=Q[w[0]] if len(w) else None)
    R = a['r'].reshape(nq, k).astype(float)
    rerr = numpy.expm1(numpy.minimum(2 * err.max(axis=1, keepdims=True), 50)) * resp + 4 * k * U + 1e-30
    w = numpy.argwhere(~(numpy.abs(R - resp) <= rerr))
    rec.require(len(w) == 0, 'responsibility', lambda: f'{R[w[0][0]]} want {resp[w[0][0]]} +- {rerr[w[0][0]]} {info}', row=Q[w[0][0]] if len(w) else None)
    rec.require(((R >= 0) & (R <= 1 + 2 * U)).all(), 'responsibility:range', lambda: f'{R.min()} {R.max()} {info}')
    w = numpy.nonzero(~(numpy.abs(R.sum(axis=1) - 1) <= (k + 2) * 2 * U))[0]
    rec.require(len(w) == 0, 'responsibility:sum', lambda: f'{len(w)} rows; sum {R.sum(axis=1)[w[0]]} score {score[w[0]]} {info}', row=Q[w[0]] if len(w) else None)
    best = lp.argmax(axis=1)
    s = numpy.sort(lp, axis=1)
    margin = s[:, -1] - s[:, -2] if k > 1 else numpy.full(nq, numpy.inf)
    dec = margin > 2 * err.max(axis=1) + 1e-5
    rec.ev('decided_rows', dec.sum())
    rec.ev('decided_far_rows', (dec & far).sum())
    rec.ev('underflowing_rows', (lp.max(axis=1) < -104).sum())
    rec.ev('tight_log_probas', (err < 1e-3 * (1 + numpy.abs(lp))).sum())
    rec.require((R.argmax(axis=1) == best)[dec].all(), 'decision', info)
    rec.require((est.predict(Q.astype(float)) == best)[dec].all(), 'oracle:disagrees-with-estimator', info)
    if i % core.pick(3, 6) == 0:
        sub = numpy.arange(0, nq, max(1, nq // 25))
        pq = Q[sub].astype(float)
        model.verbose = 0
        P, S, L, R2 = model.predict(pq), model.score_samples(pq), model.predict_log_proba(pq), model.predict_proba(pq)
        rec.ev('python_rows', len(sub))
        rec.require((numpy.asarray(P) == best[sub])[dec[sub]].all(), 'python:decision', info)
        rec.require((numpy.abs(S - score[sub]) <= serr[sub] + 1e-8 * numpy.abs(score[sub])).all(), 'python:score', lambda: f'{S[:4]} {score[sub][:4]} {info}')
        rec.require(L.shape == (len(sub), k) and (numpy.abs(L - lp[sub]) <= err[sub] + 1e-8 * numpy.abs(lp[sub])).all(), 'python:log_proba', lambda: f'{L[:2]} {lp[sub][:2]} {info}')
        rec.require(R2.shape == (len(sub), k) and (numpy.abs(R2 - resp[sub]) <= rerr[sub] + 1e-8).all(), 'python:responsibility', lambda: f'{R2[:2]} {resp[sub][:2]} {info}')
    rec.ev(f'models_{"bayesian" if bay else "plain"}_{cov}')
    if k > 64:
        rec.ev('models_over_64_components')
    if m > 15:
        rec.ev('models_over_15_features')
    if k == 1:
        rec.ev('models_single_component')
    rec.distinct_rows(Q, str(i))
    rec.sample(dict(model=info, row=Q[1][:5], c_log_proba=a['lp1'][1], reference=lp[1], bound=err[1]))


def main():
    c = core.Check('C08')
    c.run(case, range(core.pick(240, 1600)))
    need = dict(predict_calls=30000, decided_rows=8000, decided_far_rows=3000, underflowing_rows=2000, tight_log_probas=20000, python_rows=500, models_single_component=5, models_over_64_components=2, models_over_15_features=2)
    for b in ('plain', 'bayesian'):
        for t in ('full', 'tied', 'diag', 'spherical'):
            need[f'models_{b}_{t}'] = 10
    c.finish('one case = one (model, input row): rows between and around components and up to 500 deviations away, where plain exponentials underflow', need,
             ['log-probabilities are compared within the forward error bound of a float32 evaluation', 'the component is not judged within that bound'])


main()
