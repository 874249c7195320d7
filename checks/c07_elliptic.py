"""C07: elliptic envelope. Oracle: double-precision squared Mahalanobis distance from location_/precision_ with the forward error bound of a
single-precision evaluation; decisions are judged when the distance is further from -offset_ than that bound."""
import numpy, emlearn
from vlib import core, cc
from vlib.treedrv import drive

U = 2.0**-24


def reference(Q, loc, P):
    d = Q.astype(float) - loc
    dist = numpy.einsum('ni,ij,nj->n', d, P, d)
    a = numpy.abs(d)
    aP = numpy.abs(P)
    n = len(loc)
    m = numpy.abs(loc)
    bound = (2 * n + 12) * U * numpy.einsum('ni,ij,nj->n', a, aP, a) + 2 * 1.01 * U * ((a @ aP) @ m) + 2 * U * U * (m @ aP @ m) + 1e-37
    return dist, bound


def make(g, i):
    from sklearn.covariance import EllipticEnvelope
    m = int(g.choice([1, 1, 2, 3, 4, 6, 9, 12]))
    kind = 'fitted' if i % 2 else 'synthetic'
    if i % 40 == 6:
        m = int(g.choice([65, 129, 160, 257]))
    scale = 10.0 ** g.uniform(-3, 3, size=m) if g.random() < 0.6 else numpy.ones(m)
    shift = scale * g.normal(size=m) * g.choice([0.0, 1.0, 10.0])
    A = numpy.eye(m)
    if m > 1 and g.random() < 0.7:
        A = numpy.linalg.qr(g.normal(size=(m, m)))[0] * 10.0 ** g.uniform(-1, 0.5, size=m)[None]
    if kind == 'fitted':
        n = 30 + 12 * m
        X = (g.normal(size=(n, m)) @ A.T) * scale + shift
        cont = float(g.choice([0.01, 0.05, 0.1, 0.3, 0.5]))
        est = EllipticEnvelope(contamination=cont, random_state=0, assume_centered=bool(g.random() < 0.2),
                               support_fraction=None if g.random() < 0.7 else 0.9).fit(X)
    else:
        n = 20 + 5 * m
        X = (g.normal(size=(n, m)) @ A.T) * scale + shift
        est = EllipticEnvelope(contamination=0.1, random_state=0)
        C = (A @ A.T) * numpy.outer(scale, scale)
        C = (C + C.T) / 2 + numpy.diag(numpy.diag(C)) * 1e-3
        est.location_, est.covariance_ = shift.copy(), C
        P = numpy.linalg.inv(C)
        est.precision_ = (P + P.T) / 2
        est.offset_ = -float(10.0 ** g.uniform(-2, 3))
        est.n_features_in_ = m
        est.dist_ = numpy.zeros(3)
    return est, X, kind


def driver(name, code):
    return cc.READER + code + f'''
int main(int argc, char **argv) {{
    int64_t total; v_open(argv); int32_t *dim = (int32_t *)v_get(4, NULL); float *X = (float *)v_get(4, &total);
    const int n = dim[0], m = dim[1];
    for (int i = 0; i < n; i++) {{
        float *row = (float *)malloc(4 * m); memcpy(row, X + (int64_t)i * m, 4 * m);
        float dist = -3.0f;
        v_f32({name}_predict(row, m));
        v_i32(eml_elliptic_envelope_predict(&{name}_classifier, row, m, &dist)); v_f32(dist);
        v_i32(eml_elliptic_envelope_predict(&{name}_classifier, row, m, NULL));
        v_f32(eml_mahalanobis_distance_squared(row, {name}_classifier.means, {name}_classifier.precision, m));
        v_i32(memcmp(row, X + (int64_t)i * m, 4 * m) != 0);
        free(row);
    }}
    free(X); free(dim); v_close(); return 0; }}
'''


def case(rec, i):
    g = core.rng('C07', i)
    est, X, kind = make(g, i)
    loc, P, off = est.location_.copy(), est.get_precision().copy(), float(est.offset_)
    m = len(loc)
    info = f'EllipticEnvelope {kind} features={m} offset={off:.5g}'
    nq = core.pick(150, 500)
    Q = X[g.integers(0, len(X), nq)]
    ew, ev = numpy.linalg.eigh((P + P.T) / 2)      # P may be numerically singular: no Cholesky of its inverse
    L = ev / numpy.sqrt(numpy.maximum(ew, ew.max() * 1e-14))[None]
    u = g.normal(size=(nq, m))
    u /= numpy.linalg.norm(u, axis=1, keepdims=True)
    near = g.random(nq) < 0.6                      # around the decision boundary
    rel = 1 + g.choice([-1, 1], size=nq) * 10.0 ** g.uniform(-4, -0.3, size=nq)
    Q = numpy.where(near[:, None], loc + (u * numpy.sqrt(max(-off, 1e-9) * rel)[:, None]) @ L.T, Q)
    far = g.random(nq) < 0.1
    Q = numpy.where(far[:, None], loc + (u * 10.0 ** g.uniform(1, 4, size=(nq, 1))) @ L.T, Q)
    exact = g.random(nq) < 0.25                    # some features exactly at the stored mean, on axis, or equal to another row's
    mask = exact[:, None] & (g.random((nq, m)) < 0.5)
    Q = numpy.where(mask, loc, Q)
    Q = numpy.where((g.random(nq) < 0.05)[:, None] & (g.random((nq, m)) < 0.5), 0.0, Q)
    Q[0] = loc
    Q = Q.astype(numpy.float32)
    model = emlearn.convert(est) if g.random() < 0.5 else emlearn.convert(est, method='inline')
    exe = cc.compile_c(driver('ee', model.save(name='ee')), san=True)
    dt = numpy.dtype([('p', '<f4'), ('c', '<i4'), ('d', '<f4'), ('c2', '<i4'), ('mh', '<f4'), ('mod', '<i4')])
    a = numpy.frombuffer(drive(exe, Q), dt)
    assert len(a) == nq
    rec.ev('predict_calls', nq)
    dist, bound = reference(Q, loc, P)
    rec.require(not a['mod'].any(), 'features-modified', info)
    for f, what in (('p', 'generated-predict'), ('d', 'out_dist'), ('mh', 'mahalanobis')):
        e = numpy.abs(a[f] - dist)
        w = numpy.nonzero(~(e <= bound))[0]
        rec.require(len(w) == 0, f'distance:{what}', lambda: f'{len(w)}/{nq} rows; {a[f][w[0]]} want {dist[w[0]]} +- {bound[w[0]]:.3g} {info}', row=Q[w[0]] if len(w) else None)
    th = -off
    dec = numpy.abs(dist - th) > bound + 2 * U * abs(th)
    want = (dist > th).astype(int)
    rec.ev('decided_rows', dec.sum())
    rec.ev('decided_near_boundary', (dec & near).sum())
    rec.ev('rows_with_features_at_the_mean', ((Q == loc.astype(numpy.float32)).any(1) & (Q != loc.astype(numpy.float32)).any(1)).sum())
    rec.ev('outliers', (dec & (want == 1)).sum())
    rec.ev('inliers', (dec & (want == 0)).sum())
    rec.ev('accurate_rows', (bound < 1e-3 * dist).sum())
    for f in ('c', 'c2'):
        w = numpy.nonzero((dec & (a[f] != want)) | ~numpy.isin(a[f], [0, 1]))[0]
        rec.require(len(w) == 0, 'decision:c' if f == 'c' else 'decision:c-without-distance',
                    lambda: f'{len(w)} rows; {a[f][w[0]]} want {want[w[0]]} distance {dist[w[0]]} boundary {th} {info}', row=Q[w[0]] if len(w) else None)
    own = est.predict(Q.astype(float))
    rec.require((own == numpy.where(want == 1, -1, 1))[dec].all(), 'oracle:disagrees-with-estimator', info)
    if i % core.pick(2, 4) == 0:
        sub = numpy.arange(0, nq, max(1, nq // 40))
        pq = Q[sub].astype(float)
        pm, ps, pp = (numpy.asarray(f(pq)) for f in (model.mahalanobis, model.score_samples, model.predict))
        rec.ev('python_rows', len(sub))
        rec.require((numpy.abs(pm - dist[sub]) <= bound[sub] + 1e-8 * dist[sub]).all(), 'python:mahalanobis', lambda: f'{pm[:5]} {dist[sub][:5]} {info}')
        rec.require((numpy.abs(ps + dist[sub]) <= bound[sub] + 1e-8 * dist[sub]).all(), 'python:score_samples', lambda: f'{ps[:5]} {dist[sub][:5]} {info}')
        rec.require((pp == numpy.where(want[sub] == 1, -1, 1))[dec[sub]].all() and numpy.isin(pp, [-1, 1]).all(), 'python:decision',
                    lambda: f'{pp.tolist()} want {numpy.where(want[sub] == 1, -1, 1).tolist()} {info}')
    rec.ev(f'models_{kind}')
    rec.distinct_rows(Q, str(i))
    rec.sample(dict(model=info, row=Q[1][:6], c_distance=a['p'][1], reference=dist[1], bound=bound[1]))


def exact_case(rec, i):
    """small integers, so that single precision is exact: rows exactly on the boundary are inliers"""
    g = core.rng('C07', 'exact', i)
    est, X, _ = make(core.rng('C07', 'exact-base', i), 0)
    m = len(est.location_)
    A = g.integers(-2, 3, size=(m, m))
    P = A @ A.T + numpy.diag(g.integers(0, 3, size=m))
    est.location_ = g.integers(-20, 21, size=m) / 4.0
    est.precision_ = P.astype(float)
    est.covariance_ = numpy.eye(m)
    Q = est.location_ + g.integers(-5, 6, size=(core.pick(100, 300), m)) * g.choice([.5, 1.0])
    d = Q - est.location_
    dist = numpy.einsum('ni,ij,nj->n', d, P, d)
    est.offset_ = -float(g.choice(dist))
    th = -est.offset_
    model = emlearn.convert(est)
    exe = cc.compile_c(driver('ee', model.save(name='ee')), san=True)
    dt = numpy.dtype([('p', '<f4'), ('c', '<i4'), ('d', '<f4'), ('c2', '<i4'), ('mh', '<f4'), ('mod', '<i4')])
    a = numpy.frombuffer(drive(exe, Q.astype(numpy.float32)), dt)
    want = (dist > th).astype(int)
    assert dist.max() < 2**20 and (est.predict(Q) == numpy.where(want == 1, -1, 1))[dist != th].all()     # scikit-learn rounds a square root on the boundary
    info = f'exact features={m} boundary={th}'
    on = dist == th
    rec.ev('exact_rows', len(Q)); rec.ev('rows_on_the_boundary', int(on.sum()))
    for f in ('p', 'd', 'mh'):
        rec.require((a[f] == dist).all(), f'exact:distance-{f}', lambda: f'{a[f][a[f] != dist][:4]} want {dist[a[f] != dist][:4]} {info}')
    for f in ('c', 'c2'):
        w = numpy.nonzero(a[f] != want)[0]
        rec.require(len(w) == 0, 'exact:decision', lambda: f'{a[f][w[0]]} want {want[w[0]]} distance {dist[w[0]]} {info}', row=Q[w[0]] if len(w) else None)
    if i % 4 == 0:
        k = numpy.concatenate([numpy.nonzero(on)[0][:5], numpy.arange(15)])
        pp = numpy.asarray(model.predict(Q[k]))
        rec.require((pp == numpy.where(want[k] == 1, -1, 1)).all(), 'exact:python-decision', lambda: f'{pp.tolist()} want {want[k].tolist()} {info}')
    rec.distinct_rows(Q, f'exact{i}')


def main():
    c = core.Check('C07')
    c.run(case, range(core.pick(320, 1500)))
    c.run(exact_case, range(core.pick(48, 200)))
    c.finish('one case = one (model, input row): training rows, rows within 0.01%..50% of the decision boundary, rows up to 1e4 deviations away, the location itself, rows with some features exactly at the location or zero',
             dict(predict_calls=10000, decided_rows=8000, decided_near_boundary=4000, rows_with_features_at_the_mean=500, outliers=3000, inliers=3000, accurate_rows=8000, models_fitted=40, rows_on_the_boundary=50, models_synthetic=40, python_rows=1000),
             ['distances are compared within the forward error bound of a float32 evaluation with float32 parameters', 'the decision is not judged within that bound of the boundary, except for models and rows of small integers, where the arithmetic is exact'])


main()
