"""C06: k nearest neighbours. A driver replays histories of add-item / predict / refused calls on exact-size heap buffers and records
result and full model state after every call; the oracle is an exact integer k-NN over the items successfully added so far."""
import math, os
import numpy, emlearn
from vlib import core, cc

DRIVER = cc.READER + r'''
#include <eml_neighbors.h>
int main(int argc, char **argv) {
    v_open(argv);
    int64_t nh; int32_t *h = (int32_t *)v_get(4, &nh);
    int32_t *p = h;
    const int n_models = *p++;
    for (int mi = 0; mi < n_models; mi++) {
        const int m = *p++, cap = *p++, k = *p++, pre = *p++, ops = *p++;
        int16_t *data = (int16_t *)malloc(2 * m * cap ? 2 * m * cap : 1);
        int16_t *labels = (int16_t *)malloc(2 * cap ? 2 * cap : 1);
        for (int i = 0; i < m * cap; i++) { data[i] = 0x1111; }
        for (int i = 0; i < cap; i++) { labels[i] = 0x2222; }
        EmlNeighborsModel model = { (uint16_t)m, (int16_t)pre, (int16_t)cap, data, labels, (int16_t)k };
        for (int i = 0; i < pre * m; i++) { data[i] = (int16_t)*p++; }
        for (int i = 0; i < pre; i++) { labels[i] = (int16_t)*p++; }
        v_i32(m * cap > 32767 ? 0 : (int32_t)eml_neighbors_check(&model, (int16_t)(m * cap), (int16_t)cap, (int16_t)cap));
        for (int o = 0; o < ops; o++) {
            const int type = *p++, len = *p++, arg = *p++;
            int16_t *v = (int16_t *)malloc(2 * len ? 2 * len : 1);
            for (int i = 0; i < len; i++) { v[i] = (int16_t)*p++; }
            int32_t ret; int16_t out = -4242;
            if (type == 0) {
                ret = eml_neighbors_add_item(&model, v, (int16_t)len, (int16_t)arg);
            } else {
                EmlNeighborsDistanceItem *d = (EmlNeighborsDistanceItem *)malloc(sizeof(*d) * arg ? sizeof(*d) * arg : 1);
                for (int i = 0; i < arg; i++) { d[i].index = -1; d[i].distance = 4000000000u; }
                ret = eml_neighbors_predict(&model, v, len, d, arg, &out);
                free(d);
            }
            v_i32(ret); v_i32(out); v_i32(model.n_items);
            v_i32(model.n_features); v_i32(model.max_items); v_i32(model.k_neighbors); v_i32(model.data == data && model.labels == labels);
            v_put(data, 2, (size_t)(m * cap)); v_put(labels, 2, (size_t)cap);
            free(v);
        }
        free(data); free(labels);
    }
    free(h); v_close(); return 0;
}
'''


def isqrt_dists(items, q):
    d2 = ((items.astype(object) - q.astype(object)) ** 2).sum(axis=1) if len(items) < 1 else ((items.astype(numpy.int64) - q.astype(numpy.int64)) ** 2).sum(axis=1)
    r = numpy.floor(numpy.sqrt(d2.astype(float))).astype(numpy.int64)
    r = numpy.where(r * r > d2, r - 1, r)
    r = numpy.where((r + 1) * (r + 1) <= d2, r + 1, r)
    return r, d2


def acceptable(dist, labels, k):
    """labels that some choice among items tied at the k-th distance makes the winner"""
    order = numpy.sort(dist)
    dk = order[k - 1]
    names, labels = numpy.unique(labels[dist <= dk], return_inverse=True)
    near = dist[dist <= dk]
    fixed = numpy.bincount(labels[near < dk], minlength=len(names))
    tied = numpy.bincount(labels[near == dk], minlength=len(names))
    r = k - fixed.sum()
    res = []
    for L in range(len(fixed)):
        t = min(r, tied[L])
        vl = fixed[L] + t
        rest = r - t
        capj = numpy.array([vl - 1 if j < L else vl for j in range(len(fixed))])
        others = [j for j in range(len(fixed)) if j != L]
        if any(fixed[j] > capj[j] for j in others) or vl == 0:
            continue
        if sum(min(tied[j], capj[j] - fixed[j]) for j in others) >= rest:
            res.append(int(names[L]))
    return res


def points(g, n, m, style):
    if style == 'full':
        return g.integers(-32768, 32768, size=(n, m))
    if style == 'extreme':
        return g.choice([-32768, 32767, -32767, 0, 1], size=(n, m))
    if style == 'close':
        c = g.integers(-32000, 32000, size=(1, m))
        return c + g.integers(-3, 4, size=(n, m))
    if style == 'dup':
        base = g.integers(-20000, 20000, size=(max(1, n // 3), m))
        return base[g.integers(0, len(base), size=n)]
    if style == 'line':
        return numpy.repeat(numpy.sort(g.integers(-32768, 32768, size=(n, 1)), axis=0)[:: g.choice([-1, 1])], m, axis=1)
    return g.integers(-200, 200, size=(n, m))


def history(rec, key):
    g = core.rng('C06', key)
    stream, plan = [], []
    large = key % 8 == 7
    n_models = 2 if large else core.pick(25, 60)
    for _ in range(n_models):
        m = int(g.choice([1, 2, 3, 5, 8, 30, 200]))
        cap = int(g.choice([1, 2, 3, 5, 11, 30, 60, 110]))
        if m * cap > 30000:
            cap = 60
        k = int(g.choice([1, 1, 2, 3, 4, 5, 7, 15]))
        style = str(g.choice(['full', 'extreme', 'close', 'dup', 'line', 'small']))
        if large:      # beyond 2^16 stored values, many votes
            m = int(g.choice([1, 7, 40, 90]))
            cap = int(g.integers(700, 1500)) if m > 1 else int(g.integers(7000, 30000))
            k = int(g.choice([129, 150, 257, 300, 600]))
            rec.ev('large_histories')
        nl = int(g.choice([1, 2, 3, 10]))
        many = key % 8 == 3
        if many:
            nl = int(g.choice([12, 130, 256, 300]))
            rec.ev('histories_many_classes')
        pre = cap - int(g.integers(0, 8)) if large else int(g.integers(0, cap + 1)) if g.random() < 0.6 else 0
        P = points(g, cap + 8, m, style)
        lab = g.integers(0, nl, size=cap + 8)
        ops = []
        nops = int(g.integers(6, 26))
        nxt = pre
        for _ in range(nops):
            if g.random() < 0.45:
                ln = m
                if g.random() < 0.15:
                    ln = int(g.choice([0, m - 1, m + 1, 2 * m]))
                src = P[min(nxt, len(P) - 1)]
                v = numpy.resize(src, ln) if ln else src[:0]
                ops.append((0, v, int(lab[min(nxt, len(P) - 1)])))
                if ln == m:
                    nxt += 1
            else:
                ln = m
                if g.random() < 0.1:
                    ln = int(g.choice([0, m - 1, m + 1]))
                how = g.random()
                if how < 0.4:
                    q = P[int(g.integers(0, len(P)))]
                elif how < 0.7:
                    q = P[int(g.integers(0, len(P)))] + g.integers(-5, 6, size=m)
                else:
                    q = points(g, 1, m, style)[0]
                q = numpy.clip(numpy.resize(q, ln) if ln else q[:0], -32768, 32767)
                dl = cap + int(g.choice([0, 0, 0, 3]))
                if g.random() < 0.12:
                    dl = int(g.integers(0, cap))
                ops.append((1, q, dl))
                if g.random() < 0.2:
                    ops.append(ops[-1])
        stream += [m, cap, k, pre, len(ops), *P[:pre].ravel().tolist(), *lab[:pre].tolist()]
        for t, v, a in ops:
            stream += [t, len(v), a, *v.tolist()]
        plan.append((m, cap, k, pre, style, P, lab, ops))
    d = core.scratch('knn')
    cc.put(d + '/in', numpy.array([n_models] + stream, dtype=numpy.int32))
    cc.run(os.environ['V_C06_EXE_MANY' if key % 8 == 3 else 'V_C06_EXE'], [d + '/in', d + '/out'], what='history')
    raw = open(d + '/out', 'rb').read()
    off = 0
    for m, cap, k, pre, style, P, lab, ops in plan:
        info = f'features={m} capacity={cap} k={k} initial={pre} {style}'
        chk = numpy.frombuffer(raw, '<i4', 1, off)[0]
        off += 4
        rec.require(chk == 0, 'check:refuses-valid', info)
        X = numpy.full((cap, m), 0x1111, dtype=numpy.int64)
        Y = numpy.full(cap, 0x2222, dtype=numpy.int64)
        X[:pre], Y[:pre] = P[:pre], lab[:pre]
        n = pre
        last = None
        for step, (t, v, a) in enumerate(ops):
            head = numpy.frombuffer(raw, '<i4', 7, off)
            off += 28
            gd = numpy.frombuffer(raw, '<i2', m * cap, off).reshape(cap, m)
            off += 2 * m * cap
            gl = numpy.frombuffer(raw, '<i2', cap, off)
            off += 2 * cap
            ret, out = int(head[0]), int(head[1])
            what = f'{info} step {step} n_items {n}'
            rec.case((key, m, cap, k, step, n, v.tobytes()), n=1)
            if t == 0:
                good = len(v) == m and n < cap
                rec.require((ret == 0) == good, 'add:return', f'{ret} for length {len(v)} {what}')
                if good:
                    X[n], Y[n] = v, a
                    n += 1
                    rec.ev('items_added')
                else:
                    rec.ev('adds_refused')
            else:
                bad = len(v) != m or a < n or k > n
                if bad:
                    rec.require(ret != 0 and out == -4242, 'predict:refusal', f'returned {ret} out {out}; length {len(v)}, distances {a}; {what}')
                    rec.ev('predicts_refused')
                    last = None
                else:
                    r, d2 = isqrt_dists(X[:n], v)
                    ok = acceptable(r, Y[:n], k)
                    rec.ev('predictions')
                    if len(ok) == 1:
                        rec.ev('predictions_unambiguous')
                    if n > pre:
                        rec.ev('predictions_with_added_items')
                    if d2.max() > 2**31:
                        rec.ev('predictions_with_large_distances')
                    rec.require(ret == 0 and out in ok, 'predict:label', lambda: f'returned {ret} label {out}, k-NN {ok}; distances {numpy.sort(r)[:k + 3].tolist()}; {what}',
                                items=X[:n], labels=Y[:n], query=v, k=k)
                    if last is not None and numpy.array_equal(last[0], v) and last[1] == n:
                        rec.require(last[2] == out, 'predict:not-repeatable', f'{last[2]} then {out} {what}')
                        rec.ev('repeated_predictions')
                    last = (v, n, out)
            rec.require(int(head[2]) == n and int(head[3]) == m and int(head[4]) == cap and int(head[5]) == k and head[6] == 1,
                        'state:fields', f'{head[2:].tolist()} expected n_items {n} {what}')
            rec.require(numpy.array_equal(gd, X) and numpy.array_equal(gl, Y), 'state:items', f'stored items differ after {"add" if t == 0 else "predict"} {what}')
    assert off == len(raw)
    rec.sample(dict(history=info, operations=len(ops), items=n))


def convert_case(rec, i):
    from sklearn.neighbors import KNeighborsClassifier
    g = core.rng('C06c', i)
    k = int(g.choice([1, 1, 2, 3, 4, 5, 9]))
    n = int(g.choice([k, k + 1, 12, 40, 150]))
    n = max(n, k)
    m = int(g.choice([1, 2, 4, 10, 40, 150]))
    if i % 20 == 7:
        k, n, m = int(g.choice([1, 5, 150, 300])), int(g.integers(9000, 20000)), int(g.choice([1, 4, 8]))
        rec.ev('converted_large')
    nl = int(g.choice([1, 2, 3, 10]))
    style = str(g.choice(['full', 'extreme', 'close', 'dup', 'small']))
    X = numpy.clip(points(g, n, m, style), -32768, 32767)
    y = g.integers(0, nl, size=n)
    if n >= nl:
        y[:nl] = numpy.arange(nl)
    classes = numpy.unique(y)
    names = g.random() < 0.3
    yy = numpy.array([f'k{v}' for v in y]) if names else y * 3 - 5 if g.random() < 0.4 else y
    est = KNeighborsClassifier(n_neighbors=k, algorithm=str(g.choice(['brute', 'auto']))).fit(X.astype(float), yy)
    model = emlearn.convert(est)
    enc = numpy.searchsorted(classes, y)
    Q = numpy.vstack([X[g.integers(0, n, 10)], X[g.integers(0, n, 10)] + g.integers(-4, 5, size=(10, m)), points(g, 20, m, style)])
    Q = numpy.clip(Q, -32768, 32767)
    got = numpy.asarray(model.predict(Q.astype(float)))
    want_est = numpy.searchsorted(est.classes_, est.predict(Q.astype(float)))
    info = f'KNeighborsClassifier k={k} items={n} features={m} classes={len(classes)} {style}'
    rec.require(got.shape == (len(Q),), 'convert:shape', f'{got.shape} {info}')
    for j, q in enumerate(Q):
        r, d2 = isqrt_dists(X, q)
        s = numpy.sort(r)
        rec.case(('conv', i, j))
        ok = acceptable(r, enc, k)
        rec.ev('converted_predictions')
        rec.require(int(got[j]) in ok, 'convert:label', f'{got[j]} k-NN {ok} {info}', query=q)
        if n == k or s[k] > s[k - 1]:
            rec.ev('converted_unambiguous')
            rec.require(int(got[j]) == int(want_est[j]), 'convert:estimator', f'{got[j]} estimator {want_est[j]} {info}', query=q)
    # the saved model answers the same, with its name
    code = model.save(name='knn_saved')
    drv = cc.READER + code + f'''
int main(int argc, char **argv) {{
    v_open(argv); int64_t total; int16_t *X = (int16_t *)v_get(2, &total);
    for (int i = 0; i < {len(Q)}; i++) {{
        EmlNeighborsDistanceItem *d = (EmlNeighborsDistanceItem *)malloc(sizeof(*d) * {n});
        int16_t out = -1; v_i32(eml_neighbors_predict(&knn_saved, X + i * {m}, {m}, d, {n}, &out)); v_i32(out); free(d);
    }}
    free(X); v_close(); return 0; }}
'''
    exe = cc.compile_c(drv, san=True)
    d = core.scratch('io')
    cc.put(d + '/in', Q.astype(numpy.int16))
    cc.run(exe, [d + '/in', d + '/out'], what='saved')
    a = numpy.frombuffer(open(d + '/out', 'rb').read(), '<i4').reshape(-1, 2)
    rec.require((a[:, 0] == 0).all() and numpy.array_equal(a[:, 1], got), 'saved:label', f'{a.tolist()[:5]} {got[:5]} {info}')
    rec.ev('saved_predictions', len(Q))


def main():
    c = core.Check('C06')
    try:
        os.environ['V_C06_EXE'] = cc.compile_c(DRIVER, san=True)
        os.environ['V_C06_EXE_MANY'] = cc.compile_c('#define EML_NEIGHBORS_MAX_CLASSES 300\n' + DRIVER, san=True)
        c.run(history, range(core.pick(140, 700)))
    except cc.CompileError as e:
        c.local(lambda rec, k: rec.fail(e.mechanism, e.detail), 'compile')
    c.run(convert_case, range(core.pick(120, 500)))
    c.finish('one case = one add/predict call in a history, judged with the state it left; histories mix items over the whole int16 range, duplicates and '
             'near ties, refused adds (wrong length, full) and refused predictions',
             dict(items_added=2000, adds_refused=500, predictions=3000, histories_many_classes=50, predictions_unambiguous=2000, predictions_with_added_items=1000,
                  predictions_with_large_distances=300, predicts_refused=300, repeated_predictions=200, converted_predictions=1500, converted_unambiguous=500, saved_predictions=1500),
             ['items tied at the k-th integer distance may be chosen freely; labels are 0..9 (EML_NEIGHBORS_MAX_CLASSES)', 'feature values of converted models are integers'])


main()
