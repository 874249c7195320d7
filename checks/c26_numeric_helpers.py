"""C26: sorting and numeric helpers. A driver calls each helper on generated inputs (exact-size heap blocks, ASan/UBSan and plain builds); exact integer or
float64 oracles with derived bounds judge every recorded result."""
import os
from fractions import Fraction
import math
import numpy
from vlib import core, cc

ONE = 1 << 16
DRIVER = cc.READER + r'''
#include <eml_neighbors.h>
#include <eml_bayes.h>
#include <eml_mixture.h>
#include <eml_vector.h>
#include <eml_net.h>
#include <eml_net_fixedpoint.h>
#include <eml_benchmark.h>
#include <eml_distance.h>
#define SORTER(T, NAME) static void NAME(T *A, size_t n) { T tmp; (void)tmp; QSORT(n, V_LESS, V_SWAP); }
#define V_LESS(i, j) A[i] < A[j]
#define V_SWAP(i, j) tmp = A[i], A[i] = A[j], A[j] = tmp
SORTER(float, sort_f32)
SORTER(int16_t, sort_i16)
SORTER(int64_t, sort_i64)
static void *copy(const void *p, size_t n) { void *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    int64_t n, m;
    int32_t *ops = (int32_t *)v_get(4, &m);
    for (int64_t o = 0; o < m; o++) {
        switch (ops[o]) {
        case 0: { uint32_t *d = (uint32_t *)v_get(4, &n);
            EmlNeighborsDistanceItem *a = (EmlNeighborsDistanceItem *)malloc(n ? n * sizeof(*a) : 1);
            for (int64_t i = 0; i < n; i++) { a[i].index = (int16_t)i; a[i].distance = d[i]; }
            v_i32(eml_neighbors_sort_distances(a, (size_t)n));
            for (int64_t i = 0; i < n; i++) { v_i32(a[i].index); v_i32((int32_t)a[i].distance); }
            free(a); free(d); break; }
        case 1: { float *d = (float *)v_get(4, &n); sort_f32(d, (size_t)n); v_put(d, 4, n); free(d); break; }
        case 2: { int16_t *d = (int16_t *)v_get(2, &n); sort_i16(d, (size_t)n); v_put(d, 2, n); free(d); break; }
        case 3: { int64_t *d = (int64_t *)v_get(8, &n); sort_i64(d, (size_t)n); v_put(d, 8, n); free(d); break; }
        case 4: { int64_t *d = (int64_t *)v_get(8, &n); for (int64_t i = 0; i < n; i++) { v_i32(eml_isqrt(d[i])); } free(d); break; }
        case 5: { int16_t *a = (int16_t *)v_get(2, &n); int16_t *b = (int16_t *)v_get(2, &n); v_i32((int32_t)eml_distance_euclidean_int16(a, b, (int)n)); free(a); free(b); break; }
        case 6: { int32_t *a = (int32_t *)v_get(4, &n); int32_t *b = (int32_t *)v_get(4, &n); for (int64_t i = 0; i < n; i++) { v_i32(eml_q16_mul(a[i], b[i])); } free(a); free(b); break; }
        case 7: { int32_t *a = (int32_t *)v_get(4, &n); int32_t *b = (int32_t *)v_get(4, &n); for (int64_t i = 0; i < n; i++) { v_i32(eml_q16_div(a[i], b[i])); } free(a); free(b); break; }
        case 8: { float *a = (float *)v_get(4, &n); for (int64_t i = 0; i < n; i++) { v_i32(EML_Q16_FROMFLOAT(a[i])); } free(a); break; }
        case 9: { int32_t *a = (int32_t *)v_get(4, &n); for (int64_t i = 0; i < n; i++) { v_f32(EML_Q16_TOFLOAT(a[i])); v_i32(EML_Q16_TOINT(a[i])); v_i32(EML_Q16_FROMINT(a[i] >> 16)); } free(a); break; }
        case 10: { uint32_t *a = (uint32_t *)v_get(4, &n); int32_t *p = (int32_t *)v_get(4, &n); for (int64_t i = 0; i < n; i++) { v_i32(eml_bayes_log2fix(a[i], (size_t)p[i])); } free(a); free(p); break; }
        case 11: { float *a = (float *)v_get(4, &n); float r = -7.0f; v_i32(eml_logsumexp(a, (int)n, &r)); v_f32(r); free(a); break; }
        case 12: { float *a = (float *)v_get(4, &n); float lo = -7, hi = -7, lo2 = -7, hi2 = -7; v_i32(eml_minmax(a, (int)n, &lo, &hi)); v_i32(eml_minmax(a, (int)n, &lo2, NULL)); v_i32(eml_minmax(a, (int)n, NULL, &hi2));
            v_f32(lo); v_f32(hi); v_f32(lo2); v_f32(hi2); free(a); break; }
        case 13: { float *a = (float *)v_get(4, &n); v_f32(eml_signal_mean(a, (int)n)); free(a); break; }
        case 14: { float *a = (float *)v_get(4, &n); v_i32(eml_signal_hann_apply(a, (int)n)); v_put(a, 4, n); free(a); break; }
        case 15: { float *a = (float *)v_get(4, &n); float *b = (float *)v_get(4, &n); v_f32(eml_dot_product(a, b, (int)n)); free(a); free(b); break; }
        case 16: { int32_t *a = (int32_t *)v_get(4, &n); for (int64_t i = 0; i < n; i++) { const int64_t r = eml_bayes_logpdf_std(a[i]); v_put(&r, 8, 1); } free(a); break; }
        case 17: { int32_t *a = (int32_t *)v_get(4, &n); for (int64_t i = 0; i + 3 < n; i += 4) { const int64_t r = eml_bayes_logpdf(a[i], a[i + 1], a[i + 2], a[i + 3]); v_put(&r, 8, 1); } free(a); break; }
        case 18: { float *a = (float *)v_get(4, &n); v_i32(eml_net_argmax(a, (int32_t)n)); free(a); break; }
        case 19: { int32_t *a = (int32_t *)v_get(4, &n); v_i32(eml_argmax_fixed32(a, (int)n)); free(a); break; }
        case 20: { uint32_t *a = (uint32_t *)v_get(4, &n); for (int64_t i = 0; i < n; i++) { uint32_t s = a[i]; const uint32_t r = eml_lcg_parkmiller(&s); v_i32((int32_t)r); v_i32((int32_t)s); } free(a); break; }
        case 21: { float *a = (float *)v_get(4, &n); for (int64_t i = 0; i + 1 < n; i += 2) { v_f32(eml_max(a[i], a[i + 1])); v_f32(eml_min(a[i], a[i + 1])); } free(a); break; }
        case 22: { float *a = (float *)v_get(4, &n); float *b = (float *)v_get(4, &n); int64_t k; float *p = (float *)v_get(4, &k); v_f32(eml_mahalanobis_distance_squared(a, b, p, (int)n)); free(a); free(b); free(p); break; }
        case 23: { int32_t *a = (int32_t *)v_get(4, &n); float *f = (float *)malloc(4 * (a[0] > 0 ? a[0] : 1)); v_i32(eml_benchmark_fill(f, a[0])); v_put(f, 4, a[0]); free(f); free(a); break; }
        case 24: { float *a = (float *)v_get(4, &n); float *b = (float *)v_get(4, &n); for (int64_t i = 0; i < n; i++) { float t = a[i]; v_f32(eml_net_relu(t)); v_f32(eml_net_expit(t)); v_f32(eml_net_tanh(t)); } v_i32(eml_net_softmax(b, (int)n)); v_put(b, 4, n); free(a); free(b); break; }
        default: exit(95);
        }
    }
    free(ops); v_close(); (void)copy;
    return 0;
}
'''
BUILDS = {'san': (['-std=c99', '-O1', '-w'], True, 'gcc'), 'O2': (['-std=c99', '-O2', '-w'], False, 'gcc'), 'clangO3': (['-std=c99', '-O3', '-w'], False, 'clang')}
EXE = {}
OPTIONAL = [16, 17, 20, 24]     # helpers internal to the headers (static); not judged when they do not exist under this name
MISSING = set()
E32 = 2.0 ** -23
F32MAX = 3.4028235e38


class Out:
    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, dt, n=1):
        size = numpy.dtype(dt).itemsize * n
        core.Violation
        if self.p + size > len(self.d):
            raise core.Violation('driver:short-output', f'{len(self.d)} bytes, wanted {self.p + size}')
        a = numpy.frombuffer(self.d, dt, n, self.p)
        self.p += size
        return a


def call(build, ops):
    """ops: list of (opcode, arrays...)"""
    d = core.scratch('ops')
    cc.put(os.path.join(d, 'i'), numpy.array([o[0] for o in ops], 'i4'), *[a for o in ops for a in o[1:]])
    cc.run(EXE[build], [os.path.join(d, 'i'), os.path.join(d, 'o')], what='helpers', timeout=60)
    with open(os.path.join(d, 'o'), 'rb') as f:
        return Out(f.read())


# ---------------------------------------------------------------- sorting

def killer(n):
    """arrangement that drives a median-of-three quicksort towards quadratic time"""
    a = list(range(n))
    for i in range(2, n):
        a[i], a[i // 2] = a[i // 2], a[i]
    return numpy.array(a)


def patterns(g, n):
    k = int(g.integers(0, 12))
    if k == 0:
        return numpy.arange(n)
    if k == 1:
        return numpy.arange(n)[::-1]
    if k == 2:
        return numpy.zeros(n, int) + int(g.integers(0, 5))
    if k == 3:
        return g.integers(0, 2, n)
    if k == 4:
        return g.integers(0, max(n // 3, 1) + 1, n)
    if k == 5:
        return g.permutation(n)
    if k == 6:
        h = n // 2
        return numpy.concatenate([numpy.arange(h), numpy.arange(n - h)[::-1]])
    if k == 7:
        return numpy.arange(n) % (int(g.integers(1, 20)))
    if k == 8:
        a = numpy.arange(n)
        for _ in range(min(n, 3)):
            i, j = g.integers(0, n, 2)
            a[i], a[j] = a[j], a[i]
        return a
    if k == 9:
        return killer(n)
    if k == 10:
        a = numpy.arange(n)
        return numpy.concatenate([a[1:], a[:1]])
    return (-1) ** numpy.arange(n) * numpy.arange(n)


def sorting(rec, key):
    build, i = key
    g = core.rng('C26', 'sort', *key)
    lens = list(range(0, 40)) if i == 0 else [int(v) for v in numpy.concatenate([g.integers(0, 70, 25), g.integers(70, 2000, 6), [int(g.choice([127, 128, 129, 255, 256, 257, 32767 if build != 'san' else 4000]))]])]
    big = i % 8 == 1                                # long sorts: depth of the stack of pending parts
    if big:
        lens = [32767, int(g.integers(2**14, 2**15)), int(g.choice([2**16, 150000, 400000]))]
    ops, want = [], []
    for n in lens:
        for op, dt in ((0, 'u4'), (1, 'f4'), (2, 'i2'), (3, 'i8')):
            if op == 0 and n > 32767:
                continue
            if big:
                rec.ev('long_sorts')
            p = (patterns(g, n) if not big else g.integers(0, n // 2, n) if g.random() < 0.3 else g.permutation(n)).astype('i8')
            if dt == 'u4':
                q = (p - (p.min() if n else 0)) * int(g.choice([1, 1, 1000, 130000]))
                if g.random() < 0.2 and n:
                    q[int(g.integers(0, n))] = 2**32 - 1
                    q = numpy.where(q % 3 == 0, q, 2**31 + q % 1000)
                q = q % 2**32
            elif dt == 'i2':
                q = numpy.clip(p * int(g.choice([1, 7])), -32768, 32767)
            elif dt == 'f4':
                q = p * float(g.choice([1.0, -0.5, 1e-40, 1e33]))
            else:
                q = p * int(g.choice([1, -1, 2**40]))
            q = q.astype(dt)
            ops.append((op, q))
            want.append((op, q))
    o = call(build, ops)
    for op, q in want:
        n = len(q)
        rec.case((op, n, q.tobytes()), nontrivial=n > 1)
        rec.ev('sorts')
        if op == 0:
            rc = int(o.take('i4')[0])
            r = o.take('i4', 2 * n).reshape(n, 2)
            idx, dist = r[:, 0], r[:, 1].view('u4') if n else r[:, 1]
            dist = numpy.ascontiguousarray(r[:, 1]).view('u4')
            rec.require(rc == 0, 'sort:return', f'{rc} for length {n}')
            rec.require((numpy.sort(idx) == numpy.arange(n)).all(), 'sort:not-a-permutation', lambda: f'length {n}: indices {idx[:40].tolist()}', distances=q)
            if n and (numpy.sort(idx) == numpy.arange(n)).all():
                rec.require((q[idx] == dist).all(), 'sort:items-mixed', f'length {n}', distances=q)
            rec.require((dist[1:] >= dist[:-1]).all(), 'sort:not-ascending', lambda: f'length {n}: {dist[:40].tolist()}', distances=q)
        else:
            r = o.take({1: 'f4', 2: 'i2', 3: 'i8'}[op], n)
            rec.require((r == numpy.sort(q)).all(), f'qsort-macro:{r.dtype}', lambda: f'length {n}: {r[:40].tolist()} for {q[:40].tolist()}', values=q)
    rec.sample(dict(lengths=lens[:8], kinds=['distances', 'float', 'int16', 'int64']))


# ---------------------------------------------------------------- integers and fixed point

def edgy(g, lo, hi, n):
    """integers spread over magnitudes, with the interesting neighbours"""
    span = max(abs(lo), abs(hi))
    v = (2.0 ** g.uniform(0, math.log2(span + 1), n)).astype('f8')
    v = numpy.array([int(x) for x in v], dtype=object) * numpy.array([int(s) for s in g.choice([-1, 1], n)], dtype=object)
    p = numpy.array([(1 << int(k)) + int(d) for k, d in zip(g.integers(0, max(1, int(math.log2(span + 1))) + 1, n), g.integers(-2, 3, n))], dtype=object)
    r = numpy.where(g.random(n) < 0.4, p * numpy.array([int(s) for s in g.choice([-1, 1], n)], dtype=object), v)
    r = numpy.where(g.random(n) < 0.05, g.choice([0, 1, -1], n), r)
    return numpy.array([min(max(int(x), lo), hi) for x in r], dtype=object)


def integers(rec, key):
    build, i = key
    g = core.rng('C26', 'int', *key)
    N = core.pick(4000, 8000)
    # isqrt: squares and their neighbours, all magnitudes
    roots = edgy(g, 0, 2**31 - 2, N)
    xs = [int(r) * int(r) + int(d) for r, d in zip(roots, g.choice([-1, 0, 1, 2], N))] + [int(x) for x in edgy(g, 0, 2**62 - 1, N)]
    xs = [abs(x) for x in xs if abs(x) < 2**62]
    # distances
    dist = []
    for _ in range(N // 8):
        n = int(g.choice([0, 1, 1, 2, 3, 7, 40, 300, 2000 if build != 'san' else 500]))
        mode = int(g.integers(0, 4))
        if mode == 0:
            a, b = g.integers(-32768, 32768, (2, n))
        elif mode == 1:
            a = numpy.full(n, 32767); b = numpy.full(n, -32768)
        elif mode == 2:
            a = g.integers(-100, 100, n); b = a + g.integers(-2, 3, n)
        else:
            a = g.integers(-3, 4, n) * 8000; b = g.choice([-32768, 32767, 0], n)
        if g.random() < 0.5:
            a, b = b, a
        if (numpy.abs(a - b).astype('i8') ** 2).sum() >= 2**62:
            continue
        dist.append((numpy.clip(a, -32768, 32767).astype('i2'), numpy.clip(b, -32768, 32767).astype('i2')))
    # multiply: products inside the format
    ma, mb = [], []
    while len(ma) < N:
        a, b = edgy(g, -2**31, 2**31 - 1, 64), edgy(g, -2**31, 2**31 - 1, 64)
        for x, y in zip(a, b):
            if -2**31 <= (int(x) * int(y)) >> 16 < 2**31:
                ma.append(int(x)); mb.append(int(y))
            if g.random() < 0.3:
                y2 = int(g.integers(-2**17, 2**17))
                if -2**31 <= (int(x) * y2) >> 16 < 2**31:
                    ma.append(int(x)); mb.append(y2)
    # divide: quotient inside the format, with one unit of room for rounding
    da, db = [], []
    while len(da) < N:
        a, b = edgy(g, -2**31, 2**31 - 1, 64), edgy(g, -2**31, 2**31 - 1, 64)
        for x, y in zip(a, b):
            if y != 0 and abs(Fraction(int(x) * ONE, int(y))) < 2**31 - 2:
                da.append(int(x)); db.append(int(y))
    ff = (g.choice([-1, 1], N) * 2.0 ** g.uniform(-20, 14.99, N)).astype('f4')
    ff = numpy.concatenate([ff, (g.integers(-2**31 + 1, 2**31 - 1, N) / ONE).astype('f4')])
    ff = ff[numpy.abs(ff.astype('f8')) < 32767]
    ti = numpy.array([int(x) for x in edgy(g, -2**31, 2**31 - 1, N)], 'i4')
    lx = numpy.array([max(int(abs(x)), 1) % 2**32 or 1 for x in edgy(g, 1, 2**32 - 1, N)], 'u4')
    lp = g.choice([1, 2, 4, 8, 12, 16, 16, 16, 20, 24, 26], N).astype('i4')
    am = [g.integers(-5, 6, int(n)).astype('i4') * int(g.choice([1, 2**28])) for n in g.choice([0, 1, 1, 2, 3, 5, 20, 300], N // 10)]
    seeds = numpy.array([min(max(int(abs(x)), 1), 2**31 - 2) for x in edgy(g, 1, 2**31 - 2, N)], 'u4')
    fills = [int(v) for v in g.choice([0, 1, 2, 10, 500], 5)]
    ops = [(4, numpy.array(xs, 'i8'))] + [(5, a, b) for a, b in dist]
    ops += [(6, numpy.array(ma, 'i4'), numpy.array(mb, 'i4')), (7, numpy.array(da, 'i4'), numpy.array(db, 'i4')), (8, ff), (9, ti), (10, lx, lp)]
    ops += [(19, a) for a in am] + [(20, seeds)] * (20 not in MISSING) + [(23, numpy.array([f], 'i4')) for f in fills]
    o = call(build, ops)
    r = o.take('i4', len(xs))
    bad = [(x, int(v)) for x, v in zip(xs, r) if math.isqrt(x) != v]
    rec.require(not bad, 'isqrt', lambda: f'{len(bad)} of {len(xs)}: {bad[:5]} want {[math.isqrt(x) for x, _ in bad[:5]]}')
    rec.ev('isqrt', len(xs))
    for x in set(xs):
        rec.case(('isqrt', x), nontrivial=x > 1)
    for a, b in dist:
        s = int(((a.astype('i8') - b.astype('i8')) ** 2).sum())
        v = int(o.take('u4')[0])
        rec.ev('distances'); rec.case(('dist', a.tobytes(), b.tobytes()))
        if not rec.require(v == math.isqrt(s), 'distance', f'length {len(a)}: {v}, exact squared sum {s} root {math.isqrt(s)}', a=a, b=b):
            break
    r = o.take('i4', len(ma))
    bad = [(a, b, int(v), a * b / ONE) for a, b, v in zip(ma, mb, r) if abs(Fraction(a * b, ONE) - int(v)) >= 1]
    rec.require(not bad, 'q16-mul', lambda: f'{len(bad)}: (a, b, got, exact) {bad[:4]}')
    rec.ev('q16_mul', len(ma)); rec.case(n=len(ma))
    r = o.take('i4', len(da))
    bad = [(a, b, int(v), a * ONE / b) for a, b, v in zip(da, db, r) if abs(Fraction(a * ONE, b) - int(v)) > 1]
    rec.require(not bad, 'q16-div', lambda: f'{len(bad)}: (a, b, got, exact) {bad[:4]}')
    rec.ev('q16_div', len(da)); rec.case(n=len(da))
    r = o.take('i4', len(ff))
    bad = numpy.abs(ff.astype('f8') * ONE - r) > 1 - 1e-9
    rec.require(not bad.any(), 'q16-fromfloat', lambda: f'{ff[bad][:4]} -> {r[bad][:4]}')
    rec.ev('q16_convert', len(ff)); rec.case(n=len(ff))
    r = o.take('i4', 3 * len(ti)).reshape(-1, 3)
    f = numpy.ascontiguousarray(r[:, 0]).view('f4').astype('f8')
    bad = numpy.abs(f - ti / ONE) > numpy.abs(ti / ONE) * E32
    rec.require(not bad.any(), 'q16-tofloat', lambda: f'{ti[bad][:4]} -> {f[bad][:4]}')
    bad = r[:, 1] != ti.astype('i8') // ONE
    rec.require(not bad.any(), 'q16-toint', lambda: f'{ti[bad][:4]} -> {r[bad, 1][:4]}')
    bad = r[:, 2] != (ti.astype('i8') // ONE) * ONE
    rec.require(not bad.any(), 'q16-fromint', lambda: f'{ti[bad][:4]} -> {r[bad, 2][:4]}')
    rec.ev('q16_convert', len(ti)); rec.case(n=len(ti))
    r = o.take('i4', len(lx))
    # x is taken as fixed point with p fraction bits: log2(x / 2^p); each squaring and each halving of x drops at most one unit
    want = (numpy.log2(lx.astype('f8')) - lp) * 2.0 ** lp
    bad = numpy.abs(r - want) > 6
    rec.require(not bad.any(), 'log2fix', lambda: f'(x, precision, got, exact) {list(zip(lx[bad][:4].tolist(), lp[bad][:4].tolist(), r[bad][:4].tolist(), want[bad][:4].tolist()))}')
    rec.ev('log2fix', len(lx)); rec.case(n=len(lx))
    for a in am:
        v = int(o.take('i4')[0])
        want = int(a.argmax()) if len(a) else -1
        rec.ev('argmax_fixed'); rec.case(('amf', a.tobytes()))
        if not rec.require(v == want or (len(a) == 0 and v < 0), 'argmax-fixed', f'{v} want {want}', values=a):
            break
    if 20 not in MISSING:
        r = o.take('u4', 2 * len(seeds)).reshape(-1, 2)
        want = numpy.array([int(s) * 48271 % (2**31 - 1) for s in seeds], 'u4')
        rec.require((r == want[:, None]).all(), 'park-miller', lambda: f'{seeds[(r != want[:, None]).any(1)][:4]}')
        rec.ev('lcg', len(seeds)); rec.case(n=len(seeds))
    for n in fills:
        rc = int(o.take('i4')[0])
        r = o.take('f4', n)
        s, w = 1, []
        for _ in range(n):
            s = s * 48271 % (2**31 - 1)
            w.append(s)
        rec.require(rc == 0 and (r == numpy.array(w, 'f4')).all(), 'benchmark-fill', f'{rc} {r[:4]}')
    rec.sample(dict(isqrt=xs[:3], mul=[ma[0], mb[0]], div=[da[0], db[0]]))


# ---------------------------------------------------------------- floating point

def floats(rec, key):
    build, i = key
    g = core.rng('C26', 'float', *key)
    N = core.pick(300, 600)
    ops, chk = [], []

    def arr(n, big=True):
        s = 10.0 ** g.uniform(-6, 6 if big else 2)
        a = g.normal(size=n) * s
        k = int(g.integers(0, 6))
        if k == 0:
            a[:] = a[:1]
        elif k == 1:
            a = numpy.round(a / s) * s
        elif k == 2 and n:
            a = a - numpy.abs(a).max() * 50
        elif k == 3 and n:
            a[int(g.integers(0, n))] = float(g.choice([1e30, -1e30, 0.0, 3e38]))
        elif k == 4:
            a = a + 1e4
        return a.astype('f4')

    def emit(kind, name, *a):
        if kind not in MISSING:
            ops.append((kind, *a)); chk.append((name, *a))

    def lens():
        return int(g.choice([1, 1, 2, 3, 4, 5, 8, 17, 100, 1000]))

    for _ in range(N):
        a = arr(lens()); ops.append((11, a)); chk.append(('logsumexp', a))
        a = arr(lens()); ops.append((12, a)); chk.append(('minmax', a))
        a = arr(lens()); ops.append((13, a)); chk.append(('mean', a))
        n = int(g.choice([0, 1, 2, 3, 4, 5, 16, 33, 64, 255, 1024]))
        a = arr(n); ops.append((14, a)); chk.append(('hann', a))
        n = int(g.choice([0, 1, 2, 7, 100]))
        a, b = arr(n, False), arr(n, False); ops.append((15, a, b)); chk.append(('dot', a, b))
        z = numpy.clip(numpy.round(g.normal(size=60) * ONE * 10.0 ** g.choice([-3, 0, 1, 2])), -2**31 + 1, 2**31 - 1).astype('i4')
        emit(16, 'logpdf_std', z)
        x = numpy.round(g.normal(size=40) * ONE * 10.0 ** g.choice([-2, 0, 2, 3]))
        mu = numpy.round(g.normal(size=40) * ONE * 10.0 ** g.choice([-2, 0, 2, 3]))
        sd = numpy.maximum(numpy.round(ONE * 10.0 ** g.uniform(-3, 3, size=40)), 32)
        q = numpy.clip(numpy.stack([x, mu, sd, numpy.trunc(numpy.log2(sd / ONE) * ONE)], 1), -2**31 + 1, 2**31 - 1).astype('i4').ravel()
        emit(17, 'logpdf', q)
        n = int(g.choice([1, 1, 2, 3, 10, 300]))
        a = g.choice([-1.5, 0.0, 2.0, 2.0, -3e38, 3e38, 1e-30], n).astype('f4')
        if g.random() < 0.3:
            a = -numpy.abs(a) - numpy.float32(0.5)
        ops.append((18, a)); chk.append(('argmax', a))
        a = arr(2 * lens()); ops.append((21, a)); chk.append(('maxmin', a))
        n = int(g.choice([1, 2, 3, 8, 20]))
        a, b = arr(n, False), arr(n, False)
        m = g.normal(size=(n, n)); P = ((m @ m.T) * 10.0 ** g.uniform(-3, 3)).astype('f4')
        if g.random() < 0.3:
            P = numpy.diag(numpy.diag(P)).astype('f4')
        P = ((P + P.T) / 2).astype('f4')
        ops.append((22, a, b, P)); chk.append(('mahalanobis', a, b, P))
        n = int(g.choice([1, 2, 3, 10, 100]))
        a = (g.normal(size=n) * 10.0 ** g.uniform(-3, 2)).astype('f4')
        b = (g.normal(size=n) * 10.0 ** g.uniform(-3, 3) + g.choice([0, 0, 500, -500])).astype('f4')
        emit(24, 'activations', a, b)
    if i % 4 == 0:      # lengths behind 2^15 and 2^16
        for kind, name in ((11, 'logsumexp'), (12, 'minmax'), (13, 'mean'), (14, 'hann'), (18, 'argmax'), (21, 'maxmin')):
            n = int(g.choice([32768, 33000, 65536, 65537, 70001, 131072]))
            a = arr(n + n % 2 if kind == 21 else n)
            if g.random() < 0.5:
                a[-1 - int(g.integers(0, 1000))] = numpy.abs(a).max() * 2 + 1
            ops.append((kind, a)); chk.append((name, a))
    o = call(build, ops)

    def close(name, got, want, bound, **kw):
        got, want, bound = map(lambda v: numpy.atleast_1d(numpy.asarray(v, 'f8')), (got, want, bound))
        rec.ev(name, got.size); rec.case((name, kw['a'].tobytes()))
        lim = numpy.abs(want) > F32MAX * (1 - 1e-5)
        ok = (numpy.abs(got - want) <= bound) | lim
        return rec.require(ok.all(), name, lambda: f'got {got[~ok][:3]} want {want[~ok][:3]} bound {numpy.broadcast_to(bound, got.shape)[~ok][:3]} length {len(kw["a"])}', **kw)

    for c in chk:
        name, a = c[0], c[1]
        n, A = len(a), a.astype('f8')
        if n > 32767:
            rec.ev('long_arrays')
        if name == 'logsumexp':
            rc, v = int(o.take('i4')[0]), o.take('f4')[0]
            m = A.max()
            w = m + math.log(numpy.exp(A - m).sum())
            rec.require(rc == 0, 'logsumexp:return', f'{rc}', a=a)
            # arguments a-max are rounded once each, the sum has n terms
            near = numpy.exp(A - m) @ numpy.abs(A - m) / numpy.exp(A - m).sum()
            close(name, v, w, E32 * (4 + n + near + 2 * abs(m) + abs(w)), a=a)
        elif name == 'minmax':
            rc = o.take('i4', 3); v = o.take('f4', 4)
            rec.require((rc == 0).all() and v[0] == a.min() == v[2] and v[1] == a.max() == v[3], name, f'{rc} {v} want {a.min()} {a.max()}', a=a)
            rec.ev(name); rec.case((name, a.tobytes()))
        elif name == 'mean':
            v = o.take('f4')[0]
            if numpy.abs(A).sum() < F32MAX:
                close(name, v, A.mean(), E32 * (n + 3) * numpy.abs(A).mean() + 1e-44, a=a)
        elif name == 'hann':
            rc = int(o.take('i4')[0]); v = o.take('f4', n)
            t = numpy.arange(n)
            w = numpy.ones(n) if n < 2 else 0.5 * (1 - numpy.cos(2 * numpy.pi * t / (n - 1)))
            rec.require(rc == 0, 'hann:return', f'{rc}')
            if n:
                close(name, v, A * w, 4 * E32 * (numpy.abs(A * w)) + numpy.abs(A) * 4 * E32 + 1e-44, a=a)
        elif name == 'dot':
            B = c[2].astype('f8')
            close(name, o.take('f4')[0], A @ B, E32 * (n + 2) * (numpy.abs(A) @ numpy.abs(B)) + 1e-44 * n, a=a, b=c[2]) if numpy.abs(A) @ numpy.abs(B) < F32MAX else o.take('f4')
        elif name == 'logpdf_std':
            r = o.take('i8', n) / ONE
            z = A / ONE
            w = -0.5 * z * z / math.log(2) - math.log2(math.sqrt(2 * math.pi))
            close(name, r, w, (2.0 * numpy.abs(z) + 1.2 * z * z + 6) / ONE, a=a)
        elif name == 'logpdf':
            q = A.reshape(-1, 4) / ONE
            r = o.take('i8', len(q)) / ONE
            z = numpy.abs(q[:, 0] - q[:, 1]) / q[:, 2]
            inr = z < 32760
            w = -0.5 * z * z / math.log(2) - math.log2(math.sqrt(2 * math.pi)) - numpy.log2(q[:, 2])
            b = (4.0 * z + 1.2 * z * z + 10) / ONE
            close(name, r[inr], w[inr], b[inr], a=a)
            # beyond the format: still no more likely than 32760 deviations
            rec.require((r[~inr] < -0.7 * 32760.0 ** 2).all(), 'logpdf:far', lambda: f'{r[~inr][:4]}', a=a)
        elif name == 'argmax':
            v = int(o.take('i4')[0])
            rec.ev(name); rec.case((name, a.tobytes()))
            rec.require(v == int(a.argmax()), name, f'{v} want {int(a.argmax())}', a=a)
        elif name == 'maxmin':
            v = o.take('f4', n).reshape(-1, 2); p = a.reshape(-1, 2)
            rec.ev(name, len(p)); rec.case((name, a.tobytes()))
            rec.require((v[:, 0] == p.max(1)).all() and (v[:, 1] == p.min(1)).all(), name, f'{v[:3]} for {p[:3]}', a=a)
        elif name == 'mahalanobis':
            B, P = c[2].astype('f8'), c[3].astype('f8')
            d = A - B
            v = float(o.take('f4')[0])
            bound = E32 * (2 * n + 8) * (numpy.abs(d) + (numpy.abs(A) + numpy.abs(B)) * 0) @ numpy.abs(P) @ numpy.abs(d) + 1e-40
            # the difference itself is rounded in float
            bound = bound * 2
            if numpy.abs(d) @ numpy.abs(P) @ numpy.abs(d) < F32MAX / 100:
                close(name, v, d @ P @ d, bound, a=a, b=c[2], precision=c[3])
                from emlearn.distance import squared_mahalanobis_distance as smd
                w = smd(A, B, P)
                rec.require(abs(w - d @ P @ d) <= 1e-12 * (n + 4) ** 2 * (numpy.abs(d) @ numpy.abs(P) @ numpy.abs(d) + 1e-300), 'mahalanobis-python', f'{w} {d @ P @ d}', a=a, b=c[2], precision=c[3])
        else:
            t = o.take('f4', 3 * n).reshape(n, 3).astype('f8')
            close('relu', t[:, 0], numpy.maximum(A, 0), 0, a=a)
            close('expit', t[:, 1], 1 / (1 + numpy.exp(-numpy.clip(A, -700, 700))), 4 * E32 * (1 + numpy.abs(A)) / (1 + numpy.exp(numpy.clip(-A, -700, 700))) + 1e-37, a=a)
            close('tanh', t[:, 2], numpy.tanh(A), 4 * E32 * (1 + 0 * A), a=a)
            rc = int(o.take('i4')[0]); s = o.take('f4', n).astype('f8')
            B = c[2].astype('f8')
            w = numpy.exp(B - B.max()); w /= w.sum()
            rec.require(rc == 0, 'softmax:return', f'{rc}')
            close('softmax', s, w, E32 * (n + 8 + 2 * numpy.abs(B - B.max())) * w + 1e-37, a=c[2])
    rec.require(o.p == len(o.d), 'driver:long-output', f'{o.p} {len(o.d)}')
    rec.sample(dict(logsumexp=chk[0][1][:4]))


def python_fixed(rec, key):
    from emlearn import fixedpoint
    g = core.rng('C26', 'pyfix', key)
    for _ in range(core.pick(200, 1500)):
        fb = int(g.integers(0, 31))
        fmt = fixedpoint.FixedPointFormat(31 - fb, fb)
        rec.require(fmt.total_bits == 32, 'fixedpoint:bits', f'{fmt}')
        want = 'eml_q16_t' if fb == 16 else 'eml_fixed32_t'
        rec.require(fmt.ctype == want, 'fixedpoint:ctype', f'{fmt} {fmt.ctype}')
        shape = (int(g.integers(1, 30)),) if g.random() < 0.7 else (2, int(g.integers(1, 9)))
        dt = g.choice(['f8', 'f4', 'i4'])
        v = g.choice([-1, 1], shape) * 2.0 ** g.uniform(-fb - 2, 31 - fb - 0.01, shape)
        v = v.astype(dt)
        keep = v.copy()
        q = fixedpoint.from_float(v, fmt)
        rec.require((v == keep).all(), 'fixedpoint:input-changed', f'{fmt}')
        rec.require(q.shape == v.shape and q.dtype.kind == 'i', 'fixedpoint:shape', f'{q.shape} {q.dtype}')
        ex = v.astype('f8') * 2.0 ** fb
        rec.require((numpy.abs(q - ex) < 1).all(), 'fixedpoint:from_float', lambda: f'{fmt}: {v.ravel()[:4]} -> {q.ravel()[:4]}', v=v)
        rec.require((numpy.abs(q) <= numpy.abs(ex) + 1e-9).all() or (numpy.abs(q - ex) <= 0.5).all(), 'fixedpoint:rounding', lambda: f'{fmt}', v=v)
        b = fixedpoint.to_float(q, fmt)
        rec.require((numpy.asarray(b) == q / 2.0 ** fb).all(), 'fixedpoint:to_float', lambda: f'{fmt} {b.ravel()[:4]}', v=v)
        rec.ev('python_fixed', v.size); rec.case((fb, v.tobytes()))


def without(cases):
    return ''.join(l for l in DRIVER.splitlines(True) if not any(l.lstrip().startswith(f'case {c}:') for c in cases))


def main():
    global DRIVER
    chk = core.Check('C26')
    try:
        cc.compile_c(DRIVER, flags=['-std=c99', '-w', '-O0'], mechanism='driver')
    except core.Violation:
        for c in OPTIONAL:
            try:
                cc.compile_c(without([k for k in OPTIONAL if k != c]), flags=['-std=c99', '-w', '-O0', '-Werror=implicit-function-declaration'], mechanism='driver')
            except core.Violation:
                MISSING.add(c)
        DRIVER = without(MISSING)
    for b, (flags, san, comp) in BUILDS.items():
        try:
            EXE[b] = cc.compile_c(DRIVER, flags=flags, san=san, compiler=comp, mechanism='driver')
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), b)
    r = core.pick(8, 60)
    jobs = [(b, i) for i in range(r) for b in EXE]
    chk.run(sorting, jobs)
    chk.run(integers, jobs)
    chk.run(floats, jobs)
    chk.run(python_fixed, range(core.pick(2, 8)))
    chk.finish('every helper function of the headers on generated inputs of all magnitudes and edge lengths, each result judged against exact integer arithmetic or float64 with a derived bound',
               {k: v for k, v in dict(sorts=500, long_sorts=10, isqrt=3000, distances=300, q16_mul=3000, q16_div=3000, log2fix=2000, logsumexp=200, hann=500, logpdf=500, argmax=200, long_arrays=10, mahalanobis=100, softmax=100, python_fixed=1000).items() if not (k == 'logpdf' and 17 in MISSING or k == 'softmax' and 24 in MISSING)},
               ['isqrt and distances are specified for sums below 2^62', 'log2fix precision up to 26 bits', 'results outside the float or Q16.16 range are not judged'])


main()
