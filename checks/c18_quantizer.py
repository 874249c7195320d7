"""C18: quantizer. Random Quantizer configurations are fitted and run on inputs around every step and saturation boundary; a rational-arithmetic oracle judges
every output of the Python transformer and of the C functions (exact-size blocks, ASan/UBSan and optimised builds), and the two are compared."""
import os, struct
import numpy
from vlib import core, cc

DRIVER = cc.READER + r'''
#include <eml_quantizer.h>
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    int64_t cases; int32_t *nc = (int32_t *)v_get(4, &cases);
    for (int32_t c = 0; c < nc[0]; c++) {
        int64_t n, m, k;
        float *scale = (float *)v_get(4, &k);
        float *x = (float *)v_get(4, &n);
        int16_t *q = (int16_t *)v_get(2, &m);
        EmlQuantizer self = { scale[0] };
        int16_t *o1 = (int16_t *)malloc(2 * n + 1), *o2 = (int16_t *)malloc(2 * n + 1);
        float *keep = (float *)malloc(4 * n + 1), *inv = (float *)malloc(4 * n + 1), *inv2 = (float *)malloc(4 * m + 1);
        memcpy(keep, x, 4 * n);
        for (int64_t i = 0; i < n; i++) { o1[i] = 77; o2[i] = 77; }
        int under = -5, over = -5;
        v_i32(eml_quantizer_check_forward_int16(&self, x, (int)n, o1, (int)n, &under, &over));
        v_i32(under); v_i32(over);
        v_i32(eml_quantizer_forward_int16(&self, x, (int)n, o2, (int)n));
        v_i32(memcmp(o1, o2, 2 * n) != 0); v_i32(memcmp(keep, x, 4 * n) != 0);
        v_i32(eml_quantizer_inverse_int16(&self, o1, (int)n, inv, (int)n));
        v_i32(eml_quantizer_inverse_int16(&self, q, (int)m, inv2, (int)m));
        v_put(o1, 2, n); v_put(inv, 4, n); v_put(inv2, 4, m);
        /* refused calls change nothing */
        const int16_t first = n ? o2[0] : 0; const float finv = n ? inv[0] : 0.0f;
        int u3 = -5, o3 = -5, bad = 0;
        for (int d = -1; d <= 1; d += 2) {
            if (n + d < 0) { continue; }
            bad += eml_quantizer_check_forward_int16(&self, x, (int)n, o2, (int)n + d, &u3, &o3) != EmlSizeMismatch;
            bad += eml_quantizer_forward_int16(&self, x, (int)n, o2, (int)n + d) != EmlSizeMismatch;
            bad += eml_quantizer_inverse_int16(&self, o1, (int)n, inv, (int)n + d) != EmlSizeMismatch;
        }
        bad += (n && (o2[0] != first || memcmp(&inv[0], &finv, 4) != 0)) || u3 != -5 || o3 != -5 || self.scale != scale[0];
        v_i32(bad);
        free(scale); free(x); free(q); free(o1); free(o2); free(keep); free(inv); free(inv2);
    }
    free(nc); v_close();
    return 0;
}
'''
BUILDS = {'san': (['-std=c99', '-O1', '-w'], True, 'gcc'), 'O2': (['-std=c99', '-O2', '-w'], False, 'gcc'), 'clang': (['-std=c99', '-O2', '-w'], False, 'clang')}
EXE = {}


def probes(g, scale, omax, n, dt):
    """inputs around every kind of boundary of x -> trunc(x * scale)"""
    k = g.integers(0, 8, n)
    step = numpy.round(g.uniform(-1.2, 1.2, n) * omax)
    v = numpy.where(k == 0, step, 0.0)
    v = numpy.where(k == 1, step + g.uniform(-1, 1, n), v)
    v = numpy.where(k == 2, numpy.sign(step) * omax + g.integers(-3, 4, n), v)
    v = numpy.where(k == 3, g.uniform(-1.5, 1.5, n), v)
    v = numpy.where(k == 4, numpy.sign(step) * (omax + 1) * g.choice([1, 1.0001, 2, 2.001, 65536.0 / max(omax, 1), 3, 1e3, 1e9], n), v)
    v = numpy.where(k == 5, step * 0.01, v)
    v = numpy.where(k == 6, g.uniform(-1, 1, n) * omax, v)
    v = numpy.where(k == 7, numpy.sign(step) * g.choice([0.0, 0.5, 0.99, 1.0, 1.01], n), v)
    x = v / scale
    return numpy.clip(x, -1e37, 1e37).astype(dt)


def python_side(rec, key):
    from emlearn.preprocessing.quantizer import Quantizer
    import sklearn.base
    g = core.rng('C18', 'py', key)
    for rep in range(core.pick(60, 300)):
        dt = str(g.choice(['int8', 'int16', 'int16', 'int32', 'int64', 'uint8', 'uint16']))
        info = numpy.iinfo(dt)
        kw = dict(dtype=dt)
        omax = int(info.max)
        if g.random() < 0.4:
            omax = int(g.choice([1, 2, 7, 100, 127, 255, 1000, 32767, 2**31 - 1, info.max]))
            if omax > info.max:
                omax = int(info.max)
            kw['out_max'] = omax
        data = (g.normal(size=(int(g.integers(5, 60)), int(g.integers(1, 6)))) * 10.0 ** g.uniform(-4, 5) + g.choice([0, 0, 3.0])).astype(g.choice(['f8', 'f4']))
        mode = int(g.integers(0, 4))
        if mode == 0:
            kw['max_value'] = float(10.0 ** g.uniform(-4, 5))
            largest = kw['max_value']
        else:
            kw['max_quantile'] = [None, 0.0, float(g.choice([0.0001, 0.01, 0.1, 0.25]))][mode - 1]
            q = kw['max_quantile'] or 0.0
            s = numpy.sort(data.astype('f8').ravel())
            def quant(p):
                h = p * (len(s) - 1)
                i = int(numpy.floor(h))
                return s[i] + (s[min(i + 1, len(s) - 1)] - s[i]) * (h - i)
            largest = max(quant(1 - q), -quant(q))
            if mode == 3 and kw['max_quantile'] == 0.0001:
                kw.pop('max_quantile')      # the default
        if not largest > 1e-12:
            continue
        keep = data.copy()
        qz = Quantizer(**kw)
        if g.random() < 0.3:
            qz = sklearn.base.clone(qz)
        if g.random() < 0.3:
            qz.fit(data * 3 + 1)
        r = qz.fit(data)
        ctx = dict(params={k: str(v) for k, v in kw.items()}, largest=largest)
        rec.require(r is qz, 'fit:return', '')
        rec.require(abs(qz.scale_ * largest - omax) <= 1e-5 * omax, 'fit:scale', f'{qz.scale_} * {largest} is not {omax}', **ctx)
        scale = float(qz.scale_)
        xdt = g.choice(['f8', 'f8', 'f4'])
        shape = [(200,), (40, 5), (10, 4, 5), (0, 3), (1, 1)][int(g.integers(0, 5))]
        x = probes(g, scale, omax, int(numpy.prod(shape)), xdt).reshape(shape)
        if g.random() < 0.2 and len(shape) == 2:
            x = numpy.asfortranarray(x)
        if g.random() < 0.1:
            x = numpy.clip(x, -1e15, 1e15).astype('i8')
        xk = x.copy()
        y = qz.transform(x)
        rec.require((data == keep).all() and (x == xk).all(), 'transform:input-changed', '', **ctx)
        if not rec.require(y.dtype == numpy.dtype(dt) and y.shape == x.shape, 'transform:type', f'{y.dtype} {y.shape}', **ctx):
            continue
        lo = -omax if info.min < 0 else 0
        ex = x.astype('f8').astype(numpy.longdouble).ravel() * numpy.longdouble(scale)
        yl = y.ravel().astype(numpy.longdouble)
        tol = numpy.longdouble(2.0 ** -52) * numpy.abs(ex) + numpy.longdouble(1e-300)
        sat_hi, sat_lo = ex >= omax + tol * 2, ex <= lo - tol * 2
        # the largest int64 is not a float64: saturation may stop one float64 step below it
        slack = 1024 if omax > 2**53 else 0
        ok = numpy.where(sat_hi, (yl <= omax) & (yl >= omax - slack), numpy.where(sat_lo, (yl >= lo) & (yl <= lo + slack), numpy.abs(yl - ex) < 1 + tol + slack))
        rec.require(ok.all(), 'transform:value', lambda: f'x*scale {ex[~ok][:4]} -> {yl[~ok][:4]} ({dt}, out_max {omax})', x=x.ravel()[:50], **ctx)
        rec.require((numpy.abs(yl) <= numpy.abs(ex) + tol + slack).all() or (numpy.abs(yl - numpy.clip(ex, lo, omax)) <= 0.5 + tol + slack).all(), 'transform:rounding', lambda: 'neither truncation nor rounding to nearest', **ctx)
        o = numpy.argsort(ex, kind='stable')
        rec.require((numpy.diff(yl[o]) >= 0).all(), 'transform:monotone', '', **ctx)
        if info.min < 0 and x.dtype.kind == 'f':
            rec.require((qz.transform(-x) == -y).all(), 'transform:odd', lambda: f'{x[qz.transform(-x) != -y][:3]}', **ctx)
        y2 = qz.transform(x, numpy.arange(3))
        rec.require(isinstance(y2, tuple) and (y2[0] == y).all() and (y2[1] == numpy.arange(3)).all(), 'transform:with-y', '', **ctx)
        yk = y.copy()
        z = qz.inverse_transform(y)
        rec.require((y == yk).all() and z.shape == y.shape and z.dtype.kind == 'f', 'inverse:type', f'{z.dtype} {z.shape}', **ctx)
        zl = z.ravel().astype(numpy.longdouble)
        uns = ~(ex >= omax) & ~(ex <= lo)
        err = numpy.abs(zl - x.ravel().astype(numpy.longdouble)) * scale
        ok = ~uns | (err <= 1 + slack + numpy.abs(ex) * 2.0 ** -22 * (z.dtype != 'f8') + numpy.abs(ex) * 2.0 ** -50)
        rec.require(ok.all(), 'inverse:value', lambda: f'{x.ravel()[~ok][:3]} -> {zl[~ok][:3]}, errors in steps {err[~ok][:3]}', **ctx)
        zi = qz.inverse_transform(y, numpy.arange(2))
        rec.require(isinstance(zi, tuple) and numpy.array_equal(zi[0], z), 'inverse:with-y', '')
        # all integers of the range, exactly: inverse then forward stays within one step
        rec.ev('python_saturated', int((sat_hi | sat_lo).sum())); rec.ev('python_values', x.size); rec.ev('fits')
        rec.distinct_rows(x.ravel()[:, None].astype('f8') * scale, f'{dt}{omax}')
    rec.sample(dict(params=kw, scale=scale, x=x.ravel()[:4], y=y.ravel()[:4]))
    # floating-point targets: scaled and clipped, not truncated
    for rep in range(core.pick(8, 40)):
        dt = str(g.choice(['float32', 'float64']))
        omax = float(g.choice([1.0, 0.5, 127.0, 32767.0, 1e6]))
        data = g.normal(size=(30, 3)) * 10.0 ** g.uniform(-3, 4)
        automatic = False       # the default maximum of a floating-point type overflows: not a supported use
        mv = float(10.0 ** g.uniform(-2, 3))
        qz = Quantizer(dtype=dt, max_value=mv, **({} if automatic else dict(out_max=omax))).fit(data)
        om = float(numpy.finfo(dt).max) if automatic else omax
        x = numpy.concatenate([g.uniform(-1.5, 1.5, 40), [0.0, 1.0, -1.0, 3.0, -3.0]]) * mv
        with numpy.errstate(all='ignore'):
            y = qz.transform(x)
        ctx = dict(dtype=dt, out_max=None if automatic else omax, max_value=mv)
        if automatic and dt == 'float64':
            want = numpy.clip(x / mv, -1, 1) * om
        else:
            want = numpy.clip(x / mv * om, -om, om)
        rec.require(y.dtype == numpy.dtype(dt) and y.shape == x.shape, 'float:type', f'{y.dtype}', **ctx)
        ok = numpy.isfinite(y) & (numpy.abs(y.astype('f8') / om - want / om) <= 1e-6)
        rec.require(ok.all(), 'float:value', lambda: f'{x[~ok][:3]} -> {y[~ok][:3]} want {want[~ok][:3]}', **ctx)
        z = qz.inverse_transform(y)
        uns = numpy.abs(x) <= mv
        rec.require((numpy.abs(z - x)[uns] <= 1e-5 * mv).all(), 'float:inverse', lambda: f'{numpy.abs(z - x)[uns].max()} of {mv}', **ctx)
        rec.ev('float_targets')
    # requested maximum outside the type is refused
    for dt in ('int8', 'int16', 'int32', 'uint8'):
        for over in (1, 2, 1000, 2**40):
            try:
                r = Quantizer(dtype=dt, out_max=int(numpy.iinfo(dt).max) + over).fit(numpy.array([[1.0, -1.0]])).transform(numpy.array([[1.0, -1.0, 0.5]]))
                ok = r[0, 0] >= 0 >= r[0, 1]
            except ValueError:
                ok = True
            rec.require(ok, 'out_max:wraps', f'{dt} {over}')
            rec.ev('out_max_refused')


def c_side(rec, key):
    from emlearn.preprocessing.quantizer import Quantizer
    build, i = key
    g = core.rng('C18', 'c', *key)
    cases = []
    for _ in range(core.pick(60, 300)):
        largest = float(10.0 ** g.uniform(-6, 8))
        scale = numpy.float32(32767.0 / largest) if g.random() < 0.8 else numpy.float32(g.choice([1.0, 0.5, 2.0, 32767.0, 100.0, 1 / 3]))
        n = int(g.choice([0, 1, 2, 3, 10, 300])) if g.random() > 0.03 else int(g.choice([2000, 40000, 150000]))
        x = probes(g, float(scale), 32767, n, 'f4')
        if n > 300:     # many saturated on one side
            x = numpy.where(g.random(n) < 0.9, numpy.abs(x) * 3 + numpy.float32(40000 / scale), x).astype('f4') * numpy.float32(g.choice([-1, 1]))
        cases.append((scale, x, g.integers(-32768, 32768, int(g.choice([1, 50]))).astype('i2')))
    d = core.scratch('q')
    cc.put(os.path.join(d, 'i'), numpy.array([len(cases)], 'i4'), *[a for s, x, q in cases for a in (numpy.array([s], 'f4'), x, q)])
    cc.run(EXE[build], [os.path.join(d, 'i'), os.path.join(d, 'o')], what='quantizer', timeout=60)
    b = open(os.path.join(d, 'o'), 'rb').read()
    p = 0
    qz = Quantizer(dtype='int16')
    for s, x, q in cases:
        n, m = len(x), len(q)
        rc, under, over, rc2, differ, changed, rc3, rc4 = struct.unpack_from('<8i', b, p)
        p += 32
        y = numpy.frombuffer(b, 'i2', n, p); p += 2 * n
        inv = numpy.frombuffer(b, 'f4', n, p); p += 4 * n
        inv2 = numpy.frombuffer(b, 'f4', m, p); p += 4 * m
        bad = struct.unpack_from('<i', b, p)[0]; p += 4
        ctx = dict(scale=float(s), x=x[:60], y=y[:60])
        rec.require(rc == rc2 == rc3 == rc4 == 0, 'c:return', f'{rc} {rc2} {rc3} {rc4}', **ctx)
        rec.require(not differ, 'c:forward-differs-from-check', '', **ctx)
        rec.require(not changed, 'c:input-changed', '', **ctx)
        rec.require(not bad, 'c:refused-call', f'{bad} wrong results for mismatched lengths', **ctx)
        ex = x.astype('f8') * float(s)      # exact: product of two single-precision numbers
        tol = numpy.abs(ex) * 2.0 ** -23
        hi, lo = ex > 32767 + tol, ex < -32767 - tol
        near_hi, near_lo = (numpy.abs(ex - 32767) <= tol), (numpy.abs(ex + 32767) <= tol)
        rec.require(hi.sum() <= over <= hi.sum() + near_hi.sum(), 'c:overflows', f'{over} counted, {hi.sum()} (+{near_hi.sum()} at the limit)', **ctx)
        rec.require(lo.sum() <= under <= lo.sum() + near_lo.sum(), 'c:underflows', f'{under} counted, {lo.sum()} (+{near_lo.sum()} at the limit)', **ctx)
        exact_hi = ex == 32767
        if exact_hi.sum() == near_hi.sum():
            rec.require(over == hi.sum(), 'c:overflows', f'{over} counted, {hi.sum()} saturated', **ctx)
        yi = y.astype('f8')
        ok = numpy.where(hi, yi == 32767, numpy.where(lo, yi == -32767, numpy.abs(yi - ex) < 1 + tol))
        rec.require(ok.all(), 'c:value', lambda: f'x*scale {ex[~ok][:4]} -> {y[~ok][:4]}', **ctx)
        qz.scale_ = float(s)
        w = qz.transform(x).astype('f8') if n else yi
        same = (w == yi) | ((numpy.abs(ex - numpy.round(ex)) <= tol * 2) & (numpy.abs(w - yi) <= 1))
        rec.require(same.all(), 'c:differs-from-python', lambda: f'x*scale {ex[~same][:4]}: C {yi[~same][:4]} Python {w[~same][:4]}', **ctx)
        o = numpy.argsort(ex, kind='stable')
        rec.require((numpy.diff(yi[o]) >= 0).all(), 'c:monotone', '', **ctx)
        for v, r in ((y, inv), (q, inv2)):
            e = v.astype('f8') / float(s)
            good = numpy.abs(r - e) <= numpy.abs(e) * 2.0 ** -22 + 1e-44
            rec.require(good.all(), 'c:inverse', lambda: f'{v[~good][:3]} -> {r[~good][:3]} want {e[~good][:3]}', **ctx)
        uns = ~(hi | lo | near_hi | near_lo)
        err = numpy.abs(inv - x.astype('f8')) * float(s)
        rec.require((err[uns] <= 1.01).all(), 'c:roundtrip', lambda: f'{err[uns].max()} steps', **ctx)
        rec.ev('c_values', n); rec.ev('c_many_saturated', int(max(hi.sum(), lo.sum()) > 32767)); rec.ev('c_saturated', int(hi.sum() + lo.sum())); rec.ev('c_at_limit', int(near_hi.sum() + near_lo.sum())); rec.ev('refused_calls', 6)
        rec.distinct_rows(ex[:, None], 'c')
    rec.require(p == len(b), 'driver:length', f'{p} {len(b)}')
    rec.sample(dict(scale=float(cases[0][0]), x=cases[0][1][:4]))


def main():
    chk = core.Check('C18')
    for b, (flags, san, comp) in BUILDS.items():
        try:
            EXE[b] = cc.compile_c(DRIVER, flags=flags, san=san, compiler=comp, mechanism='driver')
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), b)
    chk.run(python_side, range(core.pick(72, 300)))
    chk.run(c_side, [(b, i) for i in range(core.pick(30, 100)) for b in EXE])
    chk.finish('random quantizer configurations and scales; inputs on, beside and far beyond every step and saturation boundary, in Python and C',
               dict(python_values=30000, python_saturated=5000, c_values=20000, c_saturated=3000, c_at_limit=50, fits=500, float_targets=100, c_many_saturated=5),
               ['training data whose learned maximum is zero gives no finite scale and is not covered', 'int64 saturates one float64 step below its maximum', 'C values may differ by one from Python where the scaled input is within single-precision rounding of an integer'])


main()
