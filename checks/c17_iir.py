"""C17: IIR cascades. Designed and random stable second-order-section filters run in C on many signals, several at once under random schedules of calls, with
checkpoints of their state, and through the Python binding; a float64 cascade with propagated rounding bound judges every output sample, and every schedule must
give the bit-identical stream."""
import os, struct
import numpy, scipy.signal
from vlib import core, cc, ext

DRIVER = cc.READER + r'''
#include <eml_iir.h>
/* one file: number of filters; per filter stages, coefficients, signal; then a schedule (filter, samples | -1 = checkpoint, -2 = restore) */
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    int64_t k; int32_t *hd = (int32_t *)v_get(4, &k);
    const int nf = hd[0];
    EmlIIR *f = (EmlIIR *)malloc(sizeof(EmlIIR) * nf); float **x = (float **)malloc(sizeof(float *) * nf), **y = (float **)malloc(sizeof(float *) * nf), **save = (float **)malloc(sizeof(float *) * nf);
    float **ckeep = (float **)malloc(sizeof(float *) * nf);
    int64_t *n = (int64_t *)malloc(8 * nf), *pos = (int64_t *)malloc(8 * nf), *spos = (int64_t *)malloc(8 * nf), *nc = (int64_t *)malloc(8 * nf);
    for (int i = 0; i < nf; i++) {
        float *c = (float *)v_get(4, &nc[i]); x[i] = (float *)v_get(4, &n[i]); y[i] = (float *)malloc(4 * n[i] + 1);
        const int st = (int)(nc[i] / 6);
        float *s = (float *)malloc(16 * st); memset(s, 0, 16 * st); save[i] = (float *)malloc(16 * st); memset(save[i], 0, 16 * st);
        ckeep[i] = (float *)malloc(4 * nc[i]); memcpy(ckeep[i], c, 4 * nc[i]);
        const EmlIIR init = { st, s, st * 4, c, (int)nc[i] };
        memcpy(&f[i], &init, sizeof(init));
        pos[i] = spos[i] = 0;
        v_i32(eml_iir_check(f[i]));
        EmlIIR bad = f[i]; int wrong = 0;
        bad.n_stages = 0; wrong += eml_iir_check(bad) == EmlOk; bad.n_stages = -1; wrong += eml_iir_check(bad) == EmlOk; bad.n_stages = st + 1; wrong += eml_iir_check(bad) == EmlOk; bad = f[i];
        bad.states = NULL; wrong += eml_iir_check(bad) == EmlOk; bad = f[i];
        bad.coefficients = NULL; wrong += eml_iir_check(bad) == EmlOk; bad = f[i];
        bad.states_length += 4; wrong += eml_iir_check(bad) == EmlOk; bad = f[i]; bad.states_length -= 1; wrong += eml_iir_check(bad) == EmlOk; bad = f[i];
        bad.coefficients_length += 6; wrong += eml_iir_check(bad) == EmlOk; bad = f[i]; bad.coefficients_length -= 6; wrong += eml_iir_check(bad) == EmlOk; bad = f[i];
        bad.states_length = bad.coefficients_length; wrong += eml_iir_check(bad) == EmlOk;
        v_i32(wrong);
    }
    int64_t ns; int32_t *sc = (int32_t *)v_get(4, &ns);
    for (int64_t t = 0; t + 1 < ns; t += 2) {
        const int i = sc[t], m = sc[t + 1];
        const size_t sb = 16 * (size_t)f[i].n_stages;
        if (m == -1) { memcpy(save[i], f[i].states, sb); spos[i] = pos[i]; continue; }
        if (m == -2) { memcpy(f[i].states, save[i], sb); pos[i] = spos[i]; continue; }
        for (int j = 0; j < m && pos[i] < n[i]; j++) { y[i][pos[i]] = eml_iir_filter(f[i], x[i][pos[i]]); pos[i]++; }
    }
    for (int i = 0; i < nf; i++) {
        v_i32(pos[i] != n[i]); v_i32(memcmp(ckeep[i], f[i].coefficients, 4 * nc[i]) != 0); v_put(y[i], 4, n[i]);
        free((void *)f[i].coefficients); free(f[i].states); free(x[i]); free(y[i]); free(save[i]); free(ckeep[i]);
    }
    free(f); free(x); free(y); free(save); free(ckeep); free(n); free(pos); free(spos); free(nc); free(sc); free(hd);
    v_close();
    return 0;
}
'''
BUILDS = {'san': (['-std=c99', '-O1', '-w'], True, 'gcc'), 'O2': (['-std=c99', '-O2', '-w'], False, 'gcc'), 'clang': (['-std=c99', '-O2', '-w', '-fno-fast-math'], False, 'clang')}
EXE, EXT = {}, {}
EPS = 2.0 ** -24


def random_design(g):
    k = int(g.integers(0, 9))
    order = int(g.integers(1, 9))
    w = sorted(g.uniform(0.02, 0.97, 2))
    if w[1] - w[0] < 0.02:
        w[1] = min(w[0] + 0.02, 0.98)
    bt = str(g.choice(['lowpass', 'highpass', 'bandpass', 'bandstop']))
    wn = w if bt.startswith('band') else w[0]
    if k == 0:
        s = scipy.signal.butter(order, wn, bt, output='sos')
    elif k == 1:
        s = scipy.signal.cheby1(order, 1.0, wn, bt, output='sos')
    elif k == 2:
        s = scipy.signal.cheby2(order, 40.0, wn, bt, output='sos')
    elif k == 3:
        s = scipy.signal.ellip(order, 0.5, 50.0, wn, bt, output='sos')
    elif k == 4:
        s = scipy.signal.bessel(order, wn, bt, output='sos')
    elif k == 5:
        b, a = scipy.signal.iirnotch(w[0], g.uniform(1, 30))
        s = scipy.signal.tf2sos(b, a)
    else:
        # sections with random poles and zeros, pure feed-forward and pure feedback ones among them
        n = int(g.integers(1, 7))
        if g.random() < 0.15:
            # long cascade: sections close to the identity
            n = int(g.choice([17, 40, 130, 300]))
            z = g.uniform(-0.3, 0.3, (n, 2)); p = z + g.uniform(-0.02, 0.02, (n, 2))
            return numpy.array([[1.0, -(u[0] + u[1]), u[0] * u[1], 1.0, -(v[0] + v[1]), v[0] * v[1]] for u, v in zip(z, p)]).astype('f4')
        rows = []
        for _ in range(n):
            b = g.normal(size=3) * 10.0 ** g.uniform(-2, 1)
            r = float(g.choice([0.0, 0.3, 0.9, 0.98]))
            if g.random() < 0.5:
                th = g.uniform(0, numpy.pi)
                a = [1.0, -2 * r * numpy.cos(th), r * r]
            else:
                p, q = r * g.uniform(-1, 1), r * g.uniform(-1, 1)
                a = [1.0, -(p + q), p * q]
            if g.random() < 0.2:
                b = numpy.array([1.0, 0.0, 0.0])
            if g.random() < 0.1:
                b = numpy.array([0.0, 0.0, float(b[2])])
            if g.random() < 0.1:
                b = numpy.array([0.0, 1.0, 0.0])
            rows.append([*b, *a])
        s = numpy.array(rows)
    s = s.astype('f4')
    for row in s.astype('f8'):
        if numpy.abs(numpy.roots(row[3:])).max(initial=0) > 0.999:
            return random_design(g)
    return s


SPECIAL = {'gain': ([2.5, 0, 0], [1, 0, 0]), 'attenuation': ([-0.3, 0, 0], [1, 0, 0]), 'identity': ([1, 0, 0], [1, 0, 0]), 'delay1': ([0, 1, 0], [1, 0, 0]), 'delay2': ([0, 0, -1], [1, 0, 0]),
           'mute': ([0, 0, 0], [1, .5, 0]), 'pole1': ([.7, 0, 0], [1, -.6, 0]), 'pole2': ([1, 0, 0], [1, 0, .5]), 'zero1': ([1, -.5, 0], [1, 0, 0]), 'difference': ([1, 0, -1], [1, 0, 0]),
           'cancelled': ([1, -.5, .25], [1, -.5, .25]), 'average': ([.25, .5, .25], [1, 0, 0])}


def design(g, rec=None):
    """every third filter has sections of a special form added"""
    s = random_design(g)
    h = core.rng('C17', 'special', s.tobytes())
    if h.random() < .35:
        for _ in range(int(h.integers(1, 4))):
            k = str(h.choice(sorted(SPECIAL)))
            s = numpy.insert(s, int(h.integers(0, len(s) + 1)), numpy.concatenate(SPECIAL[k]).astype('f4'), axis=0)
            if rec is not None:
                rec.ev('section_' + k)
        if h.random() < .2:
            s = s[numpy.abs(s).sum(axis=1) > 0][:1] if len(s) else s
    return s


def signal(g, n):
    t = numpy.arange(n)
    k = int(g.integers(0, 9))
    if k == 0:
        x = (t == int(g.integers(0, max(n, 1)))) * 1.0
    elif k == 1:
        x = numpy.ones(n)
    elif k == 2:
        x = numpy.sin(t * g.uniform(0.001, 3.1))
    elif k == 3:
        x = numpy.where(t % 2 == 0, 1.0, -1.0)
    elif k == 4:
        x = numpy.where(t < n // 4, g.normal(size=n), 0.0)         # decays into denormal numbers
    elif k == 5:
        x = numpy.cumsum(g.normal(size=n))
    elif k == 6:
        x = numpy.zeros(n)
    elif k == 7:
        x = numpy.sin(t * t * 0.0005)
    else:
        x = g.normal(size=n)
    return (x * 10.0 ** float(g.choice([0, 0, 0, 3, 8, -6, -20]))).astype('f4')


def reference(sos, x):
    """float64 cascade and a bound for single-precision rounding in it"""
    y = x.astype('f8')
    bound = numpy.zeros(len(x))
    n = len(x)
    imp = numpy.zeros(max(n, 1)); imp[0] = 1.0
    for row in sos.astype('f8'):
        b, a = row[:3], row[3:]
        inp = y
        out = scipy.signal.lfilter(b, a, inp) if n else inp
        # rounding terms injected at each sample by the three updates of the transposed form
        def lag(v, d):
            r = numpy.zeros(n); r[d:] = numpy.abs(v[:n - d]) if d < n else 0.0
            return r
        s1 = numpy.abs(out - b[0] * inp)
        terms = 2 * (s1 + numpy.abs(b[0] * inp) + numpy.abs(out)) + 3 * (numpy.abs(b[1] * inp) + numpy.abs(a[1] * out) + lag(numpy.abs(b[2] * inp) + numpy.abs(a[2] * out), 1)) + 3 * (numpy.abs(b[2] * inp) + numpy.abs(a[2] * out))
        terms = terms * 2 * EPS + 3e-45 * (3 + numpy.abs(b).sum() + numpy.abs(a).sum())
        l_noise = numpy.abs(scipy.signal.lfilter([1.0], a, imp)).cumsum() if n else imp
        l_sig = numpy.abs(scipy.signal.lfilter(b, a, imp)).cumsum() if n else imp
        bound = (numpy.maximum.accumulate(bound) * l_sig[:n] + numpy.maximum.accumulate(terms) * l_noise[:n] * 1.1) if n else bound
        y = out
    return y, bound


def schedule(g, lens, mode):
    """interleaving of the filters, as (filter, samples) pairs; all samples are processed in the end"""
    out, left = [], list(lens)
    if mode == 'sequential':
        for i, n in enumerate(lens):
            out += [(i, n)]
        return out
    saved = [None] * len(lens)
    while any(left):
        i = int(g.choice([j for j, l in enumerate(left) if l]))
        r = g.random()
        if mode == 'checkpoint' and r < 0.2:
            out.append((i, -1)); saved[i] = left[i]
        elif mode == 'checkpoint' and r < 0.35 and saved[i] is not None and saved[i] - left[i] < 200:
            out.append((i, -2)); left[i] = saved[i]; saved[i] = None
        else:
            m = int(min(left[i], g.choice([1, 1, 2, 3, 16, 100, 1000])))
            out.append((i, m)); left[i] -= m
    return out


def run(build, filters, sched):
    d = core.scratch('iir')
    cc.put(os.path.join(d, 'i'), numpy.array([len(filters)], 'i4'), *[a for s, x in filters for a in (s.ravel(), x)], numpy.array(sched, 'i4').ravel())
    cc.run(EXE[build], [os.path.join(d, 'i'), os.path.join(d, 'o')], what='iir', timeout=60)
    b = open(os.path.join(d, 'o'), 'rb').read()
    p, ys = 8 * len(filters), []
    chk = struct.unpack_from(f'<{2 * len(filters)}i', b, 0)
    for s, x in filters:
        left, changed = struct.unpack_from('<2i', b, p)
        ys.append((numpy.frombuffer(b, 'f4', len(x), p + 8), left, changed))
        p += 8 + 4 * len(x)
    return chk, ys


def case(rec, key):
    build, i = key
    g = core.rng('C17', *key)
    nf = int(g.choice([1, 2, 3, 5]))
    filters = [(design(g, rec), signal(g, int(g.choice([0, 1, 2, 3, 10, 200, 1500, core.pick(3000, 20000)])))) for _ in range(nf)]
    if nf > 1 and g.random() < 0.4:
        filters[1] = (filters[0][0], filters[1][1])         # two instances of the same definition
    first = None
    for mode in ('sequential', 'interleaved', 'checkpoint'):
        sched = schedule(g, [len(x) for _, x in filters], mode)
        chk, ys = run(build, filters, sched)
        for j, ((s, x), (y, left, changed)) in enumerate(zip(filters, ys)):
            ctx = dict(sos=s, x=x[:40], mode=mode, schedule=sched[:40])
            rec.require(chk[2 * j] == 0, 'check:refuses-valid', f'{chk[2 * j]}', **ctx)
            rec.require(chk[2 * j + 1] == 0, 'check:accepts-malformed', f'{chk[2 * j + 1]} of 11', **ctx)
            rec.require(not left and not changed, 'driver', f'left {left} coefficients changed {changed}', **ctx)
            if first is None or len(first) <= j:
                first = (first or []) + [y]
                w, bound = reference(s, x)
                ok = (numpy.abs(y - w) <= bound) | (numpy.abs(w) > 3e38)
                judged = numpy.isfinite(y) | ok
                rec.require(ok.all(), 'value', lambda: f'sample {int(numpy.argmin(ok))} of {len(x)}: {y[~ok][:3]} want {w[~ok][:3]} bound {bound[~ok][:3]} ({len(s)} sections)', **ctx)
                if not x.any():
                    rec.require(not y.any(), 'resting-state', lambda: f'{y[y != 0][:3]} from silence', **ctx)
                    rec.ev('silent_streams')
                sig = numpy.abs(w) > 8 * bound
                rec.ev('samples', len(x)); rec.ev('samples_significant', int(sig.sum())); rec.ev('sections', len(s))
                rec.case((build, s.tobytes(), x.tobytes()), n=len(x))
            else:
                same = y.tobytes() == first[j].tobytes()
                rec.require(same, 'stream-depends-on-schedule', lambda: f'{mode}: first difference at {int(numpy.argmax(y != first[j]))}', **ctx)
                rec.ev(f'streams_{mode}')
    rec.sample(dict(sos=filters[0][0][:1], samples=len(filters[0][1]), schedule=sched[:6]))


def binding(rec, key):
    g = core.rng('C17', 'py', key)
    calls, want = [], []
    for c in range(core.pick(40, 200)):
        s, x = design(g), signal(g, int(g.choice([0, 1, 5, 300, 2000])) if c % 40 else 70000)
        k = int(g.integers(0, 6))
        a, b = s, x
        if k == 0:
            a, b = s.astype('f8'), x.astype('f8')
        elif k == 1:
            a = numpy.asfortranarray(s)
        elif k == 2:
            b = numpy.repeat(x, 2)[::2]
        elif k == 3:
            a = numpy.concatenate([s, s], 1)[:, :6]
        elif k == 4:
            a, b = s.tolist(), x
        calls.append(('eml_signal', 'iirfilter', (a, b))); want.append((s, x))
    good = len(calls)
    s, x = design(g), signal(g, 50)
    malformed = [(s[:, :5], x), (s.ravel(), x), (s[None], x), (numpy.zeros((0, 6), 'f4'), x), (s, x.reshape(1, -1)), (s, x.reshape(-1, 1)), (numpy.concatenate([s, s[:, :1]], 1), x),
                 (numpy.float32(1.0), x), (s, numpy.float32(1.0)), (numpy.zeros((3, 0), 'f4'), x)]
    calls += [('eml_signal', 'iirfilter', m) for m in malformed]
    for san in (False, True):
        if san not in EXT:
            continue
        res = ext.call(EXT[san], calls, san=san)
        for (r, changed), (s, x) in zip(res, want):
            ctx = dict(sos=s, x=x[:40])
            rec.require(not changed, 'binding:arguments-changed', f'{changed}', **ctx)
            if not rec.require(r[0] == 'ok', 'binding:refused', f'{r}', **ctx):
                continue
            y = r[1]
            if not rec.require(y.shape == x.shape and y.dtype == numpy.float32 and not r[2], 'binding:type', f'{y.shape} {y.dtype}', **ctx):
                continue
            w, bound = reference(s, x)
            ok = (numpy.abs(y - w) <= bound) | (numpy.abs(w) > 3e38)
            rec.require(ok.all(), 'binding:value', lambda: f'sample {int(numpy.argmin(ok))}: {y[~ok][:3]} want {w[~ok][:3]}', **ctx)
            rec.ev('binding_samples', len(x)); rec.case((s.tobytes(), x.tobytes()), n=len(x))
        for (r, changed), m in zip(res[good:], malformed):
            rec.require(r[0] == 'exc', 'binding:accepts-malformed', f'{[numpy.shape(a) for a in m]} gave {str(r)[:200]}')
            rec.ev('binding_refused')


def main():
    chk = core.Check('C17')
    for b, (flags, san, comp) in BUILDS.items():
        try:
            EXE[b] = cc.compile_c(DRIVER, flags=flags, san=san, compiler=comp, mechanism='driver')
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), b)
    for san in (False, True):
        try:
            EXT[san] = ext.build(san=san, modules=('eml_signal',), flags=('-O1',) if san else ('-O2',))
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), 'ext')
    chk.run(case, [(b, i) for i in range(core.pick(60, 600)) for b in EXE])
    chk.run(binding, range(core.pick(6, 60)))
    chk.finish('designed and random stable cascades (1..16 sections) on signals from silence to huge amplitudes; each run sequentially, interleaved with other filters, and with state checkpoints; the binding on many array layouts',
               dict(samples=50000, samples_significant=20000, streams_interleaved=100, streams_checkpoint=100, binding_samples=5000, binding_refused=50, silent_streams=3, section_gain=2, section_attenuation=2, section_delay1=2, section_delay2=2),
               ['poles inside radius 0.999 after rounding the coefficients to single precision', 'first denominator coefficient 1, as scipy requires', 'outputs beyond the single-precision range are not judged'])


main()
