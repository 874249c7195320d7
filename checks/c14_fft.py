"""C14: FFT. Every power-of-two length up to 2^17 (2^20 thorough) with many kinds of complex signals runs through the C transform and the Python binding; a float64
DFT with worst-case and mean-square rounding bounds judges both parts; other lengths and mismatched tables must be refused with everything unchanged."""
import os, struct
import numpy
from vlib import core, cc, ext

DRIVER = cc.READER + r'''
#include <eml_fft.h>
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    int64_t k; int32_t *hd = (int32_t *)v_get(4, &k);
    for (int c = 0; c < hd[0]; c++) {
        /* table length, length it is filled for, transform length, allocated length */
        int32_t *p = (int32_t *)v_get(4, &k); int64_t n;
        float *re = (float *)v_get(4, &n), *im = (float *)v_get(4, &n);
        const int tl = p[0];
        float *s = (float *)malloc(4 * (tl > 0 ? tl : 1)), *co = (float *)malloc(4 * (tl > 0 ? tl : 1));
        for (int i = 0; i < tl; i++) { s[i] = 9.0f; co[i] = -9.0f; }
        EmlFFT fft = { tl, s, co };
        v_i32(eml_fft_fill(fft, (size_t)p[1]));
        float *s2 = (float *)malloc(4 * (tl > 0 ? tl : 1)), *c2 = (float *)malloc(4 * (tl > 0 ? tl : 1));
        memcpy(s2, s, 4 * (size_t)(tl > 0 ? tl : 0)); memcpy(c2, co, 4 * (size_t)(tl > 0 ? tl : 0));
        v_i32(eml_fft_forward(fft, re, im, (size_t)p[2]));
        v_i32(memcmp(s, s2, 4 * (size_t)(tl > 0 ? tl : 0)) != 0 || memcmp(co, c2, 4 * (size_t)(tl > 0 ? tl : 0)) != 0);
        v_put(re, 4, n); v_put(im, 4, n); v_put(s, 4, tl > 0 ? tl : 0); v_put(co, 4, tl > 0 ? tl : 0);
        free(p); free(re); free(im); free(s); free(co); free(s2); free(c2);
    }
    free(hd); v_close();
    return 0;
}
'''
BUILDS = {'san': (['-std=c99', '-O1', '-w'], True, 'gcc'), 'O2': (['-std=c99', '-O2', '-w'], False, 'gcc'), 'clang': (['-std=c99', '-O3', '-w'], False, 'clang')}
EXE, EXT = {}, {}
EPS = 2.0 ** -24


def signal(g, n, real=False):
    k = int(g.integers(0, 10))
    t = numpy.arange(n)
    if k == 0:
        x = numpy.zeros(n, complex); x[int(g.integers(0, n))] = complex(g.normal(), g.normal())
    elif k == 1:
        x = numpy.full(n, complex(g.normal(), g.normal()))
    elif k == 2:
        x = numpy.exp(2j * numpy.pi * t * int(g.integers(0, n)) / n)
    elif k == 3:
        x = numpy.exp(2j * numpy.pi * t * g.uniform(0, n) / n)
    elif k == 4:
        x = g.normal(size=n) * 1j
    elif k == 5:
        x = g.normal(size=n) + 0j
    elif k == 6:
        x = numpy.cos(2 * numpy.pi * t * int(g.integers(0, n)) / n) + 1j * numpy.sin(2 * numpy.pi * t * int(g.integers(0, n)) / n)
    elif k == 7:
        x = g.choice([-1.0, 1.0], n) + 1j * g.choice([-1.0, 1.0], n)
    elif k == 8:
        x = t.astype(complex) - 1j * t[::-1]
    else:
        x = g.normal(size=n) + 1j * g.normal(size=n)
    x = x * 10.0 ** float(g.choice([0, 0, 0, 5, 15, -5, -15]))
    return x.real.astype('f4'), (numpy.zeros(n, 'f4') if real else x.imag.astype('f4'))


def judge(rec, name, n, re, im, ore, oim, ctx):
    """oim may be None when only the real part is given"""
    x = re.astype('f8') + 1j * im.astype('f8')
    w = numpy.fft.fft(x)
    L = numpy.log2(n) + 1 if n > 1 else 1
    worst = 8 * EPS * L * numpy.abs(x).sum() + 1e-44 * n
    rms = 6 * EPS * L * numpy.sqrt((numpy.abs(x) ** 2).sum()) + 1e-44 * n
    for part, o, v in (('real', ore, w.real), ('imag', oim, w.imag)):
        if o is None:
            continue
        e = numpy.abs(o - v)
        e = numpy.where(numpy.isfinite(e), e, numpy.inf)
        rec.require((e <= worst).all(), f'{name}:{part}', lambda: f'n={n}: bin {int(e.argmax())} is {o[e.argmax()]} want {v[e.argmax()]} bound {worst}', **ctx)
        m = float(numpy.sqrt((e ** 2).mean()))
        rec.require(m <= rms, f'{name}:{part}-precision', f'n={n}: root mean square error {m} bound {rms}', **ctx)


def run(build, cases):
    d = core.scratch('fft')
    cc.put(os.path.join(d, 'i'), numpy.array([len(cases)], 'i4'), *[a for p, re, im in cases for a in (numpy.array(p, 'i4'), re, im)])
    cc.run(EXE[build], [os.path.join(d, 'i'), os.path.join(d, 'o')], what='fft', timeout=100)
    b = open(os.path.join(d, 'o'), 'rb').read()
    p, out = 0, []
    for (tl, fl, n, *_), re, im in cases:
        rc = struct.unpack_from('<3i', b, p); p += 12
        a = [numpy.frombuffer(b, 'f4', len(re), p), numpy.frombuffer(b, 'f4', len(re), p + 4 * len(re))]
        p += 8 * len(re)
        t = max(tl, 0)
        tab = [numpy.frombuffer(b, 'f4', t, p), numpy.frombuffer(b, 'f4', t, p + 4 * t)]
        p += 8 * t
        out.append((rc, a, tab))
    return out


def transforms(rec, key):
    build, i = key
    g = core.rng('C14', 'fft', *key)
    cases = []
    top = core.pick(14, 17)
    for e in list(range(0, 11)) * 3 + [11, 12, 13, top] + ([core.pick(17, 20)] if i == 0 and build != 'san' else []):
        n = 1 << e
        re, im = signal(g, n)
        cases.append(((n // 2, n, n), re, im))
    if i < 2:
        # complete for the smallest lengths: every basis vector
        for n in (1, 2, 4, 8, 16, 32):
            for j in range(n):
                for v in (1.0, 1j):
                    x = numpy.zeros(n, complex); x[j] = v
                    cases.append(((n // 2, n, n), x.real.astype('f4'), x.imag.astype('f4')))
    for ((tl, fl, n), re, im), (rc, (ore, oim), (s, c)) in zip(cases, run(build, cases)):
        ctx = dict(n=n, real=re[:16], imag=im[:16])
        if not rec.require(rc[0] == 0 and rc[1] == 0, 'refused-valid-length', f'n={n}: {rc}', **ctx):
            continue
        rec.require(rc[2] == 0, 'table-modified', f'n={n}', **ctx)
        t = 2 * numpy.pi * numpy.arange(tl) / n
        rec.require((numpy.abs(s - numpy.sin(t)) <= 2 ** -23).all() and (numpy.abs(c - numpy.cos(t)) <= 2 ** -23).all(), 'table', lambda: f'n={n}: error {numpy.abs(s - numpy.sin(t)).max()} {numpy.abs(c - numpy.cos(t)).max()}', **ctx)
        judge(rec, 'forward', n, re, im, ore, oim, ctx)
        rec.ev('transforms'); rec.ev('bins', 2 * n); rec.ev(f'length_2^{n.bit_length() - 1:02d}')
        rec.case((re.tobytes(), im.tobytes()))
    rec.sample(dict(lengths=[c[0][2] for c in cases[:6]], signal=cases[5][1][:4]))


def refusals(rec, key):
    build, i = key
    g = core.rng('C14', 'ref', *key)
    cases = []
    for n in [0, 3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 31, 33, 48, 63, 65, 96, 100, 127, 129, 255, 257, 384, 500, 513, 1000, 1023, 1025, 3 * 1024, 65535] + [int(v) for v in g.integers(3, 5000, 20)]:
        if n & (n - 1) == 0 and n:
            continue
        re, im = signal(g, max(n, 1))
        cases.append(((n // 2, n, n), re, im, True))
    for _ in range(60):
        e = int(g.integers(0, 10)); f = int(g.integers(0, 10))
        n, m = 1 << e, 1 << f
        if n // 2 == m // 2:
            m = n * 4
        re, im = signal(g, n)
        cases.append(((m // 2, m, n), re, im, True))            # good table of another length
        cases.append(((n // 2 + int(g.choice([-1, 1, 5])), n, n), re, im, False))     # table buffer of another length
    cases = [c for c in cases if c[0][0] >= 0]
    for ((tl, fl, n), re, im, filled), (rc, (ore, oim), (s, c)) in zip(cases, run(build, [c[:3] for c in cases])):
        ctx = dict(table=tl, filled_for=fl, n=n)
        rec.require(rc[1] != 0, 'accepts-invalid', f'transform length {n} with table length {tl} gave {rc[1]}', **ctx)
        rec.require(ore.tobytes() == re.tobytes() and oim.tobytes() == im.tobytes(), 'refused-but-changed', f'{ctx}', **ctx)
        if not filled:
            rec.require(rc[0] != 0 and (s == 9).all() and (c == -9).all(), 'fill-accepts-invalid', f'{ctx} {rc[0]}', **ctx)
        rec.ev('refusals'); rec.case((tl, fl, n), nontrivial=True)


def binding(rec, key):
    g = core.rng('C14', 'py', key)
    calls, want = [], []
    for e in list(range(0, 11)) * core.pick(3, 10) + [12, core.pick(14, 18)]:
        n = 1 << e
        x, _ = signal(g, n, real=True)
        k = int(g.integers(0, 6))
        a = x
        if k == 0:
            a = x.astype('f8')
        elif k == 1:
            a = numpy.repeat(x, 3)[::3]
        elif k == 2:
            a = x[::-1].copy()[::-1]
        elif k == 3:
            a = (x / max(numpy.abs(x).max(), 1e-30) * 1000).astype('i2'); x = a.astype('f4')
        elif k == 4 and n < 2000:
            a = x.tolist()
        elif k == 5:
            a = x.copy(); a.flags.writeable = False
        calls.append(('eml_audio', 'rfft', (a,))); want.append(x)
    ngood = len(calls)
    bad = [0, 3, 5, 6, 7, 9, 12, 100, 1000, 1023, 1025]
    calls += [('eml_audio', 'rfft', (numpy.ones(n, 'f4'),)) for n in bad]
    for san in EXT:
        res = ext.call(EXT[san], calls, san=san)
        for (r, changed), x in zip(res, want):
            ctx = dict(n=len(x), x=x[:16])
            rec.require(not changed, 'rfft:argument-changed', '', **ctx)
            if not rec.require(r[0] == 'ok', 'rfft:refused', f'n={len(x)} {r}', **ctx):
                continue
            if not rec.require(r[1].shape == x.shape and r[1].dtype == numpy.float32 and not r[2], 'rfft:type', f'{r[1].shape} {r[1].dtype}', **ctx):
                continue
            judge(rec, 'rfft', len(x), x, numpy.zeros_like(x), r[1], None, ctx)
            rec.ev('binding_transforms'); rec.case(('py', x.tobytes()))
        for (r, _), n in zip(res[ngood:], bad):
            rec.require(r[0] == 'exc', 'rfft:accepts-invalid', f'n={n}: {str(r)[:100]}')
            rec.ev('binding_refusals')


def main():
    chk = core.Check('C14')
    for b, (flags, san, comp) in BUILDS.items():
        try:
            EXE[b] = cc.compile_c(DRIVER, flags=flags, san=san, compiler=comp, mechanism='driver')
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), b)
    for san in (False, True):
        try:
            EXT[san] = ext.build(san=san, modules=('eml_audio',), flags=('-O1',) if san else ('-O2',))
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), 'ext')
    chk.run(transforms, [(b, i) for i in range(core.pick(15, 200)) for b in EXE])
    chk.run(refusals, [(b, i) for i in range(core.pick(3, 20)) for b in EXE])
    chk.run(binding, range(core.pick(6, 60)))
    chk.finish('all power-of-two lengths with impulses, tones, noise and scales 1e-15..1e15, judged bin by bin against a float64 DFT; every basis vector up to length 32; refusals of other lengths and tables',
               dict(transforms=1000, bins=500000, refusals=500, binding_transforms=200, binding_refusals=50, **{'length_2^00': 10, 'length_2^10': 10, 'length_2^14': 5, 'length_2^17' if core.quick() else 'length_2^20': 1}),
               ['single-precision bound: 8 eps (log2 n + 1) times the sum of magnitudes, and 6 eps (log2 n + 1) times the Euclidean norm in mean square'])


main()
