"""C15: mel spectrum. Random parameter sets (valid, boundary, and leaving the spectrum) run through the mel reduction, the power spectrum and the block
mel-spectrogram in C (exact-size blocks, ASan/UBSan) and through the binding; float64 HTK triangular filters with propagated single-precision bounds judge the values."""
import os, struct
import numpy
from vlib import core, cc, ext

DRIVER = cc.READER + r'''
#include <eml_audio.h>
static EmlVector vec(float *p, int64_t n) { EmlVector v; v.data = p; v.length = (int)n; return v; }
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    int64_t k; int32_t *hd = (int32_t *)v_get(4, &k);
    for (int c = 0; c < hd[0]; c++) {
        /* kind, n_mels, n_fft, samplerate, other lengths */
        int64_t n, m; int32_t *p = (int32_t *)v_get(4, &k); float *f = (float *)v_get(4, &k);
        const EmlAudioMel mel = { p[1], f[0], f[1], p[2], p[3] };
        if (p[0] == 0) {            /* reduction: spectrum, length of output */
            float *spec = (float *)v_get(4, &n), *keep = (float *)malloc(4 * n + 1); memcpy(keep, spec, 4 * n);
            m = p[4]; float *out = (float *)malloc(m > 0 ? 4 * m : 1); for (int i = 0; i < m; i++) { out[i] = -77.0f; }
            v_i32(eml_audio_melspec(mel, vec(spec, n), vec(out, m)));
            v_i32(memcmp(keep, spec, 4 * n) != 0); v_put(out, 4, m > 0 ? m : 0);
            free(spec); free(keep); free(out);
        } else if (p[0] == 1) {     /* block: audio, table length, temp length */
            float *x = (float *)v_get(4, &n), *keep = (float *)malloc(4 * n + 1); memcpy(keep, x, 4 * n);
            const int tl = p[4]; m = p[5];
            float *s = (float *)malloc(tl > 0 ? 4 * tl : 1), *co = (float *)malloc(tl > 0 ? 4 * tl : 1), *t = (float *)malloc(m > 0 ? 4 * m : 1);
            for (int i = 0; i < m; i++) { t[i] = 1e30f; }
            EmlFFT fft = { tl, s, co }; eml_fft_fill(fft, (size_t)(2 * tl));
            v_i32(eml_audio_melspectrogram(mel, fft, vec(x, n), vec(t, m)));
            v_i32(memcmp(keep, x, 4 * n) != 0); v_put(x, 4, n);
            free(x); free(keep); free(s); free(co); free(t);
        } else if (p[0] == 2) {     /* power spectrum: transform, output length */
            float *x = (float *)v_get(4, &n), *keep = (float *)malloc(4 * n + 1); memcpy(keep, x, 4 * n);
            m = p[4]; float *out = (float *)malloc(m > 0 ? 4 * m : 1); for (int i = 0; i < m; i++) { out[i] = -77.0f; }
            v_i32(eml_audio_power_spectrogram(vec(x, n), vec(out, m), p[2]));
            v_i32(memcmp(keep, x, 4 * n) != 0); v_put(out, 4, m > 0 ? m : 0);
            free(x); free(keep); free(out);
        } else {                    /* frequency helpers */
            float *x = (float *)v_get(4, &n);
            for (int64_t i = 0; i < n; i++) { v_f32(eml_audio_mels_from_hz(x[i])); v_f32(eml_audio_mels_to_hz(x[i])); v_f32(eml_audio_mel_center(mel, (int)(i % (p[1] + 2)))); v_f32(eml_fft_freq(mel, (int)(i % (1 + p[2] / 2)))); v_i32(eml_audio_mel_bin(mel, x[i])); }
            free(x);
        }
        free(p); free(f);
    }
    free(hd); v_close();
    return 0;
}
'''
BUILDS = {'san': (['-std=c99', '-O1', '-w'], True, 'gcc'), 'O2': (['-std=c99', '-O2', '-w'], False, 'gcc'), 'clang': (['-std=c99', '-O2', '-w'], False, 'clang')}
EXE, EXT = {}, {}
EPS = 2.0 ** -24
to_mel = lambda hz: 2595.0 * numpy.log10(1 + hz / 700.0)
to_hz = lambda mel: 700.0 * (10.0 ** (mel / 2595.0) - 1)


def filters(n_mels, n_fft, sr, fmin, fmax):
    """weights [n_mels, bins] and how far single-precision centre frequencies may move each weight"""
    mel = numpy.linspace(to_mel(fmin), to_mel(fmax), n_mels + 2)
    hz = to_hz(mel)
    freq = numpy.arange(1 + n_fft // 2) * (sr / 2.0) / (n_fft // 2)
    dmel = 6 * EPS * to_mel(fmax)
    dhz = (hz + 700) * (numpy.log(10) / 2595.0) * dmel + 3 * EPS * (hz + 700)
    dfreq = 3 * EPS * freq
    lo, up = hz[1:-1] - hz[:-2], hz[2:] - hz[1:-1]
    rise = (freq[None] - hz[:-2, None]) / lo[:, None]
    fall = (hz[2:, None] - freq[None]) / up[:, None]
    w = numpy.maximum(numpy.minimum(rise, fall), 0)
    d = dhz[:-2] + dhz[1:-1] + dhz[2:]
    dw = (d[:, None] + dfreq[None]) / numpy.minimum(lo, up)[:, None] * 2 + 8 * EPS
    near = (rise > -2 * dw) & (fall > -2 * dw)
    return w, numpy.where(near, dw * (1 + w), 0.0), hz, freq


def params(g):
    sr = int(g.choice([8000, 16000, 22050, 44100, 48000, 11025, 1, 2, 100, 96000, 192000]))
    n_fft = int(g.choice([2, 4, 6, 8, 10, 16, 30, 32, 64, 100, 128, 250, 256, 400, 512, 1024, 2048, 4096]))
    n_mels = int(g.choice([1, 2, 3, 8, 13, 20, 32, 40, 64, 128]))
    if g.random() < 0.015:       # large
        n_mels, n_fft = int(g.choice([40, 254, 255, 256, 300, 700])), int(g.choice([8192, 16384, 32768, 65536, 131072]))
    half = sr / 2.0
    k = int(g.integers(0, 7))
    fmin, fmax = [(0, half), (0, half * g.uniform(0.1, 1)), (half * g.uniform(0, 0.5), half), (half * 0.1, half * 0.3), (half * g.uniform(0, 0.4), half * g.uniform(0.5, 1)), (half * 0.9, half), (20.0 if half > 20 else 0.0, half)][k]
    return n_mels, n_fft, sr, float(numpy.float32(fmin)), float(min(numpy.float32(fmax), half))


def spectrum(g, n):
    k = int(g.integers(0, 6))
    if k == 0:
        s = numpy.ones(n)
    elif k == 1:
        s = (numpy.arange(n) == int(g.integers(0, n))) * 1.0
    elif k == 2:
        s = g.random(n)
    elif k == 3:
        s = g.normal(size=n)
    elif k == 4:
        s = numpy.zeros(n); s[[0, -1]] = [1.0, 2.0]
    else:
        s = 10.0 ** g.uniform(-8, 4, n)
    return (s * 10.0 ** float(g.choice([0, 0, 4, -6]))).astype('f4')


def audio(g, n):
    t = numpy.arange(n)
    k = int(g.integers(0, 6))
    x = [lambda: g.normal(size=n), lambda: numpy.sin(t * g.uniform(0, numpy.pi)), lambda: (t == n // 2) * 1.0, lambda: numpy.ones(n), lambda: numpy.cos(2 * numpy.pi * t * int(g.integers(0, n)) / n),
         lambda: numpy.sign(numpy.sin(t * 0.3))][k]()
    return (x * 10.0 ** float(g.choice([0, 0, 3, -4]))).astype('f4')


def judge_reduce(rec, name, spec, dspec, out, P, ctx):
    n_mels, n_fft, sr, fmin, fmax = P
    w, dw, hz, freq = filters(*P)
    s = spec[:w.shape[1]].astype('f8')
    want = w @ s
    bound = dw @ (numpy.abs(s) + dspec) + w @ dspec + (w.shape[1] + 4) * EPS * (w @ numpy.abs(s)) + 1e-43
    o = out.astype('f8')
    ok = numpy.abs(o - want) <= bound
    informative = bound < 0.05 * numpy.abs(want)
    rec.ev('bands', n_mels); rec.ev('large_bands', int(n_mels > 200)); rec.ev('large_lengths', int(n_fft > 4096)); rec.ev('bands_significant', int(informative.sum()))
    rec.ev('bands_zero', int((want == 0).sum()))
    return rec.require(ok.all(), name, lambda: f'{P}: band {int(numpy.argmin(ok))} of {n_mels}: {o[~ok][:3]} want {want[~ok][:3]} bound {bound[~ok][:3]}', **ctx)


def block_reference(x, n_fft):
    n = len(x)
    win = 0.5 - 0.5 * numpy.cos(2 * numpy.pi * numpy.arange(n) / (n - 1))
    xw = x.astype('f8') * win
    re = numpy.fft.fft(xw).real[:1 + n // 2]
    L = numpy.log2(n) + 1
    b = 8 * EPS * L * numpy.abs(xw).sum() + 4 * EPS * numpy.abs(x.astype('f8')).sum()
    s = re * re / n
    return s, (2 * numpy.abs(re) * b + b * b) / n + 6 * EPS * s


def execute(build, cases):
    d = core.scratch('mel')
    cc.put(os.path.join(d, 'i'), numpy.array([len(cases)], 'i4'), *[a for c in cases for a in (numpy.array(c['p'], 'i4'), numpy.array(c['f'], 'f4'), c['x'])])
    cc.run(EXE[build], [os.path.join(d, 'i'), os.path.join(d, 'o')], what='mel', timeout=100)
    return open(os.path.join(d, 'o'), 'rb').read()


def valid(rec, key):
    build, i = key
    g = core.rng('C15', 'valid', *key)
    cases = []
    for _ in range(core.pick(120, 500)):
        P = params(g)
        n_mels, n_fft, sr, fmin, fmax = P
        if fmax <= fmin:
            continue
        bins = 1 + n_fft // 2
        kind = int(g.choice([0, 0, 0, 1, 1, 2, 3]))
        if kind == 0:
            cases.append(dict(p=[0, n_mels, n_fft, sr, n_mels], f=[fmin, fmax], x=spectrum(g, bins + int(g.choice([0, 0, 0, 1, 7]))), P=P))
        elif kind == 1:
            n_fft = 1 << max(2, n_fft.bit_length() - 1)
            n_mels = min(n_mels, n_fft)
            cases.append(dict(p=[1, n_mels, n_fft, sr, n_fft // 2, n_fft + int(g.choice([0, 0, 1, 5]))], f=[fmin, fmax], x=audio(g, n_fft), P=(n_mels, n_fft, sr, fmin, fmax)))
        elif kind == 2:
            cases.append(dict(p=[2, 1, n_fft, sr, bins], f=[0, 1], x=spectrum(g, max(n_fft, bins + 1)) * numpy.float32(g.choice([1, -1])), P=P))
        else:
            x = numpy.concatenate([[0.0], 10.0 ** g.uniform(-2, 3.9, 20), [fmin, fmax, sr / 2]]).astype('f4')
            cases.append(dict(p=[3, n_mels, n_fft, sr], f=[fmin, fmax], x=x, P=P))
    b = execute(build, cases)
    p = 0
    for c in cases:
        kind, P, x = c['p'][0], c['P'], c['x']
        n_mels, n_fft, sr, fmin, fmax = P
        ctx = dict(params=P, kind=kind, x=x[:24])
        if kind == 3:
            r = numpy.frombuffer(b, 'f4', 5 * len(x), p).reshape(-1, 5); p += 20 * len(x)
            X = x.astype('f8')
            hz = filters(*P)[2]
            fr = numpy.arange(1 + n_fft // 2) * (sr / 2.0) / (n_fft // 2)
            idx = numpy.arange(len(x))
            tol_hz = (hz + 700) * (numpy.log(10) / 2595.0) * 6 * EPS * to_mel(fmax) + 3 * EPS * (hz + 700)
            for name, got, want, tol in (('mels_from_hz', r[:, 0], to_mel(X), 3 * EPS * to_mel(X) + 1e-12), ('mels_to_hz', r[:, 1], to_hz(X), 3 * EPS * to_hz(X) + 1e-12), ('mel_center', r[:, 2], hz[idx % (n_mels + 2)], tol_hz[idx % (n_mels + 2)]),
                                         ('fft_freq', r[:, 3], fr[idx % len(fr)], 3 * EPS * fr[idx % len(fr)])):
                ok = (numpy.abs(got - want) <= tol) | (want > 1e38)
                rec.require(ok.all(), name, lambda: f'{P}: {got[~ok][:3]} want {want[~ok][:3]}', **ctx)
            rec.ev('helpers', 4 * len(x)); rec.case((kind, P, x.tobytes()))
            continue
        rc, changed = struct.unpack_from('<2i', b, p); p += 8
        m = len(x) if kind == 1 else c['p'][4]
        out = numpy.frombuffer(b, 'f4', m, p); p += 4 * m
        if not rec.require(rc == 0, ['melspec', 'melspectrogram', 'power'][kind] + ':refuses-valid', f'{P} gave {rc}', **ctx):
            continue
        rec.case((kind, P, x.tobytes()))
        if kind == 0:
            rec.require(not changed, 'melspec:input-changed', '', **ctx)
            judge_reduce(rec, 'melspec:value', x, numpy.zeros(1 + n_fft // 2), out, P, ctx)
            rec.ev('reductions')
        elif kind == 1:
            s, ds = block_reference(x, n_fft)
            judge_reduce(rec, 'melspectrogram:value', s, ds, out[:n_mels], P, ctx)
            rec.ev('blocks')
        else:
            s = x[:m].astype('f8') ** 2 / n_fft
            ok = numpy.abs(out - s) <= 6 * EPS * s + 1e-44
            rec.require(ok.all() and not changed, 'power:value', lambda: f'{P}: {out[~ok][:3]} want {s[~ok][:3]} changed {changed}', **ctx)
            rec.ev('power_spectra')
    rec.require(p == len(b), 'driver:length', f'{p} {len(b)}')
    rec.sample(dict(params=cases[0]['P'], kind=cases[0]['p'][0]))


def refused(rec, key):
    build, i = key
    g = core.rng('C15', 'refused', *key)
    cases = []
    for _ in range(core.pick(150, 600)):
        n_mels, n_fft, sr, fmin, fmax = params(g)
        if fmax <= fmin:
            continue
        half = sr / 2.0
        bins = 1 + n_fft // 2
        kind = int(g.choice([0, 0, 1]))
        if kind == 1:
            n_fft = 1 << max(2, n_fft.bit_length() - 1)
            n_mels = min(n_mels, n_fft)
            bins = 1 + n_fft // 2
        slen, mlen, tl, tmp, xl = bins, n_mels, n_fft // 2, n_fft, n_fft
        why = str(g.choice(['fmax', 'fmax', 'fmax', 'fmin', 'order', 'order', 'n_fft', 'sr', 'nan', 'short', 'mels', 'buffers', 'buffers']))
        if why == 'fmax':
            fmax = half * float(g.choice([1.001, 1.01, 1.1, 1.5, 2, 3, 10, 1e5, 1e30]))
            if g.random() < 0.1:
                fmax = float('inf')
        elif why == 'fmin':
            fmin = -half * float(g.choice([0.001, 0.1, 0.5, 1, 10])) - 1e-3
            if g.random() < 0.1:
                fmin = float('-inf')
        elif why == 'order':
            fmin, fmax = [(fmax, fmin), (fmax, fmax), (half, half), (half * 2, half)][int(g.integers(0, 4))]
        elif why == 'n_fft':
            if kind == 1:
                n_fft = int(g.choice([0, -2, -1024]))
                xl = tmp = tl = max(n_fft, 0)
            else:
                n_fft = int(g.choice([0, -2, -4, -1024, -2**31]))
                slen = int(g.choice([0, 1, 5, 600]))
        elif why == 'sr':
            sr = int(g.choice([0, -1, -16000]))
        elif why == 'nan':
            if g.random() < 0.5:
                fmin = float('nan')
            else:
                fmax = float('nan')
        elif why == 'short':
            if kind == 0:
                slen = int(g.choice([0, 1, bins - 1, bins // 2]))
                if slen >= bins:
                    continue
            else:
                xl = int(g.choice([n_fft - 1, n_fft + 1, n_fft // 2, 0]))
        elif why == 'mels':
            if kind == 0:
                mlen = n_mels + int(g.choice([-1, 1, 5]))
            else:
                n_mels = int(g.choice([-1, n_fft + 1, n_fft * 2]))
        elif why == 'buffers':
            if kind == 0:
                continue
            r = int(g.integers(0, 3))
            if r == 0:
                tmp = int(g.choice([n_fft - 1, n_fft // 2, 1 + n_fft // 2, 0]))
                if tmp >= n_fft:
                    continue
            elif r == 1:
                tl = int(g.choice([n_fft // 2 - 1, n_fft // 2 + 1, n_fft, n_fft // 4]))
            else:
                n_fft = n_fft * 3 // 2 // 2 * 2      # even, no power of two
                if n_fft & (n_fft - 1) == 0:
                    continue
                xl = tmp = n_fft; tl = n_fft // 2
                n_mels = min(n_mels, n_fft)
        x = spectrum(g, max(slen, 1))[:slen] if kind == 0 else audio(g, max(xl, 1))[:xl]
        cases.append(dict(p=[0, n_mels, n_fft, sr, mlen] if kind == 0 else [1, n_mels, n_fft, sr, tl, tmp], f=[fmin, fmax], x=x.astype('f4'), why=why))
    b = execute(build, cases)
    p = 0
    for c in cases:
        rc, changed = struct.unpack_from('<2i', b, p); p += 8
        m = len(c['x']) if c['p'][0] == 1 else max(c['p'][4], 0)
        out = numpy.frombuffer(b, 'f4', m, p); p += 4 * m
        ctx = dict(p=c['p'], f=c['f'], length=len(c['x']), why=c['why'])
        name = ['melspec', 'melspectrogram'][c['p'][0]]
        rec.require(rc != 0, f'{name}:accepts-invalid:{c["why"]}', f'{ctx}', **ctx)
        if rc != 0:
            rec.require(not changed, f'{name}:refused-but-changed', f'{ctx}', **ctx)
        rec.ev('refusals'); rec.ev('refused_' + c['why']); rec.case((tuple(c['p']), tuple(map(repr, c['f'])), len(c['x'])))
    rec.require(p == len(b), 'driver:length', f'{p} {len(b)}')


def binding(rec, key):
    g = core.rng('C15', 'py', key)
    calls, want = [], []
    for _ in range(core.pick(80, 300)):
        n_mels, n_fft, sr, fmin, fmax = params(g)
        if fmax <= fmin:
            continue
        if g.random() < 0.5:
            x = spectrum(g, 1 + n_fft // 2)
            a = x.astype('f8') if g.random() < 0.3 else (numpy.repeat(x, 2)[::2] if g.random() < 0.3 else x)
            calls.append(('eml_audio', 'melfilter', (a, sr, n_fft, n_mels, fmin, fmax))); want.append((x, (n_mels, n_fft, sr, fmin, fmax)))
        else:
            n_fft = 1 << max(2, n_fft.bit_length() - 1)
            n_mels = min(n_mels, n_fft)
            x = audio(g, n_fft)
            a = x.astype('f8') if g.random() < 0.3 else (numpy.repeat(x, 2)[::2] if g.random() < 0.3 else x)
            calls.append(('eml_audio', 'melspectrogram', (a, sr, n_fft, n_mels, fmin, fmax))); want.append((x, (n_mels, n_fft, sr, fmin, fmax)))
    good = len(calls)
    one = numpy.ones
    calls += [('eml_audio', f, a) for f, a in [('melfilter', (one(128), 16000, 256, 20, 0, 8000)), ('melfilter', (one(129), 16000, 256, 20, 0, 8001)), ('melfilter', (one(129), 16000, 256, 20, -5, 8000)), ('melfilter', (one((129, 1)), 16000, 256, 20, 0, 8000)),
              ('melfilter', (one(129), 0, 256, 20, 0, 8000)), ('melfilter', (one(1), 16000, 0, 20, 0, 8000)), ('melfilter', (one(129), 8000, 256, 20, 0, 8000)), ('melspectrogram', (one(255), 16000, 256, 20, 0, 8000)),
              ('melspectrogram', (one(256), 8000, 256, 20, 0, 8000)), ('melspectrogram', (one(100), 16000, 100, 20, 0, 8000)), ('melspectrogram', (one(16), 16000, 16, 40, 0, 8000)), ('melspectrogram', (one((256, 1)), 16000, 256, 20, 0, 8000)),
              ('melspectrogram', (one(0), 16000, 0, 1, 0, 8000)), ('melspectrogram', (one(256), 16000, 256, 20, 9000, 100)), ('melspectrogram', (one(256), 16000, 256, 20, float('nan'), 100))]]
    for san in EXT:
        res = ext.call(EXT[san], calls, san=san)
        for (r, changed), (x, P), c in zip(res, want, calls):
            ctx = dict(params=P, x=x[:16])
            rec.require(not changed, f'{c[1]}:argument-changed', '', **ctx)
            if not rec.require(r[0] == 'ok', f'{c[1]}-binding:refuses-valid', f'{P} {r}', **ctx):
                continue
            if not rec.require(r[1].shape == (P[0],) and r[1].dtype == numpy.float32 and not r[2], f'{c[1]}-binding:type', f'{r[1].shape} {r[1].dtype}', **ctx):
                continue
            s, ds = (x, numpy.zeros(len(x))) if c[1] == 'melfilter' else block_reference(x, P[1])
            judge_reduce(rec, f'{c[1]}-binding:value', s, ds, r[1], P, ctx)
            rec.ev('binding_calls'); rec.case((c[1], P, x.tobytes()))
        for (r, changed), c in zip(res[good:], calls[good:]):
            rec.require(r[0] == 'exc' and not changed, f'{c[1]}-binding:accepts-invalid', f'{c[2][1:]} {str(r)[:100]}')
            rec.ev('binding_refusals')


def main():
    chk = core.Check('C15')
    for b, (flags, san, comp) in BUILDS.items():
        try:
            EXE[b] = cc.compile_c(DRIVER, flags=flags, san=san, compiler=comp, mechanism='driver')
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), b)
    for san in (False, True):
        try:
            EXT[san] = ext.build(san=san, modules=('eml_audio',), flags=('-O1',) if san else ('-O2',))
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), 'ext')
    chk.run(valid, [(b, i) for i in range(core.pick(20, 200)) for b in EXE])
    chk.run(refused, [(b, i) for i in range(core.pick(6, 60)) for b in EXE])
    chk.run(binding, range(core.pick(6, 60)))
    chk.finish('random mel parameter sets (even FFT lengths 2..131072, rates 1..192000, 1..700 bands, ranges up to exactly half the rate) on spectra and audio blocks; parameter sets and buffers just outside',
               dict(reductions=1000, blocks=500, bands_significant=20000, power_spectra=200, large_bands=30, large_lengths=40, helpers=5000, refusals=500, binding_calls=200, binding_refusals=50),
               ['even FFT lengths', 'bands narrower than single-precision frequency resolution are judged with the correspondingly wide bound'])


main()
