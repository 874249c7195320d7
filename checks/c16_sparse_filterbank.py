"""C16: sparse filterbanks. Random filterbank matrices are converted and evaluated by the Python reduction, the binding and C programs built from the serialized
tables; the dense product in float64 judges each value. The mel tool is run on random parameter sets and its header compiled, read back and compared with librosa."""
import os, re, subprocess, sys, warnings
import numpy
from vlib import core, cc, ext

EXT, EXE = {}, {}
EPS = 2.0 ** -24


def matrix(g, librosa_too=True, large=0):
    k = int(g.integers(0, 8))
    bins = int(g.choice([1, 2, 3, 9, 33, 129, 513, 1025]))
    bands = int(g.choice([1, 2, 3, 8, 20, 40, 130]))
    if large:       # many bins, many bands, or both: positions and offsets behind 2^15 and 2^16
        bins, bands = [(70001, 2), (40000, 3), (9, 300), (1025, 130), (513, 300)][large - 1]
        k = 2 if bins < 10000 and bands > 10 else 4
    M = numpy.zeros((bands, bins))
    if k == 0 and librosa_too and bins > 8:
        import librosa
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return librosa.filters.mel(sr=16000, n_fft=(bins - 1) * 2, n_mels=bands, htk=bool(g.integers(0, 2)), norm=[None, 'slaney'][int(g.integers(0, 2))])
    for b in range(bands):
        r = g.random()
        if k == 1 and r < 0.3:
            continue                            # empty filter
        if k == 2:
            lo, hi = 0, bins - 1                # full support
        elif k == 3:
            lo = hi = int(g.integers(0, bins))  # single bin, anywhere
        elif k == 4:
            lo, hi = (0, int(g.integers(0, bins))) if r < 0.5 else (int(g.integers(0, bins)), bins - 1)
        else:
            lo, hi = sorted(int(v) for v in g.integers(0, bins, 2))
        n = hi - lo + 1
        v = g.normal(size=n) if k in (5, 2) else (numpy.minimum(numpy.arange(1, n + 1), numpy.arange(n, 0, -1)) * g.uniform(0.01, 3))
        if k == 6:
            v = v * 10.0 ** g.uniform(-9, 6)
        if k == 7 and n > 2:
            v[1:-1][g.random(n - 2) < 0.3] = 0.0          # zeros inside the support
        v = v.astype('f4').astype('f8')
        v[0] = v[0] or 1.0; v[-1] = v[-1] or 1.0
        M[b, lo:hi + 1] = v
    if k == 1 and not M.any():
        M[0, 0] = 1.0
    return M.astype('f4') if g.random() < 0.5 else M


def spectra(g, bins, n=6):
    s = numpy.stack([g.random(bins), g.normal(size=bins), numpy.ones(bins), (numpy.arange(bins) == int(g.integers(0, bins))) * 1.0, 10.0 ** g.uniform(-8, 5, bins), numpy.arange(bins) * 1.0])[:n]
    return s.astype('f4')


def bound(M, x):
    """single-precision products and sums over the support"""
    A = numpy.abs(M.astype('f8'))
    n = (M != 0).sum(1) + 4
    return EPS * 1.5 * n * (A @ numpy.abs(x.astype('f8'))) + 1e-40


def python_side(rec, key):
    from emlearn import signal
    g = core.rng('C16', 'py', key)
    calls, want, cases = [], [], []
    for rep in range(core.pick(40, 150)):
        M = matrix(g, large=(1 + (key + rep) % 5) if rep < 2 else 0)
        keep = M.copy()
        sp = signal.sparse_filterbank(M)
        starts, ends, coeffs = sp
        ctx = dict(shape=M.shape, starts=starts[:20], ends=ends[:20])
        rec.require((M == keep).all(), 'sparse:input-changed', '', **ctx)
        rec.require(len(starts) == len(ends) == len(M), 'sparse:bands', f'{len(starts)} {len(ends)} {len(M)}', **ctx)
        rec.require(len(coeffs) == sum(max(e - s + 1, 0) for s, e in zip(starts, ends)), 'sparse:coefficients', f'{len(coeffs)}', **ctx)
        rec.require(all(e < s or 0 <= s <= e < M.shape[1] for s, e in zip(starts, ends)), 'sparse:range', '', **ctx)
        D, o = numpy.zeros(M.shape), 0
        for b, (s, e) in enumerate(zip(starts, ends)):
            if e >= s:
                D[b, s:e + 1] = coeffs[o:o + e - s + 1]; o += e - s + 1
        rec.require((D == M).all(), 'sparse:content', lambda: f'{numpy.argwhere(D != M)[:4].tolist()}', **ctx)
        for x in spectra(g, M.shape[1]):
            X = x.astype('f8') if g.random() < 0.5 else x
            if (x == numpy.round(x)).all() and (x >= 0).all() and x.max() < 2**15 and g.random() < 0.6:
                X = x.astype(g.choice(['i2', 'u2', 'i4', 'i8']))       # raw counts
                rec.ev('integer_inputs')
            xk = X.copy()
            r = signal.sparse_filterbank_reduce(sp, X)
            w = M.astype('f8') @ x.astype('f8')
            rec.require(numpy.shape(r) == (len(M),) and (X == xk).all(), 'reduce:shape', f'{numpy.shape(r)}', **ctx)
            ok = numpy.abs(r - w) <= bound(M, x)
            rec.require(ok.all(), 'reduce:value', lambda: f'band {int(numpy.argmin(ok))}: {r[~ok][:3]} want {w[~ok][:3]}', x=x[:40], **ctx)
            rec.ev('python_reductions'); rec.ev('large_banks', int(len(coeffs) > 2**16 or M.shape[1] > 2**15)); rec.case((M.tobytes(), x.tobytes()))
            if len(calls) < 400:
                calls.append(('eml_audio', 'sparse_filterbank', (X, numpy.array(starts, g.choice(['i4', 'i8'])), numpy.array(ends), numpy.array(coeffs, g.choice(['f4', 'f8'])))))
                want.append((M, x, w))
    for san in EXT:
        for (r, changed), (M, x, w), c in zip(ext.call(EXT[san], calls, san=san), want, calls):
            ctx = dict(shape=M.shape, starts=c[2][1][:20], ends=c[2][2][:20])
            rec.require(not changed, 'binding:arguments-changed', f'{changed}', **ctx)
            if not rec.require(r[0] == 'ok', 'binding:refused', f'{r}', **ctx):
                continue
            if not rec.require(r[1].shape == (len(M),) and r[1].dtype == numpy.float32 and not r[2], 'binding:type', f'{r[1].shape}', **ctx):
                continue
            ok = numpy.abs(r[1] - w) <= bound(M, x) * 2
            rec.require(ok.all(), 'binding:value', lambda: f'band {int(numpy.argmin(ok))}: {r[1][~ok][:3]} want {w[~ok][:3]}', x=x[:40], **ctx)
            rec.ev('binding_reductions')
    rec.sample(dict(shape=want[0][0].shape, result=want[0][2][:4]))


def c_side(rec, key):
    from emlearn import signal
    g = core.rng('C16', 'c', key)
    code, tables = '#include <eml_audio.h>\n', []
    for t in range(core.pick(10, 20)):
        M = matrix(g, large=(1 + key % 5) if t == 0 and key % 2 else 0)
        if not M.any():
            continue
        name = str(g.choice(['bank', 'mel_1024', '_f', 'X'])) + str(t)
        kw = {}
        if g.random() < 0.6:
            kw = dict(n_fft=int(g.choice([16, 1024, 65536, 131072])), sr=int(g.choice([8000, 44100, 96000, 192000])), fmin=[0, 125.5, 20][int(g.integers(0, 3))], fmax=[8000.0, 3999.75, 22050, 96000, 48000.5][int(g.integers(0, 5))], frequencies=numpy.sort(g.uniform(0, float(g.choice([9000, 96000])), len(M))))
        code += signal.sparse_filterbank_serialize(signal.sparse_filterbank(M), name, **kw) + '\n'
        tables.append((name, M, kw))
    body = ''
    xs = []
    for name, M, kw in tables:
        X = spectra(g, M.shape[1])
        xs.append(X)
        body += f'''
    {{ float *X = (float *)v_get(4, &n); const int bins = {M.shape[1]};
      v_i32({name}_bands); v_i32({name}_length); v_i32((int)(sizeof({name}_starts)/sizeof({name}_starts[0]))); v_i32((int)(sizeof({name}_ends)/sizeof({name}_ends[0]))); v_i32((int)(sizeof({name}_lut)/sizeof({name}_lut[0])));
      for (int r = 0; r < {len(X)}; r++) {{ float *row = (float *)malloc(4 * bins); memcpy(row, X + r * bins, 4 * bins); float *out = (float *)malloc(4 * {name}_bands);
        for (int i = 0; i < {name}_bands; i++) {{ out[i] = 55.0f; }}
        v_i32(eml_sparse_filterbank(row, out, {name}_bands, {name}_starts, {name}_ends, {name}_lut)); v_i32(memcmp(row, X + r * bins, 4 * bins) != 0); v_put(out, 4, {name}_bands); free(row); free(out); }}
      free(X);'''
        if kw:
            body += f''' v_f32((float){name}_nfft); v_f32((float){name}_samplerate); v_f32((float){name}_fmin); v_f32((float){name}_fmax); v_i32((int)(sizeof({name}_frequencies)/4)); v_put({name}_frequencies, 4, {len(M)});'''
        body += ' }'
    prog = cc.READER + code + '\nint main(int argc, char **argv) { (void)argc; int64_t n; v_open(argv);' + body + '\n v_close(); return 0; }\n'
    for flags, san, cxx in ((['-std=c99', '-O1', '-Wall', '-Werror', '-Wno-unused-function', '-Wno-unused-const-variable'], True, False), (['-O2', '-w'], False, True)):
        exe = cc.compile_c(prog, flags=flags, san=san, cxx=cxx, mechanism='compile-tables')
        d = core.scratch('fb')
        cc.put(os.path.join(d, 'i'), *xs)
        cc.run(exe, [os.path.join(d, 'i'), os.path.join(d, 'o')], what='filterbank')
        b = open(os.path.join(d, 'o'), 'rb').read()
        p = 0
        for (name, M, kw), X in zip(tables, xs):
            hd = numpy.frombuffer(b, 'i4', 5, p); p += 20
            ctx = dict(shape=M.shape, name=name)
            rec.require(hd[0] == hd[2] == hd[3] == len(M) and hd[1] == hd[4], 'tables:lengths', f'{hd} for {M.shape}', **ctx)
            for x in X:
                rc, ch = numpy.frombuffer(b, 'i4', 2, p); p += 8
                r = numpy.frombuffer(b, 'f4', hd[0], p); p += 4 * hd[0]
                w = M.astype('f8') @ x.astype('f8')
                ok = numpy.abs(r - w) <= bound(M, x) * 2
                rec.require(rc == 0 and not ch, 'c:return', f'{rc} {ch}', **ctx)
                rec.require(ok.all(), 'c:value', lambda: f'band {int(numpy.argmin(ok))}: {r[~ok][:3]} want {w[~ok][:3]}', x=x[:40], **ctx)
                rec.ev('c_reductions'); rec.case(('c', M.tobytes(), x.tobytes()))
            if kw:
                c = numpy.frombuffer(b, 'f4', 4, p); p += 16
                w = numpy.array([kw['n_fft'], kw['sr'], kw['fmin'], kw['fmax']], 'f4')
                rec.require((c == w).all(), 'tables:constants', f'{c} want {w}', **ctx)
                nf = numpy.frombuffer(b, 'i4', 1, p)[0]; p += 4
                fr = numpy.frombuffer(b, 'f4', len(M), p); p += 4 * len(M)
                rec.require(nf == len(M) and (numpy.abs(fr - kw['frequencies']) <= 2 ** -23 * kw['frequencies'] + 1e-40).all(), 'tables:frequencies', f'{nf} {fr[:3]}', **ctx)
        rec.require(p == len(b), 'driver:length', f'{p} {len(b)}')


HAND = cc.READER + r'''
#include <eml_audio.h>
int main(int argc, char **argv) {
    (void)argc; v_open(argv); int64_t n, k;
    int32_t *hd = (int32_t *)v_get(4, &k);
    for (int c = 0; c < hd[0]; c++) {
        int64_t bands; float *x = (float *)v_get(4, &n), *keep = (float *)malloc(4 * n + 1); memcpy(keep, x, 4 * n);
        int *st = (int *)v_get(4, &bands), *en = (int *)v_get(4, &k); float *lut = (float *)v_get(4, &k);
        float *out = (float *)malloc(4 * bands + 1); for (int i = 0; i < bands; i++) { out[i] = NAN; }
        v_i32(eml_sparse_filterbank(x, out, (int)bands, st, en, lut)); v_i32(memcmp(x, keep, 4 * n) != 0); v_put(out, 4, bands);
        free(x); free(keep); free(st); free(en); free(lut); free(out);
    }
    free(hd); v_close(); return 0;
}
'''


def hand(rec, key):
    """tables that were not made by sparse_filterbank: zeros at the edges of a filter, empty filters that end anywhere, overlaps in any order, many coefficients"""
    build, i = key
    g = core.rng('C16', 'hand', *key)
    cases = []
    for rep in range(core.pick(60, 250)):
        bins, bands = int(g.choice([1, 2, 5, 33, 257])), int(g.choice([0, 1, 2, 7, 40]))
        if rep == 0:
            bins, bands = int(g.choice([70000, 33000])), 3
        st = g.integers(0, bins, bands)
        en = numpy.minimum(st + g.integers(-1, bins, bands), bins - 1)
        lut = [(g.normal(size=max(e - s + 1, 0)) * (g.random(max(e - s + 1, 0)) < float(g.choice([0.3, 0.8, 1.0])))).astype('f4') for s, e in zip(st, en)]
        x = spectra(g, bins)[int(g.integers(0, 6))]
        cases.append((x, st.astype('i4'), en.astype('i4'), lut))
    d = core.scratch('hand')
    cc.put(os.path.join(d, 'i'), numpy.array([len(cases)], 'i4'), *[a for x, st, en, lut in cases for a in (x, st, en, numpy.concatenate(lut + [numpy.zeros(0, 'f4')]).astype('f4'))])
    cc.run(EXE[build], [os.path.join(d, 'i'), os.path.join(d, 'o')], what='hand')
    b = open(os.path.join(d, 'o'), 'rb').read()
    p = 0
    for x, st, en, lut in cases:
        rc, ch = numpy.frombuffer(b, 'i4', 2, p); r = numpy.frombuffer(b, 'f4', len(st), p + 8); p += 8 + 4 * len(st)
        ctx = dict(bins=len(x), starts=st[:20], ends=en[:20])
        rec.require(rc == 0 and not ch, 'hand:return', f'{rc} {ch}', **ctx)
        t = [l.astype('f8') * x[s:s + len(l)] for s, l in zip(st, lut)]
        w = numpy.array([v.sum() for v in t])
        bd = numpy.array([EPS * 1.5 * (len(v) + 4) * numpy.abs(v).sum() + 1e-40 for v in t])
        ok = numpy.abs(r - w) <= bd
        rec.require(ok.all(), 'hand:value', lambda: f'filter {int(numpy.argmin(ok))} of {len(ok)}: {r[~ok][:3]} want {w[~ok][:3]}', **ctx)
        rec.ev('hand_tables'); rec.ev('hand_zero_edges', sum(int(len(l) > 0 and (l[0] == 0 or l[-1] == 0)) for l in lut)); rec.case(('hand', st.tobytes(), en.tobytes(), x.tobytes()))
    rec.require(p == len(b), 'driver:length', f'{p} {len(b)}')


def tool(rec, key):
    """the command line tool, in this process or as a command"""
    import librosa
    import emlearn.tools.mel_filterbank as mt
    g = core.rng('C16', 'tool', key)
    progs = []
    for rep in range(core.pick(6, 20)):
        sr = int(g.choice([8000, 16000, 22050, 44100, 48000, 11025, 22051, 7999, 96000, 192000]))
        n_fft = int(g.choice([64, 128, 256, 400, 512, 1024, 2048]))
        bands = int(g.choice([1, 2, 8, 20, 32, 40, 64]))
        opt = {'--samplerate': sr, '--fft': n_fft, '--bands': bands}
        fmin, fmax, htk, norm = 0, None, False, True
        if g.random() < 0.6:
            fmin = int(g.choice([0, 20, 125, 300])); opt['--fmin'] = fmin
        if g.random() < 0.6:
            fmax = int(g.choice([sr // 2, sr // 3, 3999, 2000 + fmin])); opt['--fmax'] = fmax
        if g.random() < 0.6:
            htk = bool(g.integers(0, 2)); opt['--htk'] = str(htk) if g.random() < 0.7 else str(htk).lower()
        if g.random() < 0.6:
            norm = bool(g.integers(0, 2)); opt['--normalize'] = str(norm)
        if g.random() < 0.5:
            opt['--linewrap'] = int(g.choice([1, 10, 30, 70, 120, 1000]))
        if rep == 0 and key % 3 == 0:
            # all defaults
            sr, n_fft, bands, fmin, fmax, htk, norm, opt = 16000, 1024, 32, 0, None, False, True, {}
        name = f'mel_{n_fft}_{bands}'
        if g.random() < 0.6:
            name = str(g.choice(['mybank', 'b2', '_mel'])); opt['--name'] = name
        out = name + '.h'
        if g.random() < 0.6:
            out = str(g.choice(['x.h', 'sub_out.h', 'table.txt'])); opt['--out'] = out
        wd = core.scratch('tool')
        argv = [str(v) for kv in opt.items() for v in kv]
        ctx = dict(argv=argv)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if rep == 0:
                r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'emlearn.tools.mel_filterbank', *argv], capture_output=True, text=True, cwd=wd, timeout=300)
                if not rec.require(r.returncode == 0, 'tool:exit', f'{argv}: {r.stderr[-600:]}', **ctx):
                    continue
                rec.ev('tool_commands')
            else:
                import contextlib, io
                old, cwd = sys.argv, os.getcwd()
                sys.argv = ['eml-mel-filterbank', *argv]
                os.chdir(wd)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        mt.main()
                finally:
                    sys.argv = old
                    os.chdir(cwd)
            M = librosa.filters.mel(sr=sr, n_fft=n_fft, n_mels=bands, fmin=fmin, fmax=fmax, htk=htk, norm='slaney' if norm else None)
            fr = librosa.mel_frequencies(n_mels=bands, fmin=fmin, fmax=fmax if fmax is not None else sr / 2, htk=htk)
        files = os.listdir(wd)
        if not rec.require(files == [out], 'tool:output-file', f'{files} want {out}', **ctx):
            continue
        text = open(os.path.join(wd, out)).read()
        if not M.any():
            continue
        progs.append((name, text, M, fr, [n_fft, sr, fmin, fmax if fmax is not None else sr / 2], ctx))
    for name, text, M, fr, consts, ctx in progs:
        X = spectra(g, M.shape[1], 3)
        prog = cc.READER + '#include <eml_audio.h>\n' + text + f'''
int main(int argc, char **argv) {{ (void)argc; int64_t n; v_open(argv); float *X = (float *)v_get(4, &n);
  v_i32({name}_bands); v_i32({name}_length); v_f32((float){name}_nfft); v_f32((float){name}_samplerate); v_f32((float){name}_fmin); v_f32((float){name}_fmax);
  v_i32((int)(sizeof({name}_frequencies) / 4)); v_put({name}_frequencies, 4, sizeof({name}_frequencies) / 4);
  for (int r = 0; r < 3; r++) {{ float out[{len(M)}]; v_i32(eml_sparse_filterbank(X + r * {M.shape[1]}, out, {name}_bands, {name}_starts, {name}_ends, {name}_lut)); v_put(out, 4, {len(M)}); }}
  free(X); v_close(); return 0; }}
'''
        exe = cc.compile_c(prog, flags=['-std=c99', '-O1', '-Wall', '-Werror', '-Wno-unused-function'], san=True, mechanism='compile-tool-header')
        d = core.scratch('fb')
        cc.put(os.path.join(d, 'i'), X)
        cc.run(exe, [os.path.join(d, 'i'), os.path.join(d, 'o')], what='tool-header')
        b = open(os.path.join(d, 'o'), 'rb').read()
        hd = numpy.frombuffer(b, 'i4', 2)
        c = numpy.frombuffer(b, 'f4', 4, 8)
        nf = int(numpy.frombuffer(b, 'i4', 1, 24)[0])
        f = numpy.frombuffer(b, 'f4', nf, 28)
        p = 28 + 4 * nf
        rec.require(hd[0] == len(M), 'tool:bands', f'{hd} want {len(M)}', **ctx)
        rec.require((c == numpy.array(consts, 'f4')).all(), 'tool:constants', f'{c} want {consts}', **ctx)
        rec.require(nf == len(fr) and (numpy.abs(f - fr) <= 1e-6 * fr + 1e-6).all(), 'tool:frequencies', lambda: f'{f[:4]} want {fr[:4]}', **ctx)
        for x in X:
            rc = numpy.frombuffer(b, 'i4', 1, p)[0]; r = numpy.frombuffer(b, 'f4', len(M), p + 4); p += 4 + 4 * len(M)
            w = M.astype('f8') @ x.astype('f8')
            ok = numpy.abs(r - w) <= bound(M, x) * 3
            rec.require(rc == 0 and ok.all(), 'tool:value', lambda: f'band {int(numpy.argmin(ok))}: {r[~ok][:3]} want {w[~ok][:3]}', **ctx)
            rec.ev('tool_reductions')
        rec.ev('tool_headers'); rec.case(('tool', repr(ctx['argv'])))


def main():
    chk = core.Check('C16')
    import librosa; librosa.filters.mel(sr=16000, n_fft=512)
    for san in (False, True):
        try:
            EXT[san] = ext.build(san=san, modules=('eml_audio',), flags=('-O1',) if san else ('-O2',))
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), 'ext')
    for b, (flags, san) in {'san': (['-std=c99', '-O1', '-w'], True), 'O2': (['-std=c99', '-O2', '-w'], False)}.items():
        try:
            EXE[b] = cc.compile_c(HAND, flags=flags, san=san, mechanism='driver')
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), b)
    chk.run(python_side, range(core.pick(8, 80)))
    chk.run(c_side, range(core.pick(16, 120)))
    chk.run(hand, [(b, i) for i in range(core.pick(8, 60)) for b in EXE])
    chk.run(tool, range(core.pick(12, 80)))
    chk.finish('random filterbanks (mel, triangles, single bins, full, edge and empty supports, zeros inside, negative, many scales) through Python, the binding and compiled tables; random parameter sets of the mel tool against librosa',
               dict(python_reductions=1000, binding_reductions=1000, c_reductions=500, tool_headers=40, tool_commands=5, tool_reductions=100, hand_tables=500, hand_zero_edges=500, large_banks=20, integer_inputs=50),
               ['at least one filter has a coefficient (ISO C has no empty arrays)'])


main()
