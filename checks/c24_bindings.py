"""C24: the python bindings, rebuilt with and without ASan/UBSan, called with arrays of hostile shape, type, layout and content in a child interpreter.
Every call must give the result of the same call on clean arrays, or an ordinary exception with a message; never a crash, a sanitizer report or changed arguments."""
import numpy
from vlib import core, cc, ext

EXT = {}
LAYOUTS = ['strided', 'reversed', 'fortran', 'readonly', 'unaligned', 'memoryview', 'masked', 'list', 'subclass', 'broadcast']


def contents(g, shape):
    n = int(numpy.prod(shape))
    k = int(g.integers(0, 9))
    if k < 4:
        a = g.normal(size=n)
    elif k == 4:
        a = g.normal(size=n) * 10.0 ** g.uniform(-30, 30, n)
    elif k == 5:
        a = g.choice([0.0, numpy.nan, numpy.inf, -numpy.inf, 1.0, -1.0, 3e38, -3e38, 1e-45], n)
    elif k == 6:
        a = numpy.zeros(n)
    elif k == 7:
        a = g.integers(-100, 100, n).astype(float)
    else:
        a = g.choice([1e300, -1e300, 3.5e38, 1.0], n)
    return numpy.asarray(a).reshape(shape)


def dress(g, a, rec, index=False):
    """a clean array as some array-like; None as second value: has no numbers at all, has to be refused"""
    k = int(g.integers(0, 22))
    a = numpy.asarray(a)
    if k < 6 or a.ndim == 0:
        return a.astype('i4' if index else g.choice(['f4', 'f8'])), False
    with numpy.errstate(all='ignore'):
        if k < 14:
            lay = str(g.choice(LAYOUTS))
            b = a.astype('i4' if index else g.choice(['f4', 'f8']))
            if lay == 'list' and a.size == 0:
                lay = 'readonly'        # a list does not keep the shape of an empty array
            if lay == 'broadcast' and (a.size == 0 or not numpy.all(a.ravel() == a.ravel()[0])):
                lay = 'strided'
            rec.ev('layout_' + lay)
            return ('__layout__', lay, b), False
        finite = a.size and numpy.all(numpy.isfinite(a)) and numpy.max(numpy.abs(a)) < 100.5 and numpy.all(a == numpy.round(a))
        if k < 17 and (finite or not a.size):
            dt = str(g.choice(['i1', 'i2', 'i4', 'i8', '>i4', 'f2', '>f4', '>f8', 'longdouble'] if index else ['i1', 'i2', 'i8', '>i2', 'f2', '>f4', '>f8', 'longdouble', 'O']))
            rec.ev('dtypes')
            return a.astype(dt), False
        if k == 17:
            rec.ev('dtypes')
            return a.astype(g.choice(['>f4', '>f8', 'longdouble', 'O']) if not index else '>i8'), False
        if k == 18:
            rec.ev('not_numbers')
            return [None, 'text', {}, object, ('__layout__', 'array-raises', None), {1: 2}, numpy.array([{}, None], object), numpy.array(['a', 'b'], object), numpy.zeros(4, 'V7'),
                    numpy.zeros(3, [('x', 'f4'), ('y', 'i4')])][int(g.integers(0, 10))], True
    return a.astype('i4' if index else 'f8'), False


def scalar(g, v, rec):
    """an integer argument as something else"""
    k = int(g.integers(0, 12))
    if k < 9:
        return v, False
    if k == 9:
        return numpy.int64(v), False
    rec.ev('bad_scalars')
    return [None, 'x', 2**40, -2**63, [v], numpy.zeros(3), object][int(g.integers(0, 7))], True


def clean32(a):
    with numpy.errstate(all='ignore'):
        return numpy.array(numpy.asarray(a).astype('f4'), order='C')


SHAPE = lambda g, n: [(n,), (n,), (n,), (n,), (n,), (n, 1), (1, n), (n, 2), (), (0,), (1,), (2, 3, 4), (1, 1, n), (0, 6), (3, 0)][int(g.integers(0, 15))]


def one(g, rec):
    """(module, function, clean args, hostile args, must raise, judge of the clean result)"""
    fn = int(g.integers(0, 5))
    must = False
    if fn == 0:
        n = int(g.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 24, 64, 100, 256, 1000, 1024]))
        a = contents(g, SHAPE(g, n))
        must = a.ndim != 1
        x = a.astype('f4')

        def judge(r):
            if r.shape != x.shape:
                return f'shape {r.shape}'
            if numpy.all(numpy.isfinite(x)) and numpy.all(numpy.abs(x) < 1e30):
                ref = numpy.fft.fft(x.astype('f8')).real
                tol = 1e-5 * (numpy.sum(numpy.abs(x.astype('f8'))) + 1e-30)
                return None if numpy.all(numpy.abs(r - ref) <= tol) else 'not the transform'
        return 'eml_audio', 'rfft', [('a', a)], must, judge
    if fn == 1 or fn == 2:
        n_fft = int(g.choice([0, 1, 2, 4, 8, 64, 100, 256, 512, 1024, 3, 7, -8]))
        ok = n_fft // 2 + 1 if fn == 1 else n_fft
        n = max(0, ok + int(g.choice([0, 0, 0, 0, 0, 0, 1, -1, 40])))
        a = contents(g, SHAPE(g, n))
        n_mels = int(g.choice([1, 2, 8, 20, 32, 64, 0, -1, -2**31, 128, 513, 2000]))
        sr = int(g.choice([16000, 8000, 44100, 48000, 0, -1, 1, 2**31 - 1, -2**31, 22050]))
        fmin = float(g.choice([0, 0, 0, 20, 125, 300, -10, numpy.nan, 1e38, 8000, numpy.inf]))
        fmax = float(g.choice([8000, 4000, 7600, 3800, 100, 0, -5, numpy.nan, 1e38, 1e300, numpy.inf]))
        if fn == 1:
            # length of a spectrum: C division rounds towards zero
            must = a.ndim != 1 or a.shape[0] != 1 + int(n_fft / 2)
        else:
            must = a.ndim != 1 or a.shape[0] != n_fft
        must = must or n_mels < 0

        def judge(r):
            return None if r.shape == (max(0, n_mels),) else f'shape {r.shape} for {n_mels} filters'
        return 'eml_audio', 'melfilter' if fn == 1 else 'melspectrogram', [('a', a), ('i', sr), ('i', n_fft), ('i', n_mels), ('f', fmin), ('f', fmax)], must, judge
    if fn == 3:
        n = int(g.choice([0, 1, 3, 10, 129]))
        x = contents(g, SHAPE(g, n))
        nf = int(g.choice([0, 1, 2, 5, 20]))
        hi = max(1, x.size)
        st = g.integers(0, hi, nf)
        sp = numpy.minimum(st + g.integers(-1, 6, nf), hi - 1)
        if g.random() < 0.3 and nf:
            k = int(g.integers(0, nf))
            st[k] = g.choice([-1, -2**31, 2**31 - 1, hi, hi - 1, 0])
            sp[k] = g.choice([-1, -2**31, 2**31 - 1, hi, hi - 1, hi + 1])
        if g.random() < 0.15:
            sp = sp[:-1] if g.random() < 0.5 else numpy.append(sp, 0)
        live = [(int(a), int(b)) for a, b in zip(st, sp) if b >= a]
        nc = sum(b - a + 1 for a, b in live)
        cn = int(min(max(nc, 0), 10**5)) + int(g.choice([0, 0, 0, 0, -1, 3]))
        co = contents(g, (max(0, cn),))
        if g.random() < 0.08:
            co = co[:, None]
        if g.random() < 0.08:
            st = st[None]
        must = x.ndim != 1 or co.ndim != 1 or st.ndim != 1 or len(st) != len(sp) or any(a < 0 or b >= x.shape[0] for a, b in live) or nc > len(co)

        def judge(r):
            if r.shape != (len(st),):
                return f'shape {r.shape} for {len(st)} filters'
            x32, c32, at = clean32(x).astype('f8'), clean32(co).astype('f8'), 0
            for i, (a, b) in enumerate(zip(st, sp)):
                k = max(0, b - a + 1)
                with numpy.errstate(all='ignore'):
                    t = x32[a:a + k] * c32[at:at + k] if k else numpy.zeros(0)
                at += k
                if numpy.all(numpy.isfinite(t)) and numpy.sum(numpy.abs(t)) < 1e37:
                    if not abs(r[i] - t.sum()) <= 1e-5 * numpy.sum(numpy.abs(t)) + 1e-40:
                        return f'filter {i}: {r[i]} for {t.sum()}'
        return 'eml_audio', 'sparse_filterbank', [('a', x), ('x', st), ('x', sp), ('a', co)], must, judge
    ns = int(g.choice([0, 1, 2, 3, 8]))
    sos = numpy.tile([1.0, 0, 0, 1, 0, 0], (ns, 1)) if ns else numpy.zeros((0, 6))
    if ns:
        sos[:, :3] = g.normal(size=(ns, 3))
        rad, th = g.uniform(0, 0.9, ns), g.uniform(0, numpy.pi, ns)
        sos[:, 4], sos[:, 5] = -2 * rad * numpy.cos(th), rad**2
    stable = True
    k = int(g.integers(0, 12))
    if k == 0 and sos.size:
        sos = contents(g, sos.shape)
        stable = False
    elif k == 1:
        sos = sos[:, :int(g.integers(0, 6))] if g.random() < 0.5 else numpy.hstack([sos, sos[:, :1]])
    elif k == 2:
        sos = sos.ravel() if g.random() < 0.5 else sos[None]
    x = contents(g, SHAPE(g, int(g.choice([0, 1, 2, 17, 300]))))
    must = sos.ndim != 2 or sos.shape[1] != 6 or x.ndim != 1

    def judge(r):
        import scipy.signal
        if r.shape != x.shape:
            return f'shape {r.shape} for {x.shape}'
        x32 = clean32(x).astype('f8')
        if stable and ns and x.size and numpy.all(numpy.abs(x32) < 1e30):
            ref = scipy.signal.sosfilt(clean32(sos).astype('f8'), x32)
            return None if numpy.all(numpy.abs(r - ref) <= 1e-3 * 50.0**ns * (numpy.max(numpy.abs(x32)) + 1e-30)) else 'not the filter'
    return 'eml_signal', 'iirfilter', [('a', sos), ('a', x)], must, judge


def history(rec, key):
    san, i = key
    g = core.rng('C24', san, i)
    calls, want = [], []
    for _ in range(core.pick(150, 400)):
        mod, fn, args, must, judge = one(g, rec)
        clean = [clean32(v) if t == 'a' else numpy.array(v, 'i4', order='C') if t == 'x' else v for t, v in args]
        calls.append((mod, fn, clean))
        want.append(('clean', must, judge, None))
        # the same call, dressed up
        h, bad = [], False
        for t, v in args:
            if t in 'ax':
                w, b = dress(g, v, rec, t == 'x')
            elif t == 'i':
                w, b = scalar(g, v, rec)
            else:
                w, b = (v, False) if g.random() < 0.9 else ([numpy.float64(v), int(v) if numpy.isfinite(v) and abs(v) < 1e9 else v, None, 'x'][int(g.integers(0, 4))], False)
                b = w is None or isinstance(w, str)
            h.append(w)
            bad = bad or b
        k = int(g.integers(0, 30))
        if k == 0 and h:
            h, bad = h[:-1], True
        elif k == 1:
            h, bad = h + [1], True
        calls.append((mod, fn, h))
        want.append(('dressed', must or bad, judge, len(calls) - 2))
    res = ext.call(EXT[san], calls, san=san)
    for j, ((r, changed), (kind, must, judge, twin)) in enumerate(zip(res, want)):
        mod, fn, args = calls[j]
        brief = [ext._brief(a) for a in args]
        rec.require(not changed, f'{fn}:arguments-changed', lambda: f'argument {changed} {brief}')
        rec.case((fn, tuple(brief), kind))
        rec.ev(f'calls_{fn}')
        if r[0] == 'exc':
            rec.ev('refused')
            rec.require(r[2].strip() != '' and r[1] not in ('SystemError', 'BaseException'), f'{fn}:exception', lambda: f'{r[1]} {r[2]!r} {brief}')
            rec.require(r[1] != 'MemoryError', f'{fn}:memory', lambda: f'{r} {brief}')
        else:
            rec.ev('answered')
            v, alias = r[1], r[2]
            if not rec.require(isinstance(v, numpy.ndarray) and v.dtype == numpy.float32, f'{fn}:result-type', lambda: f'{type(v)} {brief}'):
                continue
            rec.require(not must, f'{fn}:malformed-accepted', lambda: f'{v.shape} for {brief}')
            rec.require(not alias, f'{fn}:result-aliases-argument', lambda: f'{brief}')
            if not must:
                e = judge(v)
                rec.require(e is None, f'{fn}:result', lambda: f'{e} {brief}')
        if twin is not None and not must:
            c = res[twin][0]
            same = c[0] == r[0] and (c[0] == 'exc' or numpy.array_equal(c[1], r[1], equal_nan=True))
            rec.require(same, f'{fn}:depends-on-layout', lambda: f'{str(r)[:200]} for {brief}, {str(c)[:200]} for clean arrays')
            rec.ev('twins')
    rec.sample(dict(function=calls[1][1], args=[ext._brief(a) for a in calls[1][2]], result=str(res[1][0])[:120]))


def main():
    chk = core.Check('C24')
    for san in (False, True):
        try:
            EXT[san] = ext.build(san, flags=('-O1',) if san else ('-O2',))
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), san)
    if len(EXT) == 2:
        chk.run(history, [(s, i) for i in range(core.pick(24, 400)) for s in EXT])
    chk.finish('histories of binding calls with hostile arrays and scalars, each paired with the call on clean arrays, in instrumented and plain builds',
               dict(calls_rfft=1000, calls_melfilter=800, calls_melspectrogram=800, calls_sparse_filterbank=1000, calls_iirfilter=1000, refused=2000, answered=2000, twins=1000, not_numbers=100, dtypes=300, layout_strided=50,
                    layout_reversed=50, layout_readonly=50, layout_unaligned=50, layout_fortran=50, bad_scalars=100),
               ['indices fit 32 bits', 'filter sections with a0 = 1', 'complex and text arrays are converted by numpy as it likes and are left out'])


main()
