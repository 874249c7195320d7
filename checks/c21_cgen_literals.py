"""C21: what the code generator emits, compiled by gcc, clang and g++ and read back from the running program, has the value, length, order, element type
and linkage asked for; window headers are compared with the mathematical windows."""
import io, os, re, subprocess, sys, contextlib
import numpy
from vlib import core, cc

INTS = {'int8_t': (-2**7, 2**7 - 1), 'uint8_t': (0, 2**8 - 1), 'int16_t': (-2**15, 2**15 - 1), 'uint16_t': (0, 2**16 - 1), 'int32_t': (-2**31, 2**31 - 1),
        'uint32_t': (0, 2**32 - 1), 'int': (-2**31, 2**31 - 1), 'int64_t': (-2**63, 2**63 - 1), 'uint64_t': (0, 2**64 - 1), 'unsigned int': (0, 2**32 - 1)}
RAW = {'int8_t': 'i1', 'uint8_t': 'u1', 'int16_t': 'i2', 'uint16_t': 'u2', 'int32_t': 'i4', 'uint32_t': 'u4', 'int': 'i4', 'int64_t': 'i8', 'uint64_t': 'u8',
       'unsigned int': 'u4', 'float': 'f4', 'double': 'f8', 'eml_q16_t': 'i4', 'eml_fixed32_t': 'i4'}
COMP = {'gcc': dict(flags=['-std=gnu11', '-O0', '-w'], compiler='gcc'), 'clang': dict(flags=['-std=c11', '-O1', '-w'], compiler='clang'),
        'g++': dict(flags=['-std=c++17', '-O0', '-w', '-Wno-narrowing'], cxx=True)}
HEAD = '''#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <eml_fixedpoint.h>
'''
MAIN = '''
static void put(const void *p, size_t n) { fwrite(p, 1, n, stdout); }
#ifdef __cplusplus
#include <type_traits>
#define IS(expr, T) (std::is_same<decltype(expr), T>::value ? 1 : 0)
#else
#define IS(expr, T) _Generic((expr), T: 1, default: 0)
#endif
int main(void) { int32_t k;
%s
return 0; }
'''


def floats(g, n):
    k = g.integers(0, 8, n)
    v = numpy.where(k < 3, g.normal(size=n), g.normal(size=n) * 10.0 ** g.uniform(-42, 37.5, n))
    v = numpy.where(k == 3, numpy.round(g.normal(size=n) * 1000), v)
    v = numpy.where(k == 4, g.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1e-7, 4.9e-7, 5e-7, 9.9999994e-7, 123456.789, 16777216.0, 16777217.0, 3.4028234663852886e38, -3.4028234663852886e38,
                                      1.1754943508222875e-38, 1.401298464324817e-45, 1e-38, 0.1, 1 / 3, 999999.9999999, 0.99999997, 1e20, 1e10, 2**-24], n), v)
    v = numpy.where(k == 5, numpy.round(v, 6), v)
    return v


def ints(g, n, ct):
    lo, hi = INTS[ct]
    out = []
    for _ in range(n):
        k = int(g.integers(0, 6))
        if k == 0:
            out.append(int(g.choice([0, 1, 2, 5])) if lo == 0 else int(g.choice([-1, 0, 1, -2])))
        elif k == 1:
            out.append([lo, hi, lo + 1, hi - 1][int(g.integers(0, 4))])
        else:
            b = int(g.integers(1, 65))
            v = int(g.integers(0, 2**b - 1, dtype='u8', endpoint=True))
            v = v if lo == 0 or g.random() < 0.5 else -v
            out.append(min(max(v, lo), hi))
    return out


def as_form(g, vals, ct):
    """the same values as list, tuple, list of numpy scalars or numpy array"""
    k = int(g.integers(0, 4))
    if ct in INTS:
        dt = RAW[ct] if g.random() < 0.6 else ('u8' if ct == 'uint64_t' else 'i8')
        a = numpy.array(vals, dt)
    else:
        a = numpy.array(vals, 'f8')
    return [list(vals), tuple(vals), list(a), a][k]


def decl(g, i):
    """one declaration: text, C name, C type, expected values, how they are judged, array?, const?, static?"""
    from emlearn import cgen, fixedpoint
    name = str(g.choice(['v', '_x', 'Array_', 'aBc', 'v__'])) + str(i)
    kind = int(g.integers(0, 6))
    if kind == 0:
        ct = str(g.choice(list(INTS) + ['float', 'float', 'float', 'double']))
        v = ints(g, 1, ct)[0] if ct in INTS else float(floats(g, 1)[0])
        arg = v
        if g.random() < 0.5:
            arg = numpy.dtype(RAW[ct]).type(v)
            v = int(arg) if ct in INTS else float(arg)
        args = {} if ct == 'int' and g.random() < 0.5 else dict(dtype=ct)
        return dict(text=cgen.constant_declare(name, arg, **args), name=name, ct=ct, vals=[v], array=False, const=True, static=True)
    if kind == 1:
        f = int(g.choice([16, 16, 16, 0, 1, 8, 20, 24, 30, 31]))
        fmt = fixedpoint.FixedPointFormat(31 - f, f)
        n = int(g.choice([1, 2, 7, 40]))
        lim = 2.0 ** (31 - f)
        v = g.uniform(-lim, lim * (1 - 2.0**-31), n) * 10.0 ** -g.uniform(0, 6, n) * (g.random(n) < 0.9)
        v = numpy.where(g.random(n) < 0.1, g.choice([-lim, lim - 2.0**-f, 2.0**-f, -2.0**-f, 0.0]), v)
        if g.random() < 0.3:
            v = v.astype('f4')
            v[v >= lim - 2.0**-f] = 0
        mod = str(g.choice(['static const', 'const', 'static']))
        kw = dict(modifiers=mod)
        if g.random() < 0.3:
            kw['size'] = n
        return dict(text=cgen.array_declare_fixedpoint(name, fmt, v, **kw), name=name, ct='eml_q16_t' if f == 16 else 'eml_fixed32_t', vals=v.astype('f8').tolist(), frac=f,
                    array=True, const='const' in mod, static='static' in mod)
    ct = str(g.choice(list(INTS) + ['float'] * 8 + ['double']))
    n = int(g.choice([1, 1, 2, 3, 10, 100, 700]))
    vals = ints(g, n, ct) if ct in INTS else floats(g, n).tolist()
    kw = {}
    mod = 'static const'
    if g.random() < 0.6:
        mod = str(g.choice(['static const', 'const', 'static', 'static const volatile'] if kind > 2 else ['static', 'static const']))
        kw['modifiers'] = mod
    if g.random() < 0.3:
        kw['end'] = str(g.choice([' // end', '\n', ' /* x */']))
    if g.random() < 0.3:
        kw['indent'] = ' ' * int(g.integers(0, 9))
    if ct != 'float' or g.random() < 0.3:
        kw['dtype'] = ct
    if kind == 2 and 'const' not in mod:
        text = cgen.array_declare(name, n, **kw)
        vals = [0] * n
    elif kind == 3 and ct == 'float':
        text = cgen.array_declare_fixedpoint(name, None, as_form(g, vals, ct), **kw)
    else:
        if g.random() < 0.5:
            kw['size'] = n
        text = cgen.array_declare(name, values=as_form(g, vals, ct), **kw)
    return dict(text=text, name=name, ct=ct, vals=vals, array=True, const='const' in mod, static='static' in mod, volatile='volatile' in mod)


def judge(rec, d, raw):
    got = numpy.frombuffer(raw, RAW[d['ct']])
    n = len(d['vals'])
    if not rec.require(len(got) == n, 'length', lambda: f'{d["text"][:120]}: {len(got)} elements, {n} given'):
        return
    if d['ct'] in INTS:
        bad = [(w, int(v)) for w, v in zip(d['vals'], got) if w != int(v)]
        rec.ev('integers_compared', n)
    elif 'frac' in d:
        bad = [(w, int(v)) for w, v in zip(d['vals'], got) if not abs(int(v) - w * 2.0**d['frac']) <= 1]
        rec.ev('fixedpoint_compared', n)
    else:
        w = numpy.array(d['vals'], 'f8')
        with numpy.errstate(all='ignore'):
            ref = w.astype(got.dtype)
            exact = ref.astype('f8') == w
            ulp = numpy.spacing(numpy.abs(ref)).astype('f8')
            ok = numpy.where(exact | (d['ct'] == 'double'), (got == ref) & (numpy.signbit(got) == numpy.signbit(ref)), numpy.abs(got.astype('f8') - w) <= ulp)
        bad = [(w[i], float(got[i])) for i in numpy.flatnonzero(~ok)]
        rec.ev('floats_compared', n)
        rec.ev('tiny_floats', int(numpy.sum((numpy.abs(w) < 1e-6) & (w != 0))))
    rec.require(not bad, f'value:{d["ct"]}', lambda: f'given, evaluated: {bad[:4]} of {n}', text=d['text'][:300])


def literals(rec, key):
    comp, i = key
    g = core.rng('C21', 'lit', i)
    ds = [decl(g, j) for j in range(core.pick(60, 120))]
    body = []
    for d in ds:
        t = (('const ' if d['const'] else '') + ('volatile ' if d.get('volatile') else '') + d['ct']).strip()
        ref = f'&{d["name"]}[0]' if d['array'] else f'&{d["name"]}'
        body.append(f'k = (int32_t)sizeof({d["name"]}); put(&k, 4); k = IS({ref}, {t} *); put(&k, 4); put((const void *){ref}, sizeof({d["name"]}));')
    code = HEAD + '\n'.join(d['text'] for d in ds) + MAIN % '\n'.join(body)
    exe = cc.compile_c(code, mechanism='literals:compile', **COMP[comp])
    out = cc.run(exe, what='literals').stdout
    # linkage, from the symbol table
    syms = {}
    for l in subprocess.run(['nm', exe], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if len(p) == 3:
            syms[p[2]] = p[1]
    at = 0
    for d in ds:
        n, same = numpy.frombuffer(out[at:at + 8], 'i4')
        at += 8
        rec.require(same == 1, 'element-type', lambda: f'{d["text"][:120]} is not {d["const"] and "const " or ""}{d["ct"]}')
        judge(rec, d, out[at:at + n])
        at += int(n)
        s = [k for name, k in syms.items() if name == d['name'] or re.fullmatch(rf'_ZL\d+{re.escape(d["name"])}', name)]
        if s and comp != 'g++':
            rec.require(s[0].islower() == d['static'], 'linkage', lambda: f'{d["text"][:100]}: symbol class {s[0]}')
            rec.ev('linkage_checked')
        rec.ev('declarations')
        rec.case((d['text'], comp))
    rec.require(at == len(out), 'length', f'{len(out)} bytes, {at} read')
    rec.sample(dict(text=ds[0]['text'][:120], value=ds[0]['vals'][:2]))


def expressions(rec, key):
    """constants used as literals inside expressions and struct initialisers"""
    from emlearn import cgen
    comp, i = key
    g = core.rng('C21', 'expr', i)
    decls, body, want = [], [], []
    for j in range(60):
        f, ct = float(floats(g, 1)[0]), str(g.choice(list(INTS)))
        v = ints(g, 1, ct)[0]
        lf, li = cgen.constant(f), cgen.constant(v, ct)
        n = f's{j}'
        decls.append(cgen.struct_declare(n, 'S', [lf, f'({ct}){li}', 'arr', cgen.constant(j, 'int')]))
        body.append(f'{{ float f = {lf}; {ct} v = ({ct})({li}); double m = 0.0 - ({lf}); k = IS({lf}, float); put(&k, 4); put(&f, 4); put(&v, sizeof(v)); put(&m, 8); '
                    f'put(&{n}.f, 4); k = {n}.a == arr; put(&k, 4); put(&{n}.n, 4); }}')
        want.append((f, ct, v, j))
    decls.append(cgen.struct_declare('empty', 'S', None))
    body.append('k = empty.a == 0 && empty.n == 0; put(&k, 4);')
    code = HEAD + 'typedef struct { float f; double i; const float *a; int n; } S;\nstatic const float arr[2] = { 1.0f, 2.0f };\n' + '\n'.join(decls) + MAIN % '\n'.join(body)
    out = cc.run(cc.compile_c(code, mechanism='literals:compile', **COMP[comp]), what='literals').stdout
    at = 0

    def take(dt):
        nonlocal at
        v = numpy.frombuffer(out[at:at + numpy.dtype(dt).itemsize], dt)[0]
        at += numpy.dtype(dt).itemsize
        return v
    for f, ct, v, j in want:
        isf, cf, cv, neg, sf, same, n = take('i4'), take('f4'), take(RAW[ct]), take('f8'), take('f4'), take('i4'), take('i4')
        with numpy.errstate(all='ignore'):
            near = abs(float(cf) - f) <= float(numpy.spacing(numpy.abs(numpy.float32(f))))
        rec.require(isf == 1, 'literal:type', f'{cgen.constant(f)} is not a float literal')
        rec.require(near and neg == -float(cf) and sf == cf, 'literal:value', lambda: f'{f!r}: {cf!r} {neg!r} {sf!r}')
        rec.require(int(cv) == v, 'literal:value', lambda: f'{v} {ct}: {cv}')
        rec.require(same == 1 and n == j, 'struct:fields', f'{same} {n} {j}')
        rec.ev('literals')
        rec.ev('structs')
        rec.case((f, v, ct, comp))
    rec.require(take('i4') == 1, 'struct:fields', 'declaration without values')
    rec.require(at == len(out), 'length', f'{len(out)} {at}')


def fixed(rec, key):
    """the conversions on their own"""
    from emlearn.fixedpoint import FixedPointFormat, from_float, to_float
    g = core.rng('C21', 'fixed', key)
    for _ in range(core.pick(200, 2000)):
        f = int(g.integers(0, 31, endpoint=True))
        fmt = FixedPointFormat(31 - f, f)
        n = int(g.integers(1, 50))
        lim = 2.0 ** (31 - f)
        v = g.uniform(-lim, lim * (1 - 2.0**-31), n) * 10.0 ** -g.uniform(0, 8, n)
        v = v.astype(g.choice(['f8', 'f4']))
        v[v.astype('f8') > lim - 2.0**-f] = 0
        v0 = v.copy()
        q = from_float(v, fmt)
        b = to_float(q, fmt)
        rec.require(numpy.array_equal(v, v0), 'fixed:input-changed', '')
        rec.require(q.shape == v.shape and numpy.issubdtype(q.dtype, numpy.integer), 'fixed:shape', f'{q.shape} {q.dtype}')
        rec.require(numpy.all(numpy.abs(q.astype('f8') - v.astype('f8') * 2.0**f) <= 1), 'fixed:from_float', lambda: f'frac {f}', values=v[:5], got=q[:5])
        rec.require(numpy.all(numpy.abs(b - v.astype('f8')) <= 2.0**-f), 'fixed:roundtrip', lambda: f'frac {f}', values=v[:5], got=b[:5])
        rec.require(numpy.array_equal(from_float(b, fmt), q), 'fixed:not-stable', lambda: f'frac {f}', values=v[:5], got=b[:5])
        rec.ev('fixed_conversions')
        rec.case((f, v.tobytes()))


def refuse(rec, key):
    """sizes that contradict the values must not be emitted"""
    from emlearn import cgen
    g = core.rng('C21', 'refuse', key)
    for _ in range(50):
        n = int(g.integers(1, 20))
        size = int(n + g.choice([-1, 1, 5, 100]))
        try:
            t = cgen.array_declare('x', size, values=floats(g, n))
        except (AssertionError, ValueError):
            rec.ev('sizes_refused')
            continue
        rec.fail('size:contradiction-accepted', f'{n} values, size {size}: {t[:80]}')


# ---- windows, by their definitions
def cosines(a, n):
    x = 2 * numpy.pi * numpy.arange(n) / (n - 1)
    return sum((-1) ** i * c * numpy.cos(i * x) for i, c in enumerate(a))


def window(kind, n, symmetric):
    if n == 1:
        return numpy.ones(1)
    if not symmetric:
        return window(kind, n + 1, True)[:-1]
    k = numpy.arange(n)
    c = (n - 1) / 2
    if kind == 'boxcar':
        return numpy.ones(n)
    if kind == 'triang':
        return 1 - numpy.abs(k - c) / ((n + 1) / 2 if n % 2 else n / 2)
    if kind == 'bartlett':
        return 1 - numpy.abs(k - c) / c
    if kind == 'barthann':
        f = numpy.abs(k / (n - 1) - 0.5)
        return 0.62 - 0.48 * f + 0.38 * numpy.cos(2 * numpy.pi * f)
    if kind == 'bohman':
        f = numpy.abs(2 * k / (n - 1) - 1)
        w = (1 - f) * numpy.cos(numpy.pi * f) + numpy.sin(numpy.pi * f) / numpy.pi
        w[0] = w[-1] = 0
        return w
    if kind == 'parzen':
        m = numpy.abs(k - c)
        r = m / (n / 2)
        return numpy.where(m <= (n - 1) / 4, 1 - 6 * r**2 * (1 - r), 2 * (1 - r)**3)
    return cosines(dict(hann=[.5, .5], hamming=[.54, .46], blackman=[.42, .5, .08], blackmanharris=[.35875, .48829, .14128, .01168],
                        nuttall=[.3635819, .4891775, .1365995, .0106411], flattop=[.21557895, .41663158, .277263158, .083578947, .006947368])[kind], n)


KINDS = 'boxcar triang blackman hamming hann bartlett flattop parzen bohman blackmanharris nuttall barthann'.split()


def windows(rec, key):
    comp, i = key
    g = core.rng('C21', 'window', i)
    from emlearn.tools import window_function as tool
    d = core.scratch('win')
    inc, body, want = [], [], []
    for j in range(core.pick(14, 30)):
        kind = KINDS[(i * 5 + j) % len(KINDS)] if g.random() < 0.97 else 'hanning'
        n = int(g.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 64, 255, 256, 1024, 2048])) if g.random() < 0.6 else int(g.integers(1, 400))
        if j == 5 + i % 4 and i % 2 == 0:
            n = int(g.choice([4095, 4096, 4097, 5000, 8192, 16385, 70001]))
            rec.ev('long_windows')
        sym = bool(g.random() < 0.5)
        args = []
        if kind != 'hann' or g.random() < 0.7:
            args += ['--window', kind]
        dflt = n == 1024 and g.random() < 0.5
        args += [] if dflt else ['--length', str(n)]
        args += ['--symmetric'] if sym else []
        wrap = 70
        if g.random() < 0.7:
            wrap = int(g.choice([1, 2, 10, 20, 40, 69, 70, 71, 79, 80, 100, 300, 5000, 100000]))
            args += ['--linewrap', str(wrap)]
        named = g.random() < 0.7
        name = f'{g.choice(["win", "my_hann_window", "W", "_lut"])}{j}' if named else f'{kind}_{n}_lut'
        if not named and any(w[0] == name for w in want):
            continue
        args += ['--name', name] if named else []
        out = os.path.join(d, name + '.h')
        if g.random() < 0.6:
            out = os.path.join(d, f'file{j}.h')
            args += ['--out', out]
        if g.random() < 0.04 and kind != 'hanning':
            r = subprocess.run([sys.executable, '-m', 'emlearn.tools.window_function', *args], cwd=d, capture_output=True, text=True)
            if not rec.require(r.returncode == 0, 'window:tool-fails', r.stderr[-600:], args=args):
                continue
            rec.ev('tool_processes')
        else:
            argv, cwd = sys.argv, os.getcwd()
            os.chdir(d)
            sys.argv = ['eml-window-function', *args]
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    tool.main()
            except Exception as e:
                rec.require(kind == 'hanning', 'window:tool-fails', f'{type(e).__name__}: {e}', args=args)
                rec.ev('unknown_windows')
                continue
            finally:
                sys.argv = argv
                os.chdir(cwd)
        if kind == 'hanning':
            kind = 'hann'
            if not os.path.exists(out):
                continue
        if not rec.require(os.path.exists(out), 'window:no-output', f'{out} not written', args=args):
            continue
        text = open(out).read()
        long = [l for l in text.splitlines() if len(l) > wrap and ' ' in l.strip() and not l.startswith('//')]
        rec.require(not long, 'window:line-width', lambda: f'{len(long[0])} > {wrap}: {long[0][:90]!r}', args=args)
        inc.append(f'#include "{os.path.basename(out)}"')
        body.append(f'k = (int32_t)(sizeof({name}) / sizeof({name}[0])); put(&k, 4); k = (int32_t){name}_length; put(&k, 4); k = IS(&{name}[0], const float *) ; put(&k, 4); put({name}, sizeof({name}));')
        want.append((name, kind, n, sym, args))
    code = HEAD + '\n'.join(inc) + MAIN % '\n'.join(body)
    out = cc.run(cc.compile_c(code, mechanism='window:compile', workdir=d, **COMP[comp]), what='window').stdout
    at = 0
    for name, kind, n, sym, args in want:
        k, length, isf = numpy.frombuffer(out[at:at + 12], 'i4')
        at += 12
        w = numpy.frombuffer(out[at:at + 4 * k], 'f4').astype('f8')
        at += 4 * int(k)
        rec.require(k == n and length == n, 'window:length', f'{k} elements, constant {length}, {n} asked', args=args)
        rec.require(isf == 1, 'window:type', 'not const float', args=args)
        ref = window(kind, n, sym)
        if k == n:
            err = numpy.abs(w - ref)
            rec.require(numpy.all(err <= 2e-7 + 6e-8 * numpy.abs(ref)), 'window:values', lambda: f'{kind} {n} sym={sym}: error {err.max():.3g} at {int(err.argmax())}', args=args)
            rec.ev('window_values', n)
        rec.ev('windows')
        rec.ev('windows_symmetric' if sym else 'windows_periodic')
        rec.case((kind, n, sym, tuple(args), comp))
    rec.require(at == len(out), 'length', f'{len(out)} {at}')
    rec.sample(dict(args=want[0][4], compiler=comp))


def main():
    chk = core.Check('C21')
    cs = list(COMP)
    chk.run(literals, [(cs[i % 3], i) for i in range(core.pick(72, 600))])
    chk.run(expressions, [(cs[i % 3], i) for i in range(core.pick(18, 200))])
    chk.run(windows, [(cs[i % 3], i) for i in range(core.pick(72, 500))])
    chk.run(fixed, range(core.pick(8, 60)))
    chk.local(refuse, 'sizes')
    chk.finish('random declarations of constants, arrays, fixed-point arrays and structs, and window headers, compiled with gcc, clang and g++ and read back with type, length and linkage',
               dict(declarations=2000, integers_compared=5000, floats_compared=5000, tiny_floats=500, fixedpoint_compared=1000, linkage_checked=500, literals=500, structs=500, windows=400,
                    windows_symmetric=150, windows_periodic=150, window_values=20000, long_windows=15, fixed_conversions=1000, sizes_refused=40),
               ['finite floats within the range of float', 'fixed-point values within the range of the format', 'at least one element', 'struct modifiers are left out: models of nearest neighbours must be mutable, and the parameter is not applied'])


main()
