"""Build the Python extension modules from the tree under test and call them in a separate process, so that crashes are observed rather than suffered."""
import os, pickle, subprocess, sys, sysconfig
from . import cc, core
from .core import INC, REPO, Violation

MODULES = ('eml_audio', 'eml_signal')


def build(san=False, modules=MODULES, flags=('-O2',)):
    """directory with freshly compiled extension modules"""
    import pybind11
    d = core.scratch('ext')
    jobs = []
    for m in modules:
        cmd = ['g++', '-std=c++14', '-shared', '-fPIC', '-fvisibility=hidden', '-w', *flags, *(cc.SAN if san else []), '-I', INC, '-I', os.path.join(REPO, 'bindings'),
               '-I', pybind11.get_include(), '-I', sysconfig.get_paths()['include'], os.path.join(REPO, 'bindings', m + '.cpp'),
               '-o', os.path.join(d, m + sysconfig.get_config_var('EXT_SUFFIX'))]
        jobs.append((m, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for m, p in jobs:
        out, _ = p.communicate(timeout=600)
        if p.returncode:
            raise cc.CompileError('compile-bindings:' + m, out[:1500])
    return d


CHILD = r'''
import os, pickle, sys
import numpy
sys.path.insert(0, sys.argv[1])
calls = pickle.load(open(sys.argv[2], 'rb'))
out = open(sys.argv[3], 'wb')
import importlib
mods = {}
def view(v):
    # memory layouts do not survive pickling, so they are made here
    if not (isinstance(v, tuple) and len(v) == 3 and v[0] == '__layout__'):
        return v
    kind, a = v[1], v[2]
    if kind == 'strided':
        b = numpy.repeat(a, 2, axis=-1)
        return b[..., ::2]
    if kind == 'reversed':
        return a[..., ::-1].copy()[..., ::-1]
    if kind == 'fortran':
        return numpy.asfortranarray(a)
    if kind == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == 'unaligned':
        raw = bytearray(a.nbytes + 1)
        raw[1:] = a.tobytes()
        return numpy.frombuffer(raw, a.dtype, offset=1).reshape(a.shape) if a.size else a
    if kind == 'broadcast':
        return numpy.broadcast_to(a.ravel()[:1], a.shape) if a.size else a
    if kind == 'memoryview':
        return memoryview(a.copy())
    if kind == 'masked':
        return numpy.ma.array(a)
    if kind == 'list':
        return a.tolist()
    if kind == 'subclass':
        class Sub(numpy.ndarray):
            pass
        return a.view(Sub)
    if kind == 'array-raises':
        class R:
            def __array__(self, *x, **k):
                raise ValueError('no array here')
            def __len__(self):
                return 3
        return R()
    raise SystemExit(9)


for mod, fn, args, kw in calls:
    args = [view(a) for a in args]
    if mod not in mods:
        mods[mod] = importlib.import_module(mod)
    before = [a.tobytes() if isinstance(a, numpy.ndarray) else None for a in args]
    meta = [(a.shape, a.strides, a.dtype, a.flags.writeable) if isinstance(a, numpy.ndarray) else None for a in args]
    try:
        r = getattr(mods[mod], fn)(*args, **kw)
        if isinstance(r, numpy.ndarray):
            # a result must own its values, not refer to the arguments
            alias = any(isinstance(a, numpy.ndarray) and a.size and numpy.shares_memory(a, r) for a in args)
            r = numpy.array(r)
        else:
            alias = False
        res = ('ok', r, alias)
    except Exception as e:
        res = ('exc', type(e).__name__, str(e))
    changed = [i for i, a in enumerate(args) if isinstance(a, numpy.ndarray) and (a.tobytes() != before[i] or (a.shape, a.strides, a.dtype, a.flags.writeable) != meta[i])]
    pickle.dump((res, changed), out)
    out.flush()
'''


def call(d, calls, san=False, what='binding', timeout=300):
    """calls: (module, function, args[, kwargs]). Returns [(result, changed arguments)]; a process that does not answer all calls is a violation"""
    w = core.scratch('extcall')
    script, inp, outp = (os.path.join(w, n) for n in ('child.py', 'in', 'out'))
    with open(script, 'w') as f:
        f.write(CHILD)
    with open(inp, 'wb') as f:
        pickle.dump([(c[0], c[1], c[2], c[3] if len(c) > 3 else {}) for c in calls], f)
    env = dict(os.environ, **cc.SAN_ENV)
    if san:
        libs = [subprocess.run(['gcc', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip() for n in ('libasan.so', 'libubsan.so', 'libstdc++.so')]
        env['LD_PRELOAD'] = ' '.join(libs)
        env['PYTHONMALLOC'] = 'malloc'
    try:
        p = subprocess.run([sys.executable, script, d, inp, outp], capture_output=True, timeout=timeout, env=env)
        rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        rc, err = 'hang', ''
    res = []
    try:
        with open(outp, 'rb') as f:
            while True:
                res.append(pickle.load(f))
    except (EOFError, FileNotFoundError, pickle.UnpicklingError):
        pass
    rep = cc.san_report(err)
    if rep or rc != 0 or len(res) != len(calls):
        c = calls[len(res)] if len(res) < len(calls) else ('', 'after the last call', [])
        kind = rep or (f'signal{-rc}' if isinstance(rc, int) and rc < 0 else f'exit-{rc}')
        at = ''
        if rep:
            at = cc.san_where(err)
        raise Violation(f'{what}:{c[1]}:{kind}', f'{at} {[_brief(a) for a in c[2]]} {err[-900:] if not rep else err[:900]}', dict(function=c[1], args=[_brief(a) for a in c[2]]))
    return res


def _brief(a):
    import numpy
    if isinstance(a, numpy.ndarray):
        return f'array(shape={a.shape}, dtype={a.dtype}, {a.ravel()[:5].tolist() if a.dtype != object else "..."})'
    return repr(a)[:80]
