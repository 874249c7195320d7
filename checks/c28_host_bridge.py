"""C28: the bridge between Python and compiled C on the host. Instrumented C functions write what they receive to a side log; an offline checker compares the log with the matrix handed to Python and
the returned values with what the C function computed. Builds run concurrently, from varying working directories, with failing executables; the file system is compared before and after."""
import inspect, os, subprocess, sys, threading
import numpy
from vlib import core

from emlearn import common

PARAMS = {'cmodel', 'name', 'call', 'temp_dir', 'out_dtype', 'proba_call', 'n_classes', 'n_features'}
HOOK = PARAMS <= set(inspect.signature(common.CompiledClassifier).parameters)

ECHO = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
static void v_record(const float *values, int length, int row) {
    FILE *f = fopen("@LOG@", "ab");
    int32_t h[2]; h[0] = row; h[1] = length;
    if (!f) { exit(90); }
    fwrite(h, 4, 2, f); fwrite(values, 4, (size_t)length, f); fclose(f);
}
static void v_fault(const float *values, int row) {
    const int when = @ROW@, what = @WHAT@;
    (void)values;
    if (row != when) { return; }
    if (what == 1) { exit(3); }
    if (what == 2) { abort(); }
    if (what == 3) { raise(SIGKILL); }
}
static uint32_t v_key(const float *values, int length) { /* what is returned depends on nothing but the values */
    uint32_t h = 0, b;
    for (int i = 0; i < length; i++) { memcpy(&b, values + i, 4); h += b; }
    return h;
}
static float v_echo(const float *values, int length, int row) {
    v_record(values, length, row); v_fault(values, row);
    return @TOKEN@ ? (float)@TOKEN@ : values[v_key(values, length) % (uint32_t)length];
}
static int v_class(const float *values, int length, int row) {
    v_record(values, length, row); v_fault(values, row);
    return @TOKEN@ ? @TOKEN@ : (int)(v_key(values, length) % 30011u) - 15000;
}
static int v_proba(const float *values, int length, int row, float *out, int n) {
    v_record(values, length, row); v_fault(values, row);
    if (@WHAT@ == 4 && row == @ROW@) { return 2; }
    const int k0 = (int)(v_key(values, length) % (uint32_t)length);
    for (int c = 0; c < n; c++) { out[c] = values[(c + k0) % length]; }
    return 0;
}
'''


def echo(log, token=0, row=-1, what=0):
    code = ECHO
    for k, v in dict(LOG=log, ROW=row, WHAT=what, TOKEN=token).items():
        code = code.replace(f'@{k}@', str(v))
    return code


def read_log(path):
    """-> rows seen by the C function: [(row index, values)]; the log is emptied"""
    out = []
    if os.path.exists(path):
        b = open(path, 'rb').read()
        os.unlink(path)
        p = 0
        while p < len(b):
            row, n = numpy.frombuffer(b, '<i4', 2, p)
            out.append((int(row), numpy.frombuffer(b, '<f4', n, p + 8)))
            p += 8 + 4 * int(n)
    return out


def matrix(g, n, m, style):
    if style == 'bits':
        X = g.integers(0, 2**32, size=(n, m), dtype=numpy.uint32).view('f4')
        X = numpy.where(numpy.isfinite(X), X, numpy.float32(1.5))
    elif style == 'special':
        s = numpy.array([0.0, -0.0, 1.0, -1.0, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 1e-45, -1e-45, 16777216, 16777215, 0.1, 1 / 3, 9.9999994e9, 123456.79, 1e10, 8388609.0, 32767, -32768, 1e-5, 9.9999e-5], 'f4')
        X = g.choice(s, size=(n, m))
    elif style == 'int':
        X = g.integers(-32768, 32768, size=(n, m)).astype('f4')
    else:
        X = (g.normal(size=(n, m)) * 10.0 ** g.integers(-8, 9)).astype('f4')
    return numpy.ascontiguousarray(X, 'f4')


def present(g, X):
    """the same numbers in the forms users pass"""
    k = int(g.integers(0, 7))
    if k == 0:
        return X.astype('f8'), 'float64'
    if k == 1:
        return numpy.asfortranarray(X), 'fortran'
    if k == 2:
        return X.tolist(), 'list'
    if k == 3:
        return numpy.repeat(X, 2, axis=1)[:, ::2], 'strided'
    if k == 4:
        return numpy.flip(numpy.ascontiguousarray(numpy.flip(X, 0)), 0), 'reversed view'
    if k == 5:
        import pandas
        return pandas.DataFrame(X, index=numpy.arange(len(X))[::-1]), 'DataFrame'
    return X, 'float32'


DIRS = ['tmp', 'with space', 'a/b/c', 'ünï', 'x.y', '../beside', "it's", 'abs', 'tmp/']


def workdir(g):
    d = core.scratch('w')
    w = os.path.join(d, str(g.choice(['cwd', 'c w d', 'p/q'])))
    os.makedirs(w)
    os.chdir(w)
    t = str(g.choice(DIRS))
    return d, (os.path.join(d, 'abs dir') if t == 'abs' else t)


def same_rows(rec, got, X, what, info):
    rec.ev('rows_recorded', len(got))
    if not rec.require(len(got) == len(X), f'{what}:rows-seen', f'{len(got)} of {len(X)} {info}'):
        return False
    for i, (r, v) in enumerate(got):
        if not rec.require(len(v) == X.shape[1], f'{what}:row-length', f'call {i}: {len(v)} values of {X.shape[1]} {info}'):
            return False
        if not rec.require(v.tobytes() == X[i].tobytes(), f'{what}:values-changed', lambda: f'row {i}: {[(float(a), float(b)) for a, b in zip(X[i], v) if a.tobytes() != b.tobytes()][:3]} {info}'):
            return False
    return True


def f4(a):
    return numpy.asarray(a, 'f8').astype('f4')


def transport_case(rec, i):
    g = core.rng('C28', 'transport', i)
    d, temp = workdir(g)
    known = g.random() < .75
    m = int(g.choice([1, 2, 3, 7, 30, 100] + ([127, 255, 256, 257, 300, 700, 1030, 2500] if known else [])))
    k = int(g.choice([1, 2, 3, 10, 30, 200]))
    many = i % 20 == 5
    if many:
        m, k = int(g.choice([1, 2, 3])), 2
    log = f'{d}/log'
    name = str(g.choice(['m', 'model', 'my_model_2', 'Aaaa', 'x' * 60]))
    kind = str(g.choice(['float', 'int']))
    make = lambda: common.CompiledClassifier(echo(log), name=name, call='v_echo(values, length, row)' if kind == 'float' else 'v_class(values, length, row)', temp_dir=temp, out_dtype=kind,
                                             proba_call=f'v_proba(values, length, row, outputs, {k})', n_classes=k, n_features=m if known else None)
    c = make()
    for step in range(4):
        style = str(g.choice(['bits', 'special', 'int', 'normal']))
        n = int(g.choice([1, 2, 3, 17, 60])) if g.random() < .85 else int(g.choice([1000, 3000]))
        n = min(n, 60000 // m)
        if many and step >= 2:       # row numbers beyond 16 bits
            n = int(g.choice([33000, 66000, 70001]))
            rec.ev('calls_with_many_rows')
        X = matrix(g, n, m, style)
        P, form = present(g, X)
        before = X.copy()
        key = numpy.ascontiguousarray(X).view('u4').sum(axis=1, dtype='u4').astype('i8')
        info = f'{n}x{m} {style} as {form} temp_dir={temp!r} n_features={"given" if known else None}'
        if g.random() < .4:        # programs change directory between calls
            os.makedirs(d + '/elsewhere', exist_ok=True)
            os.chdir(d + '/elsewhere')
            rec.ev('calls_after_chdir')
        if (step == 2) if many else g.random() < .6:
            out = (c.predict if g.random() < .7 else c.regress)(P)
            if same_rows(rec, read_log(log), X, 'predict', info) and rec.require(len(out) == n, 'predict:outputs', f'{len(out)} {info}'):
                if kind == 'float':
                    want = X[numpy.arange(n), key % m]
                    w = [r for r in range(n) if f4([out[r]]).tobytes() != want[r].tobytes()]
                    rec.require(not w, 'predict:value-returned', lambda: f'row {w[0]}: {out[w[0]]!r} want {float(want[w[0]])!r} {info}')
                else:
                    want = [int(h % 30011) - 15000 for h in key]
                    rec.require(list(out) == want and all(int(o) == o for o in out), 'predict:class-returned', lambda: f'{list(out)[:5]} want {want[:5]} {info}')
            rec.ev('predict_calls')
        else:
            p = c.predict_proba(P)
            same_rows(rec, read_log(log), X, 'proba', info)
            want = X[numpy.arange(n)[:, None], (numpy.arange(k)[None] + (key % m)[:, None]) % m]
            if rec.require(numpy.shape(p) == (n, k), 'proba:shape', f'{numpy.shape(p)} want {(n, k)} {info}'):
                bad = f4(p).view('u4') != want.view('u4')
                rec.require(not bad.any(), 'proba:value-returned', lambda: f'{numpy.argwhere(bad)[:3].tolist()} {info}')
            rec.ev('proba_calls')
        rec.require(X.tobytes() == before.tobytes(), 'predict:input-modified', info)
        rec.case(('t', i, step), n=n)
    # what must not reach the executable
    X = matrix(g, 5, m, 'normal')
    for what, bad in dict(nan=numpy.where(numpy.arange(m) == m // 2, numpy.nan, X), inf=numpy.where(numpy.arange(m) == 0, numpy.inf, X), one_d=X[0], three_d=X[None], empty=X[:0], text=[['a'] * m], ragged=[[1.0] * m, [1.0] * (m + 1)],
                          **(dict(wide=numpy.hstack([X, X[:, :1]]), narrow=X[:, :-1] if m > 1 else X[:0]) if known else {})).items():
        try:
            with numpy.errstate(all='ignore'):
                r = c.predict(bad) if g.random() < .5 else c.predict_proba(bad)
            rec.fail('refuse:accepted', f'{what} -> {str(r)[:100]} {m} features')
        except Exception:
            pass
        rec.require(not read_log(log), 'refuse:reached-the-model', f'{what} {m} features')
        rec.ev('refused_inputs')
    rec.sample(dict(temp_dir=temp, features=m, classes=k))


def fault_case(rec, i):
    g = core.rng('C28', 'fault', i)
    d, temp = workdir(g)
    m, k, what = int(g.integers(1, 20)), 3, 1 + i % 5
    row = int(g.integers(0, 6))
    log = f'{d}/log'
    c = common.CompiledClassifier(echo(log, row=row, what=what), name='m', call='v_echo(values, length, row)', temp_dir=temp, out_dtype='float', proba_call=f'v_proba(values, length, row, outputs, {k})', n_classes=k, n_features=m)
    if what == 5:      # the executables vanish
        import glob, shutil
        for f in (c.bin_path, c.proba_bin_path):
            os.unlink(f)
    X = matrix(g, 6, m, 'normal')
    calls = [c.predict_proba] if what == 4 else [c.predict, c.predict_proba, c.regress]
    for f in calls:
        try:
            r = f(X)
            rec.fail('fault:result-returned', f'{f.__name__}: failure {what} at row {row} gave {str(r)[:80]}')
        except Exception as e:
            rec.ev('failures_reported')
        if what != 5:      # inputs that do not reach the failing row are still answered
            Y = X[:row]
            read_log(log)
            if len(Y):
                r = f(Y)
                same_rows(rec, read_log(log), Y, 'fault', f'{f.__name__} before row {row}')
                rec.require(len(r) == len(Y), 'fault:short-input', f.__name__)
        rec.case(('f', i, f.__name__))
    # code that does not compile is an error, and what was built before still answers
    try:
        common.CompiledClassifier(echo(log) + '\n#error stop\n', name='m', call='v_echo(values, length, row)', temp_dir=temp)
        rec.fail('fault:compile-error-hidden', '#error')
    except Exception:
        rec.ev('failures_reported')



def own_model(token, d, g, bad, models, note=lambda: None):
    """models of one thread or process: every answer must be of the own C code"""
    for j in range(models):
        t = token * 100 + j + 1
        c = common.CompiledClassifier(echo(f'{d}/log-{t}', token=t), name='m', call='v_class(values, length, row)', temp_dir='tmp', out_dtype='int', n_features=2)
        for n in g.integers(1, 40, size=3):
            X = matrix(g, int(n), 2, 'normal')
            out = list(c.predict(X))
            if out != [t] * len(X):
                bad('concurrent:answer-of-another-model', f'model {t}: {out[:5]} {len(out)} rows of {len(X)}')
            got = read_log(f'{d}/log-{t}')
            if [r for r, _ in got] != list(range(len(X))) or b''.join(v.tobytes() for _, v in got) != X.tobytes():
                bad('concurrent:rows-of-another-model', f'model {t}')
            note()


def concurrent_case(rec, i):
    g = core.rng('C28', 'concurrent', i)
    d = core.scratch('c')
    os.chdir(d)
    lock, problems, done = threading.Lock(), [], [0]
    nt = int(g.integers(2, 7))
    barrier = threading.Barrier(nt)

    def work(t):
        def note():
            with lock:
                done[0] += 1
        try:
            barrier.wait()
            own_model(t + 1, d, numpy.random.default_rng([i, t]), lambda m, x: problems.append((m, x)), 2, note)
        except Exception as e:
            problems.append(('concurrent:error', f'thread {t}: {type(e).__name__} {str(e)[:300]}'))
    others = []
    for p in range(2):       # processes that share the working directory
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                own_model(50 + p, d, numpy.random.default_rng([i, 50 + p]), lambda m, x: os._exit(7), 2)
            except BaseException:
                code = 8
            os._exit(code)
        others.append(pid)
    th = [threading.Thread(target=work, args=(t,)) for t in range(nt)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    for pid in others:
        _, st = os.waitpid(pid, 0)
        rec.require(st == 0, 'concurrent:process', f'status {st}: 7 = wrong answer, 8 = error')
        rec.ev('concurrent_processes')
    for m, x in problems:
        rec.fail(m, x)
    rec.ev('concurrent_calls', done[0])
    rec.ev('concurrent_threads', nt)
    rec.case(('c', i), n=max(1, done[0]))


# ---------------------------------------------------------------- compile_executable
def tree(root):
    out = {}
    for p, ds, fs in os.walk(root):
        for f in fs:
            q = os.path.join(p, f)
            out[q] = open(q, 'rb').read()
        for x in ds:
            out[os.path.join(p, x)] = None
    return out


def source(token):
    return f'#include <stdio.h>\n#include "tok.h"\nint main(int argc, char **argv) {{ printf("%d %d %d %s\\n", {token}, HEADER_TOKEN, argc, argc > 1 ? argv[1] : "-"); return {token} % 7; }}\n'


def run_exe(rec, path, token, head, info):
    p = path if os.sep in path else './' + path
    try:
        r = subprocess.run([p, 'arg'], capture_output=True, timeout=60)
    except OSError as e:
        rec.fail('executable:not-runnable', f'{path!r}: {e} {info}')
        return
    rec.require(r.stdout == f'{token} {head} 2 arg\n'.encode() and r.returncode == token % 7, 'executable:of-other-source', f'{path!r} printed {r.stdout!r}, want {token} {head} {info}')
    rec.ev('executables_run')


def exe_case(rec, i):
    g = core.rng('C28', 'exe', i)
    d = core.scratch('e')
    pick = lambda *a: a[int(g.integers(0, len(a)))]
    cwd, src, inc, out = (os.path.join(d, n) for n in (pick('cwd', 'w d', 'a/b'), pick('src', 's r c', 'a/b/c/src', 'ünï'), pick('inc', 'i nc'), pick('out', 'o ut', 'deep/er/out', 'src2')))
    for p in (cwd, src, inc):
        os.makedirs(p, exist_ok=True)
    if g.random() < .6:
        os.makedirs(out, exist_ok=True)
    os.chdir(cwd)
    if g.random() < .15:
        src = cwd
    if g.random() < .1:
        out = src
    form = lambda p: p if g.random() < .5 else os.path.relpath(p)
    token = int(g.integers(1000, 10**6))
    head = int(g.integers(1000, 10**6))
    base = pick('main.c', 'x.c', 'my prog.c', 'a.b.c')
    code = os.path.join(src, base)
    name = pick('main', 'prog', 'p q', 'x.y', None)
    open(code, 'w').write(source(token))
    open(inc + '/tok.h', 'w').write(f'#define HEADER_TOKEN {head}\n')
    info = f'source {os.path.relpath(code, d)!r} out {os.path.relpath(out, d)!r} cwd {os.path.relpath(cwd, d)!r} name {name!r}'
    args = dict(include_dirs=[form(inc)], **(dict(name=name) if name else {}))
    for step in range(3):
        before = tree(d)
        c, o = form(code), form(out)
        inc_list = list(args['include_dirs'])
        p = common.compile_executable(c, o, **args)
        rec.require(args['include_dirs'] == inc_list, 'executable:arguments-changed', info)
        rec.require(os.path.basename(p) == (name or 'main') and os.path.abspath(os.path.dirname(p)) == out, 'executable:path', f'{p!r} {info}')
        run_exe(rec, p, token, head, f'step {step} {info}')
        after = tree(d)
        changed = sorted(q for q in set(before) | set(after) if before.get(q, 0) != after.get(q, 0) and not (q + '/').startswith(out + '/') and not (out + '/').startswith(q + '/'))
        rec.require(not changed, 'executable:writes-elsewhere', f'{[os.path.relpath(q, d) for q in changed]} with source {"absolute" if os.path.isabs(c) else "relative"} {info}')
        rec.ev('trees_compared')
        rec.case(('e', i, step))
        if g.random() < .5:     # a changed header or source is picked up
            head += 1
            open(inc + '/tok.h', 'w').write(f'#define HEADER_TOKEN {head}\n')
        else:
            token += 1
            open(code, 'w').write(source(token))
    open(code, 'w').write(pick('#error stop\n', 'int main() { return missing(); }\n', 'int x;\n', 'int main( {\n'))
    try:
        p = common.compile_executable(form(code), form(out), **args)
        rec.fail('executable:error-hidden', f'{open(code).read()!r} {info}')
    except Exception:
        rec.ev('failures_reported')
    rec.require(os.getcwd() == cwd, 'executable:working-directory-changed', info)


def parallel_exe_case(rec, i):
    """many programs compiled at once: same source with different headers, same file name in different folders"""
    g = core.rng('C28', 'parallel-exe', i)
    d = core.scratch('p')
    os.chdir(d)
    n = 8
    shared = i % 2 == 0
    for t in range(n):
        os.makedirs(f'{d}/s{t}')
        open(f'{d}/s{t}/tok.h', 'w').write(f'#define HEADER_TOKEN {t + 5}\n')
        open(f'{d}/s{t}/main.c', 'w').write(source(0 if shared else t))
    where = str(g.choice(['relative', 'absolute']))
    barrier, res = threading.Barrier(n), {}

    def work(t):
        try:
            barrier.wait()
            s = 's0' if shared else f's{t}'
            inc = f'{d}/s{t}'
            code = f'{s}/main.c' if where == 'relative' else f'{d}/{s}/main.c'
            if shared:      # the header next to the source would win over the include directory
                code = code.replace('s0/main.c', 'shared.c')
            res[t] = common.compile_executable(code, f'out{t}', include_dirs=[inc])
        except BaseException as e:
            res[t] = e
    open(d + '/shared.c', 'w').write(source(0))
    th = [threading.Thread(target=work, args=(t,)) for t in range(n)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    for t in range(n):
        if rec.require(isinstance(res[t], str), 'parallel-executables:error', f'{res[t]!r} shared source {shared} {where}'):
            run_exe(rec, res[t], 0 if shared else t, t + 5, f'one of {n} compiled at once, {"same source" if shared else "same name"}, {where}')
        rec.ev('parallel_compiles')
    rec.case(('p', i), n=n)


def case(rec, key):
    kind, i = key
    home = os.getcwd()
    try:
        dict(transport=transport_case, fault=fault_case, concurrent=concurrent_case, exe=exe_case, parallel=parallel_exe_case)[kind](rec, i)
    finally:
        os.chdir(home)


def main():
    chk = core.Check('C28')
    keys = [('exe', i) for i in range(core.pick(25, 300))] + [('parallel', i) for i in range(core.pick(6, 60))]
    if HOOK:
        keys += [('transport', i) for i in range(core.pick(120, 700))] + [('fault', i) for i in range(core.pick(15, 120))] + [('concurrent', i) for i in range(core.pick(6, 60))]
    chk.run(case, keys)
    need = dict(executables_run=100, trees_compared=60, parallel_compiles=40, failures_reported=20)
    if HOOK:
        need.update(rows_recorded=3000, predict_calls=60, proba_calls=40, refused_inputs=200, calls_after_chdir=20, calls_with_many_rows=4, concurrent_calls=60, concurrent_processes=8)
    chk.finish('one case = one matrix handed to a compiled C function (rows counted), one failing call, one concurrent build, or one compiled program; the C functions record what they receive, an offline checker compares bit by bit',
               need, ['values are representable in single precision (the interface of the C test program)', 'classes and integers below 10^9', 'POSIX host'])


main()
