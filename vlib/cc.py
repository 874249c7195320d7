"""Compile and run C code of the tree under test, plain or with sanitizers."""
import os, re, struct, subprocess
import numpy
from .core import INC, Violation, scratch

STRICT = ['-std=c99', '-Wall', '-Wextra', '-Wpointer-arith', '-Wdouble-promotion', '-Wfloat-conversion',
          '-Wno-unused-parameter', '-Wno-unused-variable', '-Wno-unused-function', '-Werror']
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g']
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1',
           'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77'}
RUN_TIMEOUT = 120


class CompileError(Violation):
    pass


def compile_c(code, out=None, flags=('-std=c99', '-O1', '-w'), san=False, cxx=False, libs=('-lm',), compiler=None,
              mechanism='compile', workdir=None, incs=(INC,), extra_files=()):
    """code: text. Returns path of the executable; raises CompileError (a Violation)."""
    d = workdir or scratch('cc')
    src = os.path.join(d, 'main.cpp' if cxx else 'main.c')
    with open(src, 'w') as f:
        f.write(code)
    out = out or os.path.join(d, 'prog')
    cmd = [compiler or ('g++' if cxx else 'gcc'), *flags, *(SAN if san else []), '-I', d]
    for i in incs:
        cmd += ['-I', i]
    cmd += [src, *extra_files, '-o', out, *libs]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CompileError(mechanism, r.stderr[:1500], dict(cmd=' '.join(cmd), code=code[:200000]))
    return out


def san_report(stderr):
    """(kind, where) of a sanitizer report, or None"""
    m = re.search(r'ERROR: (AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([\w-]+)', stderr)
    if m:
        return f'asan:{m.group(2)}'
    m = re.search(r'runtime error: ([^\n]*)', stderr)
    if m:
        s = re.sub(r'-?\d[\w.+-]*|0x[0-9a-f]+', 'N', m.group(1))
        return f'ubsan:{s[:80]}'
    if 'WARNING: ThreadSanitizer' in stderr:
        return 'tsan:' + (re.search(r'ThreadSanitizer: ([\w ]+)', stderr) or [0, 'race'])[1].strip()
    return None


def san_where(stderr):
    m = re.findall(r'(eml_[\w]+\.h|model\w*\.h|\w+\.jinja)[:](\d+)', stderr)
    return m[0][0] if m else ''


def run(exe, args=(), stdin=None, timeout=RUN_TIMEOUT, env=None, cwd=None, ok=(0,), what='run'):
    """run a driver; sanitizer reports, signals and hangs are violations"""
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    try:
        r = subprocess.run([exe, *map(str, args)], input=stdin, capture_output=True, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise Violation(f'{what}:hang', f'no end within {timeout}s of a computation that takes milliseconds')
    err = r.stderr.decode('utf8', 'replace')
    rep = san_report(err)
    if rep:
        raise Violation(f'{what}:{rep}', san_where(err) + ' ' + err[:1500])
    if r.returncode < 0:
        raise Violation(f'{what}:signal{-r.returncode}', err[:800])
    if ok is not None and r.returncode not in ok:
        raise Violation(f'{what}:exit{r.returncode}', err[:800] + r.stdout[:300].decode('utf8', 'replace'))
    return r


def put(path, *arrays):
    """binary input file: each array as int64 length + raw data"""
    with open(path, 'wb') as f:
        for a in arrays:
            a = numpy.ascontiguousarray(a)
            f.write(struct.pack('<q', a.size))
            f.write(a.tobytes())


READER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static FILE *v_in, *v_out;
static int64_t v_len(void) { int64_t n = 0; if (fread(&n, 8, 1, v_in) != 1) { exit(99); } return n; }
/* exact-size heap block, so that a sanitizer sees every access outside */
static void *v_get(size_t size, int64_t *n_out) {
    int64_t n = v_len();
    void *p = malloc(n > 0 ? n * size : 1);
    if (n && fread(p, size, (size_t)n, v_in) != (size_t)n) { exit(98); }
    if (n_out) { *n_out = n; }
    return p;
}
static void v_put(const void *p, size_t size, size_t n) { if (n && fwrite(p, size, n, v_out) != n) { exit(97); } }
static void v_i32(int32_t v) { v_put(&v, 4, 1); }
static void v_f32(float v) { v_put(&v, 4, 1); }
static void v_open(char **argv) {
    v_in = fopen(argv[1], "rb"); v_out = fopen(argv[2], "wb");
    if (!v_in || !v_out) { exit(96); }
}
static void v_close(void) { fclose(v_in); fclose(v_out); }
'''
