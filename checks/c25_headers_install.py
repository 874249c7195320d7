"""C25: (a) every public header alone, twice, after and before the others, in C and C++ dialects of two compilers, without diagnostics; programs made of all headers in
random orders and languages are linked and run, their self-checks are the oracle. (b) random histories of installing, tampering and updating the Arduino library in scratch
trees; a model of the directory contents judges every step. The headers of installed copies are compiled and run too."""
import os, re, shutil, stat, subprocess, sys
import numpy
from vlib import core, cc

BODY = open(os.path.join(core.VERIF, 'harness', 'contract.c')).read()
SYS = '\n'.join(re.findall(r'^#include <(?!eml_).*$', BODY, re.M))
REST = re.sub(r'^#include .*$', '', BODY, flags=re.M)
WARN = ['-Wall', '-Wextra', '-Wno-unused', '-Wno-unused-parameter', '-Werror']
DIALECTS = {'gcc-c99': (['gcc', '-std=c99', '-pedantic'], 'c'), 'gcc-c11': (['gcc', '-std=c11', '-pedantic'], 'c'), 'gcc-gnu17': (['gcc', '-std=gnu17'], 'c'), 'clang-c99': (['clang', '-std=c99', '-pedantic'], 'c'),
            'clang-c17': (['clang', '-std=c17'], 'c'), 'g++-11': (['g++', '-std=c++11'], 'cpp'), 'g++-17': (['g++', '-std=c++17'], 'cpp'), 'g++-20': (['g++', '-std=c++20'], 'cpp'),
            'clang++-11': (['clang++', '-std=c++11'], 'cpp'), 'clang++-17': (['clang++', '-std=c++17'], 'cpp')}
HEADERS = sorted(f for f in os.listdir(core.INC) if f.startswith('eml_') and f.endswith('.h'))


def syntax(rec, dialect, code, what, inc=core.INC):
    cmd, ext = DIALECTS[dialect]
    d = core.scratch('h')
    p = os.path.join(d, 'unit.' + ext)
    open(p, 'w').write(code)
    r = subprocess.run([*cmd, *WARN, '-c', '-I', inc, p, '-o', os.path.join(d, 'unit.o')], capture_output=True, text=True, timeout=300)
    kind = re.search(r'(error|warning): (.*)', r.stderr)
    kind = re.sub(r"[‘'].*?[’']", 'X', kind.group(2)) if kind else ''
    rec.require(r.returncode == 0 and not r.stderr.strip(), f'headers:{what}:{kind[:60]}', lambda: f'{dialect}: {r.stderr[:900]}', code=code[:3000])
    shutil.rmtree(d)
    rec.ev('units_compiled'); rec.ev('units_' + ext); rec.case((dialect, code))


def alone(rec, key):
    h, dialect = key
    main = '\nint v_unit(void);\nint v_unit(void) { return 0; }\n'
    q = f'#include <{h}>\n'
    syntax(rec, dialect, q + main, f'alone:{h}')
    syntax(rec, dialect, q + q + main, f'twice:{h}')
    syntax(rec, dialect, main + q + main.replace('v_unit', 'v_unit2') + q, f'after-code:{h}')
    rec.ev('headers_alone')


def together(rec, key):
    g = core.rng('C25', 'order', key)
    dialect = list(DIALECTS)[key % len(DIALECTS)]
    main = '\nint v_unit(void);\nint v_unit(void) { return 0; }\n'
    pairs = core.pick(1, 4)
    for _ in range(pairs):
        o = [str(x) for x in g.permutation(HEADERS)]
        syntax(rec, dialect, ''.join(f'#include <{h}>\n' for h in o) + main, 'together')
        a = o[:int(g.integers(2, 5))]
        a = a + [a[0]] + a[::-1]
        syntax(rec, dialect, ''.join(f'#include "{h}"\n' for h in a) + main, 'subset')
    rec.ev('orders')


def running(rec, key):
    """a program over all headers in a random order: links in both languages and passes its own checks"""
    g = core.rng('C25', 'run', key)
    dialect = list(DIALECTS)[key % len(DIALECTS)]
    cmd, ext = DIALECTS[dialect]
    run_program(rec, g, dialect, core.INC, 'program')


def run_program(rec, g, dialect, inc, what):
    cmd, ext = DIALECTS[dialect]
    o = [str(x) for x in g.permutation(HEADERS)]
    code = ''.join(f'#include <{h}>\n' for h in o) + SYS + '\n' + REST
    exe = cc.compile_c(code, flags=[*cmd[1:], '-w', str(g.choice(['-O0', '-O1', '-O2']))], compiler=cmd[0], cxx=ext == 'cpp', mechanism=f'headers:{what}-link', incs=(inc,))
    rounds = core.pick(200, 1000)
    r = cc.run(exe, [int(g.integers(1, 2**31)), rounds], what=what)
    lines = r.stdout.decode().splitlines()
    wrong = [l for l in lines if l.startswith('F ')]
    rec.require(not wrong, f'{what}:self-check', lambda: f'{dialect}: {wrong[:5]}', order=o)
    n = sum(int(l.split()[2]) for l in lines if l.startswith('C '))
    rec.require(n >= rounds * 50, f'{what}:ran', f'{dialect}: {n} calls')
    rec.ev('program_calls', n); rec.ev('programs_' + ext); rec.case((dialect, tuple(o)))
    rec.sample(dict(dialect=dialect, order=o[:6], calls=n))


def contents(d):
    """path -> (kind, bytes); symlinks as such"""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files + [x for x in dirs if os.path.islink(os.path.join(root, x))]:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = ('link', os.readlink(p)) if os.path.islink(p) else ('file', open(p, 'rb').read())
        for x in dirs:
            out.setdefault(os.path.relpath(os.path.join(root, x), d), ('dir', None))
    return out


def stamps(d):
    return {p: os.lstat(os.path.join(d, p)).st_mtime_ns for p in contents(d)}


def public(src):
    return {n: c[1] for n, c in contents(src).items() if c[0] == 'file' and os.sep not in n and (n.startswith('eml_') and n.endswith('.h') or n == 'VERSION.txt')}


def new_source(g, base, name):
    """an include directory: the real one, or a variation of it (another release)"""
    src = os.path.join(base, name)
    os.makedirs(src)
    for h in HEADERS + ['VERSION.txt']:
        shutil.copyfile(os.path.join(core.INC, h), os.path.join(src, h))
    k = int(g.integers(0, 4))
    if k:
        for _ in range(int(g.integers(1, 8))):
            f = str(g.choice(HEADERS + ['VERSION.txt']))
            raw = open(os.path.join(src, f), 'rb').read()
            how = int(g.integers(0, 5))
            raw = [raw + b'// changed\r\n', b'', raw[:len(raw) // 2], bytes(g.integers(0, 256, 3000, dtype='u1')), raw.replace(b'\n', b'\r\n')][how]
            open(os.path.join(src, f), 'wb').write(raw)
        for i in range(int(g.integers(0, 4))):
            open(os.path.join(src, f'eml_{"abcdefg"[int(g.integers(0, 7))]}{i}.h'), 'wb').write(b'/* new header */\n')
    if g.random() < 0.5:
        for f in ('convert.py', 'notes.txt', 'eml_notes.txt', 'other.h', 'eml_impl.c'):
            open(os.path.join(src, f), 'w').write('not public')
        os.makedirs(os.path.join(src, 'arduino'))
    return src


NAMES = ['libraries', 'my libs', 'libs[1]', 'bibliothèques', "o'brien", 'a*b', 'x{y}', '-lib', 'lib.d', 'l?', '$HOME', '[a-z]']


def history(rec, key):
    from emlearn.arduino.install import install_arduino_library
    import emlearn
    g = core.rng('C25', 'install', key)
    base = core.scratch('arduino')
    rec.require(os.path.realpath(emlearn.includedir) == os.path.realpath(core.INC), 'install:includedir', emlearn.includedir)
    sources = [new_source(g, base, str(n)) for n in g.choice(['src', 'src 1', 'src[12]', 'sr*c', 'ünï', 's?', '{a}', '[!x]src', '[src]'], 3, replace=False)]
    libs = os.path.join(base, str(g.choice(NAMES)))
    lib = os.path.join(libs, 'emlearn')
    via_cli = key % 4 == 0
    foreign = os.path.join(base, 'libs-neighbour')
    os.makedirs(foreign)
    open(os.path.join(foreign, 'eml_trees.h'), 'w').write('other')
    for step in range(core.pick(10, 25) if not via_cli else core.pick(3, 5)):
        src = sources[int(g.integers(0, len(sources)))]
        op = str(g.choice(['tamper', 'install', 'update', 'update', 'remove'], p=[.25, .25, .3, .1, .1]))
        if op == 'remove':
            shutil.rmtree(lib if g.random() < .7 else libs, ignore_errors=True)
            continue
        if op == 'tamper':
            if os.path.isdir(lib):
                for _ in range(int(g.integers(1, 5))):
                    f = os.path.join(lib, str(g.choice(HEADERS + ['VERSION.txt', 'mine.ino', 'eml_old.h'])))
                    k = int(g.integers(0, 4))
                    if k == 0 and os.path.exists(f):
                        os.unlink(f)
                    elif k == 1 and os.path.exists(f):
                        os.utime(f, (2**31, 2**31))      # newer than the source
                    elif k == 2 and os.path.exists(f):
                        n = os.path.getsize(f)           # same size, other bytes, old time stamp
                        open(f, 'wb').write(b'x' * n); os.utime(f, (1, 1))
                    else:
                        open(f, 'wb').write(b'stale')
            elif g.random() < .5:
                os.makedirs(libs if g.random() < .5 else lib, exist_ok=True)      # e.g. an empty library folder
            rec.ev('tampers')
            continue
        update = op == 'update'
        before, src_before, all_before = (contents(lib) if os.path.isdir(lib) else None), contents(src), stamps(base)
        existed = os.path.exists(lib)
        a, b = (src, libs) if g.random() < .7 else (src + '/', libs + '/')
        if g.random() < .2 and not via_cli:
            a, b = os.path.relpath(a), os.path.relpath(b)
        error = None
        if via_cli:
            cmd = [sys.executable, '-m', 'emlearn.arduino.install', f'--arduino-library-dir={b}', f'--emlearn-include-dir={a}'] + (['--update'] if update else [])
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=120, env=dict(os.environ, HOME=base))
            if r.returncode:
                error = r.stderr[-300:] or 'failed'
            rec.ev('cli_runs')
        else:
            try:
                got = install_arduino_library(a, b, update=True) if update else (install_arduino_library(a, b) if g.random() < .5 else install_arduino_library(a, b, update=False))
                rec.require(os.path.realpath(got) == os.path.realpath(lib), 'install:returned-path', f'{got}')
            except Exception as e:
                error = f'{type(e).__name__}: {e}'
        ctx = dict(source=os.path.basename(src), library=os.path.basename(libs), step=step, update=update)
        rec.require(contents(src) == src_before, 'install:source-changed', '', **ctx)
        rec.require(contents(foreign) == {'eml_trees.h': ('file', b'other')}, 'install:neighbour-changed', '', **ctx)
        if existed and not update:
            rec.require(error, 'install:existing-not-refused', '', **ctx)
            rec.require(contents(lib) == before and stamps(base) == all_before, 'install:refused-but-touched', '', **ctx)
            rec.ev('refused')
        else:
            if not rec.require(not error, 'install:failed', error, **ctx):
                return
            now, want = contents(lib), public(src)
            for n, raw in want.items():
                if not rec.require(now.get(n) == ('file', raw), 'install:file', lambda: f'{n}: {"missing" if n not in now else "differs from the source"} (library {"existed" if existed else "was new"}, {len(now)} files)', **ctx):
                    break
            own = {n: v for n, v in (before or {}).items() if not n.startswith('eml_') and n not in want}
            rec.require({n: now.get(n) for n in own} == own, 'install:file-of-the-user-lost', lambda: f'{[n for n in own if now.get(n) != own[n]]}', **ctx)
            rec.ev('user_files_kept', len(own))
            if not existed:
                rec.require(set(now) <= set(want), 'install:extra-files', lambda: f'{set(now) - set(want)}', **ctx)
            rec.ev('updates' if existed else 'fresh_installs'); rec.ev('files_compared', len(want))
        rec.case((key, step, op, existed))
    shutil.rmtree(libs, ignore_errors=True)
    if key % 8 == 1:
        # the library made from the real headers is all a sketch needs
        os.makedirs(libs)
        install_arduino_library(emlearn.includedir, libs)
        rec.require(public(core.INC) == {n: c[1] for n, c in contents(lib).items()}, 'install:real-headers', '')
        run_program(rec, g, str(g.choice(list(DIALECTS))), lib, 'installed-library')
        rec.ev('installed_libraries_used')
    rec.sample(dict(library=os.path.basename(libs), sources=[os.path.basename(s) for s in sources]))


def default_location(rec, key):
    """without --arduino-library-dir: the sketchbook of the user, here a scratch home"""
    home = core.scratch('home')
    def go(*args):
        return subprocess.run([sys.executable, '-m', 'emlearn.arduino.install', *args], capture_output=True, text=True, timeout=120, env=dict(os.environ, HOME=home))
    rec.require(go().returncode != 0 and contents(home) == {}, 'install:no-sketchbook', 'installed somewhere without a sketchbook')
    os.makedirs(os.path.join(home, 'Arduino'))
    r = go()
    lib = os.path.join(home, 'Arduino', 'libraries', 'emlearn')
    rec.require(r.returncode == 0, 'install:default-location', r.stderr[-400:])
    rec.require(os.path.isdir(lib) and {n: c[1] for n, c in contents(lib).items()} == public(core.INC), 'install:default-contents', '')
    before = (contents(home), stamps(home))
    rec.require(go().returncode != 0 and before == (contents(home), stamps(home)), 'install:default-refuse', '')
    open(os.path.join(lib, 'eml_net.h'), 'w').write('stale'); os.unlink(os.path.join(lib, 'eml_fft.h'))
    r = go('--update')
    rec.require(r.returncode == 0 and {n: c[1] for n, c in contents(lib).items()} == public(core.INC), 'install:default-update', r.stderr[-400:])
    rec.ev('cli_runs', 4); rec.ev('refused', 2)


def main():
    chk = core.Check('C25')
    chk.run(alone, [(h, d) for h in HEADERS for d in DIALECTS])
    chk.run(together, range(core.pick(20, 400)))
    chk.run(running, range(core.pick(20, 100)))
    chk.run(history, range(core.pick(64, 600)))
    chk.run(default_location, ['home'])
    chk.finish('every header x ten compiler dialects alone, twice and after code; random orders of all headers, compiled, linked and run; random install/tamper/update histories over several source versions and awkward paths',
               dict(headers_alone=200, units_c=300, units_cpp=300, programs_c=5, programs_cpp=5, refused=20, updates=60, fresh_installs=30, files_compared=2000, user_files_kept=3, cli_runs=20),
               ['headers define non-static functions: one translation unit per program, as documented by the single-header design', 'warnings of the unused family are not counted as diagnostics',
                'only one level of the library path is created'])


main()
