"""C09: generated C. Oracles: compilers run strictly on saved code (gcc and clang C99, g++/clang++), the linker for several models in one program,
an allocator interposed at link time while inference runs, and the files save() writes."""
import os, subprocess
import numpy, emlearn
from vlib import core, cc, families
from vlib.core import Violation

CXX_FLAGS = ['-std=c++11', '-Wall', '-Wextra', '-Wno-unused-parameter', '-Wno-unused-variable', '-Wno-unused-function', '-Wno-missing-field-initializers', '-Werror']
NAMES = ['m', 'M', '_m', 'model', 'Model1', 'a', 'B', 'tree', 'net', 'nb', 'my_model', 'my_model_2', 'my_model_22', '__x', 'vowels',
         'means', 'classifier', 'ABC_def_09', 'a' * 60, 'sonar', 'int_', 'for1', 'predict', 'weights', 'nodes', 'roots', 'leaves', 'activations', 'eml', 'xgb', 'layer_0', 'q']
PARAMS = ['features', 'n_features', 'features_length', 'values', 'values_length', 'out', 'out_length', 'err', 'length', 'probabilities', 'score', 'resp', 'dist', 'outlier']
# C11 keywords, written down here independently of the code under test
KEYWORDS = '''auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short
signed sizeof static struct switch typedef union unsigned void volatile while _Bool _Complex _Imaginary _Alignas _Alignof _Atomic _Generic _Noreturn
_Static_assert _Thread_local'''.split()
BADNAMES = ['', ' ', '1', '1a', '0_', 'a-b', 'a b', ' a', 'a ', 'a.b', 'a\n', '\na', 'a\nb', 'a\t', 'a;', 'a(', '*a', '&a', 'a[0]', 'a/b', '"a"', 'ä', 'naïve', 'a\x00', 'a$', '#a', 'a,b', 'a+b', '::a', 'моdel', 'a\r', '٣a', 'a٣']

ALLOC = r'''
static long v_allocs; static int v_watch;
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n); void __real_free(void *p);
void *__wrap_malloc(size_t n) { if (v_watch) { v_allocs++; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (v_watch) { v_allocs++; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (v_watch) { v_allocs++; } return __real_realloc(p, n); }
void __wrap_free(void *p) { if (v_watch) { v_allocs++; } __real_free(p); }
'''
WRAP = ['-Wl,--wrap=malloc', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc', '-Wl,--wrap=free']


def syntax(rec, compiler, flags, code, mech, info, inc=True, ext='c'):
    d = core.scratch('syn')
    p = f'{d}/model.{ext}'
    with open(p, 'w') as f:
        f.write(code + '\nint main(void) { return 0; }\n')
    r = subprocess.run([compiler, *flags, *(['-I', core.INC] if inc else []), '-c', p, '-o', f'{d}/o'], capture_output=True, text=True)
    rec.ev(f'compiled_{mech}')
    rec.require(r.returncode == 0 and not r.stderr.strip(), f'compile:{mech}', lambda: f'{r.stderr[:900]} {info}', code=code[:60000])


def one(rec, key):
    family, i = key
    g = core.rng('C09', family, i)
    mod = families.make(g, family, nq=12)
    w = mod.convert()
    name = NAMES[int(g.integers(0, len(NAMES)))]
    code = w.save(name=name)
    info = f'{mod.info} name={name}'
    rec.case((family, i))
    syntax(rec, 'gcc', cc.STRICT + ['-pedantic'], code, 'gcc-c99', info)
    syntax(rec, 'clang', cc.STRICT, code, 'clang-c99', info)
    syntax(rec, 'g++', CXX_FLAGS, code, 'g++', info, ext='cpp')
    if i % 3 == 0:
        syntax(rec, 'clang++', CXX_FLAGS, code, 'clang++', info, ext='cpp')
    if mod.header_free:
        syntax(rec, 'gcc', cc.STRICT, code, 'without-emlearn', info, inc=False)
    # what is written to a file is what is returned
    d = core.scratch('save')
    for ext in ('.h', '.c', '', '.model.h'):
        stem = str(g.choice(['f_' + name, name]))
        p = os.path.join(d, stem + ext)
        if ext == '.model.h':
            # the stem of the file is not an identifier
            refused(rec, lambda: w.save(file=p), 'file-stem', f'{p} {info}')
            rec.require(not os.path.exists(p), 'save:file-left-after-refusal', info)
            continue
        c1 = w.save(file=p)
        with open(p, newline='') as f:
            rec.require(f.read() == c1, 'save:file-content', f'{p} {info}')
        c2 = w.save(name=stem)
        rec.require(c1 == c2, 'save:name-from-file', f'{stem} {info}')
        p2 = os.path.join(d, 'other_file' + ext)
        c3 = w.save(name=stem, file=p2)
        with open(p2, newline='') as f:
            rec.require(c3 == c2 and f.read() == c2, 'save:name-and-file', f'{stem} {info}')
        rec.ev('files_checked', 2)
    if family.startswith('tree'):
        p = os.path.join(d, 'table.csv')
        c = w.save(file=p, format='csv')
        with open(p, newline='') as f:
            rec.require(f.read() == c, 'save:csv-file-content', info)
    refused(rec, lambda: w.save(), 'no-name', info)
    # invalid names
    for bad in [KEYWORDS[j] for j in g.permutation(len(KEYWORDS))[:6]] + [BADNAMES[j] for j in g.permutation(len(BADNAMES))[:6]]:
        p = os.path.join(d, 'refused.h')
        refused(rec, lambda: w.save(name=bad, file=p), 'bad-name', f'{bad!r} {info}')
        if not rec.require(not os.path.exists(p), 'save:file-left-after-refusal', f'{bad!r} {info}'):
            os.remove(p)
        rec.ev('bad_names')
    # refusals do not spoil later saves
    rec.require(w.save(name=name) == code, 'save:changed-by-refusal', info)
    # a name never changes what the model does, only what it is called
    rec.sample(dict(model=info, lines=code.count('\n'), first=code.strip()[:80]))


def refused(rec, f, mech, info):
    try:
        f()
    except ValueError:
        rec.ev('refused')
        return
    except Exception as e:
        rec.fail(f'name:{mech}:wrong-exception', f'{type(e).__name__} {e} {info}')
        return
    rec.fail(f'name:{mech}:accepted', info)


def parameter_names(rec, key):
    """valid identifiers that are also parameter names in the generated convenience functions"""
    family, name = key
    g = core.rng('C09p', family)
    mod = families.make(g, family, nq=3)
    code = mod.convert().save(name=name)
    r = subprocess.run(['gcc', *cc.STRICT, '-I', core.INC, '-fsyntax-only', '-x', 'c', '-'], input=code, capture_output=True, text=True)
    rec.ev('parameter_names')
    rec.case(('param', family, name))
    rec.require(r.returncode == 0, f'parameter-name:{family}:{name}', lambda: r.stderr[:500])


def together(rec, i):
    """several models of any family in one program, C and C++, allocation-free, each answering as it does alone"""
    g = core.rng('C09t', i)
    n = int(g.integers(2, 7))
    names = list(g.choice(NAMES, size=n, replace=False))
    some = list(families.FAMILIES)
    if isinstance(i, str):
        # three models of one family, the names differ only at the end (or in case)
        n = 3
        stem = str(g.choice(['gesture_recognition_left_hand_wrist_v', 'm', 'b' * 64, 'Tx', 'a_1']))
        names = [stem + e for e in g.choice(['', '1', '2', '_1', 'a', 'A', '_x'], size=3, replace=False)]
        some = [i]
        rec.ev('related_names', n)
    elif i % 2:
        # related names: common beginnings, ends, case; and the same families again
        stem = str(g.choice(['gesture', 'm', 'Motor_state', 'b' * 64, 'x_y_z', 'T800', '_q']))
        names = [stem + e for e in g.choice(['', '_left', '_right', '_left_2', '_l', '2', '_2', '22', 'X', '__a', '_b_c', '_b_d', '_B_c', 'left'], size=n - 1, replace=False)]
        names.append(str(g.choice([stem.swapcase() + '_left', 'other_left', 'v_' + stem, stem.upper() + '9', 'a_' + stem + '_left'])))
        some = list(g.choice(some, size=2, replace=False))
        rec.ev('related_names', n)
    fam = [str(f) for f in g.choice(some, size=n)]
    mods = [families.make(g, f, nq=15) for f in fam]
    parts = [(str(nm), m.convert().save(name=str(nm)), m) for nm, m in zip(names, mods)]
    info = ', '.join(f'{nm}: {m.info}' for nm, _, m in parts)
    watch = 'v_watch = 1;'
    prog = families.program(parts, families.simple_main(parts, watch, 'v_watch = 0; v_i32((int32_t)v_allocs); v_allocs = 0;'), ALLOC)
    d = core.scratch('io')
    cc.put(d + '/in', *[m.Q for m in mods])
    outs = []
    for cxx in (False, True):
        if cxx:
            p = 'extern "C" { void *__real_malloc(unsigned long); void *__real_calloc(unsigned long, unsigned long); void *__real_realloc(void *, unsigned long); void __real_free(void *); void *__wrap_malloc(unsigned long); void *__wrap_calloc(unsigned long, unsigned long); void *__wrap_realloc(void *, unsigned long); void __wrap_free(void *); }\n' + prog
            exe = cc.compile_c(p, flags=['-w', '-O0', *WRAP], cxx=True, mechanism='together:compile-c++')
        else:
            exe = cc.compile_c(prog, flags=['-std=c99', '-Wall', '-Wextra', '-Wno-unused-parameter', '-Wno-unused-variable', '-Wno-unused-function', '-Werror', '-O1', *WRAP], mechanism='together:compile-c')
        cc.run(exe, [d + '/in', d + '/out'], what='together')
        raw = open(d + '/out', 'rb').read()
        off = 0
        res = []
        for nm, code, m in parts:
            a = numpy.frombuffer(raw, '<i4', len(m.Q) * (m.words + 2), off).reshape(len(m.Q), m.words + 2)
            off += a.nbytes
            rec.require(not a[:, 0].any(), 'heap-allocation', lambda: f'{a[:, 0].max()} allocator calls during inference of {m.info}')
            rec.require(not a[:, -1].any(), 'features-modified', m.info)
            rec.ev('inferences_watched', len(a))
            res.append(a[:, 1:-1])
        assert off == len(raw)
        outs.append(res)
        rec.ev('programs_' + ('c++' if cxx else 'c'))
    for (nm, code, m), a, b in zip(parts, *outs):
        rec.ev('models_in_programs')
        alone_parts = [('only_one', m.convert().save(name='only_one'), m)]
        exe = cc.compile_c(families.program(alone_parts, families.simple_main(alone_parts)), san=True)
        cc.put(d + '/in1', m.Q)
        cc.run(exe, [d + '/in1', d + '/out1'], what='alone')
        (al, _), = families.parse(open(d + '/out1', 'rb').read(), alone_parts, [len(m.Q)])[0]
        same = words_equal(al, a) and words_equal(al, b)
        rec.require(same, 'together:result-differs-from-alone', lambda: f'{nm}: {m.info}; {a[0].tolist()} C++ {b[0].tolist()} alone {al[0].tolist()}')
        for e in m.err_words:
            rec.require(not al[:, e].any(), 'together:error-returned', m.info)
    rec.case(('together', i))


def words_equal(a, b):
    """bit-equal, or float words within a few ulp (different optimisation levels of float code)"""
    d = numpy.abs(a.astype(numpy.int64) - b.astype(numpy.int64))
    if (d == 0).all():
        return True
    fa, fb = a.copy().view(numpy.float32), b.copy().view(numpy.float32)
    with numpy.errstate(all='ignore'):
        close = numpy.abs(fa - fb) <= 1e-4 * (numpy.abs(fa) + numpy.abs(fb)) + 1e-6
    return bool(((d == 0) | close).all())


def main():
    c = core.Check('C09')
    n = core.pick(6, 60)
    c.run(one, [(f, i) for i in range(n) for f in families.FAMILIES])
    c.run(parameter_names, [(f, n) for f in families.FAMILIES for n in PARAMS])
    c.run(together, list(range(core.pick(36, 350))) + list(families.FAMILIES))
    need = {'compiled_gcc-c99': 50, 'compiled_clang-c99': 50, 'compiled_g++': 50, 'compiled_clang++': 15, 'compiled_without-emlearn': 8,
            'files_checked': 300, 'bad_names': 500, 'parameter_names': 100, 'refused': 500, 'inferences_watched': 1500, 'programs_c': 25, 'programs_c++': 25, 'models_in_programs': 80, 'related_names': 30}
    c.finish('one case = one saved model (compiled by 3-4 compilers, saved under file names, refused under invalid names) or one program of 2-6 models', need,
             ['strict C99 = the warning flags of emlearn.common plus -Werror (gcc also -pedantic); C++ = C++11 -Wall -Wextra',
              'names of models in one program are not prefixes that build each other\'s symbols'])


main()
