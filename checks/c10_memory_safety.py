"""C10: memory errors and undefined behaviour. Oracles: gcc ASan+UBSan, clang ASan+UBSan, clang MSan over (a) random calls of every header function
(harness/headers.c) with exact-size buffers and (b) the generated code of random models of every family on extreme inputs."""
import os, re, subprocess
import numpy
from vlib import core, cc, families, treegen
from vlib.core import Violation

GCC = ('gcc', ['-std=gnu99', '-O1', '-w', *cc.SAN])
GCC2 = ('gcc', ['-std=gnu99', '-O2', '-w', '-D_FORTIFY_SOURCE=0', *cc.SAN])
CLANG = ('clang', ['-std=gnu99', '-O1', '-w', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'])
MSAN = ('clang', ['-std=gnu99', '-O1', '-w', '-g', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all'])
BUILDS = {'gcc-asan-ubsan': GCC, 'gcc-asan-ubsan-O2': GCC2, 'clang-asan-ubsan': CLANG, 'clang-msan': MSAN}
DRIVER = open(os.path.join(core.VERIF, 'harness', 'headers.c')).read()
GROUPS = ['vector', 'array', 'fft', 'mel', 'iir', 'quantizer', 'fixed', 'bayes', 'mixture', 'neighbors', 'net', 'trees', 'csv', 'testcsv', 'bench']
EXE = {}


def build(code, b, mech):
    comp, flags = BUILDS[b]
    return cc.compile_c(code, flags=flags, compiler=comp, mechanism=mech)


def where(err):
    """function of the library or generated code that the report names first"""
    m = re.search(r'in (eml_\w+|reverse_bits|mel_bin|\w*_(?:predict|regress|predict_proba|tree_\d+))\b', err)
    f = re.search(r'(eml_\w+\.h):\d+', err)
    return (m.group(1) if m else '') or (f.group(1) if f else 'driver')


def sanitized(exe, args, what, **info):
    env = dict(os.environ, MSAN_OPTIONS='exitcode=77:poison_in_malloc=1', **cc.SAN_ENV)
    env['ASAN_OPTIONS'] += ':malloc_fill_byte=190'
    try:
        r = subprocess.run([exe, *map(str, args)], capture_output=True, timeout=200, env=env)
    except subprocess.TimeoutExpired:
        raise Violation(f'{what}:hang', f'{args}', info)
    err = r.stderr.decode('utf8', 'replace')
    rep = cc.san_report(err) or ('msan:uninitialized' if 'MemorySanitizer' in err else None)
    if rep:
        raise Violation(f'{what}:{rep}:{where(err)}', err[:1800], dict(args=list(args), **info))
    if r.returncode:
        raise Violation(f'{what}:exit{r.returncode}', (err + r.stdout[-300:].decode('utf8', 'replace'))[:900], dict(args=list(args), **info))
    return r.stdout.decode('utf8', 'replace')


def headers(rec, key):
    b, group, part = key
    rounds = core.pick(4000, 40000)
    seed = core.intseed('C10', group, part)
    o = sanitized(EXE[b], [seed, rounds, group], f'header:{group}', build=b)
    m = re.findall(rf'^{group} (\d+) (\d+)$', o, re.M)
    if not m:
        rec.fail(f'header:{group}:no-end', o[-500:])
        return
    calls, refused = map(int, m[-1])
    rec.ev(f'calls_{group}', calls)
    rec.ev(f'refused_{group}', refused)
    rec.ev(f'header_rounds_{b}', rounds)
    rec.case((b, group, seed), n=rounds)
    rec.sample(dict(build=b, group=group, seed=seed, rounds=rounds, calls=calls, refused=refused))


def malformed(rec, key):
    """field of a test CSV line that is not a number"""
    sanitized(EXE['clang-msan'], [core.intseed('C10', 'malformed'), 50, 'malformed'], 'header:testcsv-malformed')


def extremes(g, mod):
    m = mod.Q.shape[1]
    t = mod.Q.dtype.type
    if mod.dtype == 'float':
        v = numpy.array([0, -0.0, 1, -1, numpy.inf, -numpy.inf, numpy.nan, 3.4e38, -3.4e38, 1e-45, 1e-38, 32767, 32768, -32768, -32769, 2147483648.0, -2147483649.0, 1e10, 65536, 1e-6], dtype=numpy.float32)
    else:
        lo, hi = {'int8_t': (-128, 127), 'int16_t': (-32768, 32767), 'int32_t': (-2**31, 2**31 - 1)}[mod.dtype]
        v = numpy.array([lo, hi, 0, -1, 1, lo + 1, hi - 1]).astype(t)
    full = numpy.repeat(v[:, None], m, axis=1)
    mixed = g.choice(v, size=(60, m))
    part = mod.Q[g.integers(0, len(mod.Q), 60)].copy()
    part[g.random(part.shape) < 0.3] = v[g.integers(0, len(v))]
    return numpy.ascontiguousarray(numpy.concatenate([mod.Q, full, mixed, part]).astype(t))


def models(rec, key):
    fams, i = key
    g = core.rng('C10', fams, i)
    parts, data = [], []
    for j, fam in enumerate(fams):
        mod = families.make(g, fam, nq=30)
        n = f'm{j}'
        parts.append((n, mod.convert().save(name=n), mod))
        data.append(extremes(g, mod))
    code = families.program(parts, families.simple_main(parts))
    cc.put('in.bin', *data)
    outs = {}
    for b in core.pick(['gcc-asan-ubsan', 'clang-msan'], list(BUILDS)):
        exe = build(code, b, f'compile:{b}')
        sanitized(exe, ['in.bin', 'out.bin'], f'model:{"+".join(sorted(set(f.split("_")[0] for f in fams)))}', build=b, code=code[:100000], info=[p[2].info for p in parts])
        with open('out.bin', 'rb') as f:
            outs[b] = f.read()
        for (n, c, mod), Q, (words, touched) in zip(parts, data, families.parse(outs[b], parts, [len(Q) for Q in data])[0]):
            rec.require(not touched.any(), 'model:features-modified', mod.info)
            if mod.family in ('tree_clf_inline', 'tree_clf_loadable', 'mlp_clf_loadable', 'mlp_clf_inline', 'bayes'):
                rec.require((words[:, 0] < mod.k).all(), 'model:class-out-of-range', lambda: f'{mod.info} {words[:, 0].max()}')
            rec.ev(f'rows_{mod.family}', len(Q))
            rec.distinct_rows(Q, tag=f'{key}{n}')
    rec.ev('model_programs')


def large(rec, key):
    """the largest loadable ensembles that convert: 127 features, 30 classes, up to the node limit"""
    kind, i = key
    import emlearn
    from sklearn.ensemble import ExtraTreesClassifier, RandomForestRegressor
    g = core.rng('C10', 'large', kind, i)
    X = g.integers(-32768, 32768, size=(900, 127)).astype(numpy.int16)
    trees, last = [48, 40, 32, 24, 16, 8], None
    for t in trees:
        if kind == 'clf':
            est = ExtraTreesClassifier(n_estimators=t, random_state=0).fit(X, g.integers(0, 30, len(X)))
        else:
            est = RandomForestRegressor(n_estimators=t, random_state=0, max_features=0.1).fit(X, g.normal(size=len(X)))
        try:
            w = emlearn.convert(est, method='loadable', dtype='int16_t')
            code = w.save(name='m')
        except Exception as e:
            rec.ev('large_refused')
            continue
        break
    else:
        return
    Q, _ = treegen.queries(g, est, X, 'int16_t', 300)
    mod = families.Model('tree_clf_loadable' if kind == 'clf' else 'tree_reg_loadable', est, {}, Q, X, 'int16_t', 30 if kind == 'clf' else 0, f'large {kind} trees={t}')
    parts = [('m', code, mod)]
    exe = build(families.program(parts, families.simple_main(parts)), 'gcc-asan-ubsan', 'compile:large')
    cc.put('in.bin', Q)
    sanitized(exe, ['in.bin', 'out.bin'], f'model:large-{kind}')
    with open('out.bin', 'rb') as f:
        words, touched = families.parse(f.read(), parts, [len(Q)])[0][0]
    if kind == 'clf':
        want = treegen.hard_votes(est, Q).argmax(axis=1)
        rec.require((words[:, 0] == want).all(), 'model:large-clf-class', lambda: f'{(words[:, 0] != want).sum()} of {len(Q)} rows')
    rec.ev('rows_large', len(Q))
    rec.distinct_rows(Q, tag=f'{key}')
    rec.sample(dict(large=kind, trees=t, nodes=sum(x.node_count for x in treegen.subtrees(est)), features=127))


def main():
    c = core.Check('C10')
    use = core.pick(['gcc-asan-ubsan', 'clang-msan'], list(BUILDS))
    for b in use:
        try:
            EXE[b] = build(DRIVER, b, 'headers-compile')
        except Violation as v:
            c.violations.append(dict(mechanism=v.mechanism, detail=v.detail, replay={}, case=b))
    if len(EXE) == len(use):
        c.run(headers, [(b, g, p) for p in range(core.pick(2, 8)) for g in GROUPS for b in use])
        c.run(malformed, ['malformed'])
    F = families.FAMILIES
    ks = []
    for i in range(core.pick(2, 20)):
        g = core.rng('C10', 'plan', i)
        perm = [F[j] for j in g.permutation(len(F))]
        ks += [(tuple(perm[j:j + 2]), i) for j in range(0, len(perm), 2)]
    c.run(models, ks)
    c.run(large, [(k, i) for k in ('clf', 'reg') for i in range(core.pick(1, 4))])
    need = {f'calls_{g}': 1000 for g in GROUPS}
    need.update({f'refused_{g}': 50 for g in GROUPS if g not in ('bench',)})
    need.update({f'rows_{f}': 100 for f in F})
    need['rows_large'] = 100
    c.finish('a call with new random arguments (header part: one seeded round of a function group; model part: one feature row of one model)', need,
             assumptions=['UB classes that gcc/clang ASan, UBSan (with float-cast-overflow) and MSan detect; x86-64 builds'])


main()
