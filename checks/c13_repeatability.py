"""C13: C inference depends only on model and features. One C program holds several generated models; recorded traces of calls (repeated, interleaved, after failed calls, with dirty stack and
dirty work buffers, from several threads, in debug / log / trace builds) are compared bit for bit with the answer each (model, row) gives as the first and only call of a fresh process.
Monitors: features unchanged, initialised data segment (model structs) unchanged, ThreadSanitizer for the models that may be shared between threads."""
import os
import numpy
from vlib import core, cc, families

RUN = r'''
#include <math.h>
#include <sys/mman.h>
#ifdef V_THREADS
#include <pthread.h>
#endif
extern char __data_start, edata;
static int32_t *v_rows_off; static int v_n_models;
static void *v_X[16]; static int v_rows[16];

/* features in memory that cannot be written, like constants in flash */
static void *v_readonly(void *p, size_t n) {
    const size_t size = (n + 4095) / 4096 * 4096; char *m = (char *)mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { exit(94); }
    m += size - n; memcpy(m, p, n); free(p); mprotect(m - (size - n), size, PROT_READ);
    return m;
}
/* leave recognisable garbage where the next call has its locals */
static __attribute__((noinline)) int v_dirty(int seed) { volatile uint32_t a[6000]; for (int i = 0; i < 6000; i++) { a[i] = (uint32_t)seed * 2654435761u; } return (int)a[seed % 6000]; }

/* op: model, row, kind (0 normal, 1 wrong length, 2 special failing call, 3 extreme features), seed. words: result, [n-2] features changed, [n-1] wrong answer of a failed call */
static void v_op(const int32_t *op, int32_t *out, int words) {
    for (int i = 0; i < words; i++) { out[i] = 0x5a5a5a5a; }
    out[words - 1] = out[words - 2] = 0;
    switch (op[0]) {
CASES
    default: exit(95);
    }
}
#ifdef V_THREADS
static int32_t *v_ops; static int v_n_ops;
static pthread_barrier_t v_barrier;
typedef struct { int no; int32_t *out; } VThread;
static void *v_thread(void *p) {
    VThread *t = (VThread *)p; const int per = v_n_ops / V_THREADS;
    pthread_barrier_wait(&v_barrier);
    for (int i = 0; i < per; i++) { v_op(v_ops + 4 * (t->no * per + i), t->out + (int64_t)i * V_WORDS, V_WORDS); }
    return NULL;
}
#endif
int main(int argc, char **argv) {
    v_open(argv);
    int64_t n; int32_t *ops = (int32_t *)v_get(4, &n); const int n_ops = (int)(n / 4);
LOAD
#ifdef __SANITIZE_ADDRESS__
    const int64_t dlen = 0; /* red zones between the variables */
#else
    const int64_t dlen = &edata - &__data_start;
#endif
    char *snap = (char *)malloc(dlen + 1); memcpy(snap, &__data_start, dlen);
#ifdef V_THREADS
    v_ops = ops; v_n_ops = n_ops; pthread_t th[V_THREADS]; VThread ts[V_THREADS]; pthread_barrier_init(&v_barrier, NULL, V_THREADS);
    const int per = n_ops / V_THREADS;
    for (int t = 0; t < V_THREADS; t++) { ts[t].no = t; ts[t].out = (int32_t *)malloc(4LL * per * V_WORDS); pthread_create(&th[t], NULL, v_thread, &ts[t]); }
    for (int t = 0; t < V_THREADS; t++) { pthread_join(th[t], NULL); }
    for (int t = 0; t < V_THREADS; t++) { v_put(ts[t].out, 4, (size_t)per * V_WORDS); }
#else
    int32_t *out = (int32_t *)malloc(4 * V_WORDS);
    for (int i = 0; i < n_ops; i++) { v_op(ops + 4 * i, out, V_WORDS); v_put(out, 4, V_WORDS); }
#endif
    int64_t changed = 0; for (int64_t i = 0; i < dlen; i++) { changed += snap[i] != (&__data_start)[i]; }
    v_i32((int32_t)changed); v_i32((int32_t)dlen);
    v_close(); return 0;
}
'''

CONFIGS = {'log': ['-DEML_LOG_ENABLE=1'], 'trace': ['-DEML_LOG_ENABLE=1', '-DEML_TREES_TRACE=1'], 'debug': ['-DEML_DEBUG=1'],
           'neighbors1': ['-DEML_LOG_ENABLE=1', '-DEML_NEIGHBORS_LOG_LEVEL=1'], 'neighbors2': ['-DEML_LOG_ENABLE=1', '-DEML_NEIGHBORS_LOG_LEVEL=2'],
           'neighbors3': ['-DEML_LOG_ENABLE=1', '-DEML_NEIGHBORS_LOG_LEVEL=3'], 'neighbors3-nolog': ['-DEML_NEIGHBORS_LOG_LEVEL=3'], 'trace-nolog': ['-DEML_TREES_TRACE=1'],
           'all': ['-DEML_LOG_ENABLE=1', '-DEML_TREES_TRACE=1', '-DEML_DEBUG=1', '-DEML_NEIGHBORS_LOG_LEVEL=3'], 'all-nolog': ['-DEML_TREES_TRACE=1', '-DEML_DEBUG=1', '-DEML_NEIGHBORS_LOG_LEVEL=3']}
BASE = ['-std=gnu99', '-O1', '-w']


def special(mod, n):
    """a failing call that gets past the length checks"""
    if mod.family == 'knn':
        N = len(mod.X)
        return f'''static int16_t vlab[{N}]; for (int vj = 0; vj < {N}; vj++) {{ vlab[vj] = vs % 3 == 0 ? 5000 : (vs % 3 == 1 ? -1 : (vj % 7 ? {n}.labels[vj] : 10)); }}
            EmlNeighborsModel vbadm = {n}; vbadm.labels = vlab; int16_t vr = -7; vbadm.k_neighbors = {min(N, 9)};
            eml_neighbors_predict(&vbadm, vx, {mod.m}, {n}_vdist, {N}, &vr);
            if (eml_neighbors_predict(&{n}, vx, {mod.m}, {n}_vdist, {N - 1}, &vr) == EmlOk) {{ vbad |= 1; }}'''
    if mod.family == 'tree_clf_loadable':
        # soft voting into a buffer of another length
        return f'float vp[{mod.k + 3}]; for (int vj = 0; vj < {mod.k + 3}; vj++) {{ vp[vj] = 7.0f; }} if ({n}_predict_proba(vx, {mod.m}, vp, {mod.k + 3}) == 0) {{ vbad |= 1; }}'
    return ''


def program(parts, threads=0):
    words = max(mod.words for _, _, mod in parts) + 2
    cases, load = '', ''
    for i, (n, code, mod) in enumerate(parts):
        dirty = f'for (int vi = 0; vi < {len(mod.X)}; vi++) {{ {n}_vdist[vi].index = (int16_t)(vs % {len(mod.X)}); {n}_vdist[vi].distance = (uint32_t)vs * 7u; }}' if mod.family == 'knn' else ''
        wrong = families.wrong_length_body(mod, n) if not mod.header_free else ''
        big = '(float)(vs % 3 == 0 ? NAN : (vs % 3 == 1 ? 3e38f : -3e38f))' if mod.dtype == 'float' else f'({mod.dtype})(vs & 1 ? -32768 : 32767)'
        if mod.family == 'bayes':
            big = '(float)(vs & 1 ? -32000 : 32000)'   # inside the documented range of fixed point
        cases += f'''    case {i}: {{
        const int vs = op[3]; {mod.dtype} *vx = ({mod.dtype} *)malloc(sizeof({mod.dtype}) * {mod.m}); const {mod.dtype} *vsrc = ({mod.dtype} *)v_X[{i}] + op[1] * {mod.m}; memcpy(vx, vsrc, sizeof({mod.dtype}) * {mod.m});
        int vbad = 0; if (vs >= 0) {{ v_dirty(vs); {dirty} }}
        if (op[2] == 0) {{ v_call_{n}(vs % 2 ? ({mod.dtype} *)vsrc : vx, {mod.m}, out); out[words - 2] = memcmp(vx, vsrc, sizeof({mod.dtype}) * {mod.m}) != 0; }}
        if (op[2] == 1) {{ const int32_t vl = vs & 1 ? {mod.m} + 1 + vs % 5 : -(vs % 7); {wrong} out[words - 2] = memcmp(vx, vsrc, sizeof({mod.dtype}) * {mod.m}) != 0; }}
        if (op[2] == 2) {{ {special(mod, n)} }}
        if (op[2] == 3) {{ for (int vi = 0; vi < {mod.m}; vi++) {{ vx[vi] = (vs >> (vi % 8)) & 1 ? {big} : vx[vi]; }} int32_t vo[{mod.words}]; v_call_{n}(vx, {mod.m}, vo); }}
        out[words - 1] = vbad; free(vx); break; }}
'''
        load += f'    {{ int64_t t; v_X[{i}] = v_readonly(v_get(sizeof({mod.dtype}), &t), sizeof({mod.dtype}) * {mod.m} * {len(mod.Q)}); v_rows[{i}] = (int)(t / {mod.m}); }}\n'
    pre = f'#define V_WORDS {words}\n' + (f'#define V_THREADS {threads}\n' if threads else '')
    return families.program(parts, RUN.replace('CASES', cases).replace('LOAD', load), pre=pre + '#include <math.h>\n'), words


def models(g, fams, nq):
    out = []
    for i, f in enumerate(fams):
        mod = families.make(g, f, nq=nq)
        Q = mod.Q.copy()
        for r in range(1, len(Q), 2):      # rows that differ in one value only
            c = int(g.integers(0, mod.m))
            v = Q[r, c]
            Q[r] = Q[r - 1]
            Q[r, c] = v
        mod.Q = Q
        out.append((f'vm{i}x', mod.convert().save(name=f'vm{i}x'), mod))
    return out


def execute(exe, parts, ops, words, what, env=None):
    cc.put('in.bin', numpy.asarray(ops, '<i4'), *[mod.Q for _, _, mod in parts])
    cc.run(exe, ['in.bin', 'out.bin'], what=what, env=env)
    raw = numpy.fromfile('out.bin', '<i4')
    return raw[:-2].reshape(len(ops), words), int(raw[-2]), int(raw[-1])


def first_answers(rec, exe, parts, words):
    """each (model, row) as the only call of its own process"""
    base = []
    for i, (n, code, mod) in enumerate(parts):
        rows = []
        for r in range(len(mod.Q)):
            a, changed, _ = execute(exe, parts, [[i, r, 0, -1]], words, 'first')
            rows.append(a[0])
            rec.ev('first_calls')
        base.append(numpy.array(rows))
    return base


def judge(rec, where, parts, base, ops, got, changed, code):
    for k, (op, row) in enumerate(zip(ops, got)):
        i, r, kind, s = (int(v) for v in op)
        mod = parts[i][2]
        if row[-2]:
            rec.fail(f'{where}:features-modified', f'call {k} {op}: {mod.info}', code=code)
        if row[-1]:
            rec.fail(f'{where}:failed-call', f'call {k} {op}: a call with a violated precondition did not report it, {mod.info}', code=code)
        if kind == 0 and not numpy.array_equal(row[:mod.words], base[i][r][:mod.words]):
            rec.fail(f'{where}:result', f'call {k} (model {i} {mod.info}, row {r} {mod.Q[r][:6]}): words {row[:mod.words][:8].tolist()} instead of {base[i][r][:mod.words][:8].tolist()}; calls before: {numpy.asarray(ops)[max(0, k - 6):k].tolist()}', code=code)
        if len(rec.violations) > 2:
            return
    if changed:
        rec.fail(f'{where}:model-modified', f'{changed} bytes of initialised data changed by inference; models {[m.info for _, _, m in parts]}', code=code)


def trace(g, parts, n):
    ops = []
    while len(ops) < n:
        i = int(g.integers(0, len(parts)))
        mod = parts[i][2]
        style = g.random()
        kind = int(g.choice([0, 0, 0, 0, 0, 1, 2, 3]))
        r, s = int(g.integers(0, len(mod.Q))), int(g.integers(0, 2**20))
        ops.append([i, r, kind, s])
        if kind or style < 0.25:        # the same call again / the same model after a failed call
            ops.append([i, r, 0, int(g.integers(-1, 2**20))])
        elif style < 0.4:
            ops += [[i, int(v), 0, -1] for v in g.integers(0, len(mod.Q), 4)]
    return ops[:n]


def sequences(rec, key):
    g = core.rng('C13', 'seq', key)
    fams = families.FAMILIES
    first = fams[key % len(fams)]
    parts = models(g, [first, first, str(g.choice(fams)), str(g.choice(fams))], core.pick(8, 12))
    src, words = program(parts)
    exe = cc.compile_c(src, flags=tuple(BASE), mechanism='trace:compile')
    base = first_answers(rec, exe, parts, words)
    for t in range(core.pick(3, 8)):
        ops = trace(g, parts, core.pick(400, 2000))
        got, changed, dlen = execute(exe, parts, ops, words, 'trace')
        judge(rec, 'trace', parts, base, ops, got, changed, src[:100000])
        rec.ev('calls', len(ops))
        rec.ev('failed_calls', sum(o[2] in (1, 2) for o in ops))
        rec.ev('extreme_calls', sum(o[2] == 3 for o in ops))
        rec.ev('data_bytes_compared', dlen)
        rec.ev(f'family_{first}')
        a = numpy.asarray(ops)
        rec.case(None, n=len(ops))
        rec.distinct |= {f'{key}.{t}.{x}' for x in {(tuple(p), tuple(q)) for p, q in zip(a[:-1, :3].tolist(), a[1:, :3].tolist())}}
    # the same calls in a build with sanitizers (a value read before it is written shows as a changed answer or a report), other optimisation levels without results compared
    sexe = cc.compile_c(src, flags=tuple(BASE), san=True, mechanism='trace:compile')
    ops = [o for o in trace(g, parts, 300) if o[2] != 3]
    got, changed, _ = execute(sexe, parts, ops, words, 'trace-san')
    judge(rec, 'trace-san', parts, base, ops, got, 0, src[:100000])
    rec.ev('sanitized_calls', len(ops))
    # build options
    for name in (CONFIGS if not core.quick() else [str(v) for v in g.choice(list(CONFIGS), 4, replace=False)]):
        dexe = cc.compile_c(src, flags=tuple(BASE + CONFIGS[name]), mechanism=f'build-{name}:compile')
        ops = [[i, r, 0, -1] for i, (_, _, m) in enumerate(parts) for r in range(len(m.Q))] + trace(g, parts, 60)
        got, changed, _ = execute(dexe, parts, ops, words, f'build-{name}', env=dict(EML_DEBUG_LOG='1') if g.random() < 0.3 else None)
        judge(rec, f'build-{name}', parts, base, ops, got, changed, src[:100000])
        rec.ev(f'build_{name}', len(ops))
        rec.ev(f'option_{first}')
    rec.sample(dict(models=[m.info for _, _, m in parts], trace=numpy.asarray(ops)[:8].tolist()))


def threads(rec, key):
    g = core.rng('C13', 'threads', key)
    fams = [f for f in families.FAMILIES if f.startswith('tree') or f in ('bayes', 'elliptic', 'gmm', 'bgmm')]
    first = fams[key % len(fams)]
    parts = models(g, [first, str(g.choice(fams)), str(g.choice(fams))], core.pick(6, 10))
    src, words = program(parts)
    base = first_answers(rec, cc.compile_c(src, flags=tuple(BASE), mechanism='threads:compile'), parts, words)
    for nt, flags, n, what in ((4, BASE + ['-fsanitize=thread', '-g'], core.pick(60, 200), 'tsan'), (8, BASE, core.pick(3000, 20000), 'threads')):
        tsrc, _ = program(parts, threads=nt)
        exe = cc.compile_c(tsrc, flags=tuple(flags), libs=('-lm', '-lpthread'), mechanism='threads:compile')
        # half of the threads hammer the first model, the others mix
        ops = []
        for t in range(nt):
            mine = trace(g, parts if t % 2 else parts[:1], n)
            ops += [o if o[2] not in (2,) else [o[0], o[1], 0, -1] for o in mine]
        got, changed, _ = execute(exe, parts, ops, words, what, env=dict(TSAN_OPTIONS='halt_on_error=0:exitcode=66'))
        judge(rec, what, parts, base, ops, got, changed, tsrc[:100000])
        rec.ev(f'{what}_calls', len(ops))
        rec.ev(f'{what}_{first}')
        rec.case(('threads', key, what), n=len(ops))


def case(rec, key):
    (sequences if key[0] == 'seq' else threads)(rec, key[1])


def main():
    c = core.Check('C13')
    keys = [('seq', i) for i in range(core.pick(72, 480))] + [('threads', i) for i in range(core.pick(32, 240))]
    c.run(case, keys)
    fams = [f for f in families.FAMILIES if f.startswith('tree') or f in ('bayes', 'elliptic', 'gmm', 'bgmm')]
    need = {'calls': 20000, 'first_calls': 500, 'failed_calls': 1500, 'extreme_calls': 800, 'sanitized_calls': 3000, 'data_bytes_compared': 10000, 'tsan_calls': 2000, 'threads_calls': 100000,
            **{f'family_{f}': 3 for f in families.FAMILIES}, **{f'option_{f}': 2 for f in families.FAMILIES}, **{f'build_{b}': 50 for b in CONFIGS}, **{f'tsan_{f}': 1 for f in fams}, **{f'threads_{f}': 1 for f in fams}}
    c.finish('a pair of consecutive calls (model, row, kind) of a trace; for threads a set of concurrent call sequences', need,
             assumptions=['bit-identical results are required between builds with the same compiler and optimisation level', 'neural networks and nearest neighbours use work buffers and are not run from several threads'])


main()
