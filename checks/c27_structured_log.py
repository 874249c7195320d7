"""C27: the structured log. Programs with the documented macros (random events, keys, values), decision tables and nearest-neighbour histories run in builds with and without logging; an offline
checker parses the recorded log as logfmt and compares every entry with what the call really did (own walk of the table, exact k-NN)."""
import os, re
import numpy
from vlib import core, cc, treetab

SINKS = {   # where the log goes, by build
    'stderr': '#define EML_LOG_ENABLE 1\n',
    'custom': '#include <stdio.h>\nstatic FILE *v_log;\n#define EML_LOG_ENABLE 1\n#define EML_LOG_PRINTF(...) fprintf(v_log, __VA_ARGS__)\n',
    'off': '', 'off0': '#define EML_LOG_ENABLE 0\n'}
KV = re.compile(r'^(\S+?)=(\[[^\]]*\]|\S*)$')
EXE = {}


def start(sink):
    return 'v_log = fopen(argv[3], "wb"); if (!v_log) { exit(93); }' if sink == 'custom' else ''


def mark(sink):
    return ('fprintf(v_log, "@%d\\n", v_no++)' if sink == 'custom' else 'fprintf(stderr, "@%d\\n", v_no++)') + ';'


def parse(rec, line, ctx):
    """-> (event, [(key, value text)]) or None"""
    parts = line.rstrip(' ').split(' ')
    if not rec.require(parts[0] and '=' not in parts[0] and '[' not in parts[0], 'format:event-name', f'{line!r} {ctx}'):
        return None
    kv = []
    for p in parts[1:]:
        m = KV.match(p)
        if not rec.require(m is not None, 'format:not-key=value', f'{p!r} in {line!r} {ctx}'):
            return None
        kv.append((m.group(1), m.group(2)))
    if not rec.require(len(dict(kv)) == len(kv), 'format:key-repeated', f'{line!r} {ctx}'):
        return None
    rec.ev('entries_parsed')
    return parts[0], dict(kv)


def blocks(rec, text, n, ctx):
    """log text cut at the marks of the driver"""
    out = [[]]
    if not rec.require(text == '' or text.endswith('\n'), 'format:last-entry-not-ended', f'{text[-80:]!r} {ctx}'):
        return None
    for line in text.split('\n')[:-1]:
        if line.startswith('@'):
            out.append([])
        else:
            e = parse(rec, line, ctx)
            if e is None:
                return None
            out[-1].append(e)
    if not rec.require(len(out) == n + 1 and not out[0], 'format:marks', f'{len(out) - 1} of {n}: an entry swallowed its line end {ctx}'):
        return None
    return out[1:]


# ---------------------------------------------------------------- the macros
def macro_case(rec, key):
    sink, i = key
    g = core.rng('C27', 'macro', i)      # the same program for every sink
    R = lambda a, b: int(g.integers(a, b + 1))
    body, want = [], []
    word = lambda: ''.join(g.choice(list('abcxyzABC_-.019'), size=R(1, 12)))
    for e in range(R(3, 12)):
        ev = 'ev-' + word()
        entry, parts, used = [f'EML_LOG_BEGIN("{ev}");'], [], set()
        for k in range(R(0, 6)):
            name = word()
            if name in used:
                continue
            used.add(name)
            t = g.choice(['str', 'int', 'bool', 'float', 'arr', 'iarr'])
            if t == 'str':
                v = ''.join(g.choice(list('abc%/:xyz019{}()*&^$#@!~;,.<>?|+-_'), size=R(0, 200 if g.random() < .1 else 12)))
                entry.append(f'EML_LOG_ADD("{name}", "{v.replace("?", "")}");')
                parts.append(f'{name}={v.replace("?", "")}')
            elif t == 'int':
                v = int(g.choice([0, 1, -1, 2**31 - 1, -2**31 + 1, 255, 65536, R(-10**9, 10**9)]))
                entry.append(f'EML_LOG_ADD_INTEGER("{name}", {v});')
                parts.append(f'{name}={v}')
            elif t == 'bool':
                x, v = [('zero', False), ('one', True), ('zero || one', True), ('one && zero', False), ('one == zero', False), ('two', True), ('-one', True), ('one ? zero : two', False), ('!zero', True), ('two & one', False)][R(0, 9)]
                entry.append(f'EML_LOG_ADD_BOOL("{name}", {x});' if g.random() < .7 else f'EML_LOG_ADD("{name}", EML_LOG_BOOL_STR({x}));')
                parts.append(f'{name}={"true" if v else "false"}')
            elif t == 'float':
                v = float(numpy.float32(g.choice([0, 1, -1, 0.25, 1e-3, 123456.0, -0.5, g.normal() * 10.0 ** R(-3, 6)])))
                entry.append(f'EML_LOG_ADD_FLOAT("{name}", {v!r});')
                parts.append(f'{name}={v:.4f}')
            else:
                n = R(0, 8) if g.random() < .9 else R(200, 400)
                if t == 'arr':
                    vals = [float(numpy.float32(x)) for x in g.normal(size=n) * 100]
                    lit, fmt, ct = ', '.join(f'{x!r}' for x in vals), g.choice(['%.2f', '%.4f', '%g']), 'double'
                else:
                    vals = [R(-1000, 1000) for _ in range(n)]
                    lit, fmt, ct = ', '.join(map(str, vals)), '%d', 'int'
                form = R(0, 3)
                nm = f'a{e}_{k}'
                body.append(f'static const {ct} f{nm}[{n + 2}] = {{ 77, {lit + ", " if lit else ""}55 }}; static const {ct} *const {nm}[2] = {{ f{nm}, f{nm} + 1 }}; (void){nm};')
                use = [f'EML_LOG_ADD_ARRAY("{name}", {nm}[1], {n}, "{fmt}");', f'EML_LOG_ADD_ARRAY("{name}", {nm}[one], one ? {n} : two, "{fmt}");',
                       f'{{ const {ct} *p = f{nm}; EML_LOG_ADD_ARRAY("{name}", p + one, {n}, "{fmt}"); }}', f'for (int i=1; i<2; i++) {{ EML_LOG_ADD_ARRAY("{name}", {nm}[i], {n}, "{fmt}"); }}']
                entry.append(use[form])
                parts.append(f'{name}=[' + ','.join(fmt % v for v in vals) + ']')
                rec.ev('arrays')
        entry.append('EML_LOG_END();')
        if g.random() < .3:
            body.append('if (one) { ' + ' '.join(entry) + ' }')
        else:
            body += entry
        want.append(' '.join([ev] + parts))
    code = (SINKS[sink] + '#include <eml_log.h>\n' + cc.READER +
            'int main(int argc, char **argv) { (void)argc; v_open(argv); volatile int zero = 0, one = 1, two = 2; (void)zero; (void)one; (void)two;\n' + start(sink) + '\n' + '\n'.join(body) + '\nv_close(); return 0; }\n')
    cxx = i % 5 == 2
    exe = cc.compile_c(code, flags=('-std=c++14' if cxx else '-std=c99', '-O1', '-w'), san=i % 3 == 0, cxx=cxx, compiler=('clang++' if cxx else 'clang') if i % 4 == 1 else None, mechanism='macro:compile')
    rec.ev('macro_programs_cxx', cxx)
    d = core.scratch('m')
    cc.put(d + '/i')
    r = cc.run(exe, [d + '/i', d + '/o', d + '/log'], what='macro', ok=None)
    rec.require(r.returncode == 0, 'macro:exit', r.returncode)
    check_streams(rec, r, sink)
    text = open(d + '/log').read() if sink == 'custom' else r.stderr.decode('utf8', 'replace')
    exp = '' if sink.startswith('off') else '\n'.join(want) + '\n'
    rec.require(text == exp, 'macro:text', lambda: next((f'{a!r} want {b!r}' for a, b in zip(text.split('\n') + ['<end>'], exp.split('\n') + ['<end>']) if a != b), 'length'), code=code)
    rec.ev('macro_entries', len(want) if exp else 0)
    rec.ev('macro_silent', not exp)
    rec.case(('macro', sink, i), n=len(want))


def check_streams(rec, r, sink):
    rec.require(r.stdout == b'', 'stream:stdout-written', r.stdout[:200])
    if sink != 'stderr':
        rec.require(r.stderr == b'', 'stream:stderr-written', f'{sink}: {r.stderr[:200]}')


# ---------------------------------------------------------------- trees
TREES = r'''
#include <eml_trees.h>
static int v_no;
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    START
    int64_t nn, nr, nl, total;
    int32_t *dim = (int32_t *)v_get(4, NULL);
    const int rows = dim[0], m = dim[1], bits = dim[2], k = dim[3];
    int32_t *raw = (int32_t *)v_get(4, &nn); nn /= 4;
    int32_t *roots = (int32_t *)v_get(4, &nr);
    uint8_t *leaves = (uint8_t *)v_get(1, &nl);
    int16_t *X = (int16_t *)v_get(2, &total);
    EmlTreesNode *nodes = (EmlTreesNode *)calloc(nn, sizeof(EmlTreesNode));
    for (int64_t i = 0; i < nn; i++) { nodes[i].feature = raw[4*i]; nodes[i].value = raw[4*i+1]; nodes[i].left = raw[4*i+2]; nodes[i].right = raw[4*i+3]; }
    EmlTrees f; memset(&f, 0, sizeof(f));
    f.n_nodes = nn; f.nodes = nodes; f.n_trees = nr; f.tree_roots = roots; f.n_leaves = nl; f.leaves = leaves;
    f.leaf_bits = bits; f.n_features = m; f.n_classes = k;
    for (int i = 0; i < rows; i++) {
        const int16_t *row = X + (int64_t)i * m; float out[300];
        for (int wrong = 0; wrong < 2; wrong++) {
            const int len = wrong ? m + 1 : m;
            if (bits == 32) {
                MARK v_i32(eml_trees_regress(&f, row, len, out, 1)); v_f32(out[0]);
                MARK v_f32(eml_trees_regress1(&f, row, len));
            } else {
                MARK v_i32(eml_trees_predict(&f, row, len));
                MARK v_i32(eml_trees_predict_proba(&f, row, len, out, k)); v_put(out, 4, k);
            }
        }
    }
    free(nodes); free(raw); free(roots); free(leaves); free(X); free(dim); v_close(); return 0;
}
'''


def tree_builds():
    for sink in SINKS:
        for trace in (0, 1):
            code = SINKS[sink] + (f'#define EML_TREES_TRACE {trace}\n') + cc.READER + TREES.replace('START', start(sink)).replace('MARK', mark(sink) if not sink.startswith('off') else '')
            EXE[sink, trace] = cc.compile_c(code, san=sink == 'stderr' and trace == 1, mechanism='trees:compile')


def ivals(rec, e, names, what, ctx):
    """integer values of the given keys of an entry"""
    try:
        return [int(e[1][n]) for n in names]
    except (KeyError, ValueError):
        rec.fail(f'{what}:keys', f'{e} needs integers {names} {ctx}')
        return None


def table_case(rec, i):
    g = core.rng('C27', 'trees', i)
    bits = int(g.choice([0, 8, 32]))
    k = int(g.choice([2, 3, 10, 30])) if bits != 32 else 0
    t = treetab.table(g, bits, n_leaves=int(g.choice([1, 2, 10, 300, 32768])) if i % 5 else 32768, n_features=int(g.choice([1, 2, 5, 127])), n_trees=int(g.choice([1, 2, 3, 20])), tree_nodes=int(g.choice([1, 2, 5, 60, 2000])), n_classes=k)
    Q = treetab.queries(g, t, 12)
    leaf = treetab.walk(t, Q)
    d = core.scratch('t')
    i4 = lambda a: numpy.ascontiguousarray(a, 'i4')
    cc.put(d + '/in', i4([len(Q), t['features'], bits, k]), i4(t['nodes'].ravel()), i4(t['roots']), numpy.frombuffer(numpy.ascontiguousarray(t['leaves']).tobytes(), 'u1'), Q)
    raws, texts = {}, {}
    for b, exe in EXE.items():
        r = cc.run(exe, [d + '/in', d + '/o', d + '/log'], what='trees')
        check_streams(rec, r, b[0])
        raws[b] = open(d + '/o', 'rb').read()
        texts[b] = open(d + '/log').read() if b[0] == 'custom' else r.stderr.decode('utf8', 'replace')
    for b in raws:
        rec.require(raws[b] == raws['off', 0], 'trees:answers-depend-on-log', str(b))
    for tr in (0, 1):
        rec.require(texts['stderr', tr] == texts['custom', tr], 'trees:sink-gets-other-log', f'trace={tr}')
        rec.ev('silent_runs', texts['off', tr] == '' and texts['off0', tr] == '')
    ctx = f'bits={bits} classes={k} trees={len(t["roots"])} nodes={len(t["nodes"])}'
    per = 2
    nblocks = len(Q) * 2 * per
    B = {tr: blocks(rec, texts['stderr', tr], nblocks, ctx) for tr in (0, 1)}
    if B[0] is None or B[1] is None:
        return
    dt = numpy.dtype([('e', '<i4'), ('v', '<f4'), ('v1', '<f4')]) if bits == 32 else numpy.dtype([('c', '<i4'), ('e', '<i4'), ('p', '<f4', (k,))])
    res = numpy.frombuffer(raws['off', 0], dt)
    is_iter = lambda e: 'tree-iter' in e[0]
    for b in range(nblocks):
        row, wrong, call = b // 4, b // 2 % 2, b % 2
        rr = res[row * 2 + wrong]
        for tr in (0, 1):
            es = B[tr][b]
            c = f'{ctx} row {row} call {call} trace {tr}'
            if wrong:
                rec.require(not any(e[0].endswith('-end') or is_iter(e) for e in es), 'trees:refused-call-logs-result', f'{es[:4]} {c}')
                for e in es:
                    if e[0].endswith('-start'):
                        v = ivals(rec, e, ['features-model', 'features-input'], 'start', c)
                        v and rec.require(v == [t['features'], t['features'] + 1], 'trees:start-values', f'{e} {c}')
                rec.ev('refused_calls')
                continue
            if tr == 0:
                rec.require(not any(is_iter(e) for e in es), 'trees:trace-without-EML_TREES_TRACE', f'{es[:3]} {c}')
            ends = [e for e in es if e[0] == 'eml-trees-predict-tree-end']
            if not rec.require(len(ends) == len(t['roots']), 'trees:tree-end-count', f'{len(ends)} of {len(t["roots"])} {c}'):
                return
            for j, e in enumerate(ends):
                v = ivals(rec, e, ['node', 'leaf'], 'tree-end', c)
                if v is None or not rec.require(v == [-int(leaf[j, row]) - 1, int(leaf[j, row])], 'trees:tree-end-leaf', f'tree {j}: {e} want leaf {leaf[j, row]} {c}'):
                    return
                rec.ev('leaves_judged')
            kind = 'regress' if bits == 32 else 'predict'
            with_frame = bits == 32 or call == 0
            names = [e[0] for e in es if not is_iter(e)]
            frame = [f'eml-trees-{kind}-start'] * with_frame + ['eml-trees-predict-tree-end'] * len(ends) + [f'eml-trees-{kind}-end'] * with_frame
            known = [n for n in names if n in ('eml-trees-predict-start', 'eml-trees-predict-end', 'eml-trees-regress-start', 'eml-trees-regress-end', 'eml-trees-predict-tree-end')]
            if not rec.require(known == frame, 'trees:order', f'{known[:3]}..{known[-2:]} want {frame[:2]}..{frame[-1:]} {c}'):
                return
            if with_frame:
                s = next(e for e in es if e[0] == frame[0])
                f = next(e for e in es if e[0] == frame[-1])
                want = dict(zip(['features-model', 'features-input'], [t['features']] * 2))
                want['classes' if kind == 'predict' else 'trees'] = k if kind == 'predict' else len(t['roots'])
                v = ivals(rec, s, list(want), 'start', c)
                v and rec.require(v == list(want.values()), 'trees:start-values', f'{s} want {want} {c}')
                if kind == 'predict':
                    v = ivals(rec, f, ['trees', 'class'], 'end', c)
                    v and rec.require(v == [len(t['roots']), int(rr['c'])], 'trees:end-values', f'{f} want class {rr["c"]} {c}')
                    votes = f[1].get('votes', '')
                    if rec.require(votes.startswith('[') and votes.endswith(']'), 'trees:end-votes-format', f'{f} {c}'):
                        x = [float(a) for a in votes[1:-1].split(',')]
                        rec.require(len(x) == k and numpy.allclose(x, rr['p'].astype('f8'), rtol=0, atol=0.00501), 'trees:end-votes', lambda: f'{x} want {rr["p"].tolist()} {c}')
                        rec.ev('votes_judged')
                else:
                    o = f[1].get('output', '')
                    val = float(rr['v'])
                    rec.require(o == f'{val:.4f}', 'trees:end-output', f'{o} want {val:.4f} {c}')
                    rec.ev('outputs_judged')
            if tr == 1:
                # the trace tells the path of every tree, node by node
                it = iter([e for e in es if is_iter(e) or e[0] == 'eml-trees-predict-tree-end'])
                for j, r0 in enumerate(t['roots']):
                    n = int(r0)
                    while True:
                        e = next(it, None)
                        f, th, a, bb = map(int, t['nodes'][n])
                        x = int(Q[row, f])
                        nxt = a if x <= th else bb
                        if e is None or not is_iter(e):
                            rec.fail('trace:step-missing', f'tree {j} node {n}: {e} {c}')
                            return
                        v = ivals(rec, e, ['node', 'feature', 'value', 'th', 'next'], 'trace', c)
                        if v is None or not rec.require(v == [n, f, x, th, nxt], 'trace:step', f'tree {j}: {e} want {[n, f, x, th, nxt]} {c}'):
                            return
                        rec.ev('steps_judged')
                        if nxt < 0:
                            break
                        n += nxt
                    e = next(it, None)
                    if not rec.require(e is not None and not is_iter(e), 'trace:step-extra', f'tree {j}: {e} {c}'):
                        return
            rec.case(('t', i, b, tr))
    rec.sample(dict(table=ctx, log=texts['stderr', 1][:400]))


# ---------------------------------------------------------------- nearest neighbours
KNN = r'''
#include <eml_neighbors.h>
static int v_no;
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    START
    int64_t nh; int32_t *h = (int32_t *)v_get(4, &nh); int32_t *p = h;
    const int m = *p++, cap = *p++, k = *p++, ops = *p++;
    int16_t *data = (int16_t *)calloc(m * cap + 1, 2), *labels = (int16_t *)calloc(cap + 1, 2);
    EmlNeighborsModel model = { (uint16_t)m, 0, (int16_t)cap, data, labels, (int16_t)k };
    EmlNeighborsDistanceItem *d = (EmlNeighborsDistanceItem *)calloc(cap + 1, sizeof(*d));
    for (int o = 0; o < ops; o++) {
        const int type = *p++, len = *p++, label = *p++; int16_t *v = (int16_t *)calloc(len + 1, 2), out = -4242;
        for (int i = 0; i < len; i++) { v[i] = (int16_t)*p++; }
        MARK
        v_i32(type == 0 ? (int32_t)eml_neighbors_add_item(&model, v, (int16_t)len, (int16_t)label) : (int32_t)eml_neighbors_predict(&model, v, len, d, cap, &out));
        v_i32(out); free(v);
    }
    free(h); free(data); free(labels); free(d); v_close(); return 0;
}
'''
KEXE = {}


def knn_builds():
    for sink in SINKS:
        for level in (None, 0, 1, 2, 3) if sink == 'stderr' else (3,):
            code = SINKS[sink] + (f'#define EML_NEIGHBORS_LOG_LEVEL {level}\n' if level is not None else '') + cc.READER + KNN.replace('START', start(sink)).replace('MARK', mark(sink) if not sink.startswith('off') else '')
            KEXE[sink, level] = cc.compile_c(code, san=sink == 'stderr' and level == 3, mechanism='neighbors:compile')


def knn_case(rec, i):
    g = core.rng('C27', 'knn', i)
    R = lambda a, b: int(g.integers(a, b + 1))
    m, cap = R(1, 6), R(1, 40)
    k = R(1, min(cap, 9))
    span = int(g.choice([3, 100, 32767]))
    pt = lambda n: g.integers(-span, span + 1, size=n).tolist()
    hist, ops = [], []
    for _ in range(k):
        ops.append((0, pt(m), R(0, 9)))
    for _ in range(R(5, 45)):
        t = R(0, 1)
        n = m if g.random() < .9 else m + 1
        ops.append((t, pt(n), R(0, 9)))
    for t, v, l in ops:
        hist += [t, len(v), l, *v]
    d = core.scratch('k')
    cc.put(d + '/i', numpy.array([m, cap, k, len(ops)] + hist, 'i4'))
    raws, texts = {}, {}
    for b, exe in KEXE.items():
        r = cc.run(exe, [d + '/i', d + '/o', d + '/log'], what='neighbors')
        check_streams(rec, r, b[0])
        raws[b] = numpy.fromfile(d + '/o', '<i4').reshape(-1, 2)
        texts[b] = open(d + '/log').read() if b[0] == 'custom' else r.stderr.decode('utf8', 'replace')
    ref = raws['off', 3]
    for b in raws:
        rec.require(numpy.array_equal(raws[b], ref), 'neighbors:answers-depend-on-log', str(b))
    rec.require(texts['stderr', 3] == texts['custom', 3], 'neighbors:sink-gets-other-log', '')
    ctx = f'features={m} capacity={cap} k={k}'
    B = {}
    for lv in (None, 0, 1, 2, 3):
        B[lv] = blocks(rec, texts['stderr', lv], len(ops), f'level {lv} {ctx}')
        if B[lv] is None:
            return
    rec.require(texts['stderr', None] == texts['stderr', 0], 'neighbors:default-level-not-0', ctx)
    items = []
    for o, (t, v, l) in enumerate(ops):
        c = f'op {o} {ctx}'
        ok = int(ref[o][0]) == 0
        rec.require(not B[0][o], 'neighbors:level0-logs', f'{B[0][o][:2]} {c}')
        for lv in (0, 1, 2):       # a higher level only adds entries
            it = iter(B[lv + 1][o])
            rec.require(all(any(e == f for f in it) for e in B[lv][o]), 'neighbors:level-drops-entries', f'{lv} {c}')
        get = lambda name: [e for e in B[3][o] if e[0] == name]
        if t == 0:
            good = len(v) == m and len(items) < cap
            rec.require(ok == good, 'neighbors:add-result', c)
            es = get('eml_neighbors_add_item')
            if not good:
                rec.require(not es, 'neighbors:refused-add-logged', f'{es} {c}')
                rec.ev('refused_adds')
                continue
            if rec.require(len(es) == 1, 'neighbors:add-entries', f'{es} {c}'):
                x = ivals(rec, es[0], ['index', 'label'], 'add', c)
                x and rec.require(x == [len(items), l], 'neighbors:add-values', f'{es[0]} want {[len(items), l]} {c}')
                rec.ev('adds_judged')
            items.append((v, l))
            continue
        if len(v) != m:
            rec.require(not ok and not get('eml_neighbors_infer_iter') and not get('eml_neighbors_find_nearest_k_iter'), 'neighbors:refused-predict-logged', c)
            rec.ev('refused_predicts')
            continue
        rec.require(ok, 'neighbors:predict-result', f'{ref[o]} {c}')
        from math import isqrt
        dist = [isqrt(sum((a - b) ** 2 for a, b in zip(x, v))) for x, _ in items]
        es = get('eml_neighbors_infer_iter')
        x = [ivals(rec, e, ['index', 'distance', 'label'], 'infer', c) for e in es]
        rec.require(sorted(map(tuple, filter(None, x))) == [(j, dist[j], items[j][1]) for j in range(len(items))], 'neighbors:infer-entries', lambda: f'{x[:5]} want {dist[:5]} {c}')
        s = get('eml_neighbors_find_nearest_start')
        if rec.require(len(s) == 1, 'neighbors:start-entries', f'{s} {c}'):
            x = ivals(rec, s[0], ['distances', 'items', 'k'], 'find', c)
            x and rec.require(x == [len(items), len(items), k], 'neighbors:start-values', f'{s[0]} {c}')
        x = [ivals(rec, e, ['index', 'distance', 'label'], 'nearest', c) for e in get('eml_neighbors_find_nearest_k_iter')]
        x = [a for a in x if a]
        rec.require([a[1] for a in x] == sorted(dist)[:k], 'neighbors:nearest-distances', lambda: f'{x} want {sorted(dist)[:k]} {c}')
        rec.ev('nearest_judged', len(x))
        votes = {}
        for e in get('eml_neighbors_find_nearest_votes_iter'):
            a = ivals(rec, e, ['index', 'votes'], 'votes', c)
            if a:
                rec.require(a[0] not in votes, 'neighbors:votes-twice', f'{e} {c}')
                votes[a[0]] = a[1]
        # the index of a k_iter entry is its rank; which of the items at equal distance were taken is told by the label
        want = {}
        for a in x:
            rec.require(any(dist[j] == a[1] and items[j][1] == a[2] for j in range(len(items))), 'neighbors:nearest-label', f'{a} {c}')
            want[a[2]] = want.get(a[2], 0) + 1
        rec.require({q: n for q, n in votes.items() if n} == want, 'neighbors:votes', f'{votes} want {want} {c}')
        best = max(want.values()) if want else 0
        rec.require(int(ref[o][1]) == min(q for q, n in want.items() if n == best), 'neighbors:log-contradicts-answer', f'{want} answer {ref[o][1]} {c}')
        rec.ev('predicts_judged')
        rec.case(('k', i, o))
    rec.ev('silent_runs', not texts['off', 3] and not texts['off0', 3])
    rec.sample(dict(history=ctx, log=texts['stderr', 3][:300]))


def main():
    chk = core.Check('C27')
    builds = []
    for f in (tree_builds, knn_builds):
        try:
            f()
            builds.append(f)
        except core.Violation as v:
            # the table driver fills the structs through their field names: a tree without those names is not judged, unless it is the log that does not compile
            try:
                cc.compile_c(cc.READER + TREES.replace('START', '').replace('MARK', '') if f is tree_builds else cc.READER + KNN.replace('START', '').replace('MARK', ''), san=False)
            except core.Violation:
                continue
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), f.__name__)
    chk.run(macro_case, [(s, i) for i in range(core.pick(50, 300)) for s in SINKS])
    if tree_builds in builds:
        chk.run(table_case, range(core.pick(240, 1500)))
    if knn_builds in builds:
        chk.run(knn_case, range(core.pick(500, 3000)))
    chk.finish('one case = one logged call: random programs with every macro of eml_log.h, decision tables (all leaf kinds, refused calls, with and without EML_TREES_TRACE), nearest-neighbour histories at every log level; '
               'each log is parsed as logfmt and compared with an independent walk / exact k-NN; builds with another sink and without logging run the same programs',
               dict(macro_entries=200, macro_silent=20, arrays=30, entries_parsed=5000, leaves_judged=2000, steps_judged=3000, votes_judged=100, outputs_judged=100, refused_calls=500, adds_judged=300,
                    predicts_judged=300, nearest_judged=500, refused_adds=20, silent_runs=50) if len(builds) == 2 else dict(macro_entries=200),
               ['keys and event names have no blanks, quotes or equal signs (the macros do not quote)', 'values added to an entry have the type the macro documents', 'event names and keys are the ones in use today ("unique and stable")'])


main()
