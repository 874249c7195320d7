"""C22: the figures reported about a model or a program against independent counts: tree arrays of the estimator, sizes of the compiled tables, sections of the
built binaries, and the definition of dominance."""
import os, re, shlex, struct, tempfile
import numpy
from vlib import core, cc, treegen


# ---- trees
def depth(t):
    best, stack = 0, [(0, 0)]
    while stack:
        n, d = stack.pop()
        best = max(best, d)
        if t.children_left[n] != -1:
            stack += [(t.children_left[n], d + 1), (t.children_right[n], d + 1)]
    return best


def path_nodes(t, X):
    """nodes visited by each row"""
    X = numpy.asarray(X, numpy.float32)
    out = []
    for r in X:
        n, k = 0, 1
        while t.children_left[n] != -1:
            n = t.children_left[n] if float(r[t.feature[n]]) <= float(t.threshold[n]) else t.children_right[n]
            k += 1
        out.append(k)
    return numpy.array(out, float)


def trees(rec, key):
    import emlearn
    from emlearn.evaluate import trees as ev
    g = core.rng('C22', 'trees', key)
    progs, want = [], []
    for j in range(core.pick(12, 24)):
        cls = g.random() < 0.65
        dtype = str(g.choice(['int16_t', 'int16_t', 'int16_t', 'float', 'int8_t']))
        est, X = (treegen.classifier if cls else treegen.regressor)(g, dtype, 'loadable')
        if j == 2 and key % 4 == 0:
            est, X = treegen.wide(g, cls, dtype)
            rec.ev('wide_ensembles')
        ts = treegen.subtrees(est)
        y = None
        desc = f'{type(est).__name__} trees={len(ts)} dtype={dtype}'
        # counted from the estimator
        nodes = sum(max(1, int(numpy.sum(t.children_left != -1))) for t in ts)
        dep = [depth(t) for t in ts]
        values = [t.value[i][0] for t in ts for i in numpy.flatnonzero(t.children_left == -1)]
        plain = len({int(numpy.argmax(v)) for v in values}) if cls else len({float(v[0]) for v in values})
        state = [t.__getstate__()['nodes'].tobytes() for t in ts]
        rec.require(ev.model_size_nodes(est) == nodes, 'trees:nodes', lambda: f'{ev.model_size_nodes(est)} reported, {nodes}: {desc}')
        rec.require(ev.model_size_nodes(est, X, y) == nodes, 'trees:nodes', desc)
        rec.require(ev.model_size_leaves(est, X, y) == plain, 'trees:leaves', lambda: f'{ev.model_size_leaves(est)} reported, {plain}: {desc}')
        rec.require(ev.model_size_bytes(est, X, y) == nodes * 8 + plain * (1 if cls else 4), 'trees:bytes', lambda: f'{ev.model_size_bytes(est)} reported: {desc}')
        ns, ls = int(g.integers(1, 20)), int(g.integers(1, 20))
        rec.require(ev.model_size_bytes(est, node_size=ns, leaf_size=ls) == nodes * ns + plain * ls, 'trees:bytes', lambda: f'node_size={ns} leaf_size={ls}: {desc}')
        rec.require(ev.model_size_bytes(est, node_size=ns) == nodes * ns + plain * (1 if cls else 4), 'trees:bytes', lambda: f'node_size={ns}: {desc}')
        rec.require(ev.model_size_bytes(est, leaf_size=0) == nodes * 8, 'trees:bytes', lambda: f'leaf_size=0: {desc}')
        rec.require(ev.count_trees(est, X, y) == len(ts), 'trees:count', lambda: f'{ev.count_trees(est)} reported, {len(ts)}')
        rec.require(abs(ev.tree_depth_average(est, X, y) - numpy.mean(dep)) < 1e-9, 'trees:depth', lambda: f'{ev.tree_depth_average(est)} reported, {dep}')
        rec.require(ev.tree_depth_difference(est, X, y) == max(dep) - min(dep), 'trees:depth-difference', lambda: f'{ev.tree_depth_difference(est)} reported, {dep}')
        # few rows, or many of which the later ones differ from the earlier ones
        nq = int(g.integers(1, 60)) if g.random() < 0.8 else int(10 ** g.uniform(2.5, 4.2))
        Q = X[g.integers(0, len(X), nq)]
        if nq > 60:
            Q = Q[numpy.argsort(Q[:, int(g.integers(0, Q.shape[1]))] * int(g.choice([-1, 1])), kind='stable')]
            rec.ev('large_datasets')
        Q0 = Q.copy()
        Qf = [Q, Q.astype('f4'), Q.tolist(), numpy.asfortranarray(Q)][int(g.integers(0, 4))]
        cost = sum(float(path_nodes(t, Q).mean()) for t in ts)
        got = ev.compute_cost_estimate(est, Qf, y)
        rec.require(abs(float(got) - cost) <= 1e-6 * cost, 'trees:compute-cost', lambda: f'{got} reported, {cost}: {desc}')
        rec.require(numpy.array_equal(Q, Q0) and state == [t.__getstate__()['nodes'].tobytes() for t in ts], 'trees:changed', desc)
        rec.ev('models')
        rec.ev('paths_walked', len(Q) * len(ts))
        rec.ev('single_leaf_trees', sum(t.node_count == 1 for t in ts))
        rec.case((desc, nodes, plain, tuple(dep)))
        # the tables that are generated
        if dtype != 'int16_t' or X.shape[1] > 127:
            continue
        bits = int(g.integers(0, 9)) if cls else None
        m = emlearn.convert(est, method='loadable', dtype='int16_t', **({} if bits is None else dict(leaf_bits=bits)))
        f = dict(nodes=ev.model_size_nodes(m), leaves=ev.model_size_leaves(m), bytes=ev.model_size_bytes(m))
        soft = cls and bits > 1
        per = 4 if not cls else (m.n_classes if soft else 1)
        progs.append(m.save(name=f'm{j}', format='c', include_proba=False) if cls else m.save(name=f'm{j}', format='c'))
        want.append((j, f, len(ts), per, nodes, desc + f' leaf_bits={bits}'))
    if not want:
        return
    body = ''.join(f'printf("%d %d %d %d\\n", (int)(m{j}.n_nodes * sizeof(*m{j}.nodes)), (int)m{j}.n_nodes, (int)(m{j}.n_leaves * sizeof(*m{j}.leaves)), (int)m{j}.n_trees);\n' for j, *_ in want)
    exe = cc.compile_c('#include <stdio.h>\n' + '\n'.join(progs) + '\nint main(void) {\n' + body + 'return 0; }\n', mechanism='tables:compile')
    for line, (j, f, nt, per, nodes, desc) in zip(cc.run(exe, what='tables').stdout.decode().splitlines(), want):
        nb, nn, lb, roots = map(int, line.split())
        rec.require(f['nodes'] == nn == nodes, 'tables:nodes', lambda: f'{f["nodes"]} reported, {nn} in the table, {nodes} in the estimator: {desc}')
        rec.require(f['leaves'] * per == lb, 'tables:leaves', lambda: f'{f["leaves"]} reported, {lb} bytes of {per}: {desc}')
        rec.require(f['bytes'] == nb + lb, 'tables:bytes', lambda: f'{f["bytes"]} reported, {nb}+{lb} in the tables: {desc}')
        rec.require(roots == nt, 'tables:trees', lambda: f'{roots} {nt}: {desc}')
        rec.ev('tables_compared')
    rec.sample(dict(model=want[0][5], reported=want[0][1]))


# ---- Pareto
def front(P):
    """rows that no other row dominates"""
    n = len(P)
    keep = []
    for i in range(n):
        dominated = any(all(P[j][k] <= P[i][k] for k in range(len(P[i]))) and any(P[j][k] < P[i][k] for k in range(len(P[i]))) for j in range(n))
        keep.append(not dominated)
    return keep


def column(g, n):
    k = int(g.integers(0, 9))
    if k == 0:
        return g.normal(size=n)
    if k == 1:
        return g.integers(-3, 4, n).astype(g.choice(['i8', 'i4', 'i2', 'i1', 'f4']))
    if k == 2:
        return g.integers(0, 5, n).astype(g.choice(['u1', 'u2', 'u4', 'u8']))
    if k == 3:
        return g.choice([0.0, -0.0, 0.5, 1.0, numpy.inf, -numpy.inf], n)
    if k == 4:
        return numpy.full(n, 0.7)
    if k == 5:
        return g.integers(-100, 100, n) / 100
    if k == 6:
        return g.random(n).astype('f4')
    if k == 7:
        return numpy.arange(n)[::-1] * 1.0 if g.random() < 0.5 else numpy.arange(n)
    return g.normal(size=n) * 10.0 ** g.uniform(-300, 300, n)


def pareto(rec, key):
    import pandas
    from emlearn.evaluate import pareto as ev
    g = core.rng('C22', 'pareto', key)
    for _ in range(core.pick(120, 500)):
        n = int(g.choice([1, 1, 2, 3, 4, 6, 10, 25, 60]))
        perf, cost = column(g, n), column(g, n)
        if g.random() < 0.3 and n > 1:
            j = g.integers(0, n, n)
            perf, cost = perf[j], cost[j]
        pn, cn = 'mean_test_accuracy', 'mean_test_compute'
        kw = {}
        if g.random() < 0.5:
            pn, cn = str(g.choice(['error', 'f1 score', 'x'])), str(g.choice(['size', 'Bytes', 'time (ms)']))
            kw = dict(cost_metric=cn, performance_metric=pn)
        df = pandas.DataFrame({'params': [f'p{i}' for i in range(n)], cn: cost, 'other': g.normal(size=n), pn: perf})
        if g.random() < 0.4:
            df.index = [g.permutation(n), numpy.zeros(n, int), [f'r{i}' for i in range(n)], pandas.RangeIndex(5, 5 + n)][int(g.integers(0, 4))]
        if g.random() < 0.2:
            df = df[[pn, 'other', cn, 'params']]
        up = True
        if g.random() < 0.5:
            up = bool(g.random() < 0.5)
            kw['higher_is_better'] = up
        cut = None
        if g.random() < 0.5:
            cut = [float(perf[g.integers(0, n)]), float(g.normal()), 0, numpy.inf, -numpy.inf][int(g.integers(0, 5))]
            kw['min_performance'] = cut
        d0 = df.copy(deep=True)
        pv, cv = [v.item() for v in perf], [v.item() for v in cost]
        keep = front([(-p if up else p, c) for p, c in zip(pv, cv)])
        if cut is not None:
            keep = [k and (p >= cut if up else p <= cut) for k, p in zip(keep, pv)]
        desc = dict(performance=pv[:30], cost=cv[:30], options={k: v for k, v in kw.items()}, dtypes=[str(perf.dtype), str(cost.dtype)])
        try:
            got = ev.find_pareto_front(df, **kw)
        except Exception as e:
            rec.fail('pareto:fails', f'{type(e).__name__}: {e}', **desc)
            continue
        ref = d0[numpy.array(keep)]
        rec.require(got.equals(ref) and list(got.columns) == list(ref.columns) and got.index.equals(ref.index), 'pareto:front',
                    lambda: f'rows {got["params"].tolist()} for {ref["params"].tolist()}', **desc)
        rec.require(df.equals(d0) and all(df[c].dtype == d0[c].dtype for c in df) and df.index.equals(d0.index), 'pareto:table-changed', 'the results were modified', **desc)
        rec.ev('fronts')
        rec.ev('rows_on_front', len(ref))
        rec.ev('rows_dominated', n - sum(keep))
        rec.ev('cut_fronts', int(cut is not None))
        rec.ev('lower_is_better', int(not up))
        rec.case((perf.tobytes(), cost.tobytes(), repr(kw)))
        # several costs
        k = int(g.integers(1, 6))
        C = numpy.column_stack([column(g, n).astype('f8') for _ in range(k)])
        if g.random() < 0.4:
            C = C[g.integers(0, n, n)]
        C0 = C.copy()
        m = ev.is_pareto_efficient_simple(C)
        ref = front(C.tolist())
        rec.require(len(m) == n and [bool(x) for x in m] == ref, 'pareto:efficient', lambda: f'{[bool(x) for x in m]} for {ref}', costs=C)
        rec.require(numpy.array_equal(C, C0), 'pareto:table-changed', 'costs modified')
        rec.ev('efficient_sets')
    rec.sample(desc)


def plots(rec, key):
    """the front that is drawn, read back from the figure"""
    import matplotlib, pandas
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from emlearn.evaluate import pareto as ev
    g = core.rng('C22', 'plot', key)
    for _ in range(core.pick(4, 12)):
        n = int(g.choice([1, 2, 5, 12, 40]))
        pn, cn, sn = 'mean_test_accuracy', 'mean_test_compute', 'mean_test_size'
        kw = {}
        d = {pn: g.random(n), cn: g.random(n) * 100, sn: g.random(n) * 1000}
        for default, key_, others in ((pn, 'performance_metric', ['f1', 'mean_test_roc auc']), (cn, 'cost_metric', ['time', 'Bytes']), (sn, 'size_metric', ['flash'])):
            if g.random() < .4:
                kw[key_] = str(g.choice(others))
                d[kw[key_]] = numpy.round(g.random(n) * (50 if key_ == 'cost_metric' else 1), int(g.integers(1, 6)))
                if g.random() < .5:
                    del d[default]
        if g.random() < .3:
            c = kw.get('cost_metric', cn)
            d[c] = numpy.round(d[c] / 10)
        hue = g.random() < .5
        if hue:
            kw['hue'] = 'group'
            d['group'] = [f'g{v}' for v in g.integers(0, 3, size=n)]
        df = pandas.DataFrame(d)
        if g.random() < .4:
            df = df.sample(frac=1, random_state=1)
        for k, p in (('pareto_global', .5), ('plot_other', .7), ('plot_pareto', .9)):
            if g.random() < .5:
                kw[k] = bool(g.random() < p)
        if g.random() < .4:
            kw['pareto_cut'] = float(g.random())
        p, c = kw.get('performance_metric', pn), kw.get('cost_metric', cn)
        perf, cost = df[p].tolist(), df[c].tolist()
        on = [k and x >= kw.get('pareto_cut', -1) for k, x in zip(front([(-x, y) for x, y in zip(perf, cost)]), perf)]
        d0 = df.copy(deep=True)
        desc = dict(performance=perf[:20], cost=cost[:20], options=kw)
        try:
            G = ev.plot_pareto_front(df, **kw)
            ax = G.axes.flat[0]
            lines = sorted(sorted(map(tuple, l.get_xydata().tolist())) for l in ax.lines if len(l.get_xdata()))
            order = [l.get_xdata().tolist() for l in ax.lines]
            marks = sorted(tuple(o) for q in ax.collections if hasattr(q, 'get_offsets') and type(q).__name__ == 'PathCollection' for o in numpy.asarray(q.get_offsets()).tolist())
        except Exception as e:
            rec.fail('plot:fails', f'{type(e).__name__}: {e}', **desc)
            continue
        finally:
            plt.close('all')
        levels = sorted(set(df['group'])) if hue else [None]
        if kw.get('plot_pareto', True):
            want = []
            for lv in levels:
                rows = [(y, x) for x, y, o, q in zip(perf, cost, on, df['group'] if hue else [None] * n) if o and (kw.get('pareto_global', False) or q == lv)]
                if rows:
                    want.append(sorted(set(rows)))
        else:
            want = []
        near = lambda A, B: len(A) == len(B) and all(len(a) == len(b) and numpy.allclose(a, b, rtol=1e-9, atol=1e-12) for a, b in zip(A, B))
        rec.require(near(lines, sorted(want)), 'plot:front', lambda: f'lines {lines} for {sorted(want)}', **desc)
        rec.require(all(o == sorted(o) for o in order), 'plot:front-not-in-order', lambda: f'{order}', **desc)
        wm = sorted(zip(cost, perf)) if kw.get('plot_other', True) else []
        rec.require([m for m in marks if m in set(wm)] == wm if wm else not marks, 'plot:points', lambda: f'{len(marks)} of {len(wm)}', **desc)
        rec.require(df.equals(d0), 'plot:table-changed', 'the results were modified', **desc)
        rec.ev('plots')
        rec.ev('plotted_front_points', sum(map(len, want)))
        rec.case(('plot', key, repr(kw), perf[0]))


# ---- sizes
NAMES = ['.text', '.data', '.bss', '.rodata', '.comment', '.note.gnu.avr.deviceinfo', '.debug_aranges', '.debug_info', '.debug_str', '.ARM.exidx', '.ARM.attributes', '.init_array', '.fini_array',
         '.eeprom', '.stack', '.noinit', '.heap', '.isr_vector', '.jcr', '.tm_clone_table', '.note.gnu.build-id', '.note.GNU-stack', '.eh_frame', '.fini', '.init', '.data1', '.text1', '.bss2',
         '.textile', '.persistent.bss.x', '.user_data']


def listings(rec, key):
    from emlearn.evaluate import size as ev
    g = core.rng('C22', 'list', key)
    d = core.scratch('size')
    for _ in range(core.pick(150, 1000)):
        sec = {'.text': int(g.integers(0, 2**int(g.integers(1, 24))))}
        for n in NAMES[1:4]:
            if g.random() < 0.6:
                sec[n] = int(g.choice([0, 1, 4, int(g.integers(0, 2**20))]))
        for n in NAMES[4:]:
            if g.random() < 0.25:
                sec[n] = int(g.integers(0, 2**16))
        order = [str(n) for n in g.permutation(list(sec))]
        w = max(map(len, order)) + int(g.integers(1, 4))
        path = str(g.choice(['out.elf', '/tmp/tmp12ab/out.elf', '/home/user 1/my prog 2.elf', '/tmp/42/7.elf']))
        t = f'{path}  :\n{"section":<{w}}{"size":>8}{"addr":>11}\n'
        for n in order:
            t += f'{n:<{w}}{sec[n]:>8}{int(g.choice([0, 8388864, 536870912, int(g.integers(0, 2**31))])):>11}\n'
        t += f'{"Total":<{w}}{sum(sec.values()):>8}\n\n\n'
        got = ev.parse_binutils_size_a_output(t)
        want = {n: sec.get(n, 0) for n in NAMES[:4]}
        rec.require({n: got[n] for n in want} == want, 'listing:sections', lambda: f'{ {n: got[n] for n in want} } for {want}', text=t)
        rec.require(all(got.get(n.lower()) == v for n, v in sec.items() if '-' not in n), 'listing:other-sections', lambda: f'{got} for {sec}', text=t)
        tool = os.path.join(d, 'fake-size')
        if g.random() < 0.1:
            with open(tool, 'w') as f:
                f.write("#!/bin/sh\n[ \"$1\" = -A ] || exit 1\n[ \"$LC_ALL\" = C ] || exit 1\ncat <<'END'\n" + t + 'END\n')
            os.chmod(tool, 0o755)
            got = ev.run_binutils_size(os.path.join(d, 'out.elf'), tool)
            want = dict(flash=sec['.text'] + sec.get('.data', 0) + sec.get('.rodata', 0), ram=sec.get('.data', 0) + sec.get('.bss', 0))
            rec.require(got == want, 'listing:flash-ram', lambda: f'{got} for {want}', text=t)
            rec.ev('listings_run')
        rec.ev('listings')
        rec.ev('listings_without_rodata', int('.rodata' not in sec))
        rec.ev('listings_without_bss', int('.bss' not in sec))
        rec.case(t)
    rec.sample(dict(text=t[:200]))


def sections(path):
    """section sizes of an ELF file"""
    b = open(path, 'rb').read()
    assert b[:4] == b'\x7fELF' and b[4] == 1 and b[5] == 1
    shoff, = struct.unpack_from('<I', b, 32)
    ent, num, stri = struct.unpack_from('<HHH', b, 46)
    hd = [struct.unpack_from('<10I', b, shoff + i * ent) for i in range(num)]
    so = hd[stri][4]
    return {b[so + h[0]:b.index(b'\0', so + h[0])].decode(): h[5] for h in hd}


def programs(rec, key):
    from emlearn.evaluate import size as ev
    import emlearn
    platform, mcu, i = key
    if ev.check_build_tools(platform):
        rec.ev('toolchain_missing')
        return
    g = core.rng('C22', 'prog', *key)
    nd, nb, nc = (int(g.choice([0, 0, 1, 7, 50, 200])) for _ in range(3))
    code = '#include <stdint.h>\n'
    inc = None
    if i % 3 == 2:
        est, X = treegen.classifier(g, 'int16_t', 'loadable')
        while X.shape[1] > 60 or sum(t.node_count for t in treegen.subtrees(est)) > 300:
            est, X = treegen.classifier(g, 'int16_t', 'loadable')
        code += emlearn.convert(est, method='loadable', dtype='int16_t').save(name='model', format='c', include_proba=False)
        code += f'\nstatic volatile int16_t feat[{X.shape[1]}];\nint32_t model_run(void) {{ return model_predict((const int16_t *)feat, {X.shape[1]}); }}\n'
        main = 'r += model_run();'
    else:
        main = ''
        d = os.path.join(core.scratch('inc'), str(g.choice(['inc', 'my include', 'a$b', "it's"])))
        os.mkdir(d)
        rec.ev('include_paths_quoted', int(not d.endswith('/inc') and i % 3 == 1))
        with open(os.path.join(d, 'local_header.h'), 'w') as f:
            f.write(f'#define LOCAL {int(g.integers(1, 1000))}\n')
        if i % 3 == 1:
            inc = [d]
            code += '#include <local_header.h>\n'
            main = 'r += LOCAL;'
            if i % 2 or g.random() < 0.5:       # several directories
                inc = [d, core.INC]
                code += '#include <eml_common.h>\n'
                if g.random() < 0.5:
                    inc = inc[::-1]
        else:
            code += '#include <eml_common.h>\n'
    code += f'volatile uint8_t a_data[{nd + 1}] = {{ 1, 2, }};\n' if nd else ''
    code += f'volatile uint8_t a_bss[{nb}];\n' if nb else ''
    code += f'const volatile uint8_t a_ro[{nc}] = {{ {", ".join(str(int(v)) for v in g.integers(0, 256, nc))} }};\n' if nc else ''
    code += 'int main(void) { volatile int r = 0;' + main + (' r += a_data[1];' if nd else '') + (' r += a_bss[0];' if nb else '') + (' r += a_ro[0];' if nc else '') + ' return r; }\n'
    build = dict(avr=ev.build_avr8_code, arm=ev.build_arm_cortex_code)[platform]
    seen = {}
    real = ev.run_binutils_size

    def watch(elf_file, binary):
        seen['elf'] = sections(str(elf_file))
        return real(elf_file, binary=binary)
    ev.run_binutils_size = watch
    quiet = os.open(os.devnull, os.O_WRONLY)
    err = os.dup(2)
    os.dup2(quiet, 2)
    try:
        kw = {} if inc is None else dict(include_dirs=inc)
        got = ev.get_program_size(code, platform=platform, mcu=mcu, **kw)
    finally:
        ev.run_binutils_size = real
        os.dup2(err, 2)
        os.close(quiet)
        os.close(err)
    if not seen:
        # the tool is not called through the module: build it again
        with tempfile.TemporaryDirectory() as d:
            seen['elf'] = sections(build(code, work_dir=d, mcu=mcu, extra_cflags=' '.join(shlex.quote('-I' + str(x)).replace('$', '$$') for x in (inc or [core.INC]))))
    s = seen['elf']
    want = dict(flash=s['.text'] + s.get('.data', 0) + s.get('.rodata', 0), ram=s.get('.data', 0) + s.get('.bss', 0))
    rec.require(dict(got) == want, 'program:size', lambda: f'{got} reported, sections {want} on {platform} {mcu}', code=code[:3000])
    rec.require(want['ram'] >= nb + (nd + 1 if nd else 0), 'program:sections', f'{want} with {nd} {nb}')
    rec.ev(f'programs_{platform}')
    rec.case((platform, mcu, code))
    rec.sample(dict(platform=platform, mcu=mcu, sizes=want))


def tools(rec, key):
    """which build tools are missing, for every subset of them"""
    from emlearn.evaluate import size as ev
    d = core.scratch('path')
    path = os.environ['PATH']
    need = dict(avr=['make', 'avr-gcc', 'avr-size'], arm=['make', 'arm-none-eabi-gcc', 'arm-none-eabi-size'])
    for platform, names in need.items():
        for have in range(8):
            q = os.path.join(d, f'{platform}{have}')
            os.mkdir(q)
            for j, n in enumerate(names):
                if have >> j & 1:
                    with open(os.path.join(q, n), 'w') as f:
                        f.write('#!/bin/sh\nexit 0\n')
                    os.chmod(os.path.join(q, n), 0o755)
            os.environ['PATH'] = q
            try:
                r = ev.check_build_tools(platform)
            finally:
                os.environ['PATH'] = path
            missing = [n for j, n in enumerate(names) if not have >> j & 1]
            said = None if r is None else {n for ns in need.values() for n in ns if n in re.split(r'[^\w-]+', str(r))}
            rec.require((said or set()) == set(missing) and (r is None) == (not missing), 'tools:missing', f'{r!r} for {missing}')
            rec.ev('tool_sets')
            rec.case((platform, have))
    for bad in ('AVR', 'esp32', '', 'host'):
        for f in (lambda: ev.check_build_tools(bad), lambda: ev.get_program_size('int main(void) { return 0; }', bad, 'x')):
            try:
                rec.fail('tools:unknown-platform', f'{bad!r} -> {f()!r}')
            except ValueError:
                rec.ev('unknown_platforms_refused')


def main():
    chk = core.Check('C22')
    chk.run(trees, range(core.pick(16, 150)))
    chk.run(pareto, range(core.pick(16, 150)))
    try:
        import matplotlib, seaborn
        chk.run(plots, range(core.pick(10, 100)))
    except ImportError:
        pass
    chk.run(tools, [0])
    chk.run(listings, range(core.pick(8, 60)))
    mcus = [('avr', 'atmega328'), ('avr', 'atmega2560'), ('arm', 'Cortex-M0'), ('arm', 'Cortex-M0+'), ('arm', 'Cortex-M3'), ('arm', 'Cortex-M4F')]
    chk.run(programs, [(p, m, i) for i in range(core.pick(3, 24)) for p, m in mcus])
    chk.finish('tree figures against the estimator and the compiled tables; Pareto fronts against the definition; size listings, and AVR and ARM programs against the sections of the binary',
               dict(models=150, wide_ensembles=4, large_datasets=10, tables_compared=60, paths_walked=5000, single_leaf_trees=5, fronts=1500, rows_on_front=2000, rows_dominated=5000, cut_fronts=400, lower_is_better=200, efficient_sets=1500,
                    listings=1000, listings_run=50, listings_without_rodata=200, listings_without_bss=200),
               ['no NaN in result tables', 'a path counts every node visited, the leaf included', 'a single-leaf tree is stored with one decision node', 'figures of a model given as estimator are those of the default conversion',
                'programs are built with the avr and arm toolchains when they are installed'])


main()
