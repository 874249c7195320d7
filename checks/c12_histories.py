"""C12: independence of converted models. Oracle: what each model answers in a fresh process that converts only that model (reference), against what it answers anywhere in a random
history of convert / save / predict / refit / delete / failing calls over several models. Monitors after every operation: estimator and input digests, numpy state, working directory."""
import copy, gc, multiprocessing, os, threading, warnings
import joblib, numpy, emlearn
from vlib import core, families

METHODS = {'tree_clf': ['predict', 'predict_proba'], 'tree_reg': ['predict'], 'mlp_clf_loadable': ['predict', 'predict_proba'], 'mlp_clf_inline': ['predict'], 'mlp_reg': ['predict'],
           'bayes': ['predict'], 'knn': ['predict'], 'elliptic': ['predict', 'score_samples', 'mahalanobis'], 'gmm': ['predict', 'predict_proba', 'predict_log_proba', 'score_samples'],
           'bgmm': ['predict', 'predict_proba', 'predict_log_proba', 'score_samples']}
REFS = {}
NAMES = ['alpha', 'mymodel', 'mytree', 'b']


def methods(family):
    return next(v for k, v in METHODS.items() if family.startswith(k))


def chosen(i):
    g = core.rng('C12', 'pool', i)
    fams = families.FAMILIES
    first = fams[i % len(fams)]
    c = [first, first if g.random() < 0.6 else str(g.choice(fams)), str(g.choice(fams))]
    if g.random() < 0.5:
        c.append(str(g.choice([first, str(g.choice(fams))])))
    return g, c


def pool(i):
    """the models of history i: [(Model, refit mode)], deterministic"""
    g, chosen_families = chosen(i)
    out = []
    for j, f in enumerate(chosen_families):
        mod = families.make(core.rng('C12', 'model', i, j if g.random() < 0.8 else 0), f, nq=8)
        modes = ['fit']
        if f.startswith('mlp') or f == 'bayes':
            modes += ['partial_fit'] * 2
        if f.startswith('mlp_reg'):
            modes += ['warm']
        out.append((mod, str(g.choice(modes))))
    h = core.rng('C12', 'twin', i)
    if h.random() < 0.4:
        t = twin(h, out[0][0])
        if t is not None:
            out.append((t, 'fit'))
    return out


def twin(h, mod):
    """a model of the same shape whose code is nearly the same text: the same data with the columns or the classes in another order"""
    est, X = copy.deepcopy(mod.est), numpy.asarray(mod.X)
    m, Q = X.shape[1], mod.Q
    supervised = hasattr(est, 'predict') and mod.family not in ('elliptic', 'gmm', 'bgmm')
    y = est.predict(X) if supervised else None
    perm = numpy.arange(m)
    if m > 1 and (not supervised or h.random() < .6):
        perm = h.permutation(m)
    elif supervised and hasattr(est, 'classes_'):
        y = est.classes_[::-1][numpy.searchsorted(est.classes_, y)]
    elif supervised:
        y = -y
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        est.fit(X[:, perm], y) if supervised else est.fit(X[:, perm])
    if hasattr(est, 'classes_') and len(est.classes_) != mod.k and mod.k:
        return None
    k = mod.k if mod.family != 'tree_clf' else len(est.classes_)
    return families.Model(mod.family, est, mod.kw, numpy.ascontiguousarray(Q[:, perm]), X[:, perm], mod.dtype, k, mod.info + ' (twin)')


def refit(mod, mode):
    """fit the same estimator object again, to other data"""
    est, X = mod.est, numpy.asarray(mod.X, dtype=float)
    X2 = X[::-1][: max(len(X) - len(X) // 5, 2)] * 0.5
    supervised = hasattr(est, 'predict') and mod.family not in ('elliptic', 'gmm', 'bgmm')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        y2 = est.predict(X)[: len(X2)] if supervised else None
        if mode == 'partial_fit':
            for _ in range(3):
                est.partial_fit(X2, y2)
        elif mode == 'warm':
            est.set_params(warm_start=True, max_iter=5)
            est.fit(X * 0.7, est.predict(X))
        elif supervised:
            est.fit(X2, y2)
        else:
            est.fit(X2)


def overwrite(est):
    """the user goes on working with the arrays of the estimator"""
    n = 0
    arrays = [a for k in ('coefs_', 'intercepts_') for a in getattr(est, k, [])]
    arrays += [getattr(est, k, None) for k in ('theta_', 'var_', 'means_', 'weights_', 'precisions_cholesky_', 'covariances_', 'location_', 'precision_', 'covariance_', '_fit_X', '_y')]
    for e in list(getattr(est, 'estimators_', [])) + [est]:
        t = getattr(e, 'tree_', None)
        if t is not None:
            arrays += [t.threshold, t.value]
    for a in arrays:
        if isinstance(a, numpy.ndarray) and a.flags.writeable:
            a[...] = a[::-1] * 3 + 1 if a.ndim else a
            n += 1
    return n


def answer(fn):
    """result of a call in comparable form"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = fn()
    except (ValueError, NotImplementedError, AssertionError, TypeError, AttributeError) as e:
        return ('raise', type(e).__name__)
    return r if isinstance(r, str) else numpy.asarray(r)


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, str) or isinstance(b, str):
        return type(a) == type(b) and a == b
    return a.shape == b.shape and numpy.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def save_kinds(family):
    return ['c', 'csv'] if family.startswith('tree') else ['c']


def save(h, kind, name, **kw):
    return h.save(name=name, **(dict(format='csv') if kind == 'csv' else {}), **kw)


def reference(job):
    """in a process of its own: everything model j of history i answers, for both of its fits"""
    i, j, version = job
    wd = core.scratch('ref')
    os.chdir(wd)
    try:
        warnings.simplefilter('ignore')
        models = pool(i)
        mod, mode = models[j]
        if version:
            refit(mod, mode)
        h = answer_handle(mod)
        if isinstance(h, tuple):
            return job, dict(refused=h)
        res = dict(refused=None)
        for kind in save_kinds(mod.family):
            for n in NAMES:
                res['save', kind, n] = answer(lambda: save(h, kind, n))
        for m in methods(mod.family):
            res[m] = answer(lambda: getattr(h, m)(numpy.array(mod.Q)))
        return job, res
    except Exception as e:
        where = core.repo_frame(e.__traceback__)
        return job, dict(error=f'{type(e).__name__}: {e} at {where}')
    finally:
        os.chdir('/')
        core.shutil.rmtree(wd, ignore_errors=True)


def answer_handle(mod):
    try:
        return mod.convert()
    except (ValueError, NotImplementedError) as e:
        return ('raise', type(e).__name__)


def layout(g, a):
    """the same values in another representation"""
    kind = str(g.choice(['plain', 'fortran', 'readonly', 'strided', 'list', 'float64', 'reversed-view', 'offset']))
    b = numpy.array(a)
    if kind == 'fortran':
        b = numpy.asfortranarray(b)
    elif kind == 'readonly':
        b.setflags(write=False)
    elif kind == 'strided':
        w = numpy.zeros((len(b) * 2, b.shape[1] * 3), dtype=b.dtype)
        w[::2, ::3] = b
        b = w[::2, ::3]
    elif kind == 'list':
        b = b.tolist()
    elif kind == 'float64':
        b = b.astype(numpy.float64)
    elif kind == 'reversed-view':
        b = b[::-1].copy()[::-1]
    elif kind == 'offset':
        w = numpy.zeros(b.size + 3, dtype=b.dtype)
        w[3:] = b.ravel()
        b = w[3:].reshape(b.shape)
    return kind, b


def history(rec, key):
    i, ref = key, REFS[key]
    g = core.rng('C12', 'history', i)
    base = os.getcwd()
    models = pool(i)
    version = [0] * len(models)
    poisoned = [False] * len(models)
    handles = []       # (j, version, handle, serial)
    serial = 0
    log = []
    kept = []          # results handed out earlier, which must stay as they were
    g2 = core.rng('C12', 'kept', i)
    digest = [joblib.hash(m.est) for m, _ in models]
    style = dict(divide=str(g.choice(['ignore', 'warn'])), over=str(g.choice(['ignore', 'warn'])), under=str(g.choice(['ignore', 'warn'])), invalid=str(g.choice(['ignore', 'warn'])))
    old = numpy.seterr(**style)
    oldprint = numpy.get_printoptions()
    numpy.set_printoptions(precision=int(g.choice([3, 8])), suppress=bool(g.random() < 0.5), threshold=int(g.choice([5, 1000])))
    try:
        state = lambda: (numpy.geterr(), numpy.geterrcall(), {k: v for k, v in numpy.get_printoptions().items()}, os.getcwd(), numpy.getbufsize())
        steps = core.pick(20, 40)
        def fail(mech, what):
            rec.fail(mech, f'{what}; history: {"; ".join(log[-40:])}', pool=[m.info for m, _ in models], history=i)
        def judge(mech, got, want, what):
            rec.ev('answers_compared')
            if not same(got, want):
                fail(mech, f'{what}: {str(got)[:300]} instead of {str(want)[:300]}')
        def convert(j):
            nonlocal serial
            mod = models[j][0]
            want = ref[j, version[j]]['refused']
            log.append(f'convert {j}.{version[j]} {mod.family}')
            h = answer_handle(mod)
            if isinstance(h, tuple) or want:
                rec.ev('refusals_compared')
                if h != want:
                    fail('history:convert', f'convert of model {j}: {h} instead of {want}')
                return
            serial += 1
            handles.append((j, version[j], h, serial))
            rec.ev('conversions')
        def predict(slot, note=''):
            j, v, h, s = slot
            mod = models[j][0]
            m = str(g.choice(methods(mod.family)))
            n = len(mod.Q)
            how = str(g.choice(['all', 'permuted', 'single', 'subset', 'repeated']))
            idx = {'all': numpy.arange(n), 'permuted': g.permutation(n), 'single': g.integers(0, n, 1), 'subset': g.choice(n, int(g.integers(2, n)), replace=False),
                   'repeated': g.integers(0, n, 6)}[how]
            kind, A = layout(g, mod.Q[idx])
            log.append(f'{m} #{s} (model {j}.{v}) rows {how} {kind}{note}')
            before = joblib.hash(A)
            got = answer(lambda: getattr(h, m)(A))
            if joblib.hash(A) != before:
                fail('history:input-modified', f'{m} changed its input')
            rec.ev('inputs_checked')
            want = ref[j, v][m]
            if not isinstance(want, tuple):
                want = want[idx]
            judge(f'history:{m}', got, want, f'{m} of handle #{s}, model {j} ({mod.info}), fit {v}')
            if isinstance(got, numpy.ndarray):
                if got.flags.writeable and got.size and g2.random() < .15:
                    got.reshape(-1)[...] = 7         # the caller does as it likes with what it was given
                    log.append('  result overwritten')
                kept.append((got, joblib.hash(got), f'{m} #{s} rows {how}'))
            rec.ev(f'predict_{mod.family}')
            rec.ev(f'rows_{how}')
            rec.case((i, len(log)))
        def do_save(slot):
            j, v, h, s = slot
            kind = str(g.choice(save_kinds(models[j][0].family)))
            name = str(g.choice(NAMES))
            how = str(g.choice(['text', 'file', 'file']))
            log.append(f'save {kind} {name} {how} #{s} (model {j}.{v})')
            kw = {}
            if how == 'file':
                kw['file'] = os.path.join(base, f'{name}.h')
            got = answer(lambda: save(h, kind, name, **kw))
            judge('history:save', got, ref[j, v]['save', kind, name], f'save of handle #{s}, model {j} ({models[j][0].info}), fit {v}')
            if how == 'file' and isinstance(got, str):
                with open(kw['file'], newline='') as f:
                    judge('history:save-file', f.read(), got, f'file of handle #{s}')
            rec.ev('saves')
            rec.case((i, len(log)))
        for j in range(len(models)):
            if g.random() < 0.6:
                convert(j)
        for step in range(steps):
            st = state()
            op = str(g.choice(['convert', 'predict', 'save', 'refit', 'delete', 'bad', 'chdir', 'threads', 'overwrite', 'copy'], p=[.16, .34, .18, .07, .05, .08, .03, .04, .03, .02]))
            j = int(g.integers(0, len(models)))
            slot = handles[int(g.integers(0, len(handles)))] if handles else None
            expect_change = None
            if op == 'convert' and not poisoned[j]:
                convert(j)
            elif slot is None:
                continue
            elif op == 'predict':
                predict(slot)
            elif op == 'save':
                do_save(slot)
            elif op == 'refit' and version[j] == 0 and not poisoned[j]:
                log.append(f'refit {j} {models[j][1]}')
                refit(*models[j])
                version[j], expect_change = 1, j
                rec.ev(f'refit_{models[j][1]}')
            elif op == 'overwrite' and step > steps // 2 and not poisoned[j]:
                log.append(f'overwrite {j}')
                overwrite(models[j][0].est)
                poisoned[j], expect_change = True, j
                rec.ev('overwritten_estimators')
            elif op == 'delete' and len(handles) > 2:
                handles.remove(slot)
                log.append(f'delete #{slot[3]}')
                del slot
                gc.collect()
                rec.ev('deleted_handles')
            elif op == 'copy':
                log.append(f'copy #{slot[3]}')
                h2 = copy.copy(slot[2])
                serial += 1
                handles.append((slot[0], slot[1], h2, serial))
                rec.ev('copied_handles')
            elif op == 'bad':
                mod = models[slot[0]][0]
                m = str(g.choice(methods(mod.family)))
                what = str(g.choice(['columns', 'nan', 'empty', 'name', 'method', 'noname', 'onedim', 'kind']))
                log.append(f'bad {what} #{slot[3]}')
                Q = numpy.array(mod.Q, dtype=float)
                if mod.family in ('gmm', 'bgmm', 'elliptic') and what in ('nan', 'empty', 'onedim', 'columns'):
                    what = 'name'   # these accept or refuse such inputs in their own ways; the later answers are what counts
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        {'columns': lambda: getattr(slot[2], m)(Q[:, :-1] if Q.shape[1] > 1 else numpy.hstack([Q, Q])), 'nan': lambda: getattr(slot[2], m)(Q * numpy.nan),
                         'empty': lambda: getattr(slot[2], m)(Q[:0]), 'name': lambda: slot[2].save(name='not a name'), 'method': lambda: emlearn.convert(mod.est, method='unheard-of'),
                         'noname': lambda: slot[2].save(), 'onedim': lambda: getattr(slot[2], m)(Q[0]), 'kind': lambda: emlearn.convert(mod.est, kind='Unheard')}[what]()
                except Exception:
                    rec.ev('failed_calls')
            elif op == 'chdir':
                d = os.path.join(base, f'd{step}')
                os.mkdir(d)
                os.chdir(d)
                st = state()
                log.append('chdir')
                rec.ev('chdirs')
            elif op == 'threads' and len(handles) > 1:
                picks = [handles[int(k)] for k in g.choice(len(handles), min(3, len(handles)), replace=False)]
                jobs, out = [], {}
                for n, (jj, v, h, s) in enumerate(picks):
                    mod = models[jj][0]
                    m = methods(mod.family)[0]
                    jobs.append((n, jj, v, s, m, threading.Thread(target=lambda n=n, h=h, m=m, A=numpy.array(mod.Q): out.__setitem__(n, answer(lambda: getattr(h, m)(A))))))
                log.append('threads ' + ','.join(f'{m} #{s}' for _, _, _, s, m, _ in jobs))
                for t in jobs:
                    t[5].start()
                for t in jobs:
                    t[5].join()
                for n, jj, v, s, m, _ in jobs:
                    judge('history:threads', out.get(n, ('raise', 'unexpected')), ref[jj, v][m], f'{m} of handle #{s}, model {jj}, in parallel')
                rec.ev('parallel_predictions', len(jobs))
            # monitors
            now = state()
            if now != st:
                fail('history:global-state', f'{[(a, b) for a, b in zip(st, now) if a != b]} after {log[-1] if log else ""}')
            for k, (mod, _) in enumerate(models):
                d = joblib.hash(mod.est)
                if d != digest[k] and k != expect_change:
                    fail('history:estimator-modified', f'model {k} ({mod.info}) after {log[-1]}')
                digest[k] = d
            for a, d, what in kept:
                rec.ev('kept_results_checked')
                if joblib.hash(a) != d:
                    fail('history:earlier-result-changed', f'the result of {what} changed by {log[-1]}')
            del kept[:-6]
            rec.ev('operations')
            rec.ev('estimators_checked', len(models))
            if len(rec.violations) >= 3:
                return
        # every handle that is left still answers
        for slot in handles:
            predict(slot, ' (end)')
            do_save(slot)
        for a, d, what in kept:
            if joblib.hash(a) != d:
                fail('history:earlier-result-changed', f'the result of {what} changed by the end of the history')
        rec.ev('twins', sum('(twin)' in m.info for m, _ in models))
        rec.ev('handles_at_end', len(handles))
        rec.sample(dict(pool=[m.info for m, _ in models], history=log[:12]))
    finally:
        numpy.seterr(**old)
        numpy.set_printoptions(**oldprint)
        os.chdir(base)


def main():
    c = core.Check('C12')
    n = core.pick(120, 900)
    jobs = []
    for i in range(n):
        k = len(pool(i))
        jobs += [(i, j, v) for j in range(k) for v in (0, 1)]
    refs = {}
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(core.NPROC, maxtasksperchild=1) as p:
        for job, res in p.imap_unordered(reference, jobs, chunksize=1):
            refs[job] = res
    keys = []
    for i in range(n):
        mine = {(j, v): r for (a, j, v), r in refs.items() if a == i}
        bad = [r['error'] for r in mine.values() if 'error' in r]
        if bad:
            c.violations.append(dict(mechanism='reference', detail=bad[0], replay={}, case=str(i)))
        else:
            c.total.ev('reference_processes', len(mine))
            REFS[i] = mine
            keys.append(i)
    c.run(history, keys)
    need = {'operations': 350, 'kept_results_checked': 500, 'twins': 15, 'answers_compared': 500, 'conversions': 100, 'saves': 100, 'failed_calls': 15, 'deleted_handles': 5, 'refit_fit': 3, 'overwritten_estimators': 3,
            'parallel_predictions': 10, **{f'predict_{f}': 5 for f in families.FAMILIES}, **{f'rows_{h}': 20 for h in ('all', 'permuted', 'single', 'subset', 'repeated')}}
    c.finish('an answer (prediction or saved text) of one converted model at one point of one history', need,
             assumptions=['reference: the same model converted alone in a fresh process', 'batches of mixture and elliptic wrappers are passed as 2-D arrays or lists'])


main()
