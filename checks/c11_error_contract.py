"""C11: error contract of the C API. Monitor: harness/contract.c makes calls with exactly one violated precondition and compares the return value with the
documented one and all outputs and model state with a snapshot; the same for the wrappers in generated code. ASan/UBSan watch the memory around."""
import os, re
import numpy
from vlib import core, cc, families
from vlib.core import Violation

DRIVER = open(os.path.join(core.VERIF, 'harness', 'contract.c')).read()
BUILDS = {'san': (['-std=gnu99', '-O1', '-w'], True, 'gcc'), 'O2': (['-std=gnu99', '-O2', '-w'], False, 'gcc'), 'debug': (['-std=gnu99', '-O1', '-w', '-DEML_DEBUG=1'], True, 'gcc'),
          'log': (['-std=gnu99', '-O1', '-w', '-DEML_LOG_ENABLE=1'], False, 'clang')}
EXE = {}


def contract(rec, key):
    b, part = key
    seed, rounds = core.intseed('C11', part), core.pick(4000, 15000)
    o = cc.run(EXE[b], [seed, rounds if b != 'log' else rounds // 10], what=f'contract-{b}').stdout.decode()
    for name, what in re.findall(r'^F (\S+) (.*)$', o, re.M):
        rec.fail(f'contract:{name}', f'{what} (build {b}, seed {seed})', seed=seed, build=b)
    done = re.findall(r'^C (\S+) (\d+)$', o, re.M)
    rec.require(len(done) > 190, 'contract:no-end', o[-400:])
    for name, n in done:
        rec.ev('documented_results', int(n))
        rec.case((b, name), n=int(n))
        if int(n):
            rec.ev(f'cases_{b}')
    rec.sample(dict(build=b, seed=seed, cases=len(done)))


LENGTHS = [0, -1, 1, 2, 3, 255, 256, 257, 261, 265, 383, 65536, 65537, 65541, 1 << 20, -255, -32768, -65535, 2147483647, -2147483648]


def generated(rec, key):
    fam, i = key
    g = core.rng('C11', fam, i)
    mod = families.make(g, fam, nq=6)
    code = mod.convert().save(name='m')
    ls = [v for v in LENGTHS + [mod.m + 1, mod.m - 1, mod.m + 256, mod.m + 65536, mod.m - 256] if v != mod.m]
    src = cc.READER + '#include <math.h>\n' + code + mod.declarations('m') + f'''
int main(int argc, char **argv) {{
    v_open(argv); int64_t total; {mod.dtype} *vx = ({mod.dtype} *)v_get(sizeof(*vx), &total); static const int32_t L[] = {{ {', '.join(f'(int32_t)({v}LL)' for v in ls)} }};
    for (unsigned i = 0; i < sizeof(L) / sizeof(L[0]); i++) {{ const int32_t vl = L[i]; int vbad = 0; {families.wrong_length_body(mod, 'm')} v_i32(vbad); }}
    int32_t vo[{mod.words}]; {{ const int vm = {mod.m}; {mod.body('m')} }} v_put(vo, 4, {mod.words}); v_close(); return 0; }}'''
    exe = cc.compile_c(src, flags=('-std=gnu99', '-O1', '-w'), san=True, mechanism='generated:compile')
    cc.put('in.bin', mod.Q[0])
    cc.run(exe, ['in.bin', 'out.bin'], what='generated')
    res = numpy.fromfile('out.bin', '<i4')
    for l, bad in zip(ls, res):
        rec.require(bad == 0, f'generated:{fam}', f'length {l} instead of {mod.m}: {"wrong return value" if bad & 1 else ""} {"output changed" if bad & 2 else ""} {mod.info}', length=l, code=code[:60000])
        rec.ev(f'wrapper_{fam}')
        rec.case((fam, i, l))
    words = res[len(ls):]
    for e in mod.err_words:
        rec.require(words[e] == 0, f'generated:{fam}:valid-call', f'{words[:4]} after refused calls {mod.info}')
    rec.sample(dict(family=fam, model=mod.info, wrong_lengths=len(ls)))


def main():
    c = core.Check('C11')
    for b, (flags, san, comp) in BUILDS.items():
        try:
            EXE[b] = cc.compile_c(DRIVER, flags=flags, san=san, compiler=comp, mechanism=f'contract-compile-{b}')
        except Violation as v:
            c.violations.append(dict(mechanism=v.mechanism, detail=v.detail, replay={}, case=b))
    c.run(contract, [(b, p) for b in EXE for p in range(core.pick(2, 8))])
    fams = [f for f in families.FAMILIES if f not in ('tree_clf_inline', 'tree_reg_inline')]
    c.run(generated, [(f, i) for i in range(core.pick(6, 25)) for f in fams])
    need = {'documented_results': 500000, **{f'cases_{b}': 190 for b in BUILDS}, **{f'wrapper_{f}': 40 for f in fams}}
    c.finish('a precondition case in one build (header part), or one wrong length given to one generated model (wrapper part)', need,
             assumptions=['inline tree code documents no length check', 'work buffers (activations, distances) are not outputs'])


main()
