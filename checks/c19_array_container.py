"""C19: EmlArray and EmlVector histories. An interpreter in C executes random operation histories on exact-size buffers and records return values, lookups
and the full contents and header of every container after each operation; a reference model over byte arrays replays the history and judges each record."""
import os, struct
import numpy
from vlib import core, cc

DRIVER = cc.READER + r'''
#include <eml_array.h>
#include <eml_vector.h>
#define SLOTS 4
static EmlArray arr[SLOTS]; static uint8_t *buf[SLOTS]; static int32_t len[SLOTS];
static EmlVector vec[SLOTS]; static float *vbuf[SLOTS];
static int32_t *P; static int64_t at, plen;
static int32_t nx(void) { if (at >= plen) { exit(95); } return P[at++]; }
static float nf(void) { const int32_t v = nx(); float f; memcpy(&f, &v, 4); return f; }
static void dump(void) {
    for (int s = 0; s < SLOTS; s++) {
        v_i32(arr[s].n_dims); v_i32(arr[s].value_size); v_put(arr[s].dims, 4, 3); v_i32(arr[s].n_dims == 0 || arr[s].data == buf[s]); v_put(buf[s], 1, len[s]);
        v_i32(vec[s].length); v_put(vbuf[s], 4, vec[s].length);
    }
}
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    P = (int32_t *)v_get(4, &plen);
    for (int s = 0; s < SLOTS; s++) { buf[s] = (uint8_t *)malloc(1); vbuf[s] = (float *)malloc(4); }
    while (at < plen) {
        const int op = nx();
        if (op == 0) {          /* init */
            const int s = nx(); int32_t n = nx(); int32_t *d = (int32_t *)malloc(n > 0 ? 4 * n : 1); for (int i = 0; i < n; i++) { d[i] = nx(); }
            int32_t d0[3] = {1, 1, 1};
            const int vs = nx(); const int bl = nx(); const int slack = nx();
            uint8_t *b = (uint8_t *)malloc(bl + slack > 0 ? bl + slack : 1);
            for (int i = 0; i < bl + slack; i++) { b[i] = (uint8_t)(i * 37 + 11); }
            EmlArray before = arr[s];
            const EmlError e = eml_array_init_full(&arr[s], (int8_t)n, n > 0 ? d : d0, (int8_t)vs, b, (size_t)bl);
            v_i32(e);
            if (e == EmlOk) { free(buf[s]); buf[s] = b; len[s] = bl + slack; } else { free(b); v_i32(memcmp(&before, &arr[s], sizeof(before)) != 0); }
            free(d);
        } else if (op == 1) { const int s = nx(); const float v = nf(); v_i32(eml_array_fill(&arr[s], v)); }
        else if (op == 2) {     /* write through a lookup */
            const int s = nx(), c = nx(), r = nx(); const uint32_t v = (uint32_t)nx();
            uint8_t *p = (uint8_t *)eml_array_data_2d(&arr[s], c, r);
            v_i32(p ? (int32_t)(p - buf[s]) : -1);
            if (p) { for (int i = 0; i < arr[s].value_size; i++) { p[i] = (uint8_t)((v >> (8 * (i % 4))) + i / 4); } }
        } else if (op == 3) { const int s = nx(), k = nx(); v_i32(eml_array_shift_rows(&arr[s], k)); }
        else if (op == 4) { const int s = nx(), start = nx(), o = nx(); v_i32(eml_array_copy_rows(&arr[s], start, &arr[o])); }
        else if (op == 5) { const int s = nx(); float f = -7.0f; v_i32(eml_array_sum(&arr[s], &f)); v_f32(f); }
        else if (op == 6) { const int s = nx(); v_i32((int32_t)eml_array_storage_size(&arr[s])); }
        else if (op == 7) {     /* initialise through the macro, int16 values */
            const int s = nx(), c = nx(), r = nx(); int16_t *values = (int16_t *)malloc(2 * c * r + 1);
            for (int i = 0; i < c * r; i++) { values[i] = (int16_t)(i * 7 - 3); }
            EML_ARRAY_INIT_2D(&arr[s], c, r, values);
            free(buf[s]); buf[s] = (uint8_t *)values; len[s] = 2 * c * r;
        } else if (op == 8) {   /* vector over a fresh buffer */
            const int s = nx(), n = nx(); free(vbuf[s]); vbuf[s] = (float *)malloc(n > 0 ? 4 * n : 1); vec[s].data = vbuf[s]; vec[s].length = n;
            for (int i = 0; i < n; i++) { vbuf[s][i] = (float)(i * 3 - 5); }
        } else if (op == 9) { const int s = nx(), o = nx(), loc = nx(); v_i32(eml_vector_set(vec[s], vec[o], loc)); }
        else if (op == 10) { const int s = nx(); const float v = nf(); v_i32(eml_vector_set_value(vec[s], v)); }
        else if (op == 11) {    /* write through a view */
            const int s = nx(), a = nx(), b = nx(); const float v = nf(); EmlVector w = eml_vector_view(vec[s], a, b);
            v_i32(w.length); v_i32((int32_t)(w.data - vec[s].data)); v_i32(eml_vector_set_value(w, v));
        } else if (op == 12) {  /* copy between views */
            const int s = nx(), a = nx(), b = nx(), o = nx(), c = nx(), d = nx(), loc = nx();
            v_i32(eml_vector_set(eml_vector_view(vec[s], a, b), eml_vector_view(vec[o], c, d), loc));
        } else { exit(94); }
        dump();
    }
    for (int s = 0; s < SLOTS; s++) { free(buf[s]); free(vbuf[s]); }
    free(P); v_close();
    return 0;
}
'''
BUILDS = {'san': (['-std=c99', '-O1', '-w'], True, 'gcc'), 'O2': (['-std=c99', '-O2', '-w'], False, 'gcc'), 'clang': (['-std=c99', '-O1', '-w'], True, 'clang')}
EXE = {}
MAXE = 2**31 - 1


class Arr:
    """reference model"""
    def __init__(self):
        self.n_dims, self.vs, self.dims, self.buf = 0, 0, [0, 0, 0], b''


def f2i(v):
    return struct.unpack('<i', struct.pack('<f', v))[0]


def history(rec, key):
    build, i = key
    g = core.rng('C19', *key)
    big = i % 12 == 11
    nops = core.pick(120, 300) if not big else 14
    R = lambda lo, hi: int(g.integers(lo, hi + 1))
    prog2, exp = [], []
    A2 = [Arr() for _ in range(4)]
    V2 = [numpy.zeros(0, 'f4') for _ in range(4)]

    def emit(words, want):
        """append one operation, with the results and the state expected after it"""
        prog2.extend(words)
        exp.append((words, want, ([(a.n_dims, a.vs, list(a.dims), bytes(a.buf)) for a in A2], [v.copy() for v in V2])))

    for s in range(4):
        cols, rows = (R(1, 9), R(0, 9)) if not big else [(R(1, 3) * 30000, R(1, 4)), (R(1, 4), R(1, 3) * 25000), (300, R(1, 250))][s % 3]
        vs = int(g.choice([1, 2, 2, 2, 4, 8, 3, 127])) if not big else 2
        bl = cols * rows * vs
        a = A2[s]
        a.n_dims, a.vs, a.dims = 2, vs, [cols, rows, 0]
        a.buf = bytearray((numpy.arange(bl) * 37 + 11).astype('u1').tobytes())
        emit([0, s, 2, cols, rows, vs, bl, 0], [('eq', 0)])
        n = R(0, 40) if not big else R(30000, 70000)
        V2[s] = (numpy.arange(n) * 3 - 5).astype('f4')
        emit([8, s, n], [])
    p = [.06, .08, .2, .16, .18, .08, .03, .03, .06, .03, .05, .04]
    ops = [(int(g.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12], p=p)), R(0, 3)) for _ in range(nops)]
    for k, s in ops:
        a = A2[s]
        two = a.n_dims == 2
        if k == 0:
            nd = int(g.choice([2, 2, 2, 1, 3, 0, 4]))
            dims = [R(0, 6) if g.random() < 0.9 else int(g.choice([-1, 46341, 65536, 2**31 - 1, 40000])) for _ in range(nd)]
            if g.random() < 0.1 and nd >= 2:
                dims[:2] = [65536, 65536]
            vs = int(g.choice([1, 2, 2, 2, 4, 8, 127])) if g.random() < 0.9 else int(g.choice([0, -1, -128]))
            el = 1
            for d in dims:
                el *= d
            need = max(el * vs, 0)
            if el == 0 and len([d for d in dims if d]) > 1 and numpy.prod([abs(float(d)) for d in dims if d]) > 2**31:
                continue        # no element, but dimensions outside what the container supports: either answer will do
            bl = int(min(max(need + int(g.choice([0, 0, 0, 0, 1, 5, -1])), 0), 4000))
            ok = 1 <= nd <= 3 and dims[0] >= 1 and all(d >= 0 for d in dims) and vs >= 1 and need <= bl
            w = [0, s, nd, *dims, vs, bl, 3]
            if ok:
                a.n_dims, a.vs, a.dims = nd, vs, dims + [0] * (3 - nd)
                a.buf = bytearray((numpy.arange(bl + 3) * 37 + 11).astype('u1').tobytes())
                emit(w, [('eq', 0)])
            else:
                emit(w, [('err',), ('eq', 0)])
            rec.ev('init_ok' if ok else 'init_refused')
        elif k == 1:
            v = float(g.choice([0, 1, -1, 32767, -32768, 12.75, -12.75, 300, -0.5, 32767.9])) if g.random() < 0.6 else float(g.uniform(-32768, 32767))
            v = float(numpy.float32(v))
            ok = two and a.vs == 2
            if ok:
                n = a.dims[0] * a.dims[1]
                a.buf[:2 * n] = numpy.full(n, int(v), 'i2').tobytes()
            emit([1, s, f2i(v)], [('eq', 0) if ok else ('err',)])
            rec.ev('fill_ok' if ok else 'fill_refused')
        elif k == 2:
            c, r = R(-1, a.dims[0]), R(-1, a.dims[1])
            if g.random() < 0.05:
                c, r = int(g.choice([-2**31, 2**31 - 1, -7, c])), int(g.choice([-2**31, 2**31 - 1, -7, r]))
            v = R(0, 2**31 - 1)
            ok = two and 0 <= c < a.dims[0] and 0 <= r < a.dims[1]
            if ok:
                off = (r * a.dims[0] + c) * a.vs
                a.buf[off:off + a.vs] = bytes([((v >> (8 * (j % 4))) + j // 4) & 255 for j in range(a.vs)])
                emit([2, s, c, r, v], [('eq', off)])
            else:
                emit([2, s, c, r, v], [('eq', -1)])
            rec.ev('write_ok' if ok else 'lookup_outside')
        elif k == 3:
            rows = a.dims[1]
            sh = R(-rows - 1, 1) if g.random() < 0.95 else int(g.choice([-2**31, 2**31 - 1, -10**6]))
            ok = two and -rows <= sh <= 0
            if ok:
                rs = a.dims[0] * a.vs
                n = -sh
                a.buf[:(rows - n) * rs] = bytes(a.buf[n * rs:rows * rs])
            emit([3, s, sh], [('eq', 0) if ok else ('err',)])
            rec.ev('shift_ok' if ok else 'shift_refused')
            if ok and n:
                rec.ev('shift_moved')
        elif k == 4:
            o = R(0, 3)
            if o == s:
                o = (s + 1) % 4
            if g.random() < 0.6 and a.dims[0] * max(a.vs, 1) < 200000:
                # make it fit: reinitialise the source with the same columns and type
                rows = R(0, max(min(a.dims[1], 12 if not big or g.random() < 0.2 else 70000), 1)) if two else 1
                b = A2[o]
                c, vs = max(a.dims[0], 1), max(a.vs, 1)
                bl = c * rows * vs
                b.n_dims, b.vs, b.dims = 2, vs, [c, rows, 0]
                b.buf = bytearray((numpy.arange(bl + 3) * 37 + 11).astype('u1').tobytes())
                emit([0, o, 2, c, rows, vs, bl, 3], [('eq', 0)])
                for _ in range(3):
                    if rows:
                        cc_, rr = R(0, c - 1), R(0, rows - 1)
                        v = R(0, 2**31 - 1)
                        off = (rr * c + cc_) * vs
                        b.buf[off:off + vs] = bytes([((v >> (8 * (j % 4))) + j // 4) & 255 for j in range(vs)])
                        emit([2, o, cc_, rr, v], [('eq', off)])
            b = A2[o]
            start = R(-1, max(a.dims[1] - b.dims[1] + 1, 0)) if g.random() < 0.95 else int(g.choice([2**31 - 1, -2**31, 10**5]))
            ok = two and b.n_dims == 2 and start >= 0 and a.dims[0] == b.dims[0] and a.vs == b.vs and start + b.dims[1] <= a.dims[1]
            if ok:
                rs = a.dims[0] * a.vs
                n = b.dims[1] * rs
                a.buf[start * rs:start * rs + n] = bytes(b.buf[:n])
            emit([4, s, start, o], [('eq', 0) if ok else ('err',)])
            rec.ev('copy_ok' if ok else 'copy_refused')
            if ok and start and b.dims[1]:
                rec.ev('copy_moved')
            if ok and b.dims[1] > 256:
                rec.ev('copy_many_rows')
        elif k == 5:
            ok = two and a.vs == 2
            if ok:
                v = numpy.frombuffer(bytes(a.buf), 'i2', a.dims[0] * a.dims[1]).astype('f8')
                ab = float(numpy.abs(v).sum())
                emit([5, s], [('eq', 0), ('float', float(v.sum()), 0.0 if ab < 2**24 else ab * len(v) * 2.0 ** -23)])
            else:
                emit([5, s], [('err',), ('float', -7.0, 0.0)])
            rec.ev('sum_ok' if ok else 'sum_refused')
        elif k == 6:
            n = a.vs
            for d in a.dims[:a.n_dims]:
                n *= d
            emit([6, s], [('eq', n)])
            rec.ev('storage_size')
        elif k == 7:
            c, r = R(1, 8), R(1, 8)
            a.n_dims, a.vs, a.dims = 2, 2, [c, r, 0]
            a.buf = bytearray((numpy.arange(c * r) * 7 - 3).astype('i2').tobytes())
            emit([7, s, c, r], [])
            rec.ev('macro_init')
        elif k in (9, 12):
            o = R(0, 3)
            if k == 9:
                d, src = V2[s], V2[o]
                da, sa = 0, 0
            else:
                da = R(0, len(V2[s])); db = R(da, len(V2[s])); sa = R(0, len(V2[o])); sb = R(sa, min(len(V2[o]), sa + 6))
                d, src = V2[s][da:db], V2[o][sa:sb]
            if o == s and k == 12 and not (sb <= da or db <= sa):
                continue
            loc = R(-1, max(len(d) - len(src) + 1, 0)) if g.random() < 0.93 else int(g.choice([2**31 - 1, -2**31, 2**31 - 20]))
            ok = 0 <= loc and loc + len(src) <= len(d)
            if ok and o == s and k == 9 and loc:
                continue
            if ok:
                V2[s][da + loc:da + loc + len(src)] = src.copy()
            emit([9, s, o, loc] if k == 9 else [12, s, da, db, o, sa, sb, loc], [('eq', 0) if ok else ('err',)])
            rec.ev('vector_set_ok' if ok else 'vector_set_refused')
        elif k == 10:
            v = float(numpy.float32(g.normal()))
            V2[s][:] = v
            emit([10, s, f2i(v)], [('eq', 0)])
            n = R(0, 40)
            V2[s] = (numpy.arange(n) * 3 - 5).astype('f4')
            emit([8, s, n], [])
            rec.ev('vector_fill')
        elif k == 11:
            x = R(0, len(V2[s])); y = R(x, len(V2[s])); v = float(numpy.float32(g.normal()))
            V2[s][x:y] = v
            emit([11, s, x, y, f2i(v)], [('eq', y - x), ('eq', x), ('eq', 0)])
            rec.ev('vector_view')
    d = core.scratch('h')
    cc.put(os.path.join(d, 'i'), numpy.array(prog2, 'i4'))
    cc.run(EXE[build], [os.path.join(d, 'i'), os.path.join(d, 'o')], what='array', timeout=60)
    out = open(os.path.join(d, 'o'), 'rb').read()
    pos = 0

    def i32():
        nonlocal pos
        v = struct.unpack_from('<i', out, pos)[0]
        pos += 4
        return v

    NAMES = ['init', 'fill', 'lookup', 'shift_rows', 'copy_rows', 'sum', 'storage_size', 'INIT_2D', 'vector', 'vector_set', 'vector_set_value', 'vector_view', 'vector_set-view']
    for step, (words, want, (sa, sv)) in enumerate(exp):
        name = NAMES[words[0]]
        ctx = lambda: dict(step=step, op=words[:12], history=[w for w, _, _ in exp[max(0, step - 6):step + 1]])
        for w in want:
            if w[0] == 'float':
                v = struct.unpack_from('<f', out, pos)[0]
                pos += 4
                if not rec.require(abs(v - w[1]) <= w[2], f'{name}:value', f'{v} want {w[1]}', **ctx()):
                    return
            else:
                v = i32()
                good = v == w[1] if w[0] == 'eq' else v != 0
                if not rec.require(good, f'{name}:return', f'{v} want {w}', **ctx()):
                    return
        for s in range(4):
            nd, vs, d0, d1, d2, same = struct.unpack_from('<6i', out, pos)
            pos += 24
            if not rec.require((nd, vs, [d0, d1, d2]) == sa[s][:3], f'{name}:header', f'slot {s}: {(nd, vs, d0, d1, d2)} want {sa[s][:3]}', **ctx()):
                return
            rec.require(same == 1, f'{name}:data-pointer', f'slot {s}', **ctx())
            n = len(sa[s][3])
            if not rec.require(out[pos:pos + n] == sa[s][3], f'{name}:contents', lambda: f'slot {s} {sa[s][:3]}: first difference at byte {next(j for j in range(n) if out[pos + j:pos + j + 1] != sa[s][3][j:j + 1])} of {n}', **ctx()):
                return
            pos += n
            ln = i32()
            if not rec.require(ln == len(sv[s]), f'{name}:vector-length', f'{ln} {len(sv[s])}', **ctx()):
                return
            if not rec.require(out[pos:pos + 4 * ln] == sv[s].tobytes(), f'{name}:vector-contents', f'slot {s}', **ctx()):
                return
            pos += 4 * ln
        rec.case((words[0], tuple(words[1:8]), sa[words[1]][:2], hash(sa[words[1]][3])))
        rec.ev('states_compared')
    rec.require(pos == len(out), 'driver:length', f'{pos} {len(out)}')
    rec.sample(dict(history=[w[:8] for w, _, _ in exp[8:14]]))


def main():
    chk = core.Check('C19')
    for b, (flags, san, comp) in BUILDS.items():
        try:
            EXE[b] = cc.compile_c(DRIVER, flags=flags, san=san, compiler=comp, mechanism='driver')
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), b)
    chk.run(history, [(b, i) for i in range(core.pick(700, 4000)) for b in EXE])
    chk.finish('random operation histories over four arrays and four vectors (fitting, refused, boundary and extreme arguments; value sizes 1..127; arrays beyond 65536 elements), full state compared after every operation',
               dict(states_compared=8000, shift_moved=200, copy_moved=200, copy_many_rows=8, copy_refused=300, lookup_outside=300, init_refused=100, sum_ok=200, vector_set_ok=100, vector_set_refused=50),
               ['fill values are inside the int16 range', 'element count and byte size up to 2^31-1', 'eml_array_append is not implemented and not covered'])


main()
