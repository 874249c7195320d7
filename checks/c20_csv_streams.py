"""C20: CSV streams. Writers and readers run in C over memory streams with short transfers and injected faults, and over FILE streams; a line-level reference
model judges every return value, every column and the complete written text. Buffers and column arrays are exact-size heap blocks under ASan/UBSan."""
import os, struct
import numpy
from vlib import core, cc

DRIVER = cc.READER + r'''
#include <eml_csv.h>
#include <eml_fileio.h>
typedef struct { uint8_t *d; size_t n, pos, cap; uint32_t seed; int chunk, fail_at, kind, calls, seeks; } Mem;
static size_t part(Mem *m, size_t size) {
    if (m->chunk <= 0) { return size; }
    m->seed = m->seed * 1664525u + 1013904223u;
    const size_t k = 1 + (m->seed >> 16) % (uint32_t)m->chunk;
    return k < size ? k : size;
}
static int mwrite(void *c, const uint8_t *b, size_t size) {
    Mem *m = (Mem *)c;
    if (m->calls++ == m->fail_at) { return m->kind == 1 ? -1 : (m->kind == 2 ? (int)size + 5 : 0); }
    size = part(m, size);
    if (m->n + size > m->cap) { m->cap = 2 * (m->n + size); m->d = (uint8_t *)realloc(m->d, m->cap); }
    memcpy(m->d + m->n, b, size); m->n += size;
    return (int)size;
}
static int mread(void *c, uint8_t *b, size_t size) {
    Mem *m = (Mem *)c;
    if (m->calls++ == m->fail_at && m->kind != 3) { return m->kind == 1 ? -1 : (int)size + 5; }
    size = part(m, size);
    if (size > m->n - m->pos) { size = m->n - m->pos; }
    memcpy(b, m->d + m->pos, size); m->pos += size;
    return (int)size;
}
static int mseek(void *c, size_t p) {
    Mem *m = (Mem *)c;
    if (m->seeks++ == m->fail_at && m->kind == 3) { return -1; }
    if (p > m->n) { return -1; }
    m->pos = p;
    return 0;
}
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    int64_t k, n; int32_t *hd = (int32_t *)v_get(4, &k);
    for (int c = 0; c < hd[0]; c++) {
        int32_t *p = (int32_t *)v_get(4, &k);
        char *text = (char *)v_get(1, &n);
        Mem m; memset(&m, 0, sizeof(m)); m.seed = (uint32_t)p[2]; m.chunk = p[3]; m.fail_at = p[4]; m.kind = p[5];
        FILE *f = NULL;
        if (p[1]) { f = fopen(argv[3], "w+b"); if (!f) { exit(93); } }
        if (p[0] == 0) {
            int64_t nr, nv; int32_t *rl = (int32_t *)v_get(4, &nr); float *v = (float *)v_get(4, &nv);
            const int nc = p[6];
            const char **names = (const char **)malloc(sizeof(char *) * nc); { char *q = text; for (int i = 0; i < nc; i++) { names[i] = q; q += strlen(q) + 1; } }
            EmlCsvWriter w; memset(&w, 0, sizeof(w)); w.n_columns = (size_t)p[7];
            if (f) { w.write = eml_fileio_write; w.seek = eml_fileio_seek; w.stream = f; } else { w.write = mwrite; w.seek = mseek; w.stream = &m; }
            v_i32(eml_csv_writer_write_header(&w, names, (size_t)nc)); v_i32((int32_t)m.n);
            float *at = v;
            for (int64_t r = 0; r < nr; r++) {
                float *row = (float *)malloc(rl[r] > 0 ? 4 * rl[r] : 1); memcpy(row, at, 4 * (size_t)rl[r]); at += rl[r];
                v_i32(eml_csv_writer_write_data(&w, row, (size_t)rl[r])); v_i32((int32_t)m.n); free(row);
            }
            v_i32((int32_t)w.n_columns);
            if (f) { fseek(f, 0, SEEK_END); m.n = (size_t)ftell(f); rewind(f); m.d = (uint8_t *)malloc(m.n + 1); if (fread(m.d, 1, m.n, f) != m.n) { exit(92); } }
            v_i32((int32_t)m.n); v_put(m.d, 1, m.n);
            free(m.d); free(names); free(rl); free(v);
        } else {
            int64_t nc; int32_t *calls = (int32_t *)v_get(4, &nc);
            m.d = (uint8_t *)malloc(n > 0 ? n : 1); memcpy(m.d, text, n); m.n = (size_t)n;
            EmlCsvReader rd; memset(&rd, 0, sizeof(rd)); rd.stream_location = (size_t)p[6]; rd.n_columns = (size_t)p[7];   /* what an earlier stream left */
            if (f) { if (fwrite(text, 1, n, f) != (size_t)n) { exit(91); } rewind(f); rd.read = eml_fileio_read; rd.seek = eml_fileio_seek; rd.stream = f; } else { rd.read = mread; rd.seek = mseek; rd.stream = &m; }
            for (int64_t i = 0; i + 1 < nc; i += 2) {
                const int bl = calls[i], cl = calls[i + 1];
                char *buf = (char *)malloc(bl > 0 ? bl : 1); memset(buf, 0x41, bl > 0 ? bl : 0);
                char **cols = (char **)malloc(cl > 0 ? sizeof(char *) * cl : 1);
                int rc, got;
                if (i == 0) { rc = eml_csv_reader_read_header(&rd, buf, (size_t)bl, cols, (size_t)cl); got = rc == EmlOk ? (int)rd.n_columns : -1; }
                else { rc = eml_csv_reader_read_data(&rd, buf, (size_t)bl, cols, (size_t)cl); got = rc > 0 ? rc : -1; }
                v_i32(rc); v_i32(m.calls); v_i32(m.seeks); v_i32(got);
                for (int j = 0; j < got; j++) {
                    if (j >= cl || cols[j] < buf || cols[j] >= buf + bl) { v_i32(-1); continue; }
                    const size_t room = (size_t)(buf + bl - cols[j]), l = strnlen(cols[j], room);
                    if (l == room) { v_i32(-2); continue; }
                    v_i32((int32_t)l); v_put(cols[j], 1, l);
                }
                free(buf); free(cols);
            }
            free(m.d); free(calls);
        }
        if (f) { fclose(f); }
        free(p); free(text);
    }
    free(hd); v_close();
    return 0;
}
'''
HUGE = cc.READER + r'''
#include <eml_csv.h>
/* a stream of more than 2^32 characters that is computed, not stored: "a,b\n", then rows of `width` characters "<row number>xxxx,<row number>\n" */
typedef struct { uint64_t pos, width, rows; } Virt;
static uint8_t at(const Virt *m, uint64_t pos) {
    if (pos < 4) { return (uint8_t)"a,b\n"[pos]; }
    const uint64_t r = (pos - 4) / m->width, k = (pos - 4) % m->width;
    char t[16]; snprintf(t, sizeof(t), "%08u", (unsigned)r);
    if (k < 8) { return (uint8_t)t[k]; }
    if (k == m->width - 10) { return ','; }
    if (k == m->width - 1) { return '\n'; }
    return k > m->width - 10 ? (uint8_t)t[k - (m->width - 9)] : 'x';
}
static int vread(void *c, uint8_t *b, size_t size) {
    Virt *m = (Virt *)c;
    const uint64_t end = 4 + m->width * m->rows;
    if (size > end - m->pos) { size = (size_t)(end - m->pos); }
    if (size > (size_t)1 << 20) { size = (size_t)1 << 20; }
    for (size_t i = 0; i < size;) {
        const uint64_t k = m->pos + i < 4 ? 0 : (m->pos + i - 4) % m->width;
        if (m->pos + i >= 4 && k >= 8 && k < m->width - 10) {
            size_t run = (size_t)(m->width - 10 - k); if (run > size - i) { run = size - i; }
            memset(b + i, 'x', run); i += run;
        } else { b[i] = at(m, m->pos + i); i++; }
    }
    m->pos += size;
    return (int)size;
}
static int vseek(void *c, size_t p) { Virt *m = (Virt *)c; if (p > 4 + m->width * m->rows) { return -1; } m->pos = p; return 0; }
int main(int argc, char **argv) {
    (void)argc; v_open(argv);
    int64_t k; int32_t *p = (int32_t *)v_get(4, &k);
    Virt m = { 0, (uint64_t)p[0], (uint64_t)p[1] };
    EmlCsvReader rd; memset(&rd, 0, sizeof(rd)); rd.read = vread; rd.seek = vseek; rd.stream = &m;
    const size_t bl = (size_t)m.width + 1; char *buf = (char *)malloc(bl); char *cols[2];
    v_i32(eml_csv_reader_read_header(&rd, buf, bl, cols, 2));
    for (int r = 0; r < p[1] + 1; r++) {
        const int n = eml_csv_reader_read_data(&rd, buf, bl, cols, 2);
        v_i32(n);
        if (n == 2) { v_i32(atoi(cols[0])); v_i32((int32_t)strlen(cols[0])); v_i32(atoi(cols[1])); v_i32((int32_t)strlen(cols[1])); }
    }
    free(buf); free(p); v_close();
    return 0;
}
'''
BUILDS = {'san': (['-std=gnu99', '-O1', '-w'], True, 'gcc'), 'O2': (['-std=gnu99', '-O2', '-w'], False, 'gcc'), 'clang': (['-std=gnu99', '-O1', '-w'], True, 'clang')}
EXE = {}


def names(g, n):
    out = []
    for i in range(n):
        k = int(g.integers(0, 9))
        if k == 7:      # any other byte is part of the name
            out.append(bytes(g.choice([c for c in range(1, 256) if c not in b',\n'], int(g.integers(0, 12))).astype('u1').tolist()))
            continue
        if k == 8 and n < 30:
            out.append(b'n' * int(g.choice([100, 255, 256, 257, 300, 1023, 1024, 5000, 70000], p=[.15, .15, .15, .15, .15, .1, .06, .05, .04])) + b'%d' % i)
            continue
        out.append([f'c{i}', f'feature {i}', 'x', 'a_very_long_column_name_' * int(g.integers(1, 9)) + str(i), 'été°', '"quoted"', f'{i}', 'last\r', 'a\rb'][k].encode())
    return out


def values(g, n):
    v = g.normal(size=n) * 10.0 ** g.uniform(-8, 10, n)
    k = g.integers(0, 12, n)
    v = numpy.where(k == 0, 0.0, v)
    v = numpy.where(k == 1, numpy.round(v), v)
    v = numpy.where(k == 2, -numpy.abs(v), v)
    v = numpy.where(k == 3, g.choice([999999999999.0, 99999997952.0, 1e11, -1e11, -99999997952.0, 5e-7, -5e-7, 4.9e-7, 1e-38, -0.0, 123456.789], n), v)
    return v.astype('f4')


def fits(v):
    """the text of one value, terminated, has 20 characters; at the border either answer is accepted (None)"""
    n = len('%.6f' % float(v))
    return n < 20


def batch(build, cases):
    d = core.scratch('csv')
    cc.put(os.path.join(d, 'i'), numpy.array([len(cases)], 'i4'), *[a for c in cases for a in c['arrays']])
    cc.run(EXE[build], [os.path.join(d, 'i'), os.path.join(d, 'o'), os.path.join(d, 'stream.csv')], what='csv', timeout=60)
    return open(os.path.join(d, 'o'), 'rb').read()


class In:
    def __init__(self, b):
        self.b, self.p = b, 0

    def i(self):
        v = struct.unpack_from('<i', self.b, self.p)[0]
        self.p += 4
        return v

    def s(self, n):
        v = self.b[self.p:self.p + n]
        if len(v) != n:
            raise core.Violation('driver:short-output', f'{len(v)} {n}')
        self.p += n
        return v


def wcase(g, faults, large=0):
    nc = int(g.choice([1, 1, 2, 3, 5, 17, 60]))
    nr = int(g.choice([0, 1, 2, 5, 30]))
    if large == 1:      # many rows: positions behind 2^16
        nc, nr = int(g.choice([1, 3, 20])), int(g.choice([300, 3000, 9000]))
        nr = nr if nc < 20 else nr // 5
    if large == 2:      # many columns: lines of more than 2^16 characters
        nc, nr = int(g.choice([300, 4000, 7000])), 3
    nm = names(g, nc)
    rl, vals, rows = [], [], []
    for _ in range(nr):
        l = nc if g.random() < (0.995 if large else 0.85) else int(max(0, nc + g.choice([-1, 1, 2, -nc])))
        v = values(g, l)
        if l and g.random() < (0.005 if large else 0.08):
            v[int(g.integers(0, l))] = numpy.float32(g.choice([1e12, -1e12, 1e13, -2e11, 3e38, -3e38, 1e20]))
        rl.append(l); rows.append(v); vals.append(v)
    file = int(not faults and g.random() < 0.3)
    cfg = [0, file, int(g.integers(0, 2**31)), int(g.choice([0, 1, 2, 3, 7, 50])), int(g.integers(0, 20)) if faults else -1, int(g.choice([1, 2, 4])) if faults else 0, nc, int(g.choice([0, 0, 1, nc + 1, 1000]))]
    arrays = [numpy.array(cfg, 'i4'), numpy.frombuffer(b'\0'.join(nm) + b'\0', 'u1'), numpy.array(rl, 'i4'), numpy.concatenate(vals).astype('f4') if vals else numpy.zeros(0, 'f4')]
    return dict(arrays=arrays, names=nm, rows=rows, file=file, cfg=cfg)


def judge_write(rec, c, o):
    """returns the text written and the rows accepted"""
    nc = len(c['names'])
    pos, accepted, failed = 0, [], False
    ctx = dict(names=c['names'][:8], cfg=c['cfg'])
    out = [(o.i(), o.i()) for _ in range(1 + len(c['rows']))]
    ncol = o.i()
    n = o.i()
    text = o.s(n)
    expect_lines = [b','.join(c['names'])]
    rc, at = out[0]
    faulty = c['cfg'][4] >= 0
    if not faulty:
        rec.require(rc == 0, 'write:header-refused', f'{rc}', **ctx)
        rec.require(ncol == nc, 'write:columns', f'{ncol} {nc}', **ctx)
    last = at
    for (rc, at), v in zip(out[1:], c['rows']):
        good = len(v) == nc and all(fits(x) for x in v)
        why = 'length' if len(v) != nc else 'value'
        if not good:
            rec.require(rc != 0, f'write:accepts-bad-{why}', f'{len(v)} values for {nc} columns: {v[:4]}', **ctx)
            rec.ev(f'rows_refused_{why}')
            if not c['file']:
                rec.require(at == last, f'write:refused-row-left-in-stream', f'{why}: {at - last} characters', **ctx)
        elif not faulty:
            rec.require(rc == 0, 'write:row-refused', f'{rc} for {v[:4]}', **ctx)
        if rc == 0:
            accepted.append(v)
        elif faulty and good:
            failed = True
            break
        last = at
    if faulty:
        # every call after the fault was reported, or the text is complete
        if not any(r for r, _ in out):
            rec.ev('fault_not_reached')
        else:
            rec.ev('write_faults_reported')
    if failed or (faulty and out[0][0] != 0):
        return None, None
    if faulty and any(rc != 0 for (rc, _), v in zip(out[1:], c['rows']) if len(v) == nc and all(fits(x) for x in v)):
        return None, None
    lines = text.split(b'\n')
    rec.require(lines[-1] == b'' and len(lines) == len(accepted) + 2, 'write:lines', f'{len(lines)} lines for header and {len(accepted)} rows, text {text[:200]}', **ctx)
    rec.require(lines[0] == b','.join(c['names']), 'write:header-text', f'{lines[0][:100]}', **ctx)
    for l, v in zip(lines[1:], accepted):
        f = l.split(b',')
        if not rec.require(len(f) == len(v), 'write:fields', f'{l[:100]}', **ctx):
            break
        try:
            x = numpy.array([float(t) for t in f])
        except ValueError:
            rec.fail('write:not-a-number', f'{l[:200]}', **ctx)
            break
        e = numpy.abs(x - v.astype('f8'))
        if not rec.require((e <= 0.51e-6).all(), 'write:value', lambda: f'{v[e.argmax()]} written as {f[e.argmax()]}', **ctx):
            break
        rec.ev('values_written', len(v))
    rec.ev('rows_written', len(accepted)); rec.ev('files_written' if c['file'] else 'streams_written')
    return text, accepted


def rcase(g, text, faults, blens, maxcols):
    file = int(not faults and g.random() < 0.25)
    cfg = [1, file, int(g.integers(0, 2**31)), int(g.choice([0, 1, 2, 3, 10, 100])), int(g.integers(0, 25)) if faults else -1, int(g.choice([1, 2, 3])) if faults else 0, int(g.choice([0, 0, 0, 1, 37, 100000])), int(g.choice([0, 0, 1, 7, 1000]))]
    calls = numpy.array([v for b, m in zip(blens, maxcols) for v in (b, m)], 'i4')
    return dict(arrays=[numpy.array(cfg, 'i4'), numpy.frombuffer(text, 'u1'), calls], text=text, calls=calls.reshape(-1, 2), cfg=cfg)


def judge_read(rec, c, o):
    text = c['text']
    lines = text.split(b'\n')
    ended = lines[-1] == b''
    if ended:
        lines = lines[:-1]
    row, ncols, dead = 0, None, False
    ctx = dict(cfg=c['cfg'], text=text[:300].decode('latin1'), calls=c['calls'][:12].tolist())
    faulty, kind = c['cfg'][4] >= 0, c['cfg'][5]
    prev_reads = prev_seeks = 0
    got_rows = []
    for i, (bl, cl) in enumerate(c['calls']):
        rc, reads, seeks, got = o.i(), o.i(), o.i(), o.i()
        cols = []
        for _ in range(max(got, 0)):
            l = o.i()
            cols.append(o.s(l) if l >= 0 else l)
        hit = faulty and (prev_seeks <= c['cfg'][4] < seeks if kind == 3 else prev_reads <= c['cfg'][4] < reads)
        prev_reads, prev_seeks = reads, seeks
        what = 'header' if i == 0 else 'row'
        if dead:
            continue
        if hit:
            rec.ev('read_faults')
            ok = rc != 0 if i == 0 else rc < 0
            rec.require(ok, f'read:{what}-fault-not-reported', f'call {i} returned {rc}', **ctx)
            if kind == 3 or i == 0:
                dead = True         # position of the stream is not known any more
            continue
        if i == 0:
            if row >= len(lines) and bl > 0:
                dead = True         # empty stream: no header, the result is not specified
                continue
            n = len(lines[0]) if lines else 0
            fields = lines[0].split(b',') if lines else [b'']
            need = n + 1 if (len(lines) > 1 or ended) else n + 1
            if need <= bl and len(fields) <= cl:
                if rec.require(rc == 0, 'read:header-refused', f'{rc}', **ctx):
                    rec.require(cols == fields, 'read:header-content', f'{cols[:5]} want {fields[:5]}', **ctx)
                    rec.ev('headers_read')
            else:
                rec.require(rc != 0, 'read:header-accepted', f'{n} characters, {len(fields)} columns into {bl} and {cl}: {cols[:5]}', **ctx)
                rec.ev('headers_refused')
                dead = True
                continue
            if rc != 0:
                dead = True
                continue
            ncols, row = len(fields), 1
            continue
        if cl < ncols:
            rec.require(rc < 0, 'read:too-few-columns-accepted', f'{rc}', **ctx)
            rec.ev('rows_refused')
            continue
        if row >= len(lines):
            if bl > 0:
                rec.require(rc == 0, 'read:end', f'{rc} {cols[:4]} after the last row', **ctx)
                rec.ev('ends')
            else:
                rec.require(rc <= 0, 'read:end', f'{rc}', **ctx)
            continue
        fields = lines[row].split(b',')
        need = len(lines[row]) + 1
        if need <= bl and len(fields) == ncols:
            if not rec.require(rc == ncols, 'read:row-refused', f'row {row}: {rc}, want {ncols} columns ({need} characters into {bl})', **ctx):
                return got_rows
            if not rec.require(cols == fields, 'read:row-content', f'row {row}: {cols[:6]} want {fields[:6]}', **ctx):
                return got_rows
            got_rows.append(cols)
            rec.ev('rows_read')
            row += 1
        else:
            if not rec.require(rc < 0, 'read:bad-row-accepted', f'row {row} ({need} characters into {bl}, {len(fields)} fields of {ncols}) gave {rc} {cols[:6]}', **ctx):
                return got_rows
            rec.ev('rows_refused')
            if len(fields) != ncols:
                rec.ev('malformed_rows')
    return got_rows


def roundtrip(rec, key):
    build, i = key
    g = core.rng('C20', 'rt', *key)
    w = [wcase(g, g.random() < 0.25) for _ in range(core.pick(60, 250))] if i >= 0 else [wcase(g, False, 1), wcase(g, False, 2)]
    o = In(batch(build, w))
    texts = []
    for c in w:
        t, rows = judge_write(rec, c, o)
        rec.case((repr(c['cfg'][3:]), tuple(c['names']), b''.join(r.tobytes() for r in c['rows'])))
        if t is not None:
            texts.append((c, t, rows))
    rec.require(o.p == len(o.b), 'driver:length', f'{o.p} {len(o.b)}')
    reads = []
    for c, t, rows in texts:
        longest = max(len(l) for l in t.split(b'\n')) + 1
        bl = longest + int(g.choice([0, 0, 1, 100]))
        nc = len(c['names'])
        calls = len(rows) + 3
        reads.append(rcase(g, t, False, [bl] * calls, [nc + int(g.choice([0, 0, 1, 5]))] * calls))
    if not reads:
        return
    o = In(batch(build, reads))
    for r, (c, t, rows) in zip(reads, texts):
        got = judge_read(rec, r, o)
        rec.require(len(got) == len(rows), 'roundtrip:rows', f'{len(got)} of {len(rows)}', text=t[:200].decode('latin1'))
        rec.ev('roundtrips')
        if len(t) > 2**16:
            rec.ev('large_texts')
    rec.require(o.p == len(o.b), 'driver:length', f'{o.p} {len(o.b)}')
    rec.sample(dict(text=texts[0][1][:120].decode('latin1'), reading=reads[0]['cfg']))


def hostile(rec, key):
    build, i = key
    g = core.rng('C20', 'bad', *key)
    cases = []
    for _ in range(core.pick(150, 600)):
        nc = int(g.choice([1, 2, 3, 8]))
        field = lambda: [b'', b'1.5', b'-2.000000', b'abc', b' ', b'9' * int(g.integers(1, 60)), b'nan', b'"a b"', b'1\r', b'\r', b'2\t;3\r4', bytes(range(128, 140)), b'-'][int(g.integers(0, 13))]
        lines = [b','.join(names(g, nc))]
        for _ in range(int(g.choice([0, 1, 2, 6]))):
            k = nc if g.random() < 0.75 else int(max(1, nc + g.choice([-1, 1, 3])))
            lines.append(b','.join(field() for _ in range(k)) if g.random() < 0.95 else b'')
        t = b'\n'.join(lines) + (b'\n' if g.random() < 0.8 else b'')
        if g.random() < 0.05:
            t = bytes(g.choice(list(b'a,\n1'), int(g.integers(0, 40))).tolist())
        longest = max(len(l) for l in lines) + 1
        ncall = len(lines) + 4
        bl = [int(max(0, longest + g.choice([0, 0, 0, 1, 20, -1, -2, -longest]))) if g.random() < 0.4 else longest + 5 for _ in range(ncall)]
        mc = [nc if g.random() < 0.8 else int(max(0, nc + g.choice([-1, 1, 4]))) for _ in range(ncall)]
        bl[0] = max(bl[0], len(lines[0]) + 1) if g.random() < 0.85 else bl[0]
        mc[0] = max(mc[0], nc) if g.random() < 0.85 else mc[0]
        cases.append(rcase(g, t, g.random() < 0.35, bl, mc))
    o = In(batch(build, cases))
    for c in cases:
        judge_read(rec, c, o)
        rec.case((c['text'], c['calls'].tobytes(), tuple(c['cfg'][3:])))
        rec.ev('reader_histories')
    rec.require(o.p == len(o.b), 'driver:length', f'{o.p} {len(o.b)}')
    rec.sample(dict(text=cases[0]['text'][:100].decode('latin1'), calls=cases[0]['calls'][:4].tolist()))


def huge(rec, key):
    """positions behind 2^31 and 2^32"""
    width, rows = 64 * 2**20 + 5, 66
    exe = cc.compile_c(HUGE, flags=['-std=gnu99', '-O2', '-w'], san=False, compiler=key, mechanism='driver')
    d = core.scratch('huge')
    cc.put(os.path.join(d, 'i'), numpy.array([width, rows], 'i4'))
    cc.run(exe, [os.path.join(d, 'i'), os.path.join(d, 'o')], what='csv-huge', timeout=300)
    o = In(open(os.path.join(d, 'o'), 'rb').read())
    rec.require(o.i() == 0, 'read:header-refused', 'huge stream')
    for r in range(rows):
        n = o.i()
        if not rec.require(n == 2, 'read:row-refused', f'row {r} of {rows}, position {4 + r * width}: {n}'):
            return
        got = (o.i(), o.i(), o.i(), o.i())
        if not rec.require(got == (r, width - 10, r, 8), 'read:row-content', f'row {r}, position {4 + r * width}: {got}'):
            return
        rec.case((key, r))
        rec.ev('huge_rows')
    rec.require(o.i() == 0, 'read:end', 'after the last row of a huge stream')


def main():
    chk = core.Check('C20')
    for b, (flags, san, comp) in BUILDS.items():
        try:
            EXE[b] = cc.compile_c(DRIVER, flags=flags, san=san, compiler=comp, mechanism='driver')
        except core.Violation as v:
            chk.local(lambda rec, key, v=v: rec.fail(v.mechanism, v.detail), b)
    chk.run(roundtrip, [(b, i) for i in range(-core.pick(3, 12), core.pick(30, 150)) for b in EXE])
    chk.run(hostile, [(b, i) for i in range(core.pick(50, 250)) for b in EXE])
    chk.run(huge, ['gcc'] + (['clang'] if core.pick(0, 1) else []))
    chk.finish('write/read round trips over memory and FILE streams with short transfers and faults; reader histories over well-formed and malformed text with varying buffer sizes and column limits, judged against a line-level model',
               dict(roundtrips=500, large_texts=5, huge_rows=60, rows_read=2000, values_written=10000, rows_refused=500, malformed_rows=100, read_faults=300, write_faults_reported=100, rows_refused_value=50, rows_refused_length=100, ends=500, files_written=50, headers_refused=50),
               ['column names without delimiter, end of line or NUL', 'at least one column', 'after a failed seek, or an error while reading the header, the position is unknown and the history ends', 'carriage returns belong to the last field'])


main()
