/* C11: calls with exactly one violated precondition, on otherwise valid random objects. Reports every wrong return value and every changed byte of
 * outputs and model state. argv: seed rounds. Lines: "C <case> <times refused as documented>", "F <case> <what>". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <float.h>
#include <limits.h>
#include <math.h>
#include <eml_common.h>
#include <eml_array.h>
#include <eml_audio.h>
#include <eml_bayes.h>
#include <eml_csv.h>
#include <eml_distance.h>
#include <eml_fft.h>
#include <eml_iir.h>
#include <eml_mixture.h>
#include <eml_neighbors.h>
#include <eml_net.h>
#include <eml_quantizer.h>
#include <eml_trees.h>
#include <eml_vector.h>
#include <eml_test.h>

static uint64_t S;
static uint32_t rnd(void) { S = S * 6364136223846793005ULL + 1442695040888963407ULL; uint32_t x = (uint32_t)(((S >> 18) ^ S) >> 27); int r = (int)(S >> 59); return (x >> r) | (x << ((-r) & 31)); }
static int irange(int lo, int hi) { return lo + (int)(rnd() % (uint32_t)(hi - lo + 1)); }
static float val(void) { return (float)irange(-1000, 1000) / 100.0f; }
static void *fresh(size_t n) { uint8_t *p = (uint8_t *)malloc(n ? n : 1); for (size_t i = 0; i < n; i++) { p[i] = (uint8_t)rnd(); } return p; }
static float *floats(int n) { float *p = (float *)fresh(sizeof(float) * (size_t)n); for (int i = 0; i < n; i++) { p[i] = val(); } return p; }
static int16_t *shorts(int n) { int16_t *p = (int16_t *)fresh(2 * (size_t)n); for (int i = 0; i < n; i++) { p[i] = (int16_t)rnd(); } return p; }
/* a length that is not n: near, far, or equal in the low bits */
static int other(int n) { for (;;) { static const int d[] = { 1, -1, 2, 256, -256, 65536, -65536, 1 << 20, INT_MAX / 2 }; const int r = rnd() % 4 ? n + d[rnd() % 9] : (rnd() % 2 ? 0 : -n); if (r != n) { return r; } } }
static int other16(int n) { for (;;) { const int r = n + irange(-200, 300); if (r != n && r >= -32768 && r <= 32767) { return r; } } }

typedef struct { const char *name; long good, wrong; } Case;
static Case cases[256]; static int ncases;
static Case *find(const char *name) { for (int i = 0; i < ncases; i++) { if (strcmp(cases[i].name, name) == 0) { return &cases[i]; } } cases[ncases].name = name; return &cases[ncases++]; }
static struct { const void *p; size_t n; void *copy; } snaps[24]; static int nsnap;
static void snap(const void *p, size_t n) { snaps[nsnap].p = p; snaps[nsnap].n = n; snaps[nsnap].copy = malloc(n ? n : 1); memcpy(snaps[nsnap].copy, p, n); nsnap++; }
static int unchanged(void) { int ok = 1; for (int i = 0; i < nsnap; i++) { ok &= memcmp(snaps[i].p, snaps[i].copy, snaps[i].n) == 0; } return ok; }
static void drop(void) { for (int i = 0; i < nsnap; i++) { free(snaps[i].copy); } nsnap = 0; }
static void judge(const char *name, long got, long want) {
    Case *c = find(name); const int same = unchanged();
    if (got == want && same) { c->good++; return; }
    if (c->wrong++ < 1) { printf("F %s returned %ld documented %ld buffers %s\n", name, got, want, same ? "unchanged" : "CHANGED"); }
}
#define BAD(name, call, want) do { const long v_r = (long)(call); judge(name, v_r, (long)(want)); } while (0)
#define GOOD(name, call) do { const long v_r = (long)(call); Case *v_c = find(name); if (v_r >= 0 && v_r != 0) { if (v_c->wrong++ < 1) { printf("F %s refused a valid call: %ld\n", name, v_r); } } else { v_c->good++; } } while (0)
#define NAN_OF(x) (isnan(x) ? 1 : 0)

static void t_errors(void) {
    static const struct { EmlError e; const char *s; } names[] = { { EmlOk, "ok" }, { EmlSizeMismatch, "sizemismatch" }, { EmlUnsupported, "unsupported" }, { EmlUninitialized, "uninitialized" }, { EmlPostconditionFailed, "postconditionfailed" }, { EmlUnknownError, "unknownerror" } };
    for (int i = 0; i < 6; i++) {
        const char *s = eml_error_str(names[i].e); char b[64]; int n = 0;
        for (; s && *s && n < 60; s++) { if (*s != ' ' && *s != '_' && *s != '-') { b[n++] = (char)(*s >= 'A' && *s <= 'Z' ? *s + 32 : *s); } }
        b[n] = 0;
        judge("error_str", strcmp(b, names[i].s), 0); judge("error_valid", eml_error_valid(names[i].e), 1);
    }
    judge("error_codes", EmlErrors, 6);
    const int bad[] = { 6, 7, 100, INT_MAX, -1, -5 };
    for (int i = 0; i < 6; i++) { const char *s = eml_error_str((EmlError)bad[i]); judge("error_str_invalid", s && strstr(s, "nvalid") ? 1 : 0, 1); judge("error_valid_invalid", eml_error_valid((EmlError)bad[i]), 0); }
}

static void t_vector(void) {
    const int n = irange(1, 20), m = irange(1, n); EmlVector a = { floats(n), n }, b = { floats(m), m };
    snap(a.data, 4 * n); snap(b.data, 4 * m);
    BAD("vector_set/beyond", eml_vector_set(a, b, n - m + (rnd() % 3 ? irange(1, 40) : INT_MAX - n)), -1); BAD("vector_set/negative", eml_vector_set(a, b, rnd() % 3 ? -irange(1, 30) : INT_MIN), -2);
    drop(); const int at = irange(0, n - m); GOOD("vector_set/valid", eml_vector_set(a, b, at)); judge("vector_set/copied", memcmp(a.data + at, b.data, 4 * m), 0);
    free(a.data); free(b.data);
}

static void t_array(void) {
    EmlArray a; memset(&a, 0x5a, sizeof(a)); uint8_t *buf = (uint8_t *)fresh(512);
    int32_t d[4] = { irange(1, 8), irange(1, 8), irange(1, 3), 1 }; const int8_t nd = (int8_t)irange(1, 3), vs = (int8_t)irange(1, 2);
    size_t need = (size_t)vs; for (int i = 0; i < nd; i++) { need *= (size_t)d[i]; }
    snap(&a, sizeof(a)); snap(buf, 512);
    BAD("array_init/dims-count", eml_array_init_full(&a, (int8_t)(rnd() % 2 ? 4 : irange(-128, 0)), d, vs, buf, 512), EmlSizeMismatch);
    BAD("array_init/value-size", eml_array_init_full(&a, nd, d, (int8_t)irange(-128, 0), buf, 512), EmlSizeMismatch);
    BAD("array_init/short-buffer", eml_array_init_full(&a, nd, d, vs, buf, need - (rnd() % 2 ? 1 : need)), EmlSizeMismatch);
    { int32_t e[3]; memcpy(e, d, sizeof(e)); e[0] = -irange(0, 5); BAD("array_init/first-dim", eml_array_init_full(&a, nd, e, vs, buf, 512), EmlSizeMismatch); }
    { int32_t e[3] = { d[0], -irange(1, 99), d[2] }; BAD("array_init/negative-dim", eml_array_init_full(&a, (int8_t)irange(2, 3), e, vs, buf, 512), EmlSizeMismatch); }
    { int32_t e[3] = { 65536, 65536, irange(0, 4) }; BAD("array_init/overflow", eml_array_init_full(&a, (int8_t)(e[2] ? irange(2, 3) : 2), e, vs, buf, 512), EmlSizeMismatch); }
    { int32_t e[3] = { 1 << 30, 4, 1 }; BAD("array_init/overflow-to-zero", eml_array_init_full(&a, 2, e, vs, buf, 512), EmlSizeMismatch); }
    drop(); GOOD("array_init/valid", eml_array_init_full(&a, nd, d, vs, buf, need));
    /* operations on arrays that are not 2D int16 */
    int32_t d3[3] = { 2, 3, 2 }; float s = 1.5f;
    eml_array_init_full(&a, (int8_t)(rnd() % 2 ? 1 : 3), d3, 2, buf, 512); snap(&a, sizeof(a)); snap(buf, 512); snap(&s, 4);
    BAD("array_fill/not-2d", eml_array_fill(&a, 3.0f), EmlUnsupported); BAD("array_sum/not-2d", eml_array_sum(&a, &s), EmlUnsupported); BAD("array_append/not-2d", eml_array_append(&a, &a), EmlUnsupported);
    BAD("array_shift/not-2d", eml_array_shift_rows(&a, -1), EmlUnsupported); BAD("array_data/not-2d", eml_array_data_2d(&a, 0, 0) != NULL, 0); drop();
    const int c = irange(1, 6), r = irange(1, 6); int32_t dd[2] = { c, r };
    int8_t wrong; do { wrong = (int8_t)irange(1, 8); } while (wrong == 2);
    eml_array_init_full(&a, 2, dd, wrong, buf, 512); snap(&a, sizeof(a)); snap(buf, 512); snap(&s, 4);
    BAD("array_fill/value-size", eml_array_fill(&a, 3.0f), EmlUnsupported); BAD("array_sum/value-size", eml_array_sum(&a, &s), EmlUnsupported); drop();
    eml_array_init_full(&a, 2, dd, 2, buf, 512); snap(&a, sizeof(a)); snap(buf, 512);
    BAD("array_data/column-high", eml_array_data_2d(&a, c + (rnd() % 2 ? irange(0, 300) : INT_MAX - c), irange(0, r - 1)) != NULL, 0); BAD("array_data/row-high", eml_array_data_2d(&a, irange(0, c - 1), r + irange(0, 300)) != NULL, 0);
    BAD("array_data/column-negative", eml_array_data_2d(&a, -irange(1, 300), irange(0, r - 1)) != NULL, 0); BAD("array_data/row-negative", eml_array_data_2d(&a, irange(0, c - 1), -irange(1, 300)) != NULL, 0);
    BAD("array_shift/too-far", eml_array_shift_rows(&a, rnd() % 3 ? -(r + irange(1, 9)) : INT_MIN), EmlSizeMismatch); BAD("array_shift/too-far-forward", eml_array_shift_rows(&a, r + irange(1, 9)), EmlSizeMismatch);
    BAD("array_shift/forward", eml_array_shift_rows(&a, irange(1, r)), EmlUnsupported);
    EmlArray b; uint8_t *bb = (uint8_t *)fresh(512); int rb = irange(1, r); int32_t db[2] = { c, rb }; eml_array_init_full(&b, 2, db, 2, bb, 512); snap(&b, sizeof(b)); snap(bb, 512);
    BAD("array_copy/negative", eml_array_copy_rows(&a, rnd() % 3 ? -irange(1, 9) : INT_MIN, &b), EmlUnsupported); BAD("array_copy/beyond", eml_array_copy_rows(&a, r - rb + (rnd() % 3 ? irange(1, 9) : INT_MAX - r), &b), EmlSizeMismatch);
    { EmlArray w = b; w.dims[0] = c + 1; w.dims[1] = 1; BAD("array_copy/columns", eml_array_copy_rows(&a, 0, &w), EmlSizeMismatch); w = b; w.value_size = 1; BAD("array_copy/value-size", eml_array_copy_rows(&a, 0, &w), EmlSizeMismatch);
      w = b; w.n_dims = (int8_t)(rnd() % 2 ? 1 : 3); BAD("array_copy/other-not-2d", eml_array_copy_rows(&a, 0, &w), EmlUnsupported); w = a; w.n_dims = 3; BAD("array_copy/not-2d", eml_array_copy_rows(&w, 0, &b), EmlUnsupported);
      w = b; w.dims[1] = r + irange(1, 5); BAD("array_copy/too-many-rows", eml_array_copy_rows(&a, 0, &w), EmlSizeMismatch); }
    drop(); GOOD("array_copy/valid", eml_array_copy_rows(&a, r - rb, &b)); GOOD("array_shift/valid", eml_array_shift_rows(&a, -irange(0, r))); GOOD("array_fill/valid", eml_array_fill(&a, 1.0f)); GOOD("array_sum/valid", eml_array_sum(&a, &s));
    free(buf); free(bb);
}

static void t_fft(void) {
    const size_t n = (size_t)1 << irange(0, 7); const int tl = (int)(n / 2); EmlFFT t = { tl, floats(tl), floats(tl) }; float *re = floats((int)(2 * n + 64)), *im = floats((int)(2 * n + 64));
    snap(t.sin, 4 * tl); snap(t.cos, 4 * tl); snap(re, 8 * n); snap(im, 8 * n);
    size_t w; do { w = (size_t)irange(0, 300); } while (w / 2 == n / 2); BAD("fft_fill/table-length", eml_fft_fill(t, w), EmlSizeMismatch);
    do { w = (size_t)1 << irange(0, 7); } while (w / 2 == n / 2); if (w <= n) { BAD("fft_forward/table-length", eml_fft_forward(t, re, im, w), EmlSizeMismatch); }
    do { w = (size_t)irange(0, (int)(2 * n)); } while (w && (w & (w - 1)) == 0); { EmlFFT u = t; u.length = (int)(w / 2); BAD("fft_forward/not-power-of-two", eml_fft_forward(u, re, im, w), EmlSizeMismatch); }
    drop(); GOOD("fft_fill/valid", eml_fft_fill(t, n)); GOOD("fft_forward/valid", eml_fft_forward(t, re, im, n)); free(t.sin); free(t.cos); free(re); free(im);
}

static void t_audio(void) {
    const int n = 1 << irange(2, 8), bins = 1 + n / 2, nm = irange(1, n < 40 ? n : 40); EmlAudioMel p = { nm, 0.0f, 4000.0f, n, 8000 }; p.fmin = (float)irange(0, 1000); p.fmax = (float)irange(1500, 4000);
    EmlVector spec = { floats(bins), bins }, mels = { floats(nm), nm };
    snap(spec.data, 4 * bins); snap(mels.data, 4 * nm);
    { EmlVector s = { spec.data, irange(0, bins - 1) }; BAD("melspec/short-spectrum", eml_audio_melspec(p, s, mels), EmlSizeMismatch); EmlVector m = { mels.data, other(nm) }; BAD("melspec/bands", eml_audio_melspec(p, spec, m), EmlSizeMismatch); }
    { EmlAudioMel q = p; q.fmin = -(float)irange(1, 900); BAD("melspec/fmin-negative", eml_audio_melspec(q, spec, mels), EmlUnsupported); q = p; q.fmax = q.fmin; BAD("melspec/empty-range", eml_audio_melspec(q, spec, mels), EmlUnsupported);
      q = p; q.fmin = 3500.0f; q.fmax = 100.0f; BAD("melspec/reversed-range", eml_audio_melspec(q, spec, mels), EmlUnsupported); q = p; q.fmax = 4000.0f + (float)irange(1, 90000); BAD("melspec/fmax-high", eml_audio_melspec(q, spec, mels), EmlUnsupported);
      q = p; q.samplerate = -irange(0, 50000); BAD("melspec/samplerate", eml_audio_melspec(q, spec, mels), EmlUnsupported); q = p; q.fmin = NAN; BAD("melspec/fmin-nan", eml_audio_melspec(q, spec, mels), EmlUnsupported); q = p; q.fmax = NAN; BAD("melspec/fmax-nan", eml_audio_melspec(q, spec, mels), EmlUnsupported);
      q = p; q.n_fft = irange(0, 1); BAD("melspec/n_fft", eml_audio_melspec(q, spec, mels), EmlUnsupported); }
    drop(); GOOD("melspec/valid", eml_audio_melspec(p, spec, mels));
    const int rl = bins + irange(1, 9); EmlVector r = { floats(rl), rl }, o = { floats(bins), bins }; snap(o.data, 4 * bins); snap(r.data, 4 * rl);
    { EmlVector w = { o.data, other(bins) }; BAD("power/out-length", eml_audio_power_spectrogram(r, w, n), EmlSizeMismatch); EmlVector v = { r.data, irange(0, bins) }; BAD("power/short-input", eml_audio_power_spectrogram(v, o, n), EmlSizeMismatch); }
    drop(); GOOD("power/valid", eml_audio_power_spectrogram(r, o, n));
    EmlFFT f = { n / 2, floats(n / 2), floats(n / 2) }; eml_fft_fill(f, (size_t)n); EmlVector io = { floats(n), n }, tmp = { floats(n), n };
    snap(io.data, 4 * n); snap(tmp.data, 4 * n); snap(f.sin, 2 * n); snap(f.cos, 2 * n);
    { EmlVector w = { io.data, other(n) }; BAD("melspectrogram/block-length", eml_audio_melspectrogram(p, f, w, tmp), EmlSizeMismatch); EmlVector v = { tmp.data, irange(0, n - 1) }; BAD("melspectrogram/short-temp", eml_audio_melspectrogram(p, f, io, v), EmlSizeMismatch);
      EmlFFT g = f; g.length = other(n / 2); BAD("melspectrogram/table-length", eml_audio_melspectrogram(p, g, io, tmp), EmlSizeMismatch); EmlAudioMel q = p; q.n_mels = n + irange(1, 99); BAD("melspectrogram/too-many-bands", eml_audio_melspectrogram(q, f, io, tmp), EmlSizeMismatch);
      q = p; q.n_mels = -irange(1, 99); BAD("melspectrogram/negative-bands", eml_audio_melspectrogram(q, f, io, tmp), EmlSizeMismatch);
      const int odd = n - 1; if (odd & (odd - 1)) { q = p; q.n_fft = odd; if (q.n_mels > odd) { q.n_mels = odd; } EmlVector a = { io.data, odd }; EmlFFT h = f; h.length = odd / 2; BAD("melspectrogram/not-power-of-two", eml_audio_melspectrogram(q, h, a, tmp), EmlSizeMismatch); }
      q = p; q.fmax = q.fmin; BAD("melspectrogram/range", eml_audio_melspectrogram(q, f, io, tmp), EmlUnsupported); q = p; q.fmax = 4001.0f; BAD("melspectrogram/fmax-high", eml_audio_melspectrogram(q, f, io, tmp), EmlUnsupported); }
    drop(); GOOD("melspectrogram/valid", eml_audio_melspectrogram(p, f, io, tmp));
    free(spec.data); free(mels.data); free(r.data); free(o.data); free(f.sin); free(f.cos); free(io.data); free(tmp.data);
}

static void t_iir(void) {
    const int n = irange(1, 6); float *st = floats(4 * n), *co = floats(6 * n); EmlIIR f = { n, st, 4 * n, co, 6 * n }, g; snap(st, 16 * n); snap(co, 24 * n);
    g = f; g.n_stages = -irange(0, 9); BAD("iir_check/stages", eml_iir_check(g), EmlUninitialized); g = f; g.states = NULL; BAD("iir_check/no-states", eml_iir_check(g), EmlUninitialized); g = f; g.coefficients = NULL; BAD("iir_check/no-coefficients", eml_iir_check(g), EmlUninitialized);
    g = f; g.states_length = other(4 * n); BAD("iir_check/states-length", eml_iir_check(g), EmlSizeMismatch); g = f; g.coefficients_length = other(6 * n); BAD("iir_check/coefficients-length", eml_iir_check(g), EmlSizeMismatch);
    g = f; g.n_stages = n + (rnd() % 2 ? irange(1, 9) : 1 << 30); BAD("iir_check/more-stages", eml_iir_check(g), EmlSizeMismatch); GOOD("iir_check/valid", eml_iir_check(f)); drop(); free(st); free(co);
}

static void t_quantizer(void) {
    const int n = irange(1, 12); EmlQuantizer q = { 3.0f }; float *v = floats(n); int16_t *o = shorts(n); int u = 77, w = 78; snap(v, 4 * n); snap(o, 2 * n); snap(&u, 4); snap(&w, 4); snap(&q, sizeof(q));
    BAD("quantizer_check/length", eml_quantizer_check_forward_int16(&q, v, n, o, other(n), &u, &w), EmlSizeMismatch); BAD("quantizer/length", eml_quantizer_forward_int16(&q, v, n, o, other(n)), EmlSizeMismatch); BAD("quantizer_inverse/length", eml_quantizer_inverse_int16(&q, o, n, v, other(n)), EmlSizeMismatch);
    drop(); GOOD("quantizer/valid", eml_quantizer_forward_int16(&q, v, n, o, n)); free(v); free(o);
}

static void t_bayes(void) {
    const int k = irange(2, 5), m = irange(1, 6); EmlBayesSummary *s = (EmlBayesSummary *)fresh(sizeof(EmlBayesSummary) * (size_t)(k * m)); for (int i = 0; i < k * m; i++) { s[i].mean = irange(-99999, 99999); s[i].std = irange(1, 99999); s[i].stdlog2 = irange(-99999, 99999); }
    EmlBayesModel model = { k, m, s }, bad = { irange(-3, 1), m, s }; float *v = floats(m); snap(&model, sizeof(model)); snap(s, sizeof(EmlBayesSummary) * (size_t)(k * m)); snap(v, 4 * m);
    BAD("bayes/no-model", eml_bayes_predict(NULL, v, m), -EmlUninitialized); BAD("bayes/no-values", eml_bayes_predict(&model, NULL, m), -EmlUninitialized); BAD("bayes/classes", eml_bayes_predict(&bad, v, m), -EmlUninitialized); BAD("bayes/length", eml_bayes_predict(&model, v, other(m)), -EmlSizeMismatch);
    const int32_t c = eml_bayes_predict(&model, v, m); judge("bayes/valid", c >= 0 && c < k, 1); drop(); free(s); free(v);
    for (int i = 0; i < 5; i++) { BAD("log2fix/precision", eml_bayes_log2fix(rnd() | 1, rnd() % 2 ? 0 : (size_t)irange(31, 90)), INT32_MAX); } BAD("log2fix/zero", eml_bayes_log2fix(0, (size_t)irange(1, 30)), INT32_MIN);
}

static void t_mixture(void) {
    const int k = irange(1, 4), m = irange(1, 5); float *me = floats(k * m), *pr = floats(k * m * m), *ld = floats(k), *lw = floats(k), *v = floats(m), *p = floats(k), *r = floats(k), sc = 5.0f, d = 6.0f;
    EmlMixtureModel model = { k, m, EmlCovarianceFull, me, pr, ld, lw }, bad = model; bad.n_components = -irange(0, 3); EmlMixtureModel cov = model; cov.covariance_type = (EmlCovarianceType)irange(1, 3);
    snap(p, 4 * k); snap(r, 4 * k); snap(&sc, 4); snap(v, 4 * m); snap(me, 4 * k * m); snap(pr, 4 * k * m * m); snap(&model, sizeof(model));
    BAD("mixture_log/no-model", eml_mixture_predict_log_proba(NULL, v, m, p), -EmlUninitialized); BAD("mixture_log/no-values", eml_mixture_predict_log_proba(&model, NULL, m, p), -EmlUninitialized); BAD("mixture_log/components", eml_mixture_predict_log_proba(&bad, v, m, p), -EmlUninitialized);
    BAD("mixture_log/length", eml_mixture_predict_log_proba(&model, v, other(m), p), -EmlSizeMismatch); BAD("mixture_log/covariance", labs(eml_mixture_predict_log_proba(&cov, v, m, p)), EmlUnsupported);
    BAD("mixture_score/no-model", eml_mixture_score(NULL, v, m, p, &sc), -EmlUninitialized); BAD("mixture_score/no-values", eml_mixture_score(&model, NULL, m, p, &sc), -EmlUninitialized); BAD("mixture_score/components", eml_mixture_score(&bad, v, m, p, &sc), -EmlUninitialized);
    BAD("mixture_score/length", eml_mixture_score(&model, v, other(m), p, &sc), -EmlSizeMismatch); BAD("mixture_score/covariance", labs(eml_mixture_score(&cov, v, m, p, &sc)), EmlUnsupported);
    BAD("mixture_proba/no-model", eml_mixture_predict_proba(NULL, v, m, p, &sc, r), -EmlUninitialized); BAD("mixture_proba/no-values", eml_mixture_predict_proba(&model, NULL, m, p, &sc, r), -EmlUninitialized); BAD("mixture_proba/components", eml_mixture_predict_proba(&bad, v, m, p, &sc, r), -EmlUninitialized);
    BAD("mixture_proba/length", eml_mixture_predict_proba(&model, v, other(m), p, &sc, r), -EmlSizeMismatch); BAD("mixture_proba/covariance", labs(eml_mixture_predict_proba(&cov, v, m, p, &sc, r)), EmlUnsupported);
    EmlEllipticEnvelope e = { m, -3.0f, me, pr }; snap(&d, 4); BAD("elliptic/length", eml_elliptic_envelope_predict(&e, v, other(m), &d), -EmlSizeMismatch); BAD("elliptic/length-no-output", eml_elliptic_envelope_predict(&e, v, other(m), NULL), -EmlSizeMismatch);
    drop(); GOOD("mixture_proba/valid", eml_mixture_predict_proba(&model, v, m, p, &sc, r)); const int el = eml_elliptic_envelope_predict(&e, v, m, &d); judge("elliptic/valid", el == 0 || el == 1, 1);
    free(me); free(pr); free(ld); free(lw); free(v); free(p); free(r);
}

static void t_neighbors(void) {
    const int m = irange(1, 6), cap = irange(3, 20), n = irange(1, cap); EmlNeighborsModel model = { (uint16_t)m, (int16_t)n, (int16_t)cap, shorts(m * cap), shorts(cap), (int16_t)irange(1, n) }; for (int i = 0; i < cap; i++) { model.labels[i] = (int16_t)irange(0, 9); }
    EmlNeighborsDistanceItem *d = (EmlNeighborsDistanceItem *)fresh(sizeof(*d) * (size_t)cap); int16_t *v = shorts(m), got = -9;
    snap(&model, sizeof(model)); snap(model.data, 2 * m * cap); snap(model.labels, 2 * cap); snap(v, 2 * m); snap(&got, 2);
    BAD("neighbors_check/data", eml_neighbors_check(&model, (int16_t)(m * cap - irange(1, m * cap)), (int16_t)cap, (int16_t)cap), EmlSizeMismatch); BAD("neighbors_check/labels", eml_neighbors_check(&model, (int16_t)(m * cap), (int16_t)irange(-5, cap - 1), (int16_t)cap), EmlSizeMismatch);
    BAD("neighbors_check/distances", eml_neighbors_check(&model, (int16_t)(m * cap), (int16_t)cap, (int16_t)irange(-5, cap - 1)), EmlSizeMismatch); GOOD("neighbors_check/valid", eml_neighbors_check(&model, (int16_t)(m * cap), (int16_t)cap, (int16_t)cap));
    BAD("neighbors_add/length", eml_neighbors_add_item(&model, v, (int16_t)other16(m), 1), EmlSizeMismatch);
    { snap(d, sizeof(*d) * (size_t)cap); BAD("neighbors_infer/length", eml_neighbors_infer(&model, v, other(m), d, cap), EmlSizeMismatch); BAD("neighbors_infer/distances", eml_neighbors_infer(&model, v, m, d, irange(-3, n - 1)), EmlSizeMismatch);
      BAD("neighbors_predict/length", eml_neighbors_predict(&model, v, other(m), d, cap, &got), EmlSizeMismatch); BAD("neighbors_predict/distances", eml_neighbors_predict(&model, v, m, d, irange(-3, n - 1), &got), EmlSizeMismatch); BAD("neighbors_find/k", eml_neighbors_find_nearest(&model, d, n, n + irange(1, 9), &got), EmlSizeMismatch); drop(); }
    { EmlNeighborsModel full = model; full.n_items = full.max_items; snap(&full, sizeof(full)); snap(model.data, 2 * m * cap); snap(model.labels, 2 * cap); BAD("neighbors_add/full", eml_neighbors_add_item(&full, v, (int16_t)m, 1), EmlSizeMismatch); drop(); }
    { EmlNeighborsModel few = model; few.k_neighbors = (int16_t)(n + irange(1, 5)); snap(&few, sizeof(few)); snap(&got, 2); BAD("neighbors_predict/k", eml_neighbors_predict(&few, v, m, d, cap, &got), EmlSizeMismatch); drop(); }
    { EmlNeighborsModel lab = model; int16_t *l = shorts(cap); const int16_t outside = (int16_t)(rnd() % 2 ? irange(10, 32767) : -irange(1, 32768)); for (int i = 0; i < cap; i++) { l[i] = outside; } lab.labels = l; snap(&got, 2); snap(l, 2 * cap); BAD("neighbors_predict/label", eml_neighbors_predict(&lab, v, m, d, cap, &got), EmlUnknownError); drop(); free(l); }
    GOOD("neighbors_predict/valid", eml_neighbors_predict(&model, v, m, d, cap, &got)); judge("neighbors_predict/label-valid", got >= 0 && got <= 9, 1);
    free(model.data); free(model.labels); free(d); free(v);
}

static void t_net(void) {
    const int nl = irange(2, 4); int w[6], big = 1; for (int i = 0; i <= nl; i++) { w[i] = irange(1, 7); if (w[i] > big) { big = w[i]; } }
    EmlNetLayer *L = (EmlNetLayer *)malloc(sizeof(EmlNetLayer) * (size_t)nl), *B = (EmlNetLayer *)malloc(sizeof(EmlNetLayer) * (size_t)nl);
    for (int i = 0; i < nl; i++) { L[i].n_inputs = w[i]; L[i].n_outputs = w[i + 1]; L[i].weights = floats(w[i] * w[i + 1]); L[i].biases = floats(w[i + 1]); L[i].activation = (EmlNetActivationFunction)(i == nl - 1 ? (w[nl] == 1 ? EmlNetActivationLogistic : EmlNetActivationSoftmax) : irange(0, 4)); }
    const int pl = w[nl] == 1 ? 2 : w[nl], ol = w[nl]; float *x = floats(w[0]), *o = floats(pl), *a1 = floats(big), *a2 = floats(big); EmlNet net = { nl, L, a1, a2, big }, g;
#define NETBAD(case_, net_, f_, len_, err_) do { snap(o, 4 * (size_t)pl); snap(x, 4 * (size_t)w[0]); snap(net_, sizeof(EmlNet)); \
    BAD("net_predict/" case_, eml_net_predict(net_, f_, len_), -(err_)); BAD("net_regress/" case_, eml_net_regress(net_, f_, len_, o, ol), err_); \
    BAD("net_regress1/" case_, NAN_OF(eml_net_regress1(net_, f_, len_)), 1); BAD("net_proba/" case_, eml_net_predict_proba(net_, f_, len_, o, pl), err_); drop(); } while (0)
    NETBAD("length", &net, x, other(w[0]), EmlSizeMismatch);
    g = net; g.layers = NULL; NETBAD("no-layers", &g, x, w[0], EmlUninitialized); g = net; g.activations1 = NULL; NETBAD("no-activations1", &g, x, w[0], EmlUninitialized); g = net; g.activations2 = NULL; NETBAD("no-activations2", &g, x, w[0], EmlUninitialized);
    g = net; g.n_layers = irange(-2, 1); NETBAD("layers-count", &g, x, w[0], EmlUnsupported); g = net; g.activations_length = irange(-2, big - 1); NETBAD("activations-length", &g, x, w[0], EmlSizeMismatch);
    { memcpy(B, L, sizeof(EmlNetLayer) * (size_t)nl); B[irange(0, nl - 1)].weights = NULL; g = net; g.layers = B; NETBAD("no-weights", &g, x, w[0], EmlUninitialized); memcpy(B, L, sizeof(EmlNetLayer) * (size_t)nl); B[irange(0, nl - 1)].biases = NULL; NETBAD("no-biases", &g, x, w[0], EmlUninitialized);
      memcpy(B, L, sizeof(EmlNetLayer) * (size_t)nl); B[irange(0, nl - 1)].activation = (EmlNetActivationFunction)irange(5, 99); NETBAD("activation", &g, x, w[0], EmlUnsupported); }
    snap(o, 4 * pl); BAD("net_regress/out-length", eml_net_regress(&net, x, w[0], o, other(ol)), EmlSizeMismatch); BAD("net_regress/no-out", eml_net_regress(&net, x, w[0], NULL, ol), EmlUninitialized); if (ol != 1) { BAD("net_regress1/outputs", NAN_OF(eml_net_regress1(&net, x, w[0])), 1); }
    BAD("net_proba/out-length", eml_net_predict_proba(&net, x, w[0], o, other(pl)), EmlSizeMismatch); BAD("net_proba/no-out", eml_net_predict_proba(&net, x, w[0], NULL, pl), EmlUninitialized); BAD("net_proba/no-features", eml_net_predict_proba(&net, NULL, w[0], o, pl), EmlUninitialized);
    BAD("net_softmax/no-input", eml_net_softmax(NULL, 3), EmlUninitialized); BAD("net_argmax/empty", eml_net_argmax(x, -irange(0, 3)), -1);
    BAD("net_layer/in-length", eml_net_layer_forward(&L[0], x, w[0] - irange(1, 9), o, 99), EmlSizeMismatch); BAD("net_layer/out-length", eml_net_layer_forward(&L[nl - 1], x, 99, o, w[nl] - irange(1, 9)), EmlSizeMismatch); drop();
    const int32_t c = eml_net_predict(&net, x, w[0]); judge("net_predict/valid", c >= 0 && c < pl, 1); GOOD("net_regress/valid", eml_net_regress(&net, x, w[0], o, ol)); GOOD("net_proba/valid", eml_net_predict_proba(&net, x, w[0], o, pl));
    for (int i = 0; i < nl; i++) { free((void *)L[i].weights); free((void *)L[i].biases); } free(L); free(B); free(x); free(o); free(a1); free(a2);
}

static void t_trees(void) {
    const int m = irange(1, 127), k = irange(2, 30), soft = (int)(rnd() % 3); const int ls = soft == 0 ? 1 : (soft == 1 ? k : 4);
    EmlTreesNode nodes[3]; memset(nodes, 0, sizeof(nodes)); for (int i = 0; i < 3; i++) { nodes[i].feature = (int8_t)irange(0, m - 1); nodes[i].value = (int16_t)rnd(); nodes[i].left = (int16_t)(i == 0 ? 1 : -irange(1, 4)); nodes[i].right = (int16_t)(i == 0 ? 2 : -irange(1, 4)); }
    int32_t roots[2] = { 0, 1 }; uint8_t *leaves = (uint8_t *)fresh((size_t)(4 * ls)); for (int i = 0; i < 4 * ls; i++) { leaves[i] = (uint8_t)(soft == 0 ? irange(0, k - 1) : irange(soft == 1 ? 1 : 0, 100)); }
    EmlTrees f; memset(&f, 0, sizeof(f)); f.n_nodes = 3; f.nodes = nodes; f.n_trees = 2; f.tree_roots = roots; f.n_leaves = 4 * ls; f.leaves = leaves; f.leaf_bits = (int8_t)(soft == 0 ? 0 : (soft == 1 ? 8 : 32)); f.n_features = (int8_t)m; f.n_classes = (int8_t)k; EmlTrees g;
    int16_t *x = shorts(m); float *o = floats(k), one = 4.0f; snap(&f, sizeof(f)); snap(nodes, sizeof(nodes)); snap(leaves, (size_t)(4 * ls)); snap(x, 2 * m); snap(o, 4 * k); snap(&one, 4);
    judge("trees_predict/length", eml_trees_predict(&f, x, other(m)) < 0, 1); BAD("trees_proba/length", eml_trees_predict_proba(&f, x, other(m), o, k), EmlSizeMismatch); BAD("trees_proba/out-length", eml_trees_predict_proba(&f, x, m, o, other(k)), EmlSizeMismatch);
    BAD("trees_proba/no-features", eml_trees_predict_proba(&f, NULL, m, o, k), EmlUninitialized); BAD("trees_proba/no-out", eml_trees_predict_proba(&f, x, m, NULL, k), EmlUninitialized); judge("trees_predict/no-features", eml_trees_predict(&f, NULL, m) < 0, 1);
    g = f; g.n_classes = (int8_t)irange(31, 127); judge("trees_predict/too-many-classes", eml_trees_predict(&g, x, m) < 0, 1);
    g = f; g.leaf_bits = 32; BAD("trees_regress/out-length", eml_trees_regress(&g, x, m, &one, (int8_t)-irange(0, 9)), EmlSizeMismatch); BAD("trees_regress/length", eml_trees_regress(&g, x, other(m), &one, 1), EmlSizeMismatch); BAD("trees_regress1/length", NAN_OF(eml_trees_regress1(&g, x, other(m))), 1);
    g = f; g.leaf_bits = (int8_t)(rnd() % 2 ? 0 : 8); BAD("trees_regress/leaf-bits", eml_trees_regress(&g, x, m, &one, 1), EmlUnsupported); BAD("trees_regress1/leaf-bits", NAN_OF(eml_trees_regress1(&g, x, m)), 1);
    do { g.leaf_bits = (int8_t)irange(1, 127); } while (g.leaf_bits == 8); drop();
    BAD("trees_proba/leaf-bits", eml_trees_predict_proba(&g, x, m, o, k), EmlUnsupported); judge("trees_predict/leaf-bits", eml_trees_predict(&g, x, m) < 0, 1);
    if (soft < 2) { const int32_t c = eml_trees_predict(&f, x, m); judge("trees_predict/valid", c >= 0 && c < k, 1); GOOD("trees_proba/valid", eml_trees_predict_proba(&f, x, m, o, k)); } else { GOOD("trees_regress/valid", eml_trees_regress(&f, x, m, &one, 1)); }
    free(leaves); free(x); free(o);
}

typedef struct { uint8_t *d; size_t size, pos; } Mem;
static int m_read(void *c, uint8_t *b, size_t n) { Mem *m = (Mem *)c; size_t k = m->size - m->pos; if (k > n) { k = n; } memcpy(b, m->d + m->pos, k); m->pos += k; return (int)k; }
static int m_write(void *c, const uint8_t *b, size_t n) { Mem *m = (Mem *)c; if (m->size + n > 2000) { return -1; } memcpy(m->d + m->size, b, n); m->size += n; return (int)n; }
static int m_seek(void *c, size_t p) { Mem *m = (Mem *)c; m->pos = p; return 0; }

static void t_csv(void) {
    Mem s = { (uint8_t *)fresh(2000), 0, 0 }; const int n = irange(1, 6); const char *names[6] = { "a", "bb", "c3", "column", "x_1", "zz" }; EmlCsvWriter w = { 0, m_write, m_seek, &s };
    GOOD("csv_header/valid", eml_csv_writer_write_header(&w, names, (size_t)n)); float v[12]; for (int i = 0; i < 12; i++) { v[i] = val(); }
    snap(&s, sizeof(s)); snap(s.d, 2000); snap(&w, sizeof(w)); BAD("csv_write/length", eml_csv_writer_write_data(&w, v, (size_t)(rnd() % 3 ? (n + irange(1, 5)) : irange(0, n - 1))), EmlSizeMismatch);
    { float big[12]; memcpy(big, v, sizeof(big)); big[irange(0, n - 1)] = rnd() % 2 ? 1e20f : -3e38f; BAD("csv_write/too-large", eml_csv_writer_write_data(&w, big, (size_t)n), EmlUnsupported); } drop();
    const int rows = irange(1, 4); for (int i = 0; i < rows; i++) { GOOD("csv_write/valid", eml_csv_writer_write_data(&w, v, (size_t)n)); }
    EmlCsvReader r = { 0, 0, m_read, m_seek, &s }; char buf[200]; char *cols[8]; s.pos = 0;
    { EmlCsvReader t = r; char b[200]; BAD("csv_read_header/too-few-columns", eml_csv_reader_read_header(&t, b, sizeof(b), cols, (size_t)irange(0, n - 1)), EmlUnknownError); s.pos = 0; BAD("csv_read_header/short-buffer", eml_csv_reader_read_header(&t, b, (size_t)irange(0, n), cols, 8), EmlSizeMismatch); s.pos = 0; }
    GOOD("csv_read_header/valid", eml_csv_reader_read_header(&r, buf, sizeof(buf), cols, (size_t)n));
    { snap(&s, sizeof(s)); snap(&r, sizeof(r)); BAD("csv_read/too-few-columns", eml_csv_reader_read_data(&r, buf, sizeof(buf), cols, (size_t)irange(0, n - 1)), -EmlSizeMismatch); drop(); }
    { snap(&r, sizeof(r)); BAD("csv_read/short-buffer", eml_csv_reader_read_data(&r, buf, (size_t)irange(0, 3), cols, 8), -EmlUnknownError); judge("csv_read/short-buffer-position", (long)s.pos, (long)r.stream_location); drop(); }
    judge("csv_read/valid", eml_csv_reader_read_data(&r, buf, sizeof(buf), cols, (size_t)n), n); free(s.d);
    { char line[] = "1.5,2.5,3.5"; float o[3] = { 7, 8, 9 }; int32_t got = 42; snap(&got, 4); BAD("test_parse/no-buffer", eml_test_parse_csv_line(NULL, o, 3, &got), EmlUninitialized); BAD("test_parse/no-values", eml_test_parse_csv_line(line, NULL, 3, &got), EmlUninitialized); BAD("test_parse/too-many", eml_test_parse_csv_line(line, o, 2, &got), EmlSizeMismatch); drop(); }
}

int main(int argc, char **argv) {
    S = strtoull(argv[1], NULL, 10); const long rounds = atol(argv[2]); rnd();
    for (long r = 0; r < rounds; r++) { t_errors(); t_vector(); t_array(); t_fft(); t_audio(); t_iir(); t_quantizer(); t_bayes(); t_mixture(); t_neighbors(); t_net(); t_trees(); t_csv(); }
    for (int i = 0; i < ncases; i++) { printf("C %s %ld\n", cases[i].name, cases[i].good); }
    return 0;
}
