/* C10: random calls of every header function, with exact-size heap buffers. The sanitizers the file is compiled with are the oracle.
 * argv: seed rounds [group]. Prints how many calls each group made and how many were refused, so that the evidence shows both sides. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <float.h>
#include <limits.h>
#include <math.h>
#include <eml_common.h>
#include <eml_array.h>
#include <eml_audio.h>
#include <eml_bayes.h>
#include <eml_benchmark.h>
#include <eml_csv.h>
#include <eml_distance.h>
#include <eml_fft.h>
#include <eml_fileio.h>
#include <eml_fixedpoint.h>
#include <eml_iir.h>
#include <eml_mixture.h>
#include <eml_neighbors.h>
#include <eml_net.h>
#include <eml_quantizer.h>
#include <eml_trees.h>
#include <eml_vector.h>
#include <eml_test.h>

static uint64_t S;
static uint32_t rnd(void) { S = S * 6364136223846793005ULL + 1442695040888963407ULL; uint32_t x = (uint32_t)(((S >> 18) ^ S) >> 27); int r = (int)(S >> 59); return (x >> r) | (x << ((-r) & 31)); }
static int irange(int lo, int hi) { return lo + (int)(rnd() % (uint32_t)(hi - lo + 1)); }
static int hostile(void) {
    static const int v[] = { 0, 1, -1, 2, -2, 3, 7, 8, 16, 127, 128, 255, 256, 32767, 32768, -32768, 65535, 65536, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, INT_MAX / 2, 1 << 30, -(1 << 30) };
    return rnd() % 3 ? v[rnd() % (sizeof(v) / sizeof(v[0]))] : (rnd() % 2 ? (int)rnd() : irange(-40, 40));
}
static float hfloat(void) {
    static const float v[] = { 0.0f, -0.0f, 1.0f, -1.0f, 0.5f, FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, 1e-45f, 32767.0f, -32768.0f, 32768.0f, 1e10f, -1e10f, 2147483648.0f, 1e-10f };
    const uint32_t r = rnd() % 8;
    if (r == 0) { return INFINITY; }
    if (r == 1) { return rnd() % 2 ? -INFINITY : NAN; }
    if (r < 4) { return v[rnd() % (sizeof(v) / sizeof(v[0]))]; }
    return ((float)(int)rnd() / 65536.0f) * (r == 7 ? 1e6f : 0.01f);
}
static void *fresh(size_t n) { return malloc(n ? n : 1); }   /* exact size, uninitialised: MSan and ASan watch it */
static float *floats(int n) { float *p = (float *)fresh(sizeof(float) * (size_t)(n > 0 ? n : 0)); for (int i = 0; i < n; i++) { p[i] = hfloat(); } return p; }
static int16_t *shorts(int n) { int16_t *p = (int16_t *)fresh(2 * (size_t)(n > 0 ? n : 0)); for (int i = 0; i < n; i++) { p[i] = (int16_t)rnd(); } return p; }
static volatile uint32_t sink;
/* everything a successful call produced must be initialised: branch on it */
static void use(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { if (b[i] & 1) { sink++; } } }
static void usef(float f) { use(&f, sizeof(f)); }

static long calls, refused;
static void out(int refused_now) { calls++; refused += refused_now ? 1 : 0; }

static void g_vector(void) {
    const int n = irange(0, 20), m = irange(0, 20);
    EmlVector a = { floats(n), n }, b = { floats(m), m };
    const int at = rnd() % 2 ? hostile() : irange(-3, 22);
    out(eml_vector_set(a, b, at) != 0); use(a.data, 4 * n);
    if (n) { const int s = irange(0, n), e = irange(s, n); EmlVector v = eml_vector_view(a, s, e); eml_vector_set_value(v, hfloat()); use(v.data, 4 * v.length); }
    usef(eml_signal_mean(a.data, n)); out(eml_signal_hann_apply(a.data, n) != EmlOk); use(a.data, 4 * n);
    free(a.data); free(b.data);
}

static void g_array(void) {
    EmlArray a, b; int16_t *pa, *pb;
    { /* hostile initialisation: refused, or every element usable */
        int32_t *dims = (int32_t *)fresh(4 * 3); for (int i = 0; i < 3; i++) { dims[i] = rnd() % 2 ? hostile() : irange(0, 9); }
        const int8_t nd = (int8_t)(rnd() % 3 ? irange(1, 3) : (int)rnd()), vs = (int8_t)(rnd() % 3 ? irange(1, 4) : (int)rnd());
        const size_t len = rnd() % 2 ? rnd() % 700 : (size_t)rnd();
        const size_t real = len > 4096 ? 4096 : len;
        uint8_t *buf = (uint8_t *)calloc(real ? real : 1, 1);
        const EmlError e = eml_array_init_full(&a, nd, dims, vs, buf, real); out(e != EmlOk);
        if (e == EmlOk) {
            use(&a.dims, sizeof(a.dims)); if (eml_array_storage_size(&a) > real) { printf("SIZE\n"); exit(5); }
            for (int i = 0; i < 20; i++) { uint8_t *p = (uint8_t *)eml_array_data_2d(&a, hostile(), hostile()); if (p) { for (int k = 0; k < a.value_size; k++) { p[k]++; } } out(!p); }
            if (a.n_dims == 2) { for (int c = 0; c < a.dims[0] && c < 40; c++) { for (int r = 0; r < a.dims[1] && r < 40; r++) { uint8_t *p = (uint8_t *)eml_array_data_2d(&a, c, r); for (int k = 0; k < a.value_size; k++) { p[k]++; } } } }
            if (a.value_size == 2 && (uintptr_t)buf % 2 == 0) { float s = 0; out(eml_array_fill(&a, (float)irange(-32768, 32767)) != EmlOk); if (eml_array_sum(&a, &s) == EmlOk) { usef(s); } }
            out(eml_array_shift_rows(&a, hostile()) != EmlOk); out(eml_array_append(&a, &a) != EmlOk);
        }
        free(buf); free(dims);
    }
    const int c = irange(1, 6), ra = irange(1, 8), rb = irange(1, 8), cb = rnd() % 4 ? c : irange(1, 6);
    pa = shorts(c * ra); pb = shorts(cb * rb);
    int32_t da[2] = { c, ra }, db[2] = { cb, rb };
    eml_array_init_full(&a, 2, da, 2, (uint8_t *)pa, 2 * (size_t)(c * ra)); eml_array_init_full(&b, 2, db, 2, (uint8_t *)pb, 2 * (size_t)(cb * rb));
    out(eml_array_copy_rows(&a, rnd() % 2 ? hostile() : irange(-2, 9), &b) != EmlOk);
    out(eml_array_shift_rows(&a, rnd() % 2 ? hostile() : irange(-9, 1)) != EmlOk);
    float s = 0; out(eml_array_sum(&a, &s) != EmlOk); usef(s); use(pa, 2 * (size_t)(c * ra));
    free(pa); free(pb);
}

static void g_fft(void) {
    const size_t n = rnd() % 3 ? (size_t)1 << irange(0, 9) : (size_t)irange(0, 300);
    const int tl = rnd() % 4 ? (int)(n / 2) : irange(0, 260);
    EmlFFT t = { tl, (float *)fresh(4 * (size_t)tl), (float *)fresh(4 * (size_t)tl) };
    const EmlError e = eml_fft_fill(t, n); out(e != EmlOk);
    if (e == EmlOk) { use(t.sin, 4 * (size_t)tl); use(t.cos, 4 * (size_t)tl); }
    else { for (int i = 0; i < tl; i++) { t.sin[i] = t.cos[i] = 0.5f; } }
    float *re = floats((int)n), *im = floats((int)n);
    out(eml_fft_forward(t, re, im, n) != EmlOk); use(re, 4 * n); use(im, 4 * n);
    free(re); free(im); free(t.sin); free(t.cos);
}

static EmlAudioMel melparams(int n_fft) {
    EmlAudioMel p; p.n_fft = n_fft; p.samplerate = rnd() % 4 ? irange(1, 48000) : hostile(); p.n_mels = irange(0, 40);
    const float sr = (float)p.samplerate;
    p.fmin = rnd() % 4 ? sr * (float)irange(0, 50) / 100.0f : hfloat(); p.fmax = rnd() % 4 ? sr * (float)irange(0, 52) / 100.0f : hfloat();
    if (rnd() % 3 == 0) { p.fmax = sr / 2.0f; p.fmin = 0.0f; }
    return p;
}

static void g_mel(void) {
    const int n_fft = rnd() % 3 ? irange(0, 300) : hostile();
    const int bins = n_fft > 0 && n_fft < 5000 ? 1 + n_fft / 2 : 1;
    const int sl = rnd() % 4 ? bins : irange(0, 160);
    EmlAudioMel p = melparams(n_fft);
    const int ml = rnd() % 5 ? p.n_mels : irange(0, 40);
    EmlVector spec = { floats(sl), sl }, mels = { (float *)fresh(4 * (size_t)ml), ml };
    const EmlError e = eml_audio_melspec(p, spec, mels); out(e != EmlOk);
    if (e == EmlOk) { use(mels.data, 4 * (size_t)ml); }
    free(spec.data); free(mels.data);
    { /* power spectrum */
        const int rl = irange(0, 40), ol = irange(0, 40), nf = rnd() % 2 ? hostile() : 2 * (ol - 1);
        EmlVector r = { floats(rl), rl }, o = { (float *)fresh(4 * (size_t)ol), ol };
        const EmlError pe = eml_audio_power_spectrogram(r, o, nf); out(pe != EmlOk);
        if (pe == EmlOk) { use(o.data, 4 * (size_t)ol); }
        free(r.data); free(o.data);
    }
    { /* the whole block */
        const int n = rnd() % 3 ? 1 << irange(0, 8) : irange(0, 200), il = rnd() % 6 ? n : irange(0, 200), tl = rnd() % 6 ? n : irange(0, 260), fl = rnd() % 6 ? n / 2 : irange(0, 100);
        EmlAudioMel q = melparams(rnd() % 8 ? n : hostile());
        EmlFFT f = { fl, floats(fl), floats(fl) }; eml_fft_fill(f, (size_t)n);
        EmlVector io = { floats(il), il }, tmp = { (float *)fresh(4 * (size_t)tl), tl };
        if (rnd() % 10 == 0) { q.n_mels = hostile(); }
        const EmlError be = eml_audio_melspectrogram(q, f, io, tmp); out(be != EmlOk);
        use(io.data, 4 * (size_t)il);
        free(io.data); free(tmp.data); free(f.sin); free(f.cos);
    }
    usef(eml_audio_mels_from_hz(hfloat())); usef(eml_audio_mels_to_hz(hfloat()));
    { /* sparse filterbank */
        const int n = irange(0, 8), il = irange(1, 40); int *st = (int *)fresh(4 * (size_t)n), *sp = (int *)fresh(4 * (size_t)n); int nc = 0;
        for (int i = 0; i < n; i++) { st[i] = irange(0, il - 1); sp[i] = irange(st[i] - 1, il - 1); nc += sp[i] - st[i] + 1; }
        float *in = floats(il), *lut = floats(nc), *o = (float *)fresh(4 * (size_t)n);
        out(eml_sparse_filterbank(in, o, n, st, sp, lut) != EmlOk); use(o, 4 * (size_t)n);
        free(st); free(sp); free(in); free(lut); free(o);
    }
}

static void g_iir(void) {
    const int n = irange(0, 5);
    float *st = (float *)calloc((size_t)(4 * n ? 4 * n : 1), 4), *co = floats(6 * n);
    EmlIIR f = { rnd() % 3 ? n : hostile(), rnd() % 9 ? st : NULL, rnd() % 5 ? 4 * n : hostile(), rnd() % 9 ? co : NULL, rnd() % 5 ? 6 * n : hostile() };
    const EmlError e = eml_iir_check(f); out(e != EmlOk);
    if (e == EmlOk && f.n_stages == n) { for (int i = 0; i < 10; i++) { usef(eml_iir_filter(f, hfloat())); } use(st, 16 * (size_t)n); }
    free(st); free(co);
}

static void g_quantizer(void) {
    const int n = irange(0, 12), m = rnd() % 4 ? n : irange(0, 12);
    EmlQuantizer q = { hfloat() }; float *v = floats(n), *back = (float *)fresh(4 * (size_t)n); int16_t *o = (int16_t *)fresh(2 * (size_t)m); int u, w;
    EmlError e = eml_quantizer_check_forward_int16(&q, v, n, o, m, &u, &w); out(e != EmlOk);
    if (e == EmlOk) { use(o, 2 * (size_t)m); use(&u, sizeof(u)); use(&w, sizeof(w)); e = eml_quantizer_inverse_int16(&q, o, m, back, n); use(back, 4 * (size_t)n); }
    out(eml_quantizer_forward_int16(&q, v, n, o, m) != EmlOk); out(eml_quantizer_inverse_int16(&q, o, irange(0, m) == m ? m : m + 1, back, -1) != EmlOk);
    free(v); free(o); free(back);
}

static void g_fixed(void) {
    const eml_q16_t a = (eml_q16_t)(rnd() % 2 ? (int)rnd() : hostile()), b = (eml_q16_t)(rnd() % 2 ? (int)rnd() : hostile());
    const eml_q16_t p = eml_q16_mul(a, b); use(&p, sizeof(p));
    if (b) { const eml_q16_t d = eml_q16_div(a, b); use(&d, sizeof(d)); }
    const float f = EML_Q16_TOFLOAT(a); usef(f);
    const eml_q16_t r = EML_Q16_FROMFLOAT((float)irange(-32767, 32767) + (float)irange(0, 999) / 1000.0f); use(&r, sizeof(r));
    const eml_q16_t i = EML_Q16_FROMINT(irange(-32768, 32767)); use(&i, sizeof(i));
    for (size_t pr = 0; pr <= 40; pr++) { const int32_t l = eml_bayes_log2fix(rnd() >> (rnd() % 32), pr); use(&l, sizeof(l)); out(l == INT32_MAX); }
    out(eml_bayes_log2fix(rnd() % 2 ? 0 : 0xffffffffu, (size_t)irange(0, 40)) == INT32_MAX);
    out(eml_bayes_log2fix(rnd(), (size_t)-1) == INT32_MAX);
    const int32_t s = eml_isqrt((int64_t)(((uint64_t)rnd() << 30) | rnd()) & 0x3fffffffffffffffLL); use(&s, sizeof(s));
    const int32_t s2 = eml_isqrt((int64_t)hostile()); use(&s2, sizeof(s2));
    use(eml_error_str((EmlError)(rnd() % 9)), 2); use(eml_error_str((EmlError)0x7fffffff), 2);
}

static void g_bayes(void) {
    const int k = irange(0, 5), m = irange(0, 6);
    EmlBayesSummary *s = (EmlBayesSummary *)fresh(sizeof(EmlBayesSummary) * (size_t)(k * m));
    for (int i = 0; i < k * m; i++) { s[i].mean = (int)rnd() / 2; s[i].std = 1 + (int)(rnd() >> irange(1, 30)); s[i].stdlog2 = (int)rnd() / 2; }
    EmlBayesModel model = { k, m, s }; const int given = rnd() % 5 ? m : hostile();
    float *v = floats(m); const int32_t c = eml_bayes_predict(&model, rnd() % 9 ? v : NULL, given); use(&c, sizeof(c)); out(c < 0);
    if (c >= k) { printf("CLASS\n"); exit(5); }
    free(s); free(v);
}

static void g_mixture(void) {
    const int k = irange(0, 4), m = irange(0, 5);
    float *means = floats(k * m), *pr = floats(k * m * m), *ld = floats(k), *lw = floats(k), *v = floats(m), *p = (float *)fresh(4 * (size_t)k), *r = (float *)fresh(4 * (size_t)k), sc;
    EmlMixtureModel model = { k, m, (EmlCovarianceType)(rnd() % 5 ? 0 : rnd() % 4), means, pr, ld, lw };
    const int given = rnd() % 5 ? m : hostile(); const float *vv = rnd() % 9 ? v : NULL;
    int32_t e = eml_mixture_predict_proba(&model, vv, given, p, &sc, r); out(e != 0);
    if (e == 0) { use(p, 4 * (size_t)k); use(r, 4 * (size_t)k); usef(sc); }
    e = eml_mixture_score(&model, vv, given, p, &sc); out(e != 0); e = eml_mixture_predict_log_proba(&model, vv, given, p); out(e != 0);
    float mn, mx, ls; eml_minmax(v, m, rnd() % 3 ? &mn : NULL, &mx); usef(mx); eml_logsumexp(v, m, &ls); usef(ls); usef(eml_dot_product(v, v, m));
    const int len = eml_mixture_precisions_length(&model); use(&len, sizeof(len));
    EmlEllipticEnvelope ee = { m, hfloat(), v, pr }; if (m && k >= 1) { float d; const int o = eml_elliptic_envelope_predict(&ee, means, given, rnd() % 3 ? &d : NULL); out(o < 0); }
    free(means); free(pr); free(ld); free(lw); free(v); free(p); free(r);
}

static void g_neighbors(void) {
    const int m = irange(0, 6), cap = irange(0, 40), dl = rnd() % 4 ? cap : irange(0, 50);
    EmlNeighborsModel model = { (uint16_t)m, 0, (int16_t)cap, (int16_t *)fresh(2 * (size_t)(m * cap)), (int16_t *)fresh(2 * (size_t)cap), (int16_t)irange(0, 6) };
    EmlNeighborsDistanceItem *d = (EmlNeighborsDistanceItem *)fresh(sizeof(*d) * (size_t)dl);
    out(eml_neighbors_check(&model, (int16_t)hostile(), (int16_t)hostile(), (int16_t)hostile()) != EmlOk);
    const int steps = irange(0, 60);
    for (int i = 0; i < steps; i++) {
        int16_t *v = shorts(m), got = -7;
        if (rnd() % 4 == 0) { for (int j = 0; j < m; j++) { v[j] = rnd() % 2 ? 32767 : -32768; } }
        if (rnd() % 3) { out(eml_neighbors_add_item(&model, v, (int16_t)(rnd() % 6 ? m : hostile()), (int16_t)(rnd() % 9 ? irange(0, 9) : (int)rnd())) != EmlOk); }
        else { const EmlError e = eml_neighbors_predict(&model, v, rnd() % 6 ? m : hostile(), d, dl, &got); out(e != EmlOk); if (e == EmlOk) { use(&got, 2); } }
        free(v);
    }
    free(model.data); free(model.labels); free(d);
}

static void g_net(void) {
    const int nl = rnd() % 9 ? irange(2, 4) : 1; int w[6]; for (int i = 0; i <= nl; i++) { w[i] = irange(1, 7); }
    EmlNetLayer *L = (EmlNetLayer *)fresh(sizeof(EmlNetLayer) * (size_t)nl); int big = 1;
    for (int i = 0; i < nl; i++) {
        L[i].n_inputs = w[i]; L[i].n_outputs = w[i + 1]; L[i].weights = rnd() % 40 ? floats(w[i] * w[i + 1]) : NULL; L[i].biases = rnd() % 40 ? floats(w[i + 1]) : NULL;
        L[i].activation = (EmlNetActivationFunction)(rnd() % 60 ? rnd() % 5 : (uint32_t)hostile());
    }
    for (int i = 0; i <= nl; i++) { if (w[i] > big) { big = w[i]; } }
    const int al = rnd() % 12 ? big : irange(0, big);
    EmlNet net = { nl, L, rnd() % 40 ? floats(al) : NULL, rnd() % 40 ? floats(al) : NULL, al };
    for (int i = 0; i < 3; i++) {
        float *x = floats(w[0]); const int given = rnd() % 6 ? w[0] : hostile();
        const int32_t c = eml_net_predict(&net, x, given); use(&c, sizeof(c)); out(c < 0);
        const int ol = rnd() % 5 ? w[nl] : irange(0, 9); float *o = (float *)fresh(4 * (size_t)ol);
        EmlError e = eml_net_regress(&net, x, given, o, ol); out(e != EmlOk); if (e == EmlOk) { use(o, 4 * (size_t)ol); }
        usef(eml_net_regress1(&net, x, given)); free(o);
        const int pl = w[nl] == 1 ? 2 : w[nl]; o = (float *)fresh(4 * (size_t)pl);
        e = eml_net_predict_proba(&net, rnd() % 9 ? x : NULL, given, rnd() % 9 ? o : NULL, pl); out(e != EmlOk); if (e == EmlOk) { use(o, 4 * (size_t)pl); }
        free(o); free(x);
    }
    float *sm = floats(w[0]); eml_net_softmax(sm, (size_t)w[0]); use(sm, 4 * (size_t)w[0]); sink += (uint32_t)eml_net_argmax(sm, irange(0, w[0])); free(sm);
    for (int i = 0; i < nl; i++) { free((void *)L[i].weights); free((void *)L[i].biases); }
    free(L); free(net.activations1); free(net.activations2);
}

static void g_trees(void) {
    /* complete binary trees with valid references; 127 features at most */
    const int m = irange(1, 127), depth = irange(1, 5), nt = irange(1, 4), k = irange(1, 30), soft = (int)(rnd() % 3);
    const int inner = (1 << depth) - 1; const int leaves_n = 1 << depth;
    EmlTreesNode *nodes = (EmlTreesNode *)fresh(sizeof(EmlTreesNode) * (size_t)(inner * nt)); int32_t *roots = (int32_t *)fresh(4 * (size_t)nt);
    for (int t = 0; t < nt; t++) {
        roots[t] = t * inner;
        for (int i = 0; i < inner; i++) {
            EmlTreesNode *n = nodes + t * inner + i; n->feature = (int8_t)irange(0, m - 1); n->value = (int16_t)(rnd() % 2 ? (int)rnd() : hostile());
            const int l = 2 * i + 1, r = 2 * i + 2;
            n->left = (int16_t)(l < inner ? l - i : -1 - (l - inner)); n->right = (int16_t)(r < inner ? r - i : -1 - (r - inner));
        }
    }
    const int leaf_size = soft == 0 ? 1 : (soft == 1 ? k : 4);
    uint8_t *leaves = (uint8_t *)fresh((size_t)(leaves_n * leaf_size)); for (int i = 0; i < leaves_n * leaf_size; i++) { leaves[i] = (uint8_t)(soft == 0 ? rnd() % (uint32_t)k : rnd()); }
    EmlTrees f; memset(&f, 0, sizeof(f));
    f.n_nodes = inner * nt; f.nodes = nodes; f.n_trees = nt; f.tree_roots = roots; f.n_leaves = leaves_n * leaf_size; f.leaves = leaves; f.leaf_bits = (int8_t)(soft == 0 ? 0 : (soft == 1 ? 8 : 32)); f.n_features = (int8_t)m; f.n_classes = (int8_t)k;
    for (int i = 0; i < 4; i++) {
        int16_t *x = shorts(m); const int8_t given = (int8_t)(rnd() % 6 ? m : (int)rnd());
        const int32_t c = eml_trees_predict(&f, x, given); use(&c, sizeof(c)); out(c < 0);
        if (c >= k) { printf("CLASS\n"); exit(5); }
        const int ol = rnd() % 5 ? k : irange(0, 32); float *o = (float *)fresh(4 * (size_t)ol);
        EmlError e = eml_trees_predict_proba(&f, rnd() % 9 ? x : NULL, given, rnd() % 9 ? o : NULL, ol); out(e != EmlOk); if (e == EmlOk) { use(o, 4 * (size_t)ol); }
        free(o);
        usef(eml_trees_regress1(&f, x, given)); float one; e = eml_trees_regress(&f, x, given, &one, (int8_t)(rnd() % 4 ? 1 : (int)rnd() % 2)); out(e != EmlOk); if (e == EmlOk) { usef(one); }
        free(x);
    }
    free(nodes); free(roots); free(leaves);
}

/* streams with short reads, errors, and too large answers */
typedef struct { uint8_t *data; size_t size, cap, pos; int mode; } Mem;
static int m_read(void *c, uint8_t *b, size_t n) {
    Mem *m = (Mem *)c; const uint32_t r = rnd() % 16;
    if (m->mode && r == 0) { return -1; }
    if (m->mode && r == 1) { return (int)n + 1; }
    if (m->mode && r == 2) { return 0; }
    size_t k = m->pos < m->size ? m->size - m->pos : 0; if (k > n) { k = n; }
    if (k > 1 && rnd() % 2) { k = 1 + rnd() % k; }
    memcpy(b, m->data + m->pos, k); m->pos += k; return (int)k;
}
static int m_write(void *c, const uint8_t *b, size_t n) {
    Mem *m = (Mem *)c; const uint32_t r = rnd() % 40;
    if (m->mode && r == 0) { return -1; }
    if (m->mode && r == 1) { return 0; }
    if (m->mode && r == 2) { return (int)n + 3; }
    size_t k = n; if (k > 1 && rnd() % 2) { k = 1 + rnd() % k; }
    if (m->size + k > m->cap) { return -1; }
    use(b, k); memcpy(m->data + m->size, b, k); m->size += k; return (int)k;
}
static int m_seek(void *c, size_t p) { Mem *m = (Mem *)c; if (m->mode && rnd() % 30 == 0) { return -1; } m->pos = p; return 0; }

static void g_csv(void) {
    Mem s = { (uint8_t *)fresh(4000), 0, 4000, 0, rnd() % 3 == 0 };
    const int nc = irange(0, 6); const char *names[6] = { "a", "bb", "", "column", "x_1", "zz" };
    if (rnd() % 2) {
        EmlCsvWriter w = { 0, m_write, m_seek, &s };
        out(eml_csv_writer_write_header(&w, names, (size_t)nc) != EmlOk);
        const int rows = irange(0, 9); for (int i = 0; i < rows; i++) { const int n = rnd() % 6 ? nc : irange(0, 6); float *v = floats(n); out(eml_csv_writer_write_data(&w, v, (size_t)n) != EmlOk); free(v); }
    } else {
        static const char al[] = ",,,\n\n0123456789.-+eE \"ab\r\0;"; const int n = irange(0, 200); for (int i = 0; i < n; i++) { s.data[s.size++] = (uint8_t)(rnd() % 30 ? al[rnd() % (sizeof(al) - 1)] : (int)rnd()); }
    }
    EmlCsvReader r = { 0, 0, m_read, m_seek, &s };
    const int bl = rnd() % 3 ? irange(30, 120) : irange(0, 20), cl = rnd() % 3 ? nc : irange(0, 8);
    char *buf = (char *)fresh((size_t)bl), **cols = (char **)fresh(sizeof(char *) * (size_t)cl);
    const EmlError e = eml_csv_reader_read_header(&r, buf, (size_t)bl, cols, (size_t)cl); out(e != EmlOk);
    if (e == EmlOk) { for (size_t i = 0; i < r.n_columns; i++) { use(cols[i], strlen(cols[i]) + 1); } }
    for (int i = 0; i < 12; i++) {
        const int k = eml_csv_reader_read_data(&r, buf, (size_t)bl, cols, (size_t)cl); out(k < 0);
        for (int j = 0; j < k; j++) { use(cols[j], strlen(cols[j]) + 1); }
        if (k == 0) { break; }
    }
    free(buf); free(cols); free(s.data);
    if (rnd() % 8 == 0) { /* the same through a file */
        FILE *f = tmpfile(); if (!f) { exit(90); }
        EmlCsvWriter w = { 0, eml_fileio_write, eml_fileio_seek, f }; EmlCsvReader rd = { 0, 0, eml_fileio_read, eml_fileio_seek, f };
        out(eml_csv_writer_write_header(&w, names, 3) != EmlOk); float v[3] = { 1.5f, -2.0f, 1e6f }; out(eml_csv_writer_write_data(&w, v, 3) != EmlOk); eml_fileio_seek(f, 0);
        char fb[64], *fc[3]; if (eml_csv_reader_read_header(&rd, fb, 64, fc, 3) != EmlOk || eml_csv_reader_read_data(&rd, fb, 64, fc, 3) != 3) { printf("FILE\n"); exit(5); } use(fc[2], strlen(fc[2]));
        fclose(f);
    }
}

static void row_seen(const float *v, int n, int row) { use(v, 4 * (size_t)n); use(&row, sizeof(row)); calls++; }
static int malformed;
static void g_testcsv(void) {
    const int n = irange(0, 12); char text[1024]; int at = 0;
    for (int i = 0; i < n; i++) { at += sprintf(text + at, "%s%.4f", i ? (rnd() % 2 ? "," : ";") : "", (double)irange(-1000, 1000) / 7.0); }
    if (malformed) { at += sprintf(text + at, "%sbad", n ? "," : ""); }
    text[at++] = '\n'; text[at] = 0;
    char *line = (char *)fresh((size_t)at + 1); memcpy(line, text, (size_t)at + 1);
    const int vl = rnd() % 4 ? n + 1 : irange(0, n); float *v = (float *)fresh(4 * (size_t)vl); int32_t got = 0;
    if (n == 0 && !malformed) { line[0] = 0; }
    const EmlError e = eml_test_parse_csv_line(line, v, vl, &got); out(e != EmlOk); if (e == EmlOk) { use(v, 4 * (size_t)got); }
    free(line); free(v);
    if (!malformed && n) {
        FILE *f = tmpfile(); if (!f) { exit(90); } for (int i = 0; i < 3; i++) { fputs(text, f); } rewind(f); out(eml_test_read_csv(f, row_seen) != EmlOk); fclose(f);
    }
}

static void g_bench(void) {
    const int n = irange(0, 50); float *v = (float *)fresh(4 * (size_t)n); out(eml_benchmark_fill(v, n) != EmlOk); use(v, 4 * (size_t)n); free(v);
    const int64_t t = eml_benchmark_micros(); use(&t, sizeof(t));
}

#define G(name) { #name, g_##name }
static const struct { const char *name; void (*fn)(void); } groups[] = { G(vector), G(array), G(fft), G(mel), G(iir), G(quantizer), G(fixed), G(bayes), G(mixture), G(neighbors), G(net), G(trees), G(csv), G(testcsv), G(bench) };

int main(int argc, char **argv) {
    const uint64_t seed = strtoull(argv[1], NULL, 10); const long rounds = atol(argv[2]); const char *only = argc > 3 ? argv[3] : NULL;
    if (only && strcmp(only, "malformed") == 0) { malformed = 1; only = "testcsv"; }
    for (size_t g = 0; g < sizeof(groups) / sizeof(groups[0]); g++) {
        if (only && strcmp(only, groups[g].name)) { continue; }
        calls = refused = 0;
        for (long r = 0; r < rounds; r++) { S = seed * 1000003ULL + (uint64_t)r * 7919ULL + g; rnd(); rnd(); groups[g].fn(); }
        printf("%s %ld %ld\n", groups[g].name, calls, refused);
    }
    return 0;
}
