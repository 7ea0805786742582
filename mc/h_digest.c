/* C14: a digest of everything observable, per root; the variants of the
 * build must agree on all of them. */
#include "model.h"
#include "records.h"
#include "pbtools.h"
#include <limits.h>
#include <sys/mman.h>

const char *h_name = "digest";
static struct region ws, ws2, out, in;
#define WS 8192
#define BIG (24 * 1024)

typedef struct root { int kind, msg, x; } root;
enum { R_TREE, R_SEQ, R_RAW, R_ALLOC, R_ERR };
static root *roots;
static int nr, trace_root = -1;
static FILE *trace;
static uint64_t *D;              /* shared: digest per root */
static alpha A[64];
static int maxlen[64];
static gencfg cfg;

static void add(int kind, int msg, int x)
{
    roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
    roots[nr++] = (root){kind, msg, x};
}

int h_nroots(void)
{
    int i, j;
    ar_setup();
    cfg.depth = 2;
    cfg.alpha = eng_thorough ? 2 : 1;
    cfg.maxrep = 2;
    cfg.longs = true;
    eng_bound = 1;
    if (!strncmp(eng_mode, "trace", 5)) trace_root = atoi(eng_mode + 5);
    for (i = 0; i < n_all_msgs; i++) {
        const mdesc *d = all_msgs[i];
        alpha b;
        double c;
        add(R_TREE, i, -1);
        for (j = 0; j < d->nf; j++) if (gen_can_start(d, j, &cfg)) add(R_TREE, i, j);
        A[i] = valid(d, d->nf > 8 ? 1 : 2, 2);
        b = bad(d, d->nf > 8 ? 1 : 2, 2);
        for (j = 0; j < b.n; j++) { obuf o = {b.t[j].p, b.t[j].n, b.t[j].n}; al_add(&A[i], &o); }
        for (maxlen[i] = 1, c = A[i].n; c * A[i].n <= (eng_thorough ? 3e6 : 6e4) && maxlen[i] < 6; maxlen[i]++) c *= A[i].n;
        for (j = 0; j < A[i].n; j++) add(R_SEQ, i, j);
        for (j = 0; j < 256; j += 16) add(R_RAW, i, j);
        for (j = 0; j < d->nf; j++) if (d->f[j].alloc || d->f[j].alloc_n || d->f[j].init) add(R_ALLOC, i, j);
    }
    add(R_ERR, 0, 0);
    D = mmap(NULL, sizeof(uint64_t) * (size_t)nr + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (trace_root >= 0) trace = fopen("digest.trace", "w");
    return nr;
}

void h_describe(int r, char *b, size_t n)
{
    static const char *k[] = {"contents", "records", "raw bytes", "allocation", "error strings"};
    snprintf(b, n, "%s, message %s, %d", k[roots[r].kind], all_msgs[roots[r].msg]->name, roots[r].x);
}

void h_extra(FILE *f)
{
    int i;
    fprintf(f, ",\"digests\":[");
    for (i = 0; i < nr; i++) fprintf(f, "%s\"%016llx\"", i ? "," : "", (unsigned long long)D[i]);
    fprintf(f, "]");
    if (trace) fclose(trace);
}

void h_init(void)
{
    region_init(&ws, BIG + 64);
    region_init(&ws2, BIG + 64);
    region_init(&out, 1 << 16);
    region_init(&in, 1 << 16);
}

static char note[800];
static uint64_t dig;

static void put(int v) { dig = hash_u64(dig, (uint64_t)(int64_t)v); }

static void decode_dig(const mdesc *d, const uint8_t *p, size_t n, size_t wsz, int off)
{
    uint8_t *q = region_set(&in, n, 0), *o;
    void *m;
    int res, k;
    if (n) memcpy(q, p, n);
    m = fresh(d, &ws2, wsz, off, 0xa5);
    put(m != NULL);
    if (!m) return;
    st_call(1);
    res = d->decode(m, q, n);
    put(res);
    snprintf(note + strlen(note), sizeof(note) - strlen(note), " decode(%s) in %zu bytes = %d;", hexs(p, n), wsz, res);
    st_outcome(res < 0 ? (res >= -8 ? -res : 31) : 0);
    if (res < 0) return;
    dig = msg_hash(dig, d, m);
    o = region_set(&out, 3 * n + 64, 0);
    st_call(1);
    k = d->encode(m, o, 3 * n + 64);
    put(k);
    if (k >= 0) dig = hash_bytes(dig, o, (size_t)k);
    snprintf(note + strlen(note), sizeof(note) - strlen(note), " re-encoded %s;", k >= 0 ? hexs(o, (size_t)k) : "error");
}

void h_run(int ri)
{
    const root *r = &roots[ri];
    const mdesc *d = all_msgs[r->msg];
    uint8_t buf[8192];
    size_t n = 0;
    int i, c;
    if (trace_root >= 0 && ri != trace_root) return;
    note[0] = 0;
    dig = hash_u64(14, (uint64_t)ri);
    switch (r->kind) {
    case R_TREE: {
        tree *t = tree_new(d);
        void *m;
        uint8_t *o;
        size_t s;
        int off;
        if (r->x >= 0) gen_tree_from(t, &cfg, r->x); else (void)ch(1);
        off = ch(2) ? 1 + (r->x & 6) : 0;
        m = fresh(d, &ws, BIG, off, 0xa5);
        put(m != NULL);
        if (!m) break;
        put(build(t, m));
        s = ref_size(t);
        for (i = -1; i <= 1; i++) {
            size_t cap = i < 0 ? (s ? s - 1 : 0) : s + (size_t)i * 20;
            o = region_set(&out, cap, 0);
            st_call(1);
            c = d->encode(m, o, cap);
            put(c);
            if (c >= 0) dig = hash_bytes(dig, o, (size_t)c);
            snprintf(note + strlen(note), sizeof(note) - strlen(note), " encode in %zu = %d %s;", cap, c, c >= 0 ? hexs(o, (size_t)c) : "");
        }
        if (c >= 0 && c < (int)sizeof(buf)) {
            memcpy(buf, out.p, (size_t)c);
            decode_dig(d, buf, (size_t)c, BIG, off);
        }
        break;
    }
    case R_SEQ:
        memcpy(buf, A[r->msg].t[r->x].p, A[r->msg].t[r->x].n);
        n = A[r->msg].t[r->x].n;
        for (i = 1; i < maxlen[r->msg]; i++) {
            const tok *t;
            c = ch(A[r->msg].n + 1);
            if (c == 0) break;
            t = &A[r->msg].t[c - 1];
            memcpy(buf + n, t->p, t->n);
            n += t->n;
        }
        c = ch(2);
        decode_dig(d, buf, n, c ? 24 + d->size + 16 + 8 * (n % 5) : WS, c ? (int)(n & 7) : 0);
        break;
    case R_RAW:
        buf[n++] = (uint8_t)(r->x + ch(16));
        c = ch(257);
        if (c) buf[n++] = (uint8_t)(c - 1);
        decode_dig(d, buf, n, WS, 0);
        break;
    case R_ALLOC: {
        static const int lens[] = {0, 1, 2, 7, 100, 5000, -1, INT_MAX, INT_MIN, INT_MAX / 2, 1 << 30, 65536};
        const fdesc *f = &d->f[r->x];
        int off = ch(8), wsz = 24 + (int)d->size + 8 * ch(24);
        void *m = fresh(d, &ws, (size_t)wsz, off, 0xa5);
        put(m != NULL);
        if (!m) break;
        for (i = 0; i < 2; i++) {
            if (f->alloc_n) put(f->alloc_n(m, lens[ch(12)]));
            else if (f->alloc) put(f->alloc(m));
            else f->init(m);
            if (f->card != C_ONEOF) dig = msg_hash(dig, d, m);   /* a refused oneof allocation: known finding of C08 */
            st_call(1);
        }
        break;
    }
    case R_ERR:
        for (i = -300; i <= 300; i++) { const char *s = pbtools_error_code_to_string(i); dig = hash_bytes(dig, s, strlen(s)); }
        break;
    }
    D[ri] = hash_u64(D[ri], dig);
    st_state(dig);
    st_trace();
    if (trace) {
        const int *v;
        int k = eng_choices(&v);
        fprintf(trace, "%016llx [", (unsigned long long)dig);
        for (i = 0; i < k; i++) fprintf(trace, " %d", v[i]);
        fprintf(trace, " ]%s\n", note);
        fflush(trace);
    }
    if (want_sample()) sample("%s:%s digest %016llx", d->name, note, (unsigned long long)dig);
}

const char *h_outcome_name(int k)
{
    static const char *nm[] = {"ok", "bad wire type", "out of data", "out of memory", "encode buffer full", "bad field number",
                               "varint overflow", "seek overflow", "length overflow"};
    return k < 9 ? nm[k] : NULL;
}
