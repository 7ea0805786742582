/* C08, C09: histories of API operations against a plain record. */
#include "model.h"
#include "records.h"
#include <limits.h>

const char *h_name = "history";
static struct region wsr[2], in, out;
#define WS 8192
static int mode;

typedef struct root { int kind, msg, cfg; } root;
static root *roots;
static int nr;
static alpha D[64];              /* decodable inputs per message */
static int depth_of[64];

static void add(int kind, int msg, int c)
{
    roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
    roots[nr++] = (root){kind, msg, c};
}

struct rep { int length; void *items; };

static struct obj { tree *t; void *m; size_t wsz, used; struct region *ws; const mdesc *d; } M[2];
static bool dead;                /* a known finding left the message unusable */

static const gencfg G0;

/* ---- oracle helpers -------------------------------------------------------- */

static void same(struct obj *o, const char *after)
{
    const char *e = cmp(o->t, o->m);
    if (e) fail("after %s the message differs from the plain record: %s", after, e);
}

typedef struct iv { const uint8_t *p; size_t n; const char *what; } iv;
static iv ivs[4096];
static int niv;

static void iv_add(const void *p, size_t n, const char *what)
{
    if (n == 0) return;
    if (niv < 4096) ivs[niv++] = (iv){p, n, what};
}

static void collect(const mdesc *d, const void *msg, bool whole, const uint8_t *lo, const uint8_t *hi)
{
    const char *m = msg;
    int i, j;
    if (whole) iv_add(msg, d->size, d->name);
    for (i = 0; i < d->nf; i++) {
        const fdesc *f = &d->f[i];
        if (f->card == C_ONEOF) {
            int got;
            memcpy(&got, m + f->off2, sizeof(got));
            if (got != f->choice) continue;
        }
        if (f->card == C_OPTIONAL && !*(const bool *)(m + f->off2)) continue;
        if (f->card == C_REPEATED) {
            const struct rep *r = (const void *)(m + f->off);
            size_t sz = f->kind == K_MSG ? f->sub->size : (size_t)kind_size(f->kind);
            if (r->length <= 0) continue;
            iv_add(r->items, sz * (size_t)r->length, f->name);
            for (j = 0; j < r->length && j < 8; j++) {
                const char *q = (char *)r->items + sz * (size_t)j;
                if (f->kind == K_MSG) collect(f->sub, q, false, lo, hi);
                else if (f->kind == K_STRING || f->kind == K_BYTES) {
                    const uint8_t *s = *(uint8_t *const *)q;
                    if (s >= lo && s < hi) iv_add(s, f->kind == K_STRING ? strlen((const char *)s) + 1 : ((const size_t *)q)[1], f->name);
                }
            }
        } else if (f->kind == K_MSG) {
            const void *p = *(void *const *)(m + f->off);
            if (p) collect(f->sub, p, true, lo, hi);
        } else if (f->kind == K_STRING || f->kind == K_BYTES) {
            const char *q = m + f->off;
            const uint8_t *s = *(uint8_t *const *)q;
            if (s >= lo && s < hi) iv_add(s, f->kind == K_STRING ? strlen((const char *)s) + 1 : ((const size_t *)q)[1], f->name);
        }
    }
}

static int iv_cmp(const void *a, const void *b)
{
    const iv *x = a, *y = b;
    return x->p < y->p ? -1 : x->p > y->p;
}

static void check_objects(struct obj *o)
{
    const uint8_t *lo = o->ws->p, *hi = lo + o->wsz;
    const char *e;
    int i;
    region_check(o->ws, "workspace");
    if ((e = ptr_check(o->d, o->m, lo, hi))) fail("%s", e);
    niv = 0;
    collect(o->d, o->m, true, lo, hi);
    qsort(ivs, (size_t)niv, sizeof(iv), iv_cmp);
    for (i = 0; i + 1 < niv; i++)
        if (ivs[i].p + ivs[i].n > ivs[i + 1].p)
            fail("objects overlap: %s at +%ld size %zu and %s at +%ld", ivs[i].what, (long)(ivs[i].p - lo), ivs[i].n, ivs[i + 1].what,
                 (long)(ivs[i + 1].p - lo));
}

static void do_decode(struct obj *o, const uint8_t *p, size_t n);
static void renew(struct obj *o);

static void encode_check(struct obj *o)
{
    size_t cap = ref_size(o->t) + 16;
    uint8_t *b = region_set(&out, cap, 0), *b2;
    rdres r = {0};
    tree *g;
    const char *e;
    int res, res2;
    st_call(2);
    res = o->d->encode(o->m, b, cap);
    if (res < 0) fail("encode returns %d with %zu bytes", res, cap);
    r.ws = WS;
    g = ref_decode(o->d, b, (size_t)res, &r, NULL);
    if (r.errs || r.noncanon || (e = tree_diff(o->t, g))) fail("encode gives %s, not the contents of the record (%s)", hexs(b, (size_t)res), r.errs ? "malformed" : r.noncanon ? r.why ? r.why : "not minimal" : tree_diff(o->t, g));
    b2 = ar_alloc((size_t)res + 1);
    memcpy(b2, b, (size_t)res);
    memset(b, 0x99, cap < 512 ? cap : 512);
    res2 = o->d->encode(o->m, b, cap);
    if (res2 != res || memcmp(b, b2, (size_t)res)) fail("encoding twice differs: %d %s and %d", res, hexs(b2, (size_t)res), res2);
}

/* Encoding into buffers that are too short fails and changes nothing. */
static void encode_short(struct obj *o)
{
    size_t need = ref_size(o->t), n;
    for (n = 0; n < need; n += n < 24 || n + 3 > need ? 1 : (need - n) / 3) {
        uint8_t *b = region_set(&out, n, 0);
        int res;
        st_call(1);
        res = o->d->encode(o->m, b, n);
        if (res >= 0) fail("encode gives %d in %zu bytes, the record needs %zu", res, n, need);
        region_check(&out, "encode buffer");
        same(o, "encode into a short buffer");
    }
    encode_check(o);
}

/* A failing decode (or one of a part of the data) leaves the workspace usable. */
static void decode_part(struct obj *o, const uint8_t *p, size_t n)
{
    uint8_t *q = region_set(&in, n, 0);
    if (n) memcpy(q, p, n);
    st_call(1);
    (void)o->d->decode(o->m, q, n);
    region_check(o->ws, "workspace");
    renew(o);
}

/* The encoding of one message is decoded into the other one. */
static void copy(struct obj *from, struct obj *to)
{
    size_t cap = ref_size(from->t) + 16;
    uint8_t *b = region_set(&out, cap, 0), *c;
    int res;
    st_call(1);
    res = from->d->encode(from->m, b, cap);
    if (res < 0) fail("encode returns %d with %zu bytes", res, cap);
    c = ar_alloc((size_t)res + 1);
    memcpy(c, b, (size_t)res);
    do_decode(to, c, (size_t)res);
}

static void do_decode(struct obj *o, const uint8_t *p, size_t n)
{
    rdres r = {0}, r2 = {0};
    tree *fresh_t, *rep_t, *mrg_t;
    uint8_t *q = region_set(&in, n, 0);
    int i, res;
    r.ws = r2.ws = o->wsz;
    if (n) memcpy(q, p, n);
    r.replace = true;
    fresh_t = ref_decode(o->d, q, n, &r, NULL);
    if (r.errs) fail("HARNESS: malformed");
    rep_t = tree_clone(o->t);
    for (i = 0; i < o->d->nf; i++)
        if (o->d->f[i].card == C_REPEATED && fresh_t->f[i].n) rep_t->f[i].n = 0;
    r.replace = true;
    rep_t = ref_decode(o->d, q, n, &r, rep_t);
    mrg_t = ref_decode(o->d, q, n, &r2, tree_clone(o->t));
    st_call(1);
    res = o->d->decode(o->m, q, n);
    o->used = SIZE_MAX / 2;
    if (mode == 8) {
        if (res < 0) {
            if (res != -E_MEM) fail("decode of %s returns %d", hexs(q, n), res);
            dead = true;         /* contents after a failed decode are not defined */
            region_check(o->ws, "workspace");
            return;
        }
    } else if (res < 0 || (size_t)res != n) fail("decode of %s returns %d", hexs(q, n), res);
    if (cmp(rep_t, o->m) == NULL) o->t = rep_t;
    else if (cmp(mrg_t, o->m) == NULL) o->t = mrg_t;
    else fail("decoding %s into the message: %s", hexs(q, n), cmp(rep_t, o->m));
    /* the strings of the record must not live in the input */
    o->t = tree_clone(o->t);
    {
        uint8_t *c = ar_alloc(n + 1);
        int j;
        tree *st[64];
        int sp = 0;
        if (n) memcpy(c, q, n);
        st[sp++] = o->t;
        while (sp) {
            tree *t = st[--sp];
            for (i = 0; i < t->d->nf; i++)
                for (j = 0; j < t->f[i].n; j++) {
                    val *v = &t->f[i].v[j];
                    if (v->p >= q && v->p < q + n + 1 && v->n) v->p = c + (v->p - q);
                    if (v->m && sp < 64) st[sp++] = v->m;
                }
        }
        /* the input may be reused by the caller */
        if (n) memset(q, 0xdd, n);
    }
}

static void renew(struct obj *o)
{
    memset(o->ws->p, 0x33, o->wsz);
    st_call(1);
    o->m = o->d->new_(o->ws->p, o->wsz);
    if (!o->m) fail("new() returns NULL the second time");
    o->t = tree_new(o->d);
    o->used = 24 + o->d->size;
}

/* Allocation with the outcome checked; true when it succeeded. */
static bool alloced(struct obj *o, int res, size_t need, bool possible, const fdesc *f)
{
    if (res == 0) {
        if (!possible) fail("field %s: a request that cannot fit is granted", f->name);
        o->used += need + 8;
        return true;
    }
    if (res != -1) fail("field %s: alloc returns %d", f->name, res);
    if (mode == 9) fail("field %s: alloc fails in an ample workspace", f->name);
    if (possible && o->used + need + 16 <= o->wsz)
        fail("field %s: alloc of %zu bytes refused, at least %zu of %zu are free", f->name, need, o->wsz - o->used, o->wsz);
    st_outcome(1);
    return false;
}

static const int lens8[] = {0, 1, 2, 5, 64, 1 << 20, (1 << 28) - 1, 1 << 28, (1 << 28) + 1, 1 << 29, (1 << 29) + 1, 1 << 30, INT_MAX - 1, INT_MAX,
                            -1, -2, -(1 << 28), -(1 << 29), INT_MIN + 1, INT_MIN};
static const int lens9[] = {0, 1, 2};

static val scalar_val(const fdesc *f, int k)
{
    val v;
    static const val zero;
    if (k == 0) return typical_val(f, 2, &G0);
    if (k == 1) return zero;
    return alpha_val(f, 1, alpha_size(f->kind, 1) - 1, &G0);
    (void)v;
}

/* Operation number `pick` on message m (record t), or their number. */
static int ops(struct obj *o, const mdesc *d, tree *t, char *m, int level, int pick)
{
    int k = 0, i, j;
    val v;
#define OP(...) do { if (k++ == pick) { __VA_ARGS__; return -1; } } while (0)
    for (i = 0; i < d->nf; i++) {
        const fdesc *f = &d->f[i];
        tfield *x = &t->f[i];
        size_t isz = f->kind == K_MSG ? f->sub->size : (size_t)kind_size(f->kind);
        switch (f->card) {
        case C_SINGLE:
            if (f->kind == K_MSG) {
                if (level > 3) break;
                OP(st_call(1); if (alloced(o, f->alloc(m), f->sub->size, true, f)) { x->n = 0; tf_add(x)->m = tree_new(f->sub); });
                if (x->n) {
                    int c = ops(o, f->sub, x->v[0].m, *(void **)(m + f->off), level + 1, pick < k ? -1 : pick - k);
                    if (c < 0) return -1;
                    k += c;
                }
            } else if (mode == 9) {
                if (level > 0 && i > 0) break;
                for (j = 0; j < (level ? 1 : 3); j++)
                    OP(v = scalar_val(f, j); put_val(m + f->off, f, &v); x->n = 0; if (!val_is_default(f, &v)) *tf_add(x) = v);
            }
            break;
        case C_OPTIONAL:
            if (level || mode == 8) break;
            OP(*(bool *)(m + f->off2) = false; x->n = 0);
            for (j = 0; j < 2; j++)
                OP(v = scalar_val(f, j); *(bool *)(m + f->off2) = true; put_val(m + f->off, f, &v); x->n = 0; *tf_add(x) = v);
            break;
        case C_REPEATED: {
            const int *ls = mode == 8 && level == 0 ? lens8 : lens9;
            int nl = mode == 8 && level == 0 ? (int)(sizeof(lens8) / sizeof(lens8[0])) : 3;
            if (level > 2) break;
            for (j = level ? 1 : 0; j < nl; j++)
                OP(
                    int n = ls[j], q;
                    struct rep *r = (void *)(m + f->off);
                    st_call(1);
                    if (alloced(o, f->alloc_n(m, n), n < 0 ? 0 : isz * (size_t)n, n >= 0 && isz * (size_t)n <= o->wsz, f)) {
                        x->n = 0;
                        for (q = 0; q < n; q++) { val *w = tf_add(x); if (f->kind == K_MSG) w->m = tree_new(f->sub); }
                        if (n && f->kind != K_MSG) {
                            same(o, "an allocation");
                            /* the items are writable */
                            for (q = 0; q < n; q++) {
                                x->v[q] = typical_val(f, q, &G0);
                                put_val((char *)r->items + isz * (size_t)q, f, &x->v[q]);
                            }
                        }
                    });
            if (x->n && f->kind != K_MSG && mode == 9) {
                struct rep *r = (void *)(m + f->off);
                OP(x->v[x->n - 1] = scalar_val(f, 2); put_val((char *)r->items + isz * (size_t)(x->n - 1), f, &x->v[x->n - 1]));
            }
            if (x->n && f->kind == K_MSG) {
                struct rep *r = (void *)(m + f->off);
                int c = ops(o, f->sub, x->v[x->n - 1].m, (char *)r->items + isz * (size_t)(x->n - 1), level + 1, pick < k ? -1 : pick - k);
                if (c < 0) return -1;
                k += c;
            }
            break;
        }
        case C_ONEOF:
            if (level > 2) break;
            if (f->kind == K_MSG) {
                OP(
                    int was;
                    int now;
                    memcpy(&was, m + f->off2, sizeof(was));
                    st_call(1);
                    if (alloced(o, f->alloc(m), f->sub->size, true, f)) {
                        for (j = 0; j < d->nf; j++) if (d->f[j].oneof == f->oneof) t->f[j].n = 0;
                        tf_add(x)->m = tree_new(f->sub);
                    } else {
                        memcpy(&now, m + f->off2, sizeof(now));
                        if (now == f->choice && was != now) {
                            /* only the selection may be wrong; undo it and go on */
                            known(1, "%s.%s", d->name, f->name);
                            memcpy(m + f->off2, &was, sizeof(was));
                        }
                    });
                if (x->n) {
                    int c = ops(o, f->sub, x->v[0].m, *(void **)(m + f->off), level + 1, pick < k ? -1 : pick - k);
                    if (c < 0) return -1;
                    k += c;
                }
            } else if (mode == 9) {
                OP(st_call(1); f->init(m); for (j = 0; j < d->nf; j++) if (d->f[j].oneof == f->oneof) t->f[j].n = 0; tf_add(x)->u = 0);
                if (level == 0 && x->n) OP(v = scalar_val(f, 0); put_val(m + f->off, f, &v); x->v[0] = v);
                if (level == 0)
                    OP(st_call(1); f->init(m); for (j = 0; j < d->nf; j++) if (d->f[j].oneof == f->oneof) t->f[j].n = 0;
                       v = scalar_val(f, 2); *tf_add(x) = v; put_val(m + f->off, f, &v));
            } else OP(st_call(1); f->init(m); for (j = 0; j < d->nf; j++) if (d->f[j].oneof == f->oneof) t->f[j].n = 0; tf_add(x)->u = 0);
            break;
        }
    }
    return k;
}

#define N2 10                    /* operations of step9() beyond those on the first message */
static const int wsz8[] = {0, 16, 72, 400, 4096};    /* more than the message itself */
static const int off8[] = {0, 1, 4, 7};

static int first_ops(int msg);

int h_nroots(void)
{
    int i, j;
    ar_setup();
    mode = eng_mode[2] - '0';
    eng_bound = 0;
    for (i = 0; i < n_all_msgs; i++) {
        const mdesc *d = all_msgs[i];
        double budget, c, n;
        alpha v = valid(d, mode == 9 && d->nf <= 6 ? 1 : 0, 1);
        for (j = 0; j < v.n; j++) {
            obuf o = {v.t[j].p, v.t[j].n, v.t[j].n};
            if (D[i].n < (mode == 9 ? 16 : 4) || (mode == 9 && d->nf > 8 && D[i].n < 24)) al_add(&D[i], &o);
        }
        {
            /* one input that has several records */
            obuf b;
            ob_init(&b, 256);
            for (j = 0; j < v.n && j < 12; j++) ob_bytes(&b, v.t[j].p, v.t[j].n);
            al_add(&D[i], &b);
            b.n = 0;
            al_add(&D[i], &b);
        }
        n = first_ops(i) + 4 + (mode == 9 ? D[i].n : 2);
        budget = mode == 9 ? (eng_thorough ? 4e7 : 5e5) : (eng_thorough ? 2e6 : 3e4);
        for (depth_of[i] = 1, c = n; c * n <= budget && depth_of[i] < 7; depth_of[i]++) c *= n;
        if (depth_of[i] < 2) depth_of[i] = 2;
        if (mode == 9) {
            int nf = first_ops(i) + D[i].n + N2;
            for (j = 0; j < nf; j++) add(0, i, j);
        } else {
            for (j = 0; j < 20; j++) add(1, i, j);
            add(2, i, 0);
        }
    }
    return nr;
}

void h_describe(int r, char *b, size_t n)
{
    snprintf(b, n, "%s, message %s, %d", roots[r].kind == 0 ? "history" : roots[r].kind == 1 ? "allocation history" : "new()",
             all_msgs[roots[r].msg]->name, roots[r].cfg);
}

const char *h_outcome_name(int k)
{
    static const char *nm[] = {"histories", "allocations refused", "histories of depth", "new() NULL", "new() ok"};
    return k < 5 ? nm[k] : NULL;
}

void h_init(void)
{
    region_init(&wsr[0], WS + 64);
    region_init(&wsr[1], WS + 64);
    region_init(&in, 1 << 16);
    region_init(&out, 1 << 20);
}

static void mk(struct obj *o, int k, const mdesc *d, size_t wsz, int off, uint8_t fill)
{
    o->d = d;
    o->ws = &wsr[k];
    o->wsz = wsz;
    o->m = fresh(d, o->ws, wsz, off, fill);
    o->t = tree_new(d);
    o->used = 24 + d->size;
    if (!o->m && wsz >= d->size + 96) fail("new() returns NULL for %zu bytes", wsz);
}

static int first_ops(int msg)
{
    static bool once;
    static struct region r;
    struct obj o;
    size_t mk_ = ar_mark();
    int n;
    if (!once) { once = true; region_init(&r, 8192 + 64); }
    memset(&o, 0, sizeof(o));
    o.d = all_msgs[msg];
    o.ws = &r;
    o.wsz = 4096;
    memset(region_set(&r, 4096, 0), 0, 4096);
    o.t = tree_new(o.d);
    o.m = r.p;                   /* zeroed memory, only the record is consulted when counting */
    n = ops(&o, o.d, o.t, o.m, 0, -1);
    ar_release(mk_);
    return n;
}

/* One step of a C09 history; false for "stop here". */
static bool step9(int forced)
{
    struct obj *a = &M[0], *b = &M[1];
    int n = ops(a, a->d, a->t, a->m, 0, -1), mi = (int)(&D[0] - &D[0]), c, k;
    for (mi = 0; mi < n_all_msgs; mi++) if (all_msgs[mi] == a->d) break;
    k = n + D[mi].n + N2;
    c = forced >= 0 ? forced : ch(k + 1) - 1;
    if (c < 0) return false;
    if (c < n) { (void)ops(a, a->d, a->t, a->m, 0, c); }
    else if (c < n + D[mi].n) do_decode(a, D[mi].t[c - n].p, D[mi].t[c - n].n);
    else switch (c - n - D[mi].n) {
    case 0: encode_check(a); break;
    case 1: renew(a); break;
    case 2: do_decode(b, D[mi].t[D[mi].n - 2].p, D[mi].t[D[mi].n - 2].n); encode_check(b); break;
    case 3: { int z = ops(b, b->d, b->t, b->m, 0, -1); if (z) (void)ops(b, b->d, b->t, b->m, 0, z - 1); break; }
    case 4: renew(b); break;
    case 5: encode_short(a); break;
    case 6: { const tok *t = &D[mi].t[D[mi].n - 1]; decode_part(a, t->p, t->n ? t->n - 1 : 0); break; }
    case 7: { const tok *t = &D[mi].t[D[mi].n - 2]; decode_part(b, t->p, t->n ? t->n - 1 : 0); break; }
    case 8: copy(a, b); break;
    case 9: copy(b, a); break;
    }
    same(a, "an operation on it");
    same(b, "an operation (second message)");
    return true;
}

void h_run(int ri)
{
    const root *r = &roots[ri];
    const mdesc *d = all_msgs[r->msg];
    int i;
    dead = false;
    if (r->kind == 0) {
        mk(&M[0], 0, d, WS, 0, 0xa5);
        mk(&M[1], 1, d, WS, 0, 0x0f);
        for (i = 0; i < depth_of[r->msg]; i++) {
            if (!step9(i == 0 ? r->cfg : -1)) break;
            st_state(tree_hash(tree_hash(9, M[0].t), M[1].t));
        }
        encode_short(&M[0]);
        encode_check(&M[1]);
        same(&M[0], "encode");
        st_outcome(0);
        st_trace();
        if (want_sample()) { char s[300]; tree_print(M[0].t, s, sizeof(s)); sample("history of %d operations on %s ends with %s", i, d->name, s); }
        return;
    }
    if (r->kind == 1) {
        int sz = r->cfg % 5, of = r->cfg / 5;
        size_t wsz = 16 + (size_t)((8 - off8[of]) & 7) + d->size + (size_t)wsz8[sz];
        static const uint8_t fills[] = {0xff, 0x5a, 0x01, 0x80};
        int mi = r->msg;
        mk(&M[0], 0, d, wsz, off8[of], fills[of]);
        if (!M[0].m) { st_outcome(3); return; }
        check_objects(&M[0]);
        same(&M[0], "new()");
        for (i = 0; i < depth_of[mi] && !dead; i++) {
            int n = ops(&M[0], d, M[0].t, M[0].m, 0, -1), c;
            int nd = D[mi].n > 3 ? 3 : D[mi].n;
            c = ch(n + nd + 2) - 1;
            if (c < 0) break;
            if (c < n) (void)ops(&M[0], d, M[0].t, M[0].m, 0, c);
            else if (c < n + nd) do_decode(&M[0], D[mi].t[D[mi].n - 1 - (c - n)].p, D[mi].t[D[mi].n - 1 - (c - n)].n);
            else renew(&M[0]);
            if (dead) break;
            same(&M[0], "an operation");
            check_objects(&M[0]);
            st_state(hash_u64(tree_hash(8, M[0].t), (uint64_t)r->cfg * 100003 + M[0].used));
        }
        if (!dead) { encode_check(&M[0]); same(&M[0], "encode"); check_objects(&M[0]); }
        st_outcome(0);
        st_trace();
        if (want_sample()) { char s[300]; tree_print(M[0].t, s, sizeof(s)); sample("%zu bytes at +%d: %d operations end with %s", wsz, off8[of], i, s); }
        return;
    }
    {
        /* new() in every small workspace */
        size_t s = (size_t)ch((int)d->size + 64);
        int of = ch(16);
        static const uint8_t fills[] = {0, 0xff, 0x5a};
        uint8_t fl = fills[ch(3)];
        const char *e;
        M[0].d = d;
        M[0].ws = &wsr[0];
        M[0].wsz = s;
        M[0].m = fresh(d, &wsr[0], s, of, fl);
        region_check(&wsr[0], "workspace");
        st_trace();
        if (!M[0].m) {
            if (s >= d->size + 60) fail("new() returns NULL for %zu bytes, the message has %zu", s, d->size);
            st_outcome(3);
            return;
        }
        st_outcome(4);
        M[0].t = tree_new(d);
        if ((e = ptr_check(d, M[0].m, wsr[0].p, wsr[0].p + s))) fail("new() in %zu bytes at +%d: %s", s, of, e);
        same(&M[0], "new()");
        st_state(hash_u64(hash_u64(88, s), (uint64_t)of) + (uint64_t)r->msg);
    }
}
