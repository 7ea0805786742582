/* C11: data written by one version of a message, read by another one. */
#include "model.h"

const char *h_name = "evolve";
static struct region ws, ws2, out, in;
static size_t WS = 48 * 1024, BUF = 16384;
static uint8_t *pat;
static int KMAX, KITEMS;

typedef struct root { int w, r, bound, big; gencfg cfg; } root;
static root *roots;
static int nr;

static bool varint_group(int k)
{
    return k == K_INT32 || k == K_INT64 || k == K_UINT32 || k == K_UINT64 || k == K_BOOL || k == K_ENUM;
}

static bool compatible(const fdesc *g, const fdesc *f)
{
    int a = g->kind, b = f->kind;
    if (g->card == C_REPEATED && f->card != C_REPEATED && wire_of(a) != 2) return false;   /* packed */
    if (a == b) return true;
    if (varint_group(a) && varint_group(b)) return true;
    if ((a == K_SINT32 || a == K_SINT64) && (b == K_SINT32 || b == K_SINT64)) return true;
    if ((a == K_FIXED32 || a == K_SFIXED32) && (b == K_FIXED32 || b == K_SFIXED32)) return true;
    if ((a == K_FIXED64 || a == K_SFIXED64) && (b == K_FIXED64 || b == K_SFIXED64)) return true;
    if ((a == K_STRING || a == K_BYTES) && (b == K_STRING || b == K_BYTES)) return true;
    if (a == K_MSG && b == K_BYTES) return true;
    return false;
}

static const fdesc *by_number(const mdesc *d, uint32_t k)
{
    int i;
    for (i = 0; i < d->nf; i++) if (d->f[i].number == k) return &d->f[i];
    return NULL;
}

static bool pair_ok(const mdesc *w, const mdesc *r)
{
    int i;
    for (i = 0; i < r->nf; i++) {
        const fdesc *g = by_number(w, r->f[i].number);
        if (g && !compatible(g, &r->f[i])) return false;
    }
    return true;
}

/* The contents that proto3 promises to the reader; NULL if they depend on the
 * wire order or on merging. */
static tree *transfer(const tree *w, const mdesc *r)
{
    tree *t = tree_new(r);
    int i, j, cnt[16] = {0};
    for (i = 0; i < r->nf; i++) {
        const fdesc *f = &r->f[i], *g = by_number(w->d, f->number);
        const tfield *x;
        if (!g) continue;
        x = &w->f[g - w->d->f];
        for (j = 0; j < x->n; j++) {
            val v = x->v[j], *o;
            if (g->card == C_SINGLE && val_is_default(g, &v)) continue;
            if (f->card != C_REPEATED && t->f[i].n) {
                if (f->kind == K_MSG) return NULL;
                t->f[i].n = 0;
            }
            o = tf_add(&t->f[i]);
            switch (f->kind) {
            case K_MSG:
                if (!(o->m = transfer(v.m, f->sub))) return NULL;
                break;
            case K_STRING:
                o->p = v.p;
                o->n = v.n ? strnlen((const char *)v.p, v.n) : 0;
                break;
            case K_BYTES:
                if (g->kind == K_MSG) {
                    obuf b;
                    ob_init(&b, 64);
                    ref_encode(&b, v.m);
                    o->p = b.p;
                    o->n = b.n;
                } else { o->p = v.p; o->n = v.n; }
                break;
            default:
                o->u = norm_scalar(f->kind, v.u);
            }
        }
        if (f->card == C_ONEOF && t->f[i].n && cnt[f->oneof]++) return NULL;
    }
    return t;
}

static int pkg(const char *name) { return (int)(strchr(name, '.') - name); }

static bool is_len(const fdesc *f) { return f->kind == K_STRING || f->kind == K_BYTES; }

/* Fields that can be big: a long payload, or many items. */
static bool can_be_big(const fdesc *f)
{
    return is_len(f) || f->card == C_REPEATED;
}

static void make_big(tree *t, int fi)
{
    const mdesc *d = t->d;
    const fdesc *f = &d->f[fi];
    bool items = f->card == C_REPEATED && (!is_len(f) || ch(2));
    int K = items ? KITEMS : KMAX, k = K - ch(K - 5), others = ch(2), i;
    size_t L = ((size_t)1 << k) + (size_t)(ch(3) - 1), j;
    val *v;
    if (others)
        for (i = 0; i < d->nf; i++)
            if (i != fi && d->f[i].oneof < 0 && d->f[i].kind != K_MSG) *tf_add(&t->f[i]) = typical_val(&d->f[i], i, NULL);
    if (items) {
        for (j = 0; j < L; j++) {
            v = tf_add(&t->f[fi]);
            if (f->kind == K_MSG) v->m = tree_new(f->sub);
            else *v = typical_val(f, (int)(j & 15), NULL);
        }
    } else {
        v = tf_add(&t->f[fi]);
        v->p = pat;
        v->n = L;
        if (f->card == C_REPEATED && others) *tf_add(&t->f[fi]) = typical_val(f, 1, NULL);
    }
}

int h_nroots(void)
{
    int i, j, k;
    KMAX = eng_thorough ? 23 : 20;
    KITEMS = eng_thorough ? 18 : 14;
    ar_setup();
    /* Every field that can be big, in every version of the writer; the first and the last
     * version of the reader which knows the field, and which does not. */
    for (i = 0; i < n_all_msgs; i++)
        for (k = 0; k < all_msgs[i]->nf; k++) {
            const mdesc *w = all_msgs[i];
            int n = pkg(w->name), pick[4] = {-1, -1, -1, -1};
            if (!can_be_big(&w->f[k])) continue;
            for (j = 0; j < n_all_msgs; j++) {
                const mdesc *r = all_msgs[j];
                int c = by_number(r, w->f[k].number) ? 0 : 2;
                if (n != pkg(r->name) || memcmp(w->name, r->name, (size_t)n) || !pair_ok(w, r)) continue;
                if (pick[c] < 0) pick[c] = j;
                else pick[c + 1] = j;
            }
            for (j = 0; j < 4; j++) {
                if (pick[j] < 0) continue;
                roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
                roots[nr++] = (root){.w = i, .r = pick[j], .big = k + 1};
            }
        }
    for (i = 0; i < n_all_msgs; i++)
        for (j = 0; j < n_all_msgs; j++) {
            const mdesc *w = all_msgs[i], *r = all_msgs[j];
            int n = pkg(w->name);
            root *x;
            if (n != pkg(r->name) || memcmp(w->name, r->name, (size_t)n) || !pair_ok(w, r)) continue;
            if (w->name[1] == 'm' && strcmp(r->name, "em.Base")) continue;
            roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
            x = &roots[nr++];
            memset(x, 0, sizeof(*x));
            x->w = i;
            x->r = j;
            x->cfg.depth = 2;
            x->cfg.maxrep = 2;
            if (w->name[1] < 'j') {           /* type changes: values matter */
                x->cfg.alpha = 2;
                x->cfg.longs = true;
                x->bound = eng_thorough ? 5 : 4;
            } else {                          /* sets of fields matter */
                x->cfg.alpha = eng_thorough ? 1 : 0;
                x->bound = eng_thorough ? 5 : 4;
                if (w->name[1] == 'm') x->bound = eng_thorough ? 5 : 4;
            }
        }
    return nr;
}

void h_describe(int r, char *b, size_t n)
{
    snprintf(b, n, "written by %s, read by %s%s%s", all_msgs[roots[r].w]->name, all_msgs[roots[r].r]->name, roots[r].big ? ", large " : "",
             roots[r].big ? all_msgs[roots[r].w]->f[roots[r].big - 1].name : "");
}

void h_init(void)
{
    size_t cap = ((size_t)2 << KMAX) + (1 << 16), i;
    if (cap < ((size_t)160 << KITEMS)) cap = (size_t)160 << KITEMS;
    region_init(&ws, cap);
    region_init(&ws2, cap);
    region_init(&out, cap);
    region_init(&in, cap);
    if (!(pat = malloc(cap))) fail("HARNESS: no memory");
    for (i = 0; i < cap; i++) pat[i] = (uint8_t)(1 + i % 127);
}

const char *h_outcome_name(int k)
{
    static const char *n[] = {"compared with the transferred contents", "order-dependent or merged: compared with the reference decoder", "merge needed: not compared"};
    return k < 3 ? n[k] : NULL;
}

void h_run(int ri)
{
    const root *r = &roots[ri];
    const mdesc *dw = all_msgs[r->w], *dr = all_msgs[r->r];
    tree *t = tree_new(dw), *x;
    rdres rr = {0};
    void *m;
    uint8_t *b, *q;
    int n, res;
    const char *e;
    bool appended = false;
    eng_bound = r->bound;
    if (r->big) {
        size_t items = 0;
        make_big(t, r->big - 1);
        for (n = 0; n < dw->nf; n++) items += (size_t)t->f[n].n;
        BUF = ref_size(t) + 64;
        WS = 16384 + 2 * BUF + items * 120;
    } else {
        gen_tree(t, &r->cfg);
        WS = 48 * 1024;
        BUF = 16384;
    }
    m = fresh(dw, &ws, WS, 0, 0xa5);
    if (!m || build(t, m)) fail("cannot build the message");
    b = region_set(&out, BUF, 0);
    st_call(2);
    n = dw->encode(m, b, BUF);
    if (n < 0) fail("encode returns %d", n);
    if (!r->big && dw->name[1] == 'm' && dev(2)) {
        /* a second message, appended: proto3 merges the two */
        tree *t2 = tree_new(dw);
        gen_tree(t2, &r->cfg);
        m = fresh(dw, &ws, WS, 0, 0xa5);
        if (!m || build(t2, m)) fail("cannot build the message");
        res = dw->encode(m, b + n, BUF - (size_t)n);
        if (res < 0) fail("encode returns %d", res);
        n += res;
        appended = true;
    }
    q = region_set(&in, (size_t)n, 0);
    memcpy(q, b, (size_t)n);
    m = fresh(dr, &ws2, WS, 0, 0x5c);
    if (!m) fail("new() returns NULL");
    res = dr->decode(m, q, (size_t)n);
    if (res != n) fail("decode of %s returns %d instead of %d", hexs(q, (size_t)n), res, n);
    x = appended ? NULL : transfer(t, dr);
    if (x) {
        if ((e = cmp(x, m))) { char s[300]; tree_print(t, s, sizeof(s)); fail("%s (%s) is read wrongly: %s", hexs(q, (size_t)n), s, e); }
        st_outcome(0);
    } else {
        rr.ws = WS;
        x = ref_decode(dr, q, (size_t)n, &rr, NULL);
        if (rr.errs) fail("the encoded data %s is malformed (0x%x)", hexs(q, (size_t)n), rr.errs);
        if (rr.dup_msg) st_outcome(2);
        else {
            if ((e = cmp(x, m))) fail("%s is read wrongly: %s", hexs(q, (size_t)n), e);
            st_outcome(1);
        }
    }
    st_state(hash_u64(tree_hash(hash_u64(11, (uint64_t)ri), t), (uint64_t)n));
    st_trace();
    if (want_sample()) { char s[300]; tree_print(t, s, sizeof(s)); sample("%s wrote %s (%s), %s read it", dw->name, s, hexs(q, (size_t)n), dr->name); }
}
