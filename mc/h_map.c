/* C12: a map field against the repeated entry message it stands for. */
#include "model.h"
#include "records.h"

const char *h_name = "maps";
static struct region ws, ws2, out, out2, in;
static size_t WS = 48 * 1024, BUF = 8192;
static int KITEMS, KLEN;
static uint8_t *pat;

typedef struct root { int kind, m, r, x; } root;
static root *roots;
static int nr;
static alpha A[512], L[512];
static gencfg cfg;

static void add(int kind, int m, int r, int x)
{
    roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
    roots[nr++] = (root){kind, m, r, x};
}

int h_nroots(void)
{
    int i, j, k;
    ar_setup();
    KITEMS = eng_thorough ? 15 : 12;
    KLEN = eng_thorough ? 21 : 17;
    cfg.depth = 2;
    cfg.maxrep = 3;
    cfg.alpha = 2;
    for (i = 0; i < n_all_msgs; i++) {
        const char *s = strchr(all_msgs[i]->name, '.') + 1;
        char nm[64];
        alpha b;
        if (s[0] != 'M') continue;
        snprintf(nm, sizeof(nm), "%.*sR%s", (int)(s - all_msgs[i]->name), all_msgs[i]->name, s + 1);
        for (j = 0; strcmp(all_msgs[j]->name, nm); j++) {}
        for (k = 0; k < 2; k++) if (gen_can_start(all_msgs[i], k, &cfg)) add(0, i, j, k);
        add(0, i, j, -1);
        for (k = 0; k < 3; k++) add(3, i, j, k);
        A[i] = valid(all_msgs[i], 2, 2);
        b = bad(all_msgs[i], 2, 2);
        for (k = 0; k < b.n; k++) { obuf o = {b.t[k].p, b.t[k].n, b.t[k].n}; al_add(&A[i], &o); }
        {
            /* entries in which the key, the value or both occur in unusual ways */
            alpha e = valid(all_msgs[i]->f[0].sub, 1, 1);
            int p, q;
            for (p = 0; p < e.n; p++)
                for (q = 0; q < e.n; q++) {
                    obuf o;
                    ob_init(&o, 64);
                    ob_bytes(&o, e.t[p].p, e.t[p].n);
                    ob_bytes(&o, e.t[q].p, e.t[q].n);
                    recb(&A[i], all_msgs[i]->f[0].number, o.p, o.n);
                }
        }
        for (k = 0; k < A[i].n; k++) add(1, i, j, k);
        if (eng_thorough) {
            L[i] = valid(all_msgs[i], 1, 2);
            b = bad(all_msgs[i], 0, 2);
            for (k = 0; k < b.n; k++) { obuf o = {b.t[k].p, b.t[k].n, b.t[k].n}; al_add(&L[i], &o); }
            for (k = 0; k < L[i].n; k++) add(2, i, j, k);
        }
    }
    return nr;
}

void h_describe(int r, char *b, size_t n) { snprintf(b, n, "%s, map %s against %s", roots[r].kind == 3 ? "large contents" : roots[r].kind ? "records" : "contents", all_msgs[roots[r].m]->name, all_msgs[roots[r].r]->name); }

void h_init(void)
{
    size_t cap = (size_t)8 << KLEN, i;
    if (cap < ((size_t)256 << KITEMS)) cap = (size_t)256 << KITEMS;
    region_init(&ws, cap);
    region_init(&ws2, cap);
    region_init(&out, cap);
    region_init(&out2, cap);
    region_init(&in, cap);
    if (!(pat = malloc(cap))) fail("HARNESS: no memory");
    for (i = 0; i < cap; i++) pat[i] = (uint8_t)(1 + i % 127);
}

static void typical(tree *x, int i, int k)
{
    const fdesc *f = &x->d->f[i];
    val v = {0};
    if (f->kind == K_MSG) v.m = tree_new(f->sub);
    else {
        v = typical_val(f, k, NULL);
        if (val_is_default(f, &v)) return;
    }
    *tf_add(&x->f[i]) = v;
}

/* Many entries, or a long key or value; false if there is no such thing. */
static bool large(tree *t, int what)
{
    const mdesc *e = t->d->f[0].sub;
    int i, j, k, f, shape, n;
    size_t L;
    if (what == 0) {
        k = ch(KITEMS + 1);
        n = k < 7 ? 20 * k + ch(20) : (1 << k) - 1 + ch(3);
        shape = ch(4);                                  /* which parts are set */
        for (i = 0; i < n; i++) {
            tree *x = tree_new(e);
            for (j = 0; j < 2; j++) if (shape >> j & 1) typical(x, j, i & 15);
            tf_add(&t->f[0])->m = x;
        }
        return true;
    }
    for (f = 0; f < e->nf && e->f[f].number != (uint32_t)what; f++) {}
    if (f == e->nf || (e->f[f].kind != K_STRING && e->f[f].kind != K_BYTES)) return false;
    k = KLEN - ch(KLEN - 5);
    L = ((size_t)1 << k) - 1 + (size_t)ch(3);
    shape = ch(4);                                      /* entries before and after */
    if (shape & 1) { tree *x = tree_new(e); typical(x, 0, 1); tf_add(&t->f[0])->m = x; }
    {
        tree *x = tree_new(e);
        val *v;
        typical(x, 1 - f, 2);
        v = tf_add(&x->f[f]);
        v->p = pat;
        v->n = L;
        tf_add(&t->f[0])->m = x;
    }
    if (shape & 2) { tree *x = tree_new(e); typical(x, 1, 3); tf_add(&t->f[0])->m = x; }
    return true;
}

static tree *retarget(const tree *t, const mdesc *d)
{
    tree *o = tree_new(d);
    int i, j;
    if (d->nf != t->d->nf) fail("HARNESS: shapes differ");
    for (i = 0; i < d->nf; i++)
        for (j = 0; j < t->f[i].n; j++) {
            val *v = tf_add(&o->f[i]);
            *v = t->f[i].v[j];
            if (v->m) v->m = retarget(v->m, d->f[i].sub);
        }
    return o;
}

const char *h_outcome_name(int k)
{
    static const char *nm[] = {"ok", "bad wire type", "out of data", "out of memory", "encode buffer full", "bad field number",
                               "varint overflow", "seek overflow", "length overflow"};
    return k < 9 ? nm[k] : NULL;
}

static void decode_both(const mdesc *dm, const mdesc *dr, const uint8_t *p, size_t n)
{
    uint8_t *q = region_set(&in, n, 0);
    void *a, *b;
    rdres r = {0};
    tree *t;
    const char *e;
    int x, y;
    if (n) memcpy(q, p, n);
    a = fresh(dm, &ws, WS, 0, 0xa5);
    b = fresh(dr, &ws2, WS, 0, 0x5a);
    if (!a || !b) fail("new() returns NULL");
    st_call(2);
    x = dm->decode(a, q, n);
    y = dr->decode(b, q, n);
    st_outcome(x < 0 ? (x >= -8 ? -x : 31) : 0);
    if (x != y) fail("decode of %s: map %d, repeated entry %d", hexs(p, n), x, y);
    r.ws = WS;
    t = ref_decode(dm, p, n, &r, NULL);
    if (x >= 0) {
        uint8_t *o, *o2;
        if (!r.errs && !r.ambiguous && !r.dup_msg) {
            if ((e = cmp(t, a))) fail("decode of %s into a map: %s", hexs(p, n), e);
            if ((e = cmp(retarget(t, dr), b))) fail("decode of %s into repeated entries: %s", hexs(p, n), e);
        }
        o = region_set(&out, 3 * n + 64, 0);
        o2 = region_set(&out2, 3 * n + 64, 0);
        st_call(2);
        x = dm->encode(a, o, 3 * n + 64);
        y = dr->encode(b, o2, 3 * n + 64);
        if (x != y || x < 0 || memcmp(o, o2, (size_t)x))
            fail("after decoding %s: map encodes to %s (%d), repeated entry to %s (%d)", hexs(p, n), hexs(o, x > 0 ? (size_t)x : 0), x, hexs(o2, y > 0 ? (size_t)y : 0), y);
    }
    st_state(hash_bytes(hash_u64(12, (uint64_t)(uintptr_t)dm), p, n) + (uint64_t)x);
    st_trace();
    if (want_sample()) sample("%s and %s decode %s: %d", dm->name, dr->name, hexs(p, n), x);
}

void h_run(int ri)
{
    const root *r = &roots[ri];
    const mdesc *dm = all_msgs[r->m], *dr = all_msgs[r->r];
    WS = 48 * 1024;
    BUF = 8192;
    if (r->kind == 0 || r->kind == 3) {
        tree *t = tree_new(dm), *u;
        void *a, *b;
        uint8_t *o, *o2;
        int x, y;
        const char *e;
        eng_bound = eng_thorough ? 3 : 2;
        if (r->kind == 3) {
            if (!large(t, r->x)) return;
            BUF = ref_size(t) + 64;
            WS = 16384 + 2 * BUF + (size_t)t->f[0].n * 160;
        } else if (r->x >= 0) gen_tree_from(t, &cfg, r->x);
        else (void)ch(1);
        u = retarget(t, dr);
        a = fresh(dm, &ws, WS, 0, 0xa5);
        b = fresh(dr, &ws2, WS, 0, 0x5a);
        if (!a || !b) fail("new() returns NULL");
        x = build(t, a);
        y = build(u, b);
        if (x || y) fail("alloc fails: map %d, repeated entry %d", x, y);
        o = region_set(&out, BUF, 0);
        o2 = region_set(&out2, BUF, 0);
        st_call(2);
        x = dm->encode(a, o, BUF);
        y = dr->encode(b, o2, BUF);
        if (x != y || x < 0 || memcmp(o, o2, (size_t)x)) {
            char s[300];
            tree_print(t, s, sizeof(s));
            fail("%s: map encodes to %s (%d), repeated entry to %s (%d)", s, hexs(o, x > 0 ? (size_t)x : 0), x, hexs(o2, y > 0 ? (size_t)y : 0), y);
        }
        {
            rdres rr = {0};
            tree *g;
            rr.ws = WS;
            g = ref_decode(dm, o, (size_t)x, &rr, NULL);
            if (rr.errs || (e = tree_diff(t, g))) fail("the encoded map does not carry its contents: %s", hexs(o, (size_t)x));
        }
        st_state(tree_hash(121, t));
        decode_both(dm, dr, o, (size_t)x);
    } else {
        uint8_t buf[4096];
        size_t n = 0;
        int i, c;
        eng_bound = 0;
        const alpha *al = r->kind == 1 ? &A[r->m] : &L[r->m];
        memcpy(buf + n, al->t[r->x].p, al->t[r->x].n);
        n += al->t[r->x].n;
        for (i = 1; i <= r->kind; i++) {
            c = ch(al->n + 1);
            if (c == 0) break;
            memcpy(buf + n, al->t[c - 1].p, al->t[c - 1].n);
            n += al->t[c - 1].n;
        }
        decode_both(dm, dr, buf, n);
    }
}
