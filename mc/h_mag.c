/* C01, C02, C03, C04, C07: every order of magnitude of payload sizes and of
 * numbers of items, up to 2^K and one below and above; C03, C04: of numbers of
 * records; C08: of numbers of allocated items. */
#include "model.h"
#include <sys/mman.h>

const char *h_name = "mag";
static struct region ws, in, out;
static int mode, KLEN, KITEMS;
static struct { const mdesc *d; int f, items; } roots[4000];
static int nroots;
static uint8_t *pat;

static bool is_len(const fdesc *f) { return f->kind == K_STRING || f->kind == K_BYTES; }

int h_nroots(void)
{
    int i, j;
    ar_setup();
    mode = atoi(eng_mode + 1);
    KLEN = eng_thorough ? 27 : 24;
    KITEMS = eng_thorough ? 20 : 18;
    nroots = 0;
    /* roots[].items: 0 payload, 1 items, 2 records */
    if (mode == 3 || mode == 4)
        for (i = 0; i < n_all_msgs; i++) for (j = 0; j < all_msgs[i]->nf; j++) { roots[nroots].d = all_msgs[i]; roots[nroots].items = 2; roots[nroots++].f = j; }
    if (mode == 4) return nroots;
    /* the longest first */
    for (i = 0; i < n_all_msgs; i++) for (j = 0; j < all_msgs[i]->nf; j++) {
        const fdesc *f = &all_msgs[i]->f[j];
        if (mode != 8) if (is_len(f) || (f->kind == K_MSG && f->sub->nf > 1 && is_len(&f->sub->f[1]))) {
            roots[nroots].d = all_msgs[i]; roots[nroots].items = 0; roots[nroots++].f = j;
        }
        if (f->card == C_REPEATED) { roots[nroots].d = all_msgs[i]; roots[nroots].items = 1; roots[nroots++].f = j; }
    }
    return nroots;
}

void h_describe(int r, char *b, size_t n)
{
    snprintf(b, n, "%s of %s.%s", roots[r].items == 2 ? "records" : roots[r].items ? "items" : "payload", roots[r].d->name, roots[r].d->f[roots[r].f].name);
}

void h_init(void)
{
    size_t cap = ((size_t)3 << (KLEN - 1)) + (1 << 20), i;
    if (cap < ((size_t)48 << KITEMS)) cap = (size_t)48 << KITEMS;
    region_init(&ws, 2 * cap);
    region_init(&in, cap);
    region_init(&out, cap);
    pat = mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (pat == MAP_FAILED) fail("HARNESS: no memory");
    for (i = 0; i < cap; i++) pat[i] = (uint8_t)(1 + i % 127);
}

static void pl(val *v, size_t n) { v->p = pat; v->n = n; }

static const char *nm[] = {"encoded", "decoded", "rejected", "allocated"};
const char *h_outcome_name(int k) { return k < 4 ? nm[k] : NULL; }

static void record(obuf *b, const fdesc *f, int i)
{
    val v = typical_val(f, i & 15, NULL);
    if (f->kind == K_MSG && f->sub->nf && f->sub->f[0].kind != K_MSG && f->sub->f[0].card == C_SINGLE && i % 3)
        *tf_add(&v.m->f[0]) = typical_val(&f->sub->f[0], i & 15, NULL);
    ob_tag(b, f->number, wire_of(f->kind));
    ref_encode_val(b, f, &v);
}

/* A record of a field that the message does not have. */
static void foreign(obuf *b, const mdesc *d, int i)
{
    uint32_t n;
    int j;
    for (n = 7 + (uint32_t)(i % 3) * 2040;; n++) {
        for (j = 0; j < d->nf && d->f[j].number != n; j++);
        if (j == d->nf) break;
    }
    static const int wt[] = {2, 0, 5, 1};
    ob_tag(b, n, wt[i & 3]);
    switch (i & 3) {
    case 0: ob_varint(b, (uint64_t)(i % 7)); ob_bytes(b, pat + i % 100, (size_t)(i % 7)); break;
    case 1: ob_varint(b, (uint64_t)i * 77); break;
    default: ob_bytes(b, pat + i % 100, wt[i & 3] == 5 ? 4 : 8);
    }
}

/* Many records of a field: next to each other, with others between, after as
 * many of an unknown field; C04: and then something that is wrong. */
static void records(const mdesc *d, int at)
{
    const fdesc *f = &d->f[at], *g = NULL;
    int K = mode == 4 ? 11 : eng_thorough ? 17 : 14, k = K - ch(K - 2), L = (1 << k) + ch(3) - 1, shape = ch(5), i, j, bad = mode == 4 ? ch(6) : 0, res;
    bool scalar = f->kind != K_MSG && !is_len(f);
    obuf b, one;
    size_t need, item;
    rdres rd = {0};
    tree *t;
    void *m;
    uint8_t *p;
    const char *why;
    if (f->kind == K_MSG && f->card != C_REPEATED && shape != 4) return;
    for (i = 1; i < d->nf; i++) {
        g = &d->f[(at + i) % d->nf];
        if (g->kind != K_MSG || g->card == C_REPEATED) break;
        g = NULL;
    }
    if (shape == 2 && !g) return;
    if (shape == 3 && !(scalar && f->card == C_REPEATED)) return;
    ob_init(&b, (size_t)L * 8);
    for (i = 0; i < L; i++) {
        if (shape == 4) foreign(&b, d, i);
        else if (shape == 3 && i % 3) {
            ob_init(&one, 64);
            if (i % 3 == 1) for (j = 0; j < 1 + i % 4; j++) { val v = typical_val(f, (i + j) & 15, NULL); ref_encode_val(&one, f, &v); }
            ob_tag(&b, f->number, 2); ob_varint(&b, one.n); ob_bytes(&b, one.p, one.n);
        } else {
            record(&b, f, i);
            if (shape == 1) foreign(&b, d, i);
            if (shape == 2) record(&b, g, i);
        }
    }
    if (shape == 4) record(&b, f, 1);
    switch (bad) {
    case 1: b.n--; break;
    case 2: ob_tag(&b, f->number, 7); break;
    case 3: ob_byte(&b, 0); ob_byte(&b, 0); break;
    case 4: ob_tag(&b, f->number, 0); for (i = 0; i < 11; i++) ob_byte(&b, 0xff); break;
    case 5: ob_tag(&b, f->number, 2); ob_varint(&b, 1000000); ob_byte(&b, 1); break;
    }
    if (mode == 4 && !bad) { ob_tag(&b, f->number, 6); ob_byte(&b, 0); }
    item = f->kind == K_MSG ? f->sub->size : 16;
    if (g && (size_t)(g->kind == K_MSG ? g->sub->size : 16) > item) item = g->sub->size;
    need = (size_t)L * (item + 80) * 2 + 2 * b.n + 65536;
    t = ref_decode(d, b.p, b.n, &rd, NULL);
    if (rd.ambiguous || rd.dup_msg || (mode == 3 && rd.errs)) fail("HARNESS: invalid input");
    if (mode == 4 && !rd.errs) return;
    p = region_set(&in, b.n, 0);
    memcpy(p, b.p, b.n);
    m = fresh(d, &ws, need, 0, 0x5a);
    if (!m) fail("%s: new() fails", d->name);
    st_call(1);
    res = d->decode(m, p, b.n);
    if (mode == 3) {
        if (res < 0 || (size_t)res != b.n) fail("%s.%s: decode of %d records, %zu well-formed bytes, in a workspace of %zu bytes returns %d", d->name, f->name, L, b.n, need, res);
        if ((why = cmp(t, m))) fail("%s.%s: decode of %d records: %s", d->name, f->name, L, why);
    } else if (res >= 0 || !(rd.errs >> -res & 1))
        fail("%s.%s: decode of %d records with the defects 0x%x at the end (bit numbers are error codes) returns %d", d->name, f->name, L, rd.errs, res);
    st_outcome(mode == 3 ? 1 : 2);
    st_state(hash_u64(hash_u64(hash_u64(2, (uint64_t)at), (uint64_t)L), (uint64_t)(shape * 8 + bad) ^ (uint64_t)(size_t)d));
    st_trace();
    if (want_sample()) sample("%s.%s: %d records, kind %d", d->name, f->name, L, shape);
}

static void def_items(tfield *x, const fdesc *f, int n)
{
    x->n = 0;
    while (n-- > 0) { val *v = tf_add(x); memset(v, 0, sizeof(*v)); if (f->kind == K_MSG) v->m = tree_new(f->sub); }
}

/* Items of one field, then of another or again of the same one, in a
 * workspace full of garbage: all have default contents, and when one is
 * written, no other changes. */
static void objects(const mdesc *d, int at)
{
    const fdesc *f = &d->f[at], *g = NULL;
    int K = eng_thorough ? 17 : 14, k = K - ch(K - 2), L = (1 << k) + ch(3) - 1, second = ch(3), n2, i, j;
    uint8_t fill = ch(2) ? 0xff : 0xa5;
    struct { int length; void *items; } *r;
    size_t isz = f->kind == K_MSG ? f->sub->size : (size_t)kind_size(f->kind), need = 65536 + 2 * ((size_t)L + 64) * (isz + 16), size;
    tree *t = tree_new(d);
    const char *why;
    char *m;
    n2 = second == 0 ? 0 : second == 1 ? L : 5;
    for (i = 0; i < d->nf; i++) { g = &d->f[(at + 1 + i) % d->nf]; if (g->card == C_REPEATED) break; }
    if (second == 2) need += 8 * (g->kind == K_MSG ? g->sub->size : 16) + 4096;
    else g = f;
    size = need - (size_t)(L & 7);
    m = fresh(d, &ws, size, L & 3, fill);
    if (!m) fail("%s: new() fails", d->name);
    st_call(1);
    if (f->alloc_n(m, L)) fail("%s: no %d items of %s in a workspace of %zu bytes", d->name, L, f->name, size);
    def_items(&t->f[at], f, L);
    if ((why = cmp(t, m))) fail("%s: new items of %s, %d of them: %s", d->name, f->name, L, why);
    if (second) {
        if (g == f && L > 2) for (j = 0; j < L && f->kind != K_MSG; j += 7) { val v = typical_val(f, j & 15, NULL); put_val((char *)(r = (void *)(m + f->off))->items + (size_t)j * isz, f, &v); }
        st_call(1);
        if (g->alloc_n(m, n2)) fail("%s: no further %d items of %s in a workspace of %zu bytes", d->name, n2, g->name, size);
        def_items(&t->f[g - d->f], g, n2);
        if ((why = cmp(t, m))) fail("%s: new items of %s, %d of them, after those of %s: %s", d->name, g->name, n2, f->name, why);
    }
    if ((why = ptr_check(d, m, (uint8_t *)m, (uint8_t *)m + size))) fail("%s: items of %s: %s", d->name, f->name, why);
    r = (void *)(m + f->off);
    for (j = 0; j < r->length; j++) {
        val *v = &t->f[at].v[j];
        if (f->kind == K_MSG) {
            if (!f->sub->nf || f->sub->f[0].kind == K_MSG || f->sub->f[0].card != C_SINGLE) break;
            *tf_add(&v->m->f[0]) = typical_val(&f->sub->f[0], j & 15, NULL);
            put_val((char *)r->items + (size_t)j * isz + f->sub->f[0].off, &f->sub->f[0], &v->m->f[0].v[0]);
        } else {
            *v = typical_val(f, j & 15, NULL);
            put_val((char *)r->items + (size_t)j * isz, f, v);
        }
    }
    if ((why = cmp(t, m))) fail("%s: written items of %s: %s", d->name, f->name, why);
    st_outcome(3);
    st_state(hash_u64(hash_u64(hash_u64(3, (uint64_t)at), (uint64_t)L), (uint64_t)second ^ (uint64_t)(size_t)d));
    st_trace();
    if (want_sample()) sample("%s.%s: %d items, then %d of %s", d->name, f->name, L, n2, g->name);
}

void h_run(int r)
{
    const mdesc *d = roots[r].d;
    if (mode == 8) { objects(d, roots[r].f); return; }
    if (roots[r].items == 2) { records(d, roots[r].f); return; }
    const fdesc *f = &d->f[roots[r].f];
    int K = roots[r].items ? KITEMS : KLEN, k = K - ch(K - 9), delta = ch(3) - 1, shape = ch(roots[r].items ? 2 : f->card == C_REPEATED ? 3 : 1), i, res;
    size_t L = ((size_t)1 << k) + (size_t)delta, want, need;
    tree *t = tree_new(d);
    tfield *x = &t->f[roots[r].f];
    obuf e;
    void *m;
    uint8_t *p, *o;
    const char *why;
    for (i = 0; i < d->nf; i++)
        if (i != roots[r].f && d->f[i].oneof < 0 && d->f[i].kind != K_MSG) *tf_add(&t->f[i]) = typical_val(&d->f[i], i, NULL);
    if (roots[r].items) {
        for (i = 0; (size_t)i < L; i++) {
            val *v = tf_add(x);
            if (f->kind == K_MSG) v->m = tree_new(f->sub);
            else if (is_len(f)) pl(v, shape ? (size_t)i % 3 : 0);
            else *v = shape ? typical_val(f, i & 15, NULL) : (val){0};
        }
        if (f->kind == K_MSG && shape) {
            const fdesc *g = f->sub->nf ? &f->sub->f[0] : NULL;
            if (g && g->kind != K_MSG && g->card == C_SINGLE) { *tf_add(&x->v[0].m->f[0]) = typical_val(g, 1, NULL); *tf_add(&x->v[L - 1].m->f[0]) = typical_val(g, 2, NULL); }
        }
        need = L * ((f->kind == K_MSG ? f->sub->size : (size_t)kind_size(f->kind)) + 24);
    } else {
        if (f->kind == K_MSG) {
            val *v;
            if (shape) tf_add(x)->m = tree_new(f->sub);
            v = tf_add(x);
            v->m = tree_new(f->sub);
            pl(tf_add(&v->m->f[1]), L);
            if (shape == 2) { v = tf_add(x); v->m = tree_new(f->sub); pl(tf_add(&v->m->f[1]), L / 3); }
        }
        else if (f->card == C_REPEATED) {
            if (shape) pl(tf_add(x), 3);
            pl(tf_add(x), L);
            if (shape == 2) { pl(tf_add(x), L / 3); pl(tf_add(x), 0); }
        } else pl(tf_add(x), L);
        need = L + L / 2;
    }
    need += 65536;
    want = ref_size(t);
    ob_init(&e, want + 16);
    ref_encode(&e, t);
    if (e.n != want) fail("HARNESS: sizes");
    o = e.p;
    if (mode != 3) {
        m = fresh(d, &ws, need, 0, 0xa5);
        if (!m || build(t, m)) fail("%s: the message cannot be built in %zu bytes", d->name, need);
        if (mode == 7) {
            size_t s[] = {want, want - 1, want - 2, want / 2, want - L, (size_t)1 << k, ((size_t)1 << k) - 1, 1, 0};
            for (i = 0; i < 9; i++) {
                if (s[i] > want) continue;
                p = region_set(&out, s[i], i & 3);
                st_call(1);
                res = d->encode(m, p, s[i]);
                region_check(&out, "encode buffer");
                if (s[i] == want ? res < 0 || (size_t)res != want : res != -E_FULL)
                    fail("%s: encode of %zu bytes into %zu bytes returns %d", d->name, want, s[i], res);
            }
        }
        p = region_set(&out, want, 0);
        memset(p, 0xee, want);
        st_call(1);
        res = d->encode(m, p, want);
        if (res < 0 || (size_t)res != want) fail("%s.%s: encode into a buffer of the exact size %zu returns %d", d->name, f->name, want, res);
        if (memcmp(p, e.p, want)) {                 /* another order of the fields? */
            rdres rd = {0};
            tree *t2 = ref_decode(d, p, want, &rd, NULL);
            if (rd.errs || rd.noncanon || (why = tree_diff(t, t2)))
                fail("%s.%s: %zu bytes are encoded wrongly: %s: %s", d->name, f->name, want, rd.errs ? "malformed" : rd.noncanon ? rd.why : why, hexs(p, want > 40 ? 40 : want));
        }
        if (mode != 2) {                            /* into larger buffers */
            size_t more[] = {1, 7, want / 3, 2 * want};
            uint8_t *c = ar_alloc(want ? want : 1);
            memcpy(c, p, want);
            for (i = 0; i < (k < K - 2 ? 4 : 2); i++) {
                o = region_set(&out, want + more[i], i & 1);
                st_call(1);
                res = d->encode(m, o, want + more[i]);
                region_check(&out, "encode buffer");
                if (res < 0 || (size_t)res != want) fail("%s.%s: encode of %zu bytes into a buffer of %zu bytes returns %d", d->name, f->name, want, want + more[i], res);
                if (memcmp(o, c, want)) fail("%s.%s: %zu bytes are encoded in another way into a buffer of %zu bytes", d->name, f->name, want, want + more[i]);
            }
        }
        o = p;
        st_outcome(0);
    }
    if (mode == 2 || mode == 3) {
        p = region_set(&in, want, 0);
        memcpy(p, o, want);
        m = fresh(d, &ws, need, 0, 0x5a);
        if (!m) fail("%s: new() fails", d->name);
        st_call(1);
        res = d->decode(m, p, want);
        if (res < 0 || (size_t)res != want) fail("%s.%s: decode of %zu well-formed bytes in a workspace of %zu bytes returns %d", d->name, f->name, want, need, res);
        if ((why = cmp(t, m))) fail("%s.%s: decode of %zu bytes: %s", d->name, f->name, want, why);
        st_outcome(1);
    }
    st_state(hash_u64(hash_u64(hash_u64(1, (uint64_t)r), L), (uint64_t)shape));
    st_trace();
    if (want_sample()) sample("%s.%s: %s 2^%d%+d", d->name, f->name, roots[r].items ? "items" : "payload", k, delta);
}
