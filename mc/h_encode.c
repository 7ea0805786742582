/* C01, C02, C07, P06: contents -> encode (-> decode). */
#include "model.h"
#include <limits.h>

const char *h_name = "encode";
static struct region ws, ws2, out, out2;
#define WS (24 * 1024)
#define WSBIG (3u << 20)
static int mode;                 /* 1, 2, 7, 6: P06 */

typedef struct root { int kind, msg, field, sub; } root;
/* kinds: 0 tree with first deviation at field; 1 scalar sweep; 2 length sweep; 3 nesting chain */
static root *roots;
static int nr;
static gencfg cfg;
static int sweep_bits;

static void add(int kind, int msg, int field, int sub)
{
    roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
    roots[nr++] = (root){kind, msg, field, sub};
}

static bool scalar(const fdesc *f) { return f->kind != K_MSG && f->kind != K_STRING && f->kind != K_BYTES; }

int h_nroots(void)
{
    int i, j, s;
    mode = eng_mode[2] - '0';
    cfg.depth = 2;
    cfg.alpha = 1;
    cfg.maxrep = 2;
    cfg.longs = true;
    eng_bound = eng_thorough ? 2 : 1;   /* plus the first one, which roots pay for */
    sweep_bits = eng_thorough ? 16 : 12;
    if (mode == 6) { cfg.longs = eng_thorough; eng_bound = 1; }
    if (mode == 7) { cfg.alpha = 0; if (eng_thorough) cfg.alpha = 1; }
    for (i = 0; i < n_all_msgs; i++) {
        add(0, i, -1, 0);
        for (j = 0; j < all_msgs[i]->nf; j++) {
            if (gen_can_start(all_msgs[i], j, &cfg)) add(0, i, j, 0);
            if (mode != 6 && all_msgs[i]->name[2] == 'X') {
                const fdesc *f = &all_msgs[i]->f[j];
                if (mode != 7 && scalar(f) && f->kind != K_BOOL && f->name[0] != 'f')
                    for (s = 0; s < 64 - sweep_bits + 4; s += eng_thorough ? 8 : 4)
                        if (s < kind_size(f->kind) * 8) add(1, i, j, s);
                if (f->card == C_REPEATED) add(4, i, j, 0);
                if (!scalar(f) || f->card == C_REPEATED)
                    for (s = 0; s < (eng_thorough ? 5 : 4); s++) add(2, i, j, s);
            }
        }
    }
    for (i = 0; i < 3 && mode != 6; i++) add(3, (int)(msg_by_name("v.Rec") == NULL), i, 0);
    return nr;
}

void h_describe(int r, char *b, size_t n)
{
    if (roots[r].kind == 3) { snprintf(b, n, "nesting chain %d", roots[r].field); return; }
    snprintf(b, n, "kind %d message %s field %s sub %d", roots[r].kind, all_msgs[roots[r].msg]->name,
             roots[r].field < 0 ? "-" : all_msgs[roots[r].msg]->f[roots[r].field].name, roots[r].sub);
}

void h_init(void)
{
    region_init(&ws, WSBIG * 16);
    region_init(&ws2, WSBIG * 16);
    region_init(&out, WSBIG * 2);
    region_init(&out2, WSBIG * 2);
}

static void check_bytes(const tree *t, const uint8_t *p, size_t n)
{
    rdres r = {0};
    tree *g;
    const char *e;
    r.ws = WS;
    g = ref_decode(t->d, p, n, &r, NULL);
    if (r.errs) fail("the output is not valid proto3 wire data (defects 0x%x): %s", r.errs, hexs(p, n));
    if ((e = tree_diff(t, g))) fail("the output carries other contents: %s; output %s", e, hexs(p, n));
    if (r.noncanon) fail("the output is not canonical (%s): %s", r.why ? r.why : "padded varint", hexs(p, n));
}

static void *mk(const tree *t, struct region *w, size_t size)
{
    void *m = fresh(t->d, w, size, 0, 0xa5);
    if (!m) fail("new() returns NULL for a workspace of %zu bytes", size);
    if (build(t, m)) fail("alloc fails in a workspace of %zu bytes", size);
    return m;
}

static void do_c01(const tree *t, size_t wsz)
{
    size_t n = ref_size(t);
    size_t cap = n + 32;
    uint8_t *b = region_set(&out, cap, 0);
    void *m = mk(t, &ws, wsz);
    const char *e;
    int res;
    if (cap < 4096) memset(b, 0xee, cap);
    st_call(1);
    res = t->d->encode(m, b, cap);
    if (res < 0) fail("encode returns %d in a buffer of %zu bytes, %zu needed", res, cap, n);
    if ((size_t)res != n) fail("encode returns %d, canonical size is %zu: %s", res, n, hexs(b, (size_t)res <= cap ? (size_t)res : 0));
    check_bytes(t, b, n);
    if ((e = cmp(t, m))) fail("encode altered the message: %s", e);
    st_state(hash_bytes(tree_hash(1, t), b, n));
    st_trace();
    if (want_sample()) { char s[300]; tree_print(t, s, sizeof(s)); sample("%s -> %s", s, hexs(b, n)); }
}

static void do_c02(const tree *t, size_t wsz)
{
    size_t cap = ref_size(t) + 32, n;
    uint8_t *b = region_set(&out, cap, 0), *in, *c;
    void *m = mk(t, &ws, wsz), *m2;
    const char *e;
    int res;
    st_call(3);
    res = t->d->encode(m, b, cap);
    if (res < 0) fail("encode returns %d", res);
    n = (size_t)res;
    in = region_set(&out2, n, 0);
    memcpy(in, b, n);
    m2 = fresh(t->d, &ws2, wsz, 0, 0x3c);
    if (!m2) fail("new() returns NULL");
    res = t->d->decode(m2, in, n);
    if (res < 0 || (size_t)res != n) fail("decode of the encoded message returns %d, not %zu: %s", res, n, hexs(in, n));
    if (memcmp(in, b, n)) fail("decode altered its input");
    if ((e = cmp(t, m2))) fail("decoded message differs: %s; wire %s", e, hexs(in, n));
    if ((e = cmp(t, m))) fail("decoding into another message altered this one: %s", e);
    if (n < 4096) memset(b, 0x77, cap);
    res = t->d->encode(m2, b, cap);
    c = b;
    if (res < 0 || (size_t)res != n || memcmp(c, in, n))
        fail("re-encoding differs: returns %d, %s vs %s", res, hexs(c, res > 0 ? (size_t)res : 0), hexs(in, n));
    st_state(hash_bytes(tree_hash(2, t), in, n));
    st_trace();
    if (want_sample()) { char s[300]; tree_print(t, s, sizeof(s)); sample("%s <-> %s", s, hexs(in, n)); }
}

static void do_c07(const tree *t, size_t wsz)
{
    size_t n = ref_size(t), s, i, step;
    void *m = mk(t, &ws, wsz);
    uint8_t *refb, *b;
    const char *e;
    int res;
    b = region_set(&out2, n + 64, 0);
    st_call(1);
    res = t->d->encode(m, b, n + 64);
    if (res < 0 || (size_t)res != n) fail("encode into a buffer of %zu bytes returns %d, needs %zu", n + 64, res, n);
    refb = b;
    for (s = 0; s <= n + 3; s += step) {
        step = 1;
        /* long messages: every size near both ends, then a stride of 61 */
        if (n > 400 && s >= 150 && s + 150 < n) step = 61;
        if (n > 20000 && s >= 100 && s + 100 < n) step = 4093;
        b = region_set(&out, s, (int)(s & 3));
        memset(b, 0xcc, s);
        st_call(1);
        res = t->d->encode(m, b, s);
        region_check(&out, "encode buffer");
        if (s >= n) {
            if (res < 0 || (size_t)res != n) fail("the message needs %zu bytes but encode into %zu bytes returns %d", n, s, res);
            if (memcmp(b, refb, n)) fail("encode into %zu bytes gives other bytes: %s vs %s", s, hexs(b, n), hexs(refb, n));
        } else if (res != -E_FULL)
            fail("the message needs %zu bytes but encode into %zu bytes returns %d", n, s, res);
        st_state(hash_u64(hash_bytes(hash_u64(7, s), refb, n), (uint64_t)res));
        st_outcome(res < 0 ? 0 : 1);
        st_trace();
    }
    st_call(1);
    res = t->d->encode(m, NULL, 0);
    if (res != (n ? -E_FULL : 0)) fail("the message needs %zu bytes but encode to a null pointer and size 0 returns %d", n, res);
    for (i = 0; i < 1; i++)
        if ((e = cmp(t, m))) fail("encode altered the message: %s", e);
    if (want_sample()) { char q[300]; tree_print(t, q, sizeof(q)); sample("%s in buffers of 0..%zu bytes", q, n + 3); }
}

const char *h_outcome_name(int k)
{
    static const char *nm[] = {"buffer full", "fits"};
    return k < 2 && mode == 7 ? nm[k] : NULL;
}

/* Bytes of the reference encoder must end up in the members. */
static void do_ext(const tree *t, size_t wsz)
{
    obuf o;
    uint8_t *in;
    void *m;
    const char *e;
    int res;
    ob_init(&o, 64);
    ref_encode(&o, t);
    in = region_set(&out2, o.n, 0);
    memcpy(in, o.p, o.n);
    m = fresh(t->d, &ws2, wsz, 0, 0x3c);
    if (!m) fail("new() returns NULL");
    st_call(1);
    res = t->d->decode(m, in, o.n);
    if (res < 0 || (size_t)res != o.n) fail("decode of %s returns %d, not %zu", hexs(in, o.n), res, o.n);
    if ((e = cmp(t, m))) fail("decoded message differs: %s; wire %s", e, hexs(in, o.n));
    st_trace();
}

static void go(const tree *t, size_t wsz)
{
    if (mode == 6) { do_c01(t, wsz); do_ext(t, wsz); return; }
    if (mode == 1) do_c01(t, wsz);
    else if (mode == 2) do_c02(t, wsz);
    else do_c07(t, wsz);
}

static const int sweep_len[3][12] = {
    {16383, 16384, 16385, 16382, 16380, 16379, 0},
    {2097151, 2097152, 2097147, 2097148, 2097149, 2097150, 0},
};

static void set_len(tree *t, const fdesc *f, tfield *x, int n)
{
    int j;
    if (f->kind == K_STRING || f->kind == K_BYTES) {
        val v = {0};
        v.p = big_pattern;
        v.n = (size_t)n;
        if (n || f->card != C_SINGLE) *tf_add(x) = v;
        if (f->card == C_REPEATED) { v.n = (size_t)(n / 2); *tf_add(x) = v; }
    } else if (f->kind == K_MSG) {
        val *v = tf_add(x);
        v->m = tree_new(f->sub);
        val s = {0};
        s.p = big_pattern;
        s.n = (size_t)n;
        if (n) *tf_add(&v->m->f[1]) = s;     /* Leaf.s */
    } else {
        for (j = 0; j < n; j++) *tf_add(x) = typical_val(f, j, &cfg);
    }
    (void)t;
}

void h_run(int ri)
{
    const root *r = &roots[ri];
    const mdesc *d = all_msgs[r->msg];
    tree *t;
    int n, i;
    switch (r->kind) {
    case 0:
        if (mode == 6) eng_bound = d->nf <= 4 ? 2 : d->nf > 20 ? 1 : 1 + eng_thorough;
        t = tree_new(d);
        if (r->field >= 0) gen_tree_from(t, &cfg, r->field);
        else (void)ch(1);
        go(t, WS);
        break;
    case 1: {
        const fdesc *f = &d->f[r->field];
        uint64_t w = (uint64_t)ch(1 << sweep_bits) << r->sub;
        int neg = ch(2), nitem = f->card == C_REPEATED ? 1 + ch(2) : 1;
        uint64_t u = norm_scalar(f->kind, neg ? ~w : w);
        t = tree_new(d);
        if (f->card == C_REPEATED) {
            if (nitem == 2) *tf_add(&t->f[r->field]) = typical_val(f, 3, &cfg);
        }
        if (u || f->card != C_SINGLE) tf_add(&t->f[r->field])->u = u;
        go(t, 1024);
        break;
    }
    case 2: {
        const fdesc *f = &d->f[r->field];
        t = tree_new(d);
        if (r->sub < 2) n = r->sub * 150 + ch(150);
        else if (r->sub == 2) n = sweep_len[0][ch(6)];
        else if (r->sub == 3) {
            /* too slow for long arrays of structs in the quick tier */
            if (scalar(f) || f->kind == K_MSG) n = (int)(300 + 17 * ch(20));
            else n = sweep_len[1][ch(6)];
        } else n = scalar(f) && kind_size(f->kind) < 8 ? 16384 * (1 + ch(3)) : 65535 + ch(3);
        if (mode == 7 && n > 3000 && (n % 4 == 1 || scalar(f))) n = 700;
        if (f->card == C_REPEATED && f->kind != K_STRING && f->kind != K_BYTES && f->kind != K_MSG && n > 100000) n = 300;
        set_len(t, f, &t->f[r->field], n);
        if (t->f[0].n == 0 && dev(2)) *tf_add(&t->f[0]) = typical_val(&d->f[0], 4, &cfg);
        go(t, n < 5000 ? 128 * 1024 : WSBIG * 4);
        break;
    }
    case 4: {
        /* many items */
        static const int many[] = {127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100000};
        const fdesc *f = &d->f[r->field];
        tfield *x;
        t = tree_new(d);
        x = &t->f[r->field];
        n = many[ch(mode == 7 ? 6 : 16)];
        for (i = 0; i < n; i++) {
            val *v = tf_add(x);
            if (f->kind == K_MSG) v->m = tree_new(f->sub);
            else if (scalar(f)) *v = typical_val(f, i & 15, &cfg);
            else { v->p = big_pattern; v->n = (size_t)(i % 3 == 0); }
        }
        if (f->kind == K_MSG) { tf_add(&x->v[n - 1].m->f[0])->u = 9; tf_add(&x->v[n / 2].m->f[0])->u = 8; }
        if (dev(2)) *tf_add(&t->f[0]) = typical_val(&d->f[0], 4, &cfg);
        go(t, WSBIG * 8);
        break;
    }
    case 3: {
        /* chains of nested messages, every depth up to 80, through each kind of link */
        const mdesc *rec = msg_by_name("v.Rec");
        int depth = ch(80), link = r->field;
        tree *q = t = tree_new(rec);
        for (i = 0; i < depth; i++) {
            int l = link == 0 ? 1 : link == 1 ? 2 : 3;   /* child, kids, alt */
            val *v = tf_add(&q->f[l]);
            if (i % 3 == 0) tf_add(&q->f[0])->u = (uint64_t)i + 1;
            v->m = tree_new(rec);
            q = v->m;
        }
        if (dev(2)) tf_add(&q->f[0])->u = 7;
        go(t, 64 * 1024);
        break;
    }
    }
}
