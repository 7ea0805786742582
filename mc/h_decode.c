/* C03, C04, C05, C06: decoding of enumerated wire data. */
#include "model.h"
#include "records.h"
#include <limits.h>

const char *h_name = "decode";
static struct region ws, in, out;
#define WS 8192
#define WSBIG (256u << 10)
static int mode;

/* ---- roots ---------------------------------------------------------------- */

typedef struct root { int kind, msg, x; } root;
enum { R_SEQ, R_LONG, R_MUT, R_RAW2, R_RAWA, R_RAW3, R_NEST, R_BUILD, R_SEQWS, R_LEN, R_ALIAS };
static root *roots;
static int nr;
static gencfg cfg;

static alpha A[64];              /* per message: valid then bad */
static int nvalid[64];
static int maxlen[64];
static alpha L[64];              /* small alphabet for long sequences */
static alpha B[64];              /* byte alphabets */
static int rawlen[64];

static void add(int kind, int msg, int x)
{
    roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
    roots[nr++] = (root){kind, msg, x};
}


static bool single(const mdesc *d) { return d->name[2] == 'X'; }

int h_nroots(void)
{
    int i, j, k;
    double budget;
    ar_setup();
    mode = eng_mode[2] - '0';
    cfg.depth = 2;
    cfg.alpha = 0;
    cfg.maxrep = 2;
    cfg.longs = false;
    eng_bound = 0;
    if (mode == 6) eng_bound = 1;
    budget = eng_thorough ? 3e7 : mode == 6 ? 2e3 : 8e5;
    if (mode == 6 && eng_thorough) budget = 2e4;
    for (i = 0; i < n_all_msgs; i++) {
        const mdesc *d = all_msgs[i];
        double c;
        int lvl = d->nf > 8 ? 1 : 2;
        A[i] = valid(d, mode == 6 ? 1 : lvl, 2);
        nvalid[i] = A[i].n;
        if (mode == 4 || mode == 5) {
            alpha b = bad(d, lvl, 2);
            for (j = 0; j < b.n; j++) {
                obuf o = {b.t[j].p, b.t[j].n, b.t[j].n};
                al_add(&A[i], &o);
            }
        }
        for (maxlen[i] = 1, c = A[i].n; c * A[i].n <= budget && maxlen[i] < 6; maxlen[i]++) c *= A[i].n;
        if (maxlen[i] < 2 && mode != 6) maxlen[i] = 2;
        for (j = 0; j < A[i].n; j++) add(mode == 6 ? R_SEQWS : R_SEQ, i, j);
        if (single(d))
            for (j = 0; j < d->nf; j++)
                if (wire_of(d->f[j].kind) == 2 || d->f[j].card == C_REPEATED)
                    for (k = 0; k < (eng_thorough ? 12 : 6); k++) add(R_LEN, i, j * 64 + k);
        if (mode != 6 && d->nf <= 10)
            for (j = 0; j < d->nf; j++) add(R_ALIAS, i, j);
        if (mode == 6) {
            add(R_BUILD, i, -1);
            for (j = 0; j < d->nf; j++) if (gen_can_start(d, j, &cfg)) add(R_BUILD, i, j);
            continue;
        }
        if (single(d)) {
            uint32_t k = 3;
            const fdesc *f = NULL;
            for (j = 0; j < d->nf; j++) if (d->f[j].number == k) f = &d->f[j];
            if (f) {
                alpha v = valid(d, 1, 1);
                for (j = 0; j < v.n; j++) {
                    int t = v.t[j].p[0] >> 3;
                    obuf o = {v.t[j].p, v.t[j].n, v.t[j].n};
                    if (t == 3 || (t == 1 && L[i].n < 2) || (t == 14 && L[i].n < 9)) al_add(&L[i], &o);
                }
                for (j = 0; j < L[i].n; j++) add(R_LONG, i, j);
            }
        }
        if (mode == 4 || mode == 5) {
            for (j = 0; j < d->nf; j++) if (gen_can_start(d, j, &cfg)) add(R_MUT, i, j);
        }
        if (mode == 5 || mode == 4) {
            for (j = 0; j < 256; j += 16) add(R_RAW2, i, j);
            if (single(d) || d->nf <= 8) {
                /* byte alphabet: tags and small numbers */
                static const uint8_t by[] = {0, 1, 2, 3, 4, 5, 8, 0x80, 0xff};
                obuf o;
                ob_init(&o, 1);
                for (j = 0; j < 9; j++) { o.n = 0; ob_byte(&o, by[j]); al_add(&B[i], &o); }
                for (j = 0; j < d->nf; j++) {
                    if (d->f[j].number > 15) continue;
                    o.n = 0;
                    ob_byte(&o, (uint8_t)(d->f[j].number << 3 | (unsigned)wire_of(d->f[j].kind)));
                    al_add(&B[i], &o);
                    if (d->f[j].card == C_REPEATED) {
                        o.n = 0;
                        ob_byte(&o, (uint8_t)(d->f[j].number << 3 | 2));
                        al_add(&B[i], &o);
                    }
                }
                for (rawlen[i] = 1, c = B[i].n; c * B[i].n <= (eng_thorough ? 1e7 : 6e5) && rawlen[i] < 7; rawlen[i]++) c *= B[i].n;
                for (j = 0; j < B[i].n; j++) add(R_RAWA, i, j);
            }
            if (eng_thorough && (i % 3 == 0)) for (j = 0; j < 256; j++) add(R_RAW3, i, j);
        }
    }
    if (mode == 4 || mode == 5 || mode == 3) for (i = 0; i < 3; i++) add(R_NEST, 0, i);
    return nr;
}

void h_describe(int r, char *b, size_t n)
{
    static const char *k[] = {"records", "long record sequence", "mutation", "raw bytes", "raw byte alphabet", "raw 3 bytes", "nesting",
                              "build in every workspace", "decode in every workspace", "payload lengths", "aliasing field numbers"};
    snprintf(b, n, "%s, message %s, %d", k[roots[r].kind], all_msgs[roots[r].msg]->name, roots[r].x);
}

void h_init(void)
{
    region_init(&ws, WSBIG * 4 + 64);
    region_init(&in, 1 << 20);
    region_init(&out, 4 << 20);
}

const char *h_outcome_name(int k)
{
    static const char *nm[] = {"ok", "bad wire type", "out of data", "out of memory", "encode buffer full", "bad field number",
                               "varint overflow", "seek overflow", "length overflow", "new() NULL", "ambiguous input", "alloc refused"};
    return k < 12 ? nm[k] : NULL;
}

/* ---- oracles ---------------------------------------------------------------- */

static bool dup_only(const mdesc *d, const uint8_t *p, size_t n, const void *m)
{
    rdres r = {0};
    tree *t;
    r.ws = WS;
    r.replace = true;
    t = ref_decode(d, p, n, &r, NULL);
    return !r.errs && cmp(t, m) == NULL;
}

static void check(const mdesc *d, const uint8_t *p, size_t n, size_t wsz, int off, uint8_t fill)
{
    rdres r = {0};
    tree *t;
    uint8_t *q = region_set(&in, n, 0);
    void *m;
    const char *e;
    int res;
    r.ws = wsz;
    if (n) memcpy(q, p, n);
    m = fresh(d, &ws, wsz, off, fill);
    if (!m) {
        if (mode == 5) { region_check(&ws, "workspace"); st_outcome(9); st_trace(); return; }
        fail("new() returns NULL for a workspace of %zu bytes", wsz);
    }
    st_call(1);
    res = d->decode(m, q, n);
    st_outcome(res < 0 ? (res >= -8 ? -res : 31) : 0);
    if (mode == 5) {
        region_check(&ws, "workspace");
        if (memcmp(p, q, n)) fail("decode wrote to its input");
        if (res > (int)n) fail("decode returns %d for %zu bytes of input", res, n);
        if (res >= 0) {
            int k;
            uint8_t *o;
            if ((e = ptr_check(d, m, ws.p, ws.p + wsz))) fail("after a successful decode of %s: %s", hexs(p, n), e);
            o = region_set(&out, 3 * n + 64, 0);
            st_call(1);
            k = d->encode(m, o, 3 * n + 64);
            if (k > (int)(3 * n + 64)) fail("encode returns %d for a buffer of %zu", k, 3 * n + 64);
            region_check(&ws, "workspace after encode");
        }
        st_state(hash_bytes(hash_u64(hash_u64(5, (uint64_t)(d - all_msgs[0])), wsz * 64 + (size_t)off), p, n) + (uint64_t)res * 0x9e3779b9);
        st_trace();
        if (want_sample()) sample("%s decodes %s in %zu bytes at +%d: %d", d->name, hexs(p, n), wsz, off, res);
        return;
    }
    t = ref_decode(d, p, n, &r, NULL);
    if (r.ambiguous) { st_outcome(10); return; }
    if (mode == 3) {
        if (r.errs) fail("HARNESS: invalid input %s (0x%x)", hexs(p, n), r.errs);
        if (res < 0 || (size_t)res != n) fail("%s: well-formed input %s gives %d, not %zu", d->name, hexs(p, n), res, n);
        if ((e = cmp(t, m))) {
            if (r.dup_msg && dup_only(d, p, n, m)) known(0, "%s %s", d->name, hexs(p, n));
            else fail("%s decodes %s wrongly: %s", d->name, hexs(p, n), e);
        }
        st_state(hash_bytes(hash_u64(3, (uint64_t)(d - all_msgs[0])), p, n));
    } else {
        if (r.errs == 0) {
            if (res < 0 || (size_t)res != n) fail("%s: well-formed input %s gives %d, not %zu", d->name, hexs(p, n), res, n);
        } else {
            if (res >= 0) fail("%s: malformed input %s (defects 0x%x) is accepted with %d", d->name, hexs(p, n), r.errs, res);
            if (res < -8 || !(r.errs >> (-res) & 1))
                fail("%s: input %s has the defects 0x%x (bit numbers are error codes) but decode reports %d", d->name, hexs(p, n), r.errs, res);
        }
        st_state(hash_bytes(hash_u64(4, (uint64_t)(d - all_msgs[0])), p, n) + (uint64_t)res);
    }
    st_trace();
    if (want_sample()) sample("%s decodes %s: %d, defects 0x%x", d->name, hexs(p, n), res, r.errs);
}

/* In mode 5 each input is decoded in several workspaces. */
static void go(const mdesc *d, const uint8_t *p, size_t n)
{
    if (mode == 5) {
        int k = ch(3);
        size_t s;
        if (k == 0) check(d, p, n, WS, 0, 0xa5);
        else if (k == 1) { s = 24 + d->size + 8 * (size_t)(n % 5); check(d, p, n, s, (int)(n & 7), 0x01); }
        else { s = 24 + d->size + 16 + (size_t)(n ? p[0] % 64 : 0); check(d, p, n, s, (int)(3 * n & 7), 0xff); }
    } else check(d, p, n, WS, 0, 0xa5);
}

/* The smallest workspace that the input decodes in, by bisection. */
static size_t boundary(const mdesc *d, const uint8_t *p, size_t n, int off, size_t hi)
{
    uint8_t *q = region_set(&in, n, 0);
    size_t lo = 0;
    if (n) memcpy(q, p, n);
    while (lo < hi) {
        size_t s = (lo + hi) / 2;
        void *m = fresh(d, &ws, s, off, 0x5a);
        st_call(1);
        if (m && d->decode(m, q, n) == (int)n) hi = s;
        else lo = s + 1;
        region_check(&ws, "workspace");
    }
    return lo;
}

/* C06: the same decode in every workspace size. */
static void every_ws(const mdesc *d, const uint8_t *p, size_t n, int off, size_t from, size_t last)
{
    rdres r = {0};
    tree *t;
    uint8_t *q = region_set(&in, n, 0);
    size_t s, top = 16 + d->size + 64;
    int okat = -1, res;
    void *m;
    const char *e;
    r.ws = WS;
    if (n) memcpy(q, p, n);
    t = ref_decode(d, p, n, &r, NULL);
    if (r.errs || r.ambiguous) fail("HARNESS: invalid input");
    for (s = from; s < last; s++) {
        m = fresh(d, &ws, s, off, 0x5a);
        region_check(&ws, "workspace");
        st_trace();
        if (!m) {
            st_outcome(9);
            if (okat >= 0) fail("new() fails with %zu bytes but works with %d", s, okat);
            continue;
        }
        st_call(1);
        res = d->decode(m, q, n);
        region_check(&ws, "workspace");
        st_outcome(res < 0 ? (res >= -8 ? -res : 31) : 0);
        if (res < 0) {
            if (res != -E_MEM) fail("%s: %s is well formed, in a workspace of %zu bytes decode returns %d instead of out of memory", d->name, hexs(p, n), s, res);
            if (okat >= 0) fail("%s: %s decodes in %d bytes but not in %zu", d->name, hexs(p, n), okat, s);
        } else {
            if ((size_t)res != n) fail("decode returns %d of %zu", res, n);
            if ((e = cmp(t, m)) && !(r.dup_msg && dup_only(d, p, n, m)))
                fail("%s: decode of %s in %zu bytes reports success with data missing or wrong: %s", d->name, hexs(p, n), s, e);
            if (okat < 0) { okat = (int)s; top = s + 40; }
        }
        st_state(hash_bytes(hash_u64(6, (uint64_t)(d - all_msgs[0]) * 100000 + s), p, n) + (uint64_t)res);
        if (okat >= 0 && s >= top) break;
    }
    if (okat < 0) fail("%s: %s does not decode in %zu bytes", d->name, hexs(p, n), last);
    if (want_sample()) sample("%s decode of %s: needs %d bytes at +%d; every size %zu..%zu", d->name, hexs(p, n), okat, off, from, s);
}

static void every_ws_build(const tree *t, int off)
{
    size_t s, top = WS;
    int okat = -1, res;
    const char *e;
    size_t mk = ar_mark();
    for (s = 0; s < WS; s++) {
        void *m = fresh(t->d, &ws, s, off, 0x5a);
        ar_release(mk);
        region_check(&ws, "workspace");
        st_trace();
        if (!m) {
            st_outcome(9);
            if (okat >= 0) fail("new() fails with %zu bytes but works with %d", s, okat);
            continue;
        }
        res = build(t, m);
        region_check(&ws, "workspace");
        st_outcome(res ? 11 : 0);
        if (res) {
            if (okat >= 0) fail("%s: building works with %d bytes but not with %zu", t->d->name, okat, s);
        } else {
            if ((e = cmp(t, m))) fail("%s: building in %zu bytes reports success with wrong contents: %s", t->d->name, s, e);
            if (okat < 0) { okat = (int)s; top = s + 40; }
        }
        st_state(hash_u64(tree_hash(66, t), s * 2 + (res != 0)));
        if (okat >= 0 && s >= top) break;
    }
    if (okat < 0) fail("%s: cannot be built in %d bytes", t->d->name, WS);
    if (want_sample()) { char b[200]; tree_print(t, b, sizeof(b)); sample("build of %s: needs %d bytes at +%d", b, okat, off); }
}

void h_run(int ri)
{
    const root *r = &roots[ri];
    const mdesc *d = all_msgs[r->msg];
    uint8_t buf[8192];
    size_t n = 0;
    int i, c;
#define PUT(tk) do { memcpy(buf + n, (tk).p, (tk).n); n += (tk).n; } while (0)
    switch (r->kind) {
    case R_SEQ:
        PUT(A[r->msg].t[r->x]);
        for (i = 1; i < maxlen[r->msg]; i++) {
            c = ch(A[r->msg].n + 1);
            if (c == 0) break;
            PUT(A[r->msg].t[c - 1]);
        }
        go(d, buf, n);
        break;
    case R_SEQWS:
        PUT(A[r->msg].t[r->x]);
        for (i = 1; i < maxlen[r->msg]; i++) {
            c = ch(A[r->msg].n + 1);
            if (c == 0) break;
            PUT(A[r->msg].t[c - 1]);
        }
        c = ch(2);
        every_ws(d, buf, n, c == 0 ? 0 : 1 + (r->x & 6), 0, WS);
        break;
    case R_LONG: {
        int len = eng_thorough ? 7 : 5;
        if (mode == 5) len--;
        PUT(L[r->msg].t[r->x]);
        for (i = 1; i < len; i++) {
            c = ch(L[r->msg].n + 1);
            if (c == 0) break;
            PUT(L[r->msg].t[c - 1]);
        }
        go(d, buf, n);
        break;
    }
    case R_MUT: {
        tree *t = tree_new(d);
        obuf b;
        int pos;
        gen_tree_from(t, &cfg, r->x);
        ob_init(&b, 256);
        ref_encode(&b, t);
        if (b.n == 0) { (void)ch(1); go(d, b.p, 0); break; }
        pos = ch((int)b.n);
        c = ch(2 + 255);
        if (c == 0) go(d, b.p, (size_t)pos);                /* truncation */
        else if (c == 1) {                                  /* one byte lost */
            memmove(b.p + pos, b.p + pos + 1, b.n - (size_t)pos - 1);
            go(d, b.p, b.n - 1);
        } else {
            b.p[pos] = (uint8_t)(b.p[pos] + c - 1);
            go(d, b.p, b.n);
        }
        break;
    }
    case R_RAW2:
        c = ch(17);
        if (c == 16) { if (r->x) c = 0; else { (void)ch(1); go(d, buf, 0); break; } }
        buf[n++] = (uint8_t)(r->x + c);
        c = ch(257);
        if (c) buf[n++] = (uint8_t)(c - 1);
        go(d, buf, n);
        break;
    case R_RAW3:
        buf[n++] = (uint8_t)r->x;
        buf[n++] = (uint8_t)ch(256);
        buf[n++] = (uint8_t)ch(256);
        go(d, buf, n);
        break;
    case R_RAWA:
        PUT(B[r->msg].t[r->x]);
        for (i = 1; i < rawlen[r->msg]; i++) {
            c = ch(B[r->msg].n + 1);
            if (c == 0) break;
            PUT(B[r->msg].t[c - 1]);
        }
        go(d, buf, n);
        break;
    case R_BUILD: {
        tree *t = tree_new(d);
        if (r->x >= 0) gen_tree_from(t, &cfg, r->x);
        c = ch(2);
        every_ws_build(t, c == 0 ? 0 : 1 + (r->msg & 6));
        break;
    }
    case R_LEN: {
        /* every payload length, and workspaces that just fit */
        const fdesc *f = &d->f[r->x / 64];
        int blk = r->x % 64, len, var, w = wire_of(f->kind);
        static const int far[] = {1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 16382, 16383, 16384, 16385, 32767, 32768,
                                  65535, 65536};
        obuf b, one;
        size_t need;
        len = eng_thorough || blk < 5 ? blk * 64 + ch(64) : far[ch(18)];
        if (eng_thorough && blk == 11) len = far[ch(18)];
        var = ch(3);
        ob_init(&b, 4096);
        if (var == 1) { for (i = 0; i < d->nf; i++) if (d->f[i].kind == K_STRING || d->f[i].kind == K_BYTES) break;
            if (i == d->nf) i = 0;
            ob_tag(&b, d->f[i].number, wire_of(d->f[i].kind));
            if (wire_of(d->f[i].kind) == 0) ob_byte(&b, 3);
            else if (wire_of(d->f[i].kind) == 2) { ob_byte(&b, 3); ob_bytes(&b, big_pattern, 3); if (d->f[i].kind == K_MSG) { b.n -= 4; ob_byte(&b, 0); } }
            else ob_bytes(&b, big_pattern, w == 1 ? 8 : 4);
        }
        if (w == 0) {                                       /* packed varints of mixed width */
            ob_init(&one, 64);
            for (i = 0; i < len; i++) ob_varint(&one, i % 5 == 4 ? 300 + (uint64_t)i : 1 + (uint64_t)i % 120);
            ob_tag(&b, f->number, 2); ob_varint(&b, one.n); ob_bytes(&b, one.p, one.n);
        } else if (w != 2) {
            size_t sz = w == 1 ? 8 : 4;
            ob_tag(&b, f->number, 2); ob_varint(&b, sz * (size_t)len); ob_bytes(&b, big_pattern, sz * (size_t)len);
        } else if (f->kind == K_MSG) {
            if (f->card == C_REPEATED && var == 2) {        /* len items */
                if (len > 4100) len = 4100;
                for (i = 0; i < len; i++) { ob_tag(&b, f->number, 2); ob_varint(&b, 0); }
            } else {
                ob_init(&one, 64);
                ob_tag(&one, 2, 2); ob_varint(&one, (uint64_t)len); ob_bytes(&one, big_pattern, (size_t)len);
                ob_tag(&b, f->number, 2); ob_varint(&b, one.n); ob_bytes(&b, one.p, one.n);
            }
        } else {
            ob_tag(&b, f->number, 2); ob_varint(&b, (uint64_t)len); ob_bytes(&b, big_pattern, (size_t)len);
            if (f->card == C_REPEATED && var == 2) for (i = 0; i < 9; i++) {
                ob_tag(&b, f->number, 2); ob_varint(&b, (uint64_t)(len % 32 + i)); ob_bytes(&b, big_pattern + i, (size_t)(len % 32 + i));
            }
        }
        if (mode == 3 || mode == 4) { check(d, b.p, b.n, WSBIG * 4, 0, 0xa5); break; }
        c = ch(2);
        c = c == 0 ? 0 : 1 + (len & 6);
        need = boundary(d, b.p, b.n, c, WSBIG * 4);
        if (mode == 6) every_ws(d, b.p, b.n, c, need > 24 ? need - 24 : 0, need + 24);
        else for (i = -20; i <= 20; i++) if (i + (int)need >= 0) check(d, b.p, b.n, (size_t)(i + (int)need), c, i & 1 ? 0xff : 0x01);
        break;
    }
    case R_ALIAS: {
        /* a record of a field that the message does not have, whose number
         * differs from that of a known field in one bit, or is next to it */
        const fdesc *f = &d->f[r->x];
        static const char *pay[] = {"09", "1112131415161718", "026162", "", "", "21222324"};
        static const int wts[] = {0, 1, 2, 5};
        int at, k = ch(29), wt = wts[ch(4)], j, nrec = 1 + ch(3);
        uint32_t g = f->number ^ 1u << k;
        alpha own = {0};
        obuf b;
        if (g == 0) g = f->number + 1;
        for (i = 0; i < d->nf; i++) if (d->f[i].number == g) g = 0;
        at = ch(nrec + 1);
        if (g == 0) g = unused_number(d);
        for (i = 0; i < nvalid[r->msg] && own.n < 3; i++) {
            obuf o = {A[r->msg].t[i].p, A[r->msg].t[i].n, 99};
            uint64_t tag = 0;
            for (j = 0; j < 5; j++) { tag |= (uint64_t)(o.p[j] & 127) << (7 * j); if (!(o.p[j] & 128)) break; }
            if (tag >> 3 == f->number) al_add(&own, &o);
        }
        ob_init(&b, 64);
        for (i = 0; i <= nrec; i++) {
            if (i == at) { ob_tag(&b, g, wt); hexb(&b, pay[wt]); }
            if (i < nrec) ob_bytes(&b, own.t[i % own.n].p, own.t[i % own.n].n);
        }
        for (i = 0; i < own.n; i++) free(own.t[i].p);
        free(own.t);
        go(d, b.p, b.n);
        break;
    }
    case R_NEST: {
        /* chains of nested sub-messages with a defect, an unknown field or nothing at the bottom */
        const mdesc *rc = msg_by_name("v.Rec");
        static const uint32_t links[] = {2, 3, 4};
        int depth = ch(40), bottom = ch(mode == 3 ? 2 : 7), twice;
        obuf b, o;
        static const char *bot[] = {"", "0805", "07", "00", "0880", "1205", "0d01"};
        ob_init(&b, 256);
        hexb(&b, bot[bottom]);
        twice = r->x == 1 ? ch(depth + 1) : 0;
        for (i = 0; i < depth; i++) {
            ob_init(&o, b.n * 2 + 16);
            if (i % 4 == 1) { ob_tag(&o, 1, 0); ob_varint(&o, (uint64_t)i); }
            if (twice && i + 1 == twice) { ob_tag(&o, links[r->x], 2); ob_varint(&o, 0); }
            ob_tag(&o, links[r->x], 2);
            ob_varint(&o, b.n);
            ob_bytes(&o, b.p, b.n);
            b = o;
        }
        check(rc, b.p, b.n, 32768, 0, 0xa5);
        break;
    }
    }
}
