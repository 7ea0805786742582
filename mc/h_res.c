/* C15: memory comes from the workspace only, nothing of the system is used,
 * and stack and work are bounded by the nesting depth and the size of the data.
 *
 * The code under test calls __sanitizer_cov_trace_pc() in every basic block.
 * Its calls of functions that are not its own go to the counting functions
 * below, or, if they are not on the list of pure functions, to stubs that call
 * vp_foreign().  It runs on a stack of its own, which is painted. */
#include "model.h"
#include "records.h"
#include "pbtools.h"
#include <sys/mman.h>
#include <ucontext.h>

const char *h_name = "resources";
#define WS 16384
#define STACK ((size_t)1 << 20)
static struct region ws, in, out;
static gencfg cfg;
static int K, KLEN;              /* numbers of items up to 2^K, payloads up to 2^KLEN */

enum { R_SMALL, R_SEQ, R_SIZE, R_PAIR, R_NEST, R_ROOM, R_ERR };
typedef struct root { int kind, msg, x; } root;
static root *roots;
static int nr;
static alpha A[64], G[64];

static void add(int kind, int msg, int x)
{
    roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
    roots[nr++] = (root){kind, msg, x};
}

static bool is_len(const fdesc *f) { return f->kind == K_STRING || f->kind == K_BYTES; }

int h_nroots(void)
{
    int i, j, k;
    ar_setup();
    cfg.depth = 2;
    cfg.alpha = 1;
    cfg.maxrep = 2;
    cfg.longs = true;
    eng_bound = 1;
    K = eng_thorough ? 18 : 15;
    KLEN = eng_thorough ? 24 : 21;
    for (i = 0; i < n_all_msgs; i++) {
        const mdesc *d = all_msgs[i];
        alpha b = bad(d, 1, 1);
        /* sizes; x is the field, or one field in the sub-message of a field */
        for (j = 0; j < d->nf; j++) {
            const fdesc *f = &d->f[j];
            if (is_len(f) || f->card == C_REPEATED || f->kind == K_MSG) add(R_SIZE, i, j);
        }
        G[i] = valid(d, 1, 1);
        for (j = 0; j < G[i].n; j++) add(R_PAIR, i, j);
        add(R_ROOM, i, -1);
        for (j = 0; j < d->nf; j++) add(R_ROOM, i, j);
        add(R_SMALL, i, -1);
        for (j = 0; j < d->nf; j++) if (gen_can_start(d, j, &cfg)) add(R_SMALL, i, j);
        A[i] = valid(d, 2, 1);
        for (j = 0; j < b.n; j++) {
            obuf o = {b.t[j].p, b.t[j].n, b.t[j].n};
            al_add(&A[i], &o);
        }
        for (k = 0; k < A[i].n; k++) add(R_SEQ, i, k);
    }
    for (j = 0; j < 3; j++) add(R_NEST, 0, j);
    add(R_ERR, 0, 0);
    return nr;
}

void h_describe(int r, char *b, size_t n)
{
    static const char *nm[] = {"contents", "records", "sizes", "pairs of records", "nesting", "room", "error strings"};
    snprintf(b, n, "%s, %s, %d", nm[roots[r].kind], all_msgs[roots[r].msg]->name, roots[r].x);
}

/* ---- what the code under test does ---------------------------------------- */

static uint64_t work;
static bool inside;
static const char *what;         /* the call in progress */

void __sanitizer_cov_trace_pc(void);
void __sanitizer_cov_trace_pc(void) { work++; }

void vp_foreign(const char *name) __attribute__((noreturn));
void vp_foreign(const char *name) { fail("%s calls %s()", what ? what : "(?)", name); }

void *vp_memcpy(void *a, const void *b, size_t n);
void *vp_memcpy(void *a, const void *b, size_t n) { work += n + 1; return memcpy(a, b, n); }
void *vp_memmove(void *a, const void *b, size_t n);
void *vp_memmove(void *a, const void *b, size_t n) { work += n + 1; return memmove(a, b, n); }
void *vp_memset(void *a, int c, size_t n);
void *vp_memset(void *a, int c, size_t n) { work += n + 1; return memset(a, c, n); }
int vp_memcmp(const void *a, const void *b, size_t n);
int vp_memcmp(const void *a, const void *b, size_t n) { work += n + 1; return memcmp(a, b, n); }
size_t vp_strlen(const char *s);
size_t vp_strlen(const char *s) { size_t n = strlen(s); work += n + 1; return n; }

/* ---- the painted stack ---------------------------------------------------- */

static uint64_t *stk, *stk_top;
static ucontext_t mine, theirs;
static struct call { int kind; const mdesc *d; const fdesc *f; const tree *t; void *m; uint8_t *p; size_t n; int res; void *ret; } C;
static size_t used;              /* bytes of stack */
static uint8_t *pat;
#define PAINT 0x5ca1ab1edeadc0deull

void h_init(void)
{
    size_t i, big = ((size_t)96 << K) + (1 << 20);
    if (big < (size_t)2 << KLEN) big = (size_t)2 << KLEN;
    region_init(&ws, big);
    region_init(&in, big);
    region_init(&out, big);
    stk = mmap(NULL, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (stk == MAP_FAILED) fail("HARNESS: no stack");
    mprotect(stk, 4096, PROT_NONE);
    stk += 512;
    pat = malloc((size_t)2 << KLEN);
    if (!pat) fail("HARNESS: no memory");
    for (i = 0; i < (size_t)2 << KLEN; i++) pat[i] = (uint8_t)(1 + i % 127);
    stk_top = stk + STACK / 8;
    for (i = 0; i < STACK / 8; i++) stk[i] = PAINT;
}

static void tramp(void)
{
    switch (C.kind) {
    case 0: C.ret = C.d->new_(C.p, C.n); break;
    case 1: C.res = build(C.t, C.m); break;
    case 2: C.res = C.d->encode(C.m, C.p, C.n); break;
    case 3: C.res = C.d->decode(C.m, C.p, C.n); break;
    case 5: C.res = C.f->alloc_n(C.m, (int)C.n); break;
    default: C.ret = (void *)(uintptr_t)pbtools_error_code_to_string(C.res);
    }
}

static const char *const calls[] = {"new", "filling", "encode", "decode", "error_code_to_string", "alloc"};

/* One call of the code under test; gives its work, and its stack in used. */
static uint64_t go(bool measure)
{
    uint64_t *p;
    what = calls[C.kind];
    work = 0;
    st_call(1);
    used = 0;
    if (!measure) { tramp(); return work; }
    getcontext(&theirs);
    theirs.uc_stack.ss_sp = stk;
    theirs.uc_stack.ss_size = STACK;
    theirs.uc_link = &mine;
    makecontext(&theirs, tramp, 0);
    swapcontext(&mine, &theirs);
    for (p = stk; p < stk_top && *p == PAINT; p++) {}
    used = (size_t)((uint8_t *)stk_top - (uint8_t *)p);
    for (; p < stk_top; p++) *p = PAINT;
    return work;
}

static void *mk(const mdesc *d, size_t size, uint8_t fill)
{
    uint8_t *p = region_set(&ws, size, 0);
    memset(p, fill, size < 4096 ? size : 4096);
    C = (struct call){.kind = 0, .d = d, .p = p, .n = size};
    go(false);
    return C.ret;
}

static uint64_t fill(const tree *t, void *m, bool measure)
{
    C = (struct call){.kind = 1, .d = t->d, .t = t, .m = m};
    return go(measure);
}

static uint64_t enc(const mdesc *d, void *m, uint8_t *p, size_t n, bool measure)
{
    C = (struct call){.kind = 2, .d = d, .m = m, .p = p, .n = n};
    return go(measure);
}

static uint64_t dec(const mdesc *d, void *m, uint8_t *p, size_t n, bool measure)
{
    C = (struct call){.kind = 3, .d = d, .m = m, .p = p, .n = n};
    return go(measure);
}

/* ---- growth --------------------------------------------------------------- */

/* Series of measurements for growing n. */
typedef struct series { uint64_t w; size_t n, s0; int count; } series;
enum { S_FILL, S_ENC, S_SHORT, S_DEC, S_TIGHT, S_CUT, S_TIMES };
static const char *const sn[] = {"filling", "encode", "encode into a short buffer", "decode", "decode in a short workspace", "decode of a part"};

/* Work: doubling the size at most trebles it. Stack: as for small sizes. */
static void grow(series *s, int k, uint64_t w, size_t n, bool exact, const char *about)
{
    s += k;
    if (s->count < 4) { if (used > s->s0) s->s0 = used; }
    else if (used > s->s0 + 1024)
        fail("%s: %s needs %zu bytes of stack for size %zu, and %zu for small sizes", about, sn[k], used, n, s->s0);
    if (exact) {
        if (s->n && w > 3 * s->w + 4000)
            fail("%s: %s takes %llu steps for size %zu, and %llu for size %zu: more than linear", about, sn[k], (unsigned long long)w, n, (unsigned long long)s->w, s->n);
        s->w = w;
        s->n = n;
    }
    s->count++;
}

static void all_ops(series *s, const tree *t, size_t n, bool exact, const char *about)
{
    const mdesc *d = t->d;
    size_t want = ref_size(t), need = ws.cap - 4096, tight;
    void *m = mk(d, need, 0xa5);
    uint8_t *p, *q;
    uint64_t w;
    if (!m) fail("%s: new() fails", about);
    w = fill(t, m, true);
    if (C.res) fail("%s: cannot be filled in %zu bytes", about, need);
    grow(s, S_FILL, w, n, exact, about);
    p = region_set(&out, want, 0);
    w = enc(d, m, p, want, true);
    if (C.res < 0 || (size_t)C.res != want) fail("%s: encode returns %d, not %zu", about, C.res, want);
    grow(s, S_ENC, w, n, exact, about);
    q = region_set(&in, want, 0);
    memcpy(q, p, want);
    if (want) {
        p = region_set(&out, want - 1, 0);
        w = enc(d, m, p, want - 1, true);
        grow(s, S_SHORT, w, n, exact, about);
    }
    m = mk(d, need, 0x5a);
    w = dec(d, m, q, want, true);
    if (C.res < 0 || (size_t)C.res != want) fail("%s: decode returns %d, not %zu", about, C.res, want);
    grow(s, S_DEC, w, n, exact, about);
    tight = d->size + 64 + want / 2;
    if ((m = mk(d, tight, 0x5a))) {
        w = dec(d, m, q, want, true);
        grow(s, S_TIGHT, w, n, exact, about);
    }
    if (want) {
        m = mk(d, need, 0x33);
        w = dec(d, m, q, want - 1, true);
        grow(s, S_CUT, w, n, exact, about);
    }
    st_state(hash_u64(hash_bytes(7, q, want > 64 ? 64 : want), want));
    st_trace();
}

/* The contents of size n in one of the shapes. */
static bool shape_tree(tree *t, int fi, int shape, size_t n)
{
    const mdesc *d = t->d;
    const fdesc *f = &d->f[fi];
    tfield *x = &t->f[fi];
    size_t i;
    int j;
    bool rep = f->card == C_REPEATED;
    if (shape >= 4)
        for (j = 0; j < d->nf; j++)
            if (j != fi && d->f[j].oneof < 0 && d->f[j].kind != K_MSG) *tf_add(&t->f[j]) = typical_val(&d->f[j], j, NULL);
    switch (shape & 3) {
    case 0:                                      /* payload */
        if (!is_len(f)) return false;
        *tf_add(x) = (val){.p = pat, .n = n};
        return true;
    case 1:                                      /* items */
        if (!rep) return false;
        for (i = 0; i < n; i++) {
            val *v = tf_add(x);
            if (f->kind == K_MSG) {
                const fdesc *g = f->sub->nf ? &f->sub->f[0] : NULL;
                v->m = tree_new(f->sub);
                if (i & 1 && g && g->kind != K_MSG && g->oneof < 0) *tf_add(&v->m->f[0]) = typical_val(g, 1, NULL);
            }
            else if (is_len(f)) *v = (val){.p = big_pattern, .n = i % 3};
            else *v = typical_val(f, (int)(i & 15), NULL);
        }
        return true;
    case 2:                                      /* payload in the sub-message */
    default:                                     /* items in the sub-message */
        if (f->kind != K_MSG) return false;
        for (j = 0; j < f->sub->nf; j++) {
            const fdesc *g = &f->sub->f[j];
            if ((shape & 3) == 2 ? is_len(g) && g->oneof < 0 : g->card == C_REPEATED) {
                tree *s = tree_new(f->sub);
                tf_add(x)->m = s;
                if ((shape & 3) == 2) { *tf_add(&s->f[j]) = (val){.p = pat, .n = n}; return true; }
                for (i = 0; i < n; i++) {
                    val *v = tf_add(&s->f[j]);
                    if (g->kind == K_MSG) v->m = tree_new(g->sub);
                    else if (is_len(g)) *v = (val){.p = big_pattern, .n = 1};
                    else *v = typical_val(g, 3, NULL);
                }
                return true;
            }
        }
        return false;
    }
}

/* ---- roots ----------------------------------------------------------------- */

static const char *nm[] = {"small contents", "record sequences", "growing sizes", "growing mixtures", "nesting", "growing workspaces and buffers"};
const char *h_outcome_name(int k) { return k < 6 ? nm[k] : NULL; }

void h_run(int ri)
{
    const root *r = &roots[ri];
    const mdesc *d = all_msgs[r->msg];
    char about[200];
    size_t mark = ar_mark();
    st_outcome(r->kind > 5 ? 0 : r->kind);
    switch (r->kind) {
    case R_SIZE: {
        int shape = ch(8), k, delta;
        series s[S_TIMES] = {{0}};
        snprintf(about, sizeof(about), "%s.%s (shape %d)", d->name, d->f[r->x].name, shape);
        for (k = -2; k <= (shape & 1 ? K : KLEN); k++) for (delta = -1; delta <= 1; delta++) {
            size_t n;
            tree *t;
            if (k <= 1 && delta) continue;
            n = k < 0 ? (size_t)(k + 2) : ((size_t)1 << k) + (size_t)delta;
            t = tree_new(d);
            if (!shape_tree(t, r->x, shape, n)) { ar_release(mark); return; }
            all_ops(s, t, n, delta == 0, about);
            ar_release(mark);
        }
        if (want_sample()) sample("%s: 2^%d: decode takes %llu steps", about, shape & 1 ? K : KLEN, (unsigned long long)s[S_DEC].w);
        break;
    }
    case R_PAIR: {                               /* n of each, alternating or in blocks; also ended by a defect */
        int y = ch(G[r->msg].n), mode = ch(2), k, top = K - 4;
        tok a = G[r->msg].t[r->x], b = G[r->msg].t[y];
        series s[S_TIMES] = {{0}};
        snprintf(about, sizeof(about), "%s: %s and %s, %s", d->name, hexs(a.p, a.n), hexs(b.p, b.n), mode ? "in blocks" : "alternating");
        for (k = -2; k <= top; k++) {
            size_t n = k < 0 ? (size_t)(k + 2) : (size_t)1 << k, i, len = n * (a.n + b.n);
            uint8_t *p = region_set(&in, len, 0), *q = p;
            uint64_t w;
            void *m;
            for (i = 0; i < 2 * n; i++) {
                const tok *t = (mode ? i < n : !(i & 1)) ? &a : &b;
                memcpy(q, t->p, t->n);
                q += t->n;
            }
            m = mk(d, ws.cap - 4096, 0xa5);
            w = dec(d, m, p, len, true);
            if (C.res < 0 || (size_t)C.res != len) fail("%s: %zu times: decode returns %d, not %zu", about, n, C.res, len);
            grow(s, S_DEC, w, n, true, about);
            st_state(hash_u64(hash_u64(hash_u64(3, (uint64_t)ri), (uint64_t)y), n * 2 + (size_t)mode));
        }
        st_trace();
        break;
    }
    case R_SMALL: {
        tree *t = tree_new(d);
        size_t want, n;
        uint8_t *p, *q;
        void *m;
        if (r->x >= 0) gen_tree_from(t, &cfg, r->x);
        else (void)ch(1);
        want = ref_size(t);
        m = mk(d, ws.cap - 4096, 0xa5);
        if (!m) fail("new() fails");
        fill(t, m, false);
        if (C.res) fail("cannot be filled");
        p = region_set(&out, want, 0);
        enc(d, m, p, want, false);
        if (C.res < 0 || (size_t)C.res != want) fail("encode returns %d, not %zu", C.res, want);
        q = region_set(&in, want, 0);
        memcpy(q, p, want);
        if (want) { p = region_set(&out, want - 1, 0); enc(d, m, p, want - 1, false); p = region_set(&out, want / 2, 0); enc(d, m, p, want / 2, false); }
        m = mk(d, ws.cap - 4096, 0x5a);
        dec(d, m, q, want, false);
        if (C.res < 0 || (size_t)C.res != want) fail("decode returns %d, not %zu", C.res, want);
        for (n = d->size; n < d->size + want + 96; n += 24) {
            if ((m = mk(d, n, 0x5a))) dec(d, m, q, want, false);
            if ((m = mk(d, n, 0x5a))) fill(t, m, false);
        }
        st_state(hash_bytes(tree_hash(1, t), q, want));
        st_trace();
        break;
    }
    case R_SEQ: {
        int y = ch(A[r->msg].n + 1), i;
        tok a = A[r->msg].t[r->x], b = {0};
        size_t len = a.n, sizes[3] = {ws.cap - 4096, d->size + 24, d->size + 80};
        uint8_t *p;
        if (y) { b = A[r->msg].t[y - 1]; len += b.n; }
        p = region_set(&in, len, 0);
        memcpy(p, a.p, a.n);
        if (y) memcpy(p + a.n, b.p, b.n);
        for (i = 0; i < 3; i++) {
            void *m = mk(d, sizes[i], 0xa5);
            if (!m) continue;
            dec(d, m, p, len, false);
            st_state(hash_u64(hash_bytes(hash_u64(5, (uint64_t)r->msg), p, len), (uint64_t)C.res));
        }
        st_trace();
        break;
    }
    case R_NEST: {                               /* through a sub-message, repeated, and a oneof */
        const mdesc *rec = msg_by_name("v.Rec") ? msg_by_name("v.Rec") : msg_by_name("v_rec");
        int fi = 1 + r->x, n, i, siblings = ch(2), op;
        size_t s1[S_TIMES] = {0}, s2[S_TIMES] = {0};
        uint64_t w, h[S_TIMES][200];
        memset(h, 0, sizeof(h));
        if (!rec) fail("HARNESS: no recursive message");
        snprintf(about, sizeof(about), "%s.%s", rec->name, rec->f[fi].name);
        for (n = 1; n <= (eng_thorough ? 180 : 96); n++) {
            tree *t = tree_new(rec), *x = t;
            size_t want;
            uint8_t *p, *q, *wire = NULL;
            void *m;
            for (i = 0; i < n; i++) {
                tree *c = tree_new(rec);
                if (siblings) *tf_add(&c->f[0]) = typical_val(&rec->f[0], 1, NULL);
                tf_add(&x->f[fi])->m = c;
                if (siblings && rec->f[fi].card == C_REPEATED) tf_add(&x->f[fi])->m = tree_new(rec);
                x = c;
            }
            want = ref_size(t);
            for (op = S_ENC; op <= S_CUT; op++) {
                if (op == S_TIGHT) continue;
                m = mk(rec, ws.cap - 4096, 0xa5);
                if (op == S_ENC || op == S_SHORT) {
                    fill(t, m, false);
                    if (C.res) fail("HARNESS: nesting");
                    p = region_set(&out, want - (op == S_SHORT), 0);
                    w = enc(rec, m, p, want - (op == S_SHORT), true);
                    if (op == S_ENC) { wire = ar_alloc(want); memcpy(wire, p, want); }
                } else {
                    q = region_set(&in, want, 0);
                    memcpy(q, wire, want);
                    w = dec(rec, m, q, want - (op == S_CUT), true);
                }
                if (op == S_ENC || op == S_DEC ? C.res < 0 || (size_t)C.res != want : C.res >= 0)
                    fail("%s: nested %d deep, %s returns %d", about, n, sn[op], C.res);
                if (n == 1) s1[op] = used;
                else if (n == 2) s2[op] = used > s1[op] ? used - s1[op] : 0;
                else if (used > s1[op] + (size_t)(n - 1) * (s2[op] + 64) + 512)
                    fail("%s: %s needs %zu bytes of stack for nesting %d, %zu for 1 and %zu more for 2", about, sn[op], used, n, s1[op], s2[op]);
                h[op][n] = w;
                if (n % 2 == 0 && w > 3 * h[op][n / 2] + 4000)
                    fail("%s: %s takes %llu steps for nesting %d, and %llu for %d: more than linear", about, sn[op], (unsigned long long)w, n, (unsigned long long)h[op][n / 2], n / 2);
            }
            st_state(hash_u64(hash_u64(9, want), (uint64_t)fi));
            ar_release(mark);
        }
        if (siblings) sample("%s: nesting %d: decode takes %llu steps and %zu bytes of stack", about, n - 1, (unsigned long long)h[S_DEC][n - 1], used);
        st_trace();
        break;
    }
    case R_ROOM: {                               /* the same contents with more and more room */
        tree *t = tree_new(d);
        size_t want, room;
        uint64_t first[4] = {0};
        uint8_t *p, *q;
        int k, j, n = 0;
        (void)ch(1);
        for (j = 0; j < d->nf; j++) if ((r->x < 0 || r->x == j) && d->f[j].kind != K_MSG) {
            if (d->f[j].oneof >= 0 && r->x < 0) continue;
            *tf_add(&t->f[j]) = typical_val(&d->f[j], j, NULL);
        }
        want = ref_size(t);
        for (k = 4; k <= KLEN; k++) for (j = 0; j < 4; j++) {
            static const char *const ops[] = {"new", "filling", "encode", "decode"};
            uint64_t w;
            void *m;
            int op;
            room = ((size_t)4 + (size_t)j) << (k - 2);
            for (op = 0; op < 4; op++) {
                m = mk(d, room, 0xa5);
                w = work;
                if (!m) break;
                if (op) {
                    if (op < 3) w = fill(t, m, false);
                    if (op < 3 && C.res) break;
                    if (op == 2) {
                        p = region_set(&out, room, 0);
                        w = enc(d, m, p, room, false);
                        if (C.res < 0) break;
                    }
                    if (op == 3) {
                        obuf e;
                        ob_init(&e, want + 16);
                        ref_encode(&e, t);
                        q = region_set(&in, e.n, 0);
                        memcpy(q, e.p, e.n);
                        w = dec(d, m, q, e.n, false);
                        if (C.res < 0) break;
                    }
                }
                if (!first[op]) first[op] = w + 1;
                else if (w > first[op] + 1000)
                    fail("%s: %s of %zu bytes takes %llu steps with a workspace and buffer of %zu bytes, and %llu with small ones", d->name, ops[op], want, (unsigned long long)w, room, (unsigned long long)first[op]);
                n++;
            }
            ar_release(mark);
            t = tree_new(d);
            for (op = 0; op < d->nf; op++) if ((r->x < 0 || r->x == op) && d->f[op].kind != K_MSG) {
                if (d->f[op].oneof >= 0 && r->x < 0) continue;
                *tf_add(&t->f[op]) = typical_val(&d->f[op], op, NULL);
            }
        }
        if (n == 0) fail("HARNESS: no room");
        /* requests that cannot be granted cost nothing */
        if (r->x >= 0 && d->f[r->x].alloc_n) for (k = 10; k <= 31; k++) for (j = -1; j <= 0; j++) {
            void *m = mk(d, 1024, 0xa5);
            if (!m) break;
            C = (struct call){.kind = 5, .d = d, .f = &d->f[r->x], .m = m, .n = ((size_t)1 << k) + (size_t)j - (k == 31 && j == 0)};
            go(false);
            if (C.res != 0 && work > 1000) fail("%s.%s: a request for %zu items fails after %llu steps", d->name, d->f[r->x].name, C.n, (unsigned long long)work);
        }
        st_state(hash_u64(hash_u64(11, (uint64_t)ri), want));
        st_trace();
        break;
    }
    default: {
        int i;
        (void)ch(1);
        for (i = -70000; i <= 70000; i++) { C = (struct call){.kind = 4, .res = i}; go(false); }
        st_trace();
    }
    }
}
