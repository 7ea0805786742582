/* C10: interleavings of threads that use separate workspaces.
 *
 * The library and the generated code are compiled with -fsanitize=thread but
 * linked with the hooks below instead of the TSan runtime: every load and
 * store of the code under test is a scheduling point and is checked for
 * conflicts with the other threads.  Only one thread runs at a time. */
#include "model.h"
#include "records.h"
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>

const char *h_name = "threads";
#define NT 3
#define WS 4096

typedef struct body {
    int msg, what;
    tree *t;
    uint8_t *wire;
    size_t n, wsz, cap;
    bool known;                  /* what it gives alone */
    uint64_t alone;
} body;
static body *bodies;
static int nb;

typedef struct root { int n, b[NT]; int bound; } root;
static root *roots;
static int nr;

/* ---- scheduler ---------------------------------------------------------- */

static struct thr {
    pthread_t id;
    sem_t go;
    bool live, started;
    const body *b;
    uint8_t *ws, *buf;
    void *m;
    int res, res2;
    uint64_t digest;
    size_t acc;
} T[NT];
static int nthr, cur = -1;
static sem_t idle;
static uint64_t epoch, switches;
static __thread int self = -1;

/* shadow: which threads read and wrote each byte of an 8-byte granule */
#define SH (1u << 16)
static struct shadow { uint64_t epoch; uintptr_t g; uint8_t rd[NT], wr[NT], at[NT]; } shadow[SH];
static size_t nshadow;

static void race(const void *p, size_t n, bool wr, int other)
{
    fail("data race: threads %d and %d access the same %zu bytes at %p (%s) without synchronisation", other, self, n, p, wr ? "write" : "read");
}

static void note(const void *p_, size_t n, bool wr, bool atomic)
{
    uintptr_t p = (uintptr_t)p_, g;
    size_t i;
    while (n > 0) {
        uint8_t mask = 0;
        struct shadow *s;
        uint32_t h;
        int k;
        g = p & ~(uintptr_t)7;
        for (i = p - g; i < 8 && n > 0; i++, n--, p++) mask |= (uint8_t)(1u << i);
        h = (uint32_t)((g * 0x9e3779b97f4a7c15ull) >> 48);
        for (;; h = (h + 1) & (SH - 1)) {
            s = &shadow[h];
            if (s->epoch != epoch) {
                memset(s, 0, sizeof(*s));
                s->epoch = epoch;
                s->g = g;
                if (++nshadow > SH - 64) fail("HARNESS: shadow full");
                break;
            }
            if (s->g == g) break;
        }
        for (k = 0; k < nthr; k++) {
            uint8_t c;
            if (k == self) continue;
            c = (uint8_t)(mask & (wr ? s->rd[k] | s->wr[k] : s->wr[k]));
            if (atomic) c &= (uint8_t)~s->at[k];
            if (c) race((void *)g, 8, wr, k);
        }
        if (wr) s->wr[self] |= mask;
        else s->rd[self] |= mask;
        if (atomic) s->at[self] |= mask;
    }
}

static void yield_to(int k)
{
    int me = self;
    switches++;
    cur = k;
    sem_post(&T[k].go);
    sem_wait(&T[me].go);
}

static void point(void)
{
    int i, n = 0, alt[NT], c;
    for (i = 0; i < nthr; i++) if (i != self && T[i].live) alt[n++] = i;
    T[self].acc++;
    if (n == 0) return;
    c = dev(1 + n);
    if (c) yield_to(alt[c - 1]);
}

static void access_hook(const void *p, size_t n, bool wr, bool atomic)
{
    if (self < 0) return;
    point();
    note(p, n, wr, atomic);
}

#define RW(n) \
    void __tsan_read##n(void *p); void __tsan_read##n(void *p) { access_hook(p, n, false, false); } \
    void __tsan_write##n(void *p); void __tsan_write##n(void *p) { access_hook(p, n, true, false); } \
    void __tsan_unaligned_read##n(void *p); void __tsan_unaligned_read##n(void *p) { access_hook(p, n, false, false); } \
    void __tsan_unaligned_write##n(void *p); void __tsan_unaligned_write##n(void *p) { access_hook(p, n, true, false); } \
    void __tsan_volatile_read##n(void *p); void __tsan_volatile_read##n(void *p) { access_hook(p, n, false, false); } \
    void __tsan_volatile_write##n(void *p); void __tsan_volatile_write##n(void *p) { access_hook(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n); void __tsan_read_range(void *p, size_t n) { access_hook(p, n, false, false); }
void __tsan_write_range(void *p, size_t n); void __tsan_write_range(void *p, size_t n) { access_hook(p, n, true, false); }
void __tsan_func_entry(void *p); void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void); void __tsan_func_exit(void) {}
void __tsan_init(void); void __tsan_init(void) {}
void __tsan_vptr_update(void *p, void *v); void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; }
#define AT(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty *p, int o); \
    ty __tsan_atomic##bits##_load(const volatile ty *p, int o) { (void)o; access_hook((const void *)p, sizeof(ty), false, true); return *p; } \
    void __tsan_atomic##bits##_store(volatile ty *p, ty v, int o); \
    void __tsan_atomic##bits##_store(volatile ty *p, ty v, int o) { (void)o; access_hook((const void *)p, sizeof(ty), true, true); *p = v; } \
    ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int o); \
    ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int o) { ty x; (void)o; access_hook((const void *)p, sizeof(ty), true, true); x = *p; *p = v; return x; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int o); \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int o) { ty x; (void)o; access_hook((const void *)p, sizeof(ty), true, true); x = *p; *p = (ty)(x + v); return x; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int o); \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int o) { ty x; (void)o; access_hook((const void *)p, sizeof(ty), true, true); x = *p; *p = (ty)(x - v); return x; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int o); \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int o) { ty x; (void)o; access_hook((const void *)p, sizeof(ty), true, true); x = *p; *p = (ty)(x | v); return x; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int o); \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int o) { ty x; (void)o; access_hook((const void *)p, sizeof(ty), true, true); x = *p; *p = (ty)(x & v); return x; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int o, int f); \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int o, int f) { (void)o; (void)f; access_hook((const void *)p, sizeof(ty), true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int o, int f); \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int o, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty e, ty v, int o, int f); \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty e, ty v, int o, int f) { (void)__tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, f); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o); void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o); void __tsan_atomic_signal_fence(int o) { (void)o; }

/* memory functions called by the code under test (it is built with -Dmemcpy=ut_memcpy ...) */
void *ut_memcpy(void *d, const void *s, size_t n) { if (n) { access_hook(s, n, false, false); access_hook(d, n, true, false); } return memcpy(d, s, n); }
void *ut_memmove(void *d, const void *s, size_t n) { if (n) { access_hook(s, n, false, false); access_hook(d, n, true, false); } return memmove(d, s, n); }
void *ut_memset(void *d, int c, size_t n) { if (n) access_hook(d, n, true, false); return memset(d, c, n); }
size_t ut_strlen(const char *s) { size_t n = strlen(s); access_hook(s, n + 1, false, false); return n; }

/* ---- thread bodies -------------------------------------------------------- */

static const char *what_name[] = {"encode", "decode", "decode and encode", "errors", "decode anything", "build and encode", "error strings"};
const char *ut_last_error;
extern const char *pbtools_error_code_to_string(int code);

static void run_body(struct thr *t)
{
    const mdesc *d = all_msgs[t->b->msg];
    int i;
    t->m = d->new_(t->ws, t->b->wsz);
    t->res = t->res2 = -100;
    t->digest = 0;
    if (!t->m) return;
    switch (t->b->what) {
    case 0:
        if (build(t->b->t, t->m)) return;
        t->res = d->encode(t->m, t->buf, 512);
        break;
    case 1:
        t->res = d->decode(t->m, t->b->wire, t->b->n);
        break;
    case 2:
        t->res = d->decode(t->m, t->b->wire, t->b->n);
        t->res2 = d->encode(t->m, t->buf, 512);
        break;
    case 3:
        t->res = d->decode(t->m, t->b->wire, t->b->n - 1);
        t->res2 = pbtools_error_code_to_string(t->res) != NULL;
        break;
    case 4:
    case 5:
        if (t->b->what == 4) t->res = d->decode(t->m, t->b->wire, t->b->n);
        else t->res = build(t->b->t, t->m);
        t->digest = hash_u64(4, (uint64_t)t->res);
        if (t->res < 0) {
            const char *s = pbtools_error_code_to_string(t->res);
            t->digest = hash_bytes(t->digest, s, strlen(s));
            break;
        }
        t->digest = msg_hash(t->digest, d, t->m);
        t->res2 = d->encode(t->m, t->buf, t->b->cap);
        t->digest = hash_u64(t->digest, (uint64_t)t->res2);
        if (t->res2 > 0) t->digest = hash_bytes(t->digest, t->buf, (size_t)t->res2);
        break;
    case 6: {
        const char *s[24];
        for (i = 0; i < 24; i++) s[i] = pbtools_error_code_to_string(i == 20 ? INT_MIN : i == 21 ? INT_MAX : i == 22 ? 1000 : i == 23 ? -1000 : i - 10);
        for (i = 0; i < 24; i++) t->digest = hash_bytes(t->digest, s[i], strlen(s[i]));
        break;
    }
    }
}

/* The variables of the code under test, if it has any, start every execution as in a fresh process. */
extern char __start_ut_globals[] __attribute__((weak)), __stop_ut_globals[] __attribute__((weak));
static char *pristine;

static void reset_globals(void)
{
    size_t n = (size_t)(__stop_ut_globals - __start_ut_globals);
    if (n == 0) return;
    if (!pristine) memcpy(pristine = malloc(n), __start_ut_globals, n);
    else memcpy(__start_ut_globals, pristine, n);
}

static void next_thread(void)
{
    int i, n = 0, alt[NT], c;
    for (i = 0; i < nthr; i++) if (T[i].live) alt[n++] = i;
    if (n == 0) { cur = -1; sem_post(&idle); return; }
    c = ch(n);                   /* the running thread ended: a free choice */
    cur = alt[c];
    sem_post(&T[cur].go);
}

static void *thread_main(void *p)
{
    struct thr *t = p;
    for (;;) {
        sem_wait(&t->go);
        self = (int)(t - T);
        run_body(t);
        t->live = false;
        self = -1;
        next_thread();
    }
    return NULL;
}

static void add_root(int n, int a, int b, int c, int bound)
{
    roots = realloc(roots, sizeof(root) * (size_t)(nr + 1));
    roots[nr++] = (root){n, {a, b, c}, bound};
}

static const gencfg g0;

static tree *typical_tree(const mdesc *d, int depth, int variant)
{
    tree *t = tree_new(d);
    int i;
    for (i = 0; i < d->nf; i++) {
        const fdesc *f = &d->f[i];
        val v;
        if (f->oneof >= 0) {
            int j, seen = 0;
            for (j = 0; j < i; j++) if (d->f[j].oneof == f->oneof && t->f[j].n) seen = 1;
            if (seen || ((i + variant) % 2 && i + 1 < d->nf && d->f[i + 1].oneof == f->oneof)) continue;
        }
        if (f->kind == K_MSG) {
            if (depth == 0) continue;
            tf_add(&t->f[i])->m = typical_tree(f->sub, depth - 1, variant);
            if (f->card == C_REPEATED && variant) tf_add(&t->f[i])->m = typical_tree(f->sub, depth - 1, 0);
            continue;
        }
        v = typical_val(f, 2 * variant, &g0);
        *tf_add(&t->f[i]) = v;
        if (f->card == C_REPEATED) *tf_add(&t->f[i]) = typical_val(f, 4 + variant, &g0);
    }
    return t;
}

/* messages in messages; 1 if there is no end or too many */
static int height(const mdesc *d, int left)
{
    int i, h = 0;
    for (i = 0; i < d->nf; i++)
        if (d->f[i].kind == K_MSG) {
            int k = left ? 1 + height(d->f[i].sub, left - 1) : 99;
            if (k > h) h = k;
        }
    return h;
}

static int reach(const mdesc *d)
{
    int h = height(d, 8);
    return h > 8 || d->nf > 5 || h < 1 ? 1 : h;
}

static int nplain;

static int weight(int i) { return (int)bodies[i].n + 3 * all_msgs[bodies[i].msg]->nf; }

/* preemption bound of a pair, by size */
static int bound_for(int i, int j)
{
    int w = weight(i) + weight(j);
    if (eng_thorough) return w < 30 ? 3 : w < 150 ? 2 : 1;
    return w < 56 ? 2 : 1;
}

int h_nroots(void)
{
    int i, j, k;
    reset_globals();
    ar_setup();
    nb = 0;
    bodies = calloc(20000, sizeof(body));
    for (i = 0; i < n_all_msgs; i++)
        for (k = 0; k < 4; k++) {
            body *b = &bodies[nb];
            obuf o;
            if (all_msgs[i]->nf == 0) continue;
            if (all_msgs[i]->nf > 10 && k != 2 && !eng_thorough) continue;
            b->msg = i;
            b->what = k;
            b->t = typical_tree(all_msgs[i], reach(all_msgs[i]), k & 1);
            ob_init(&o, 256);
            ref_encode(&o, b->t);
            b->wire = malloc(o.n);
            memcpy(b->wire, o.p, o.n);
            b->n = o.n;
            b->wsz = WS;
            nb++;
        }
    nplain = nb;
    /* each kind of body with itself and with the other kinds, on the same and on other types */
    for (i = 0; i < nplain; i++) {
        add_root(2, i, i, 0, bound_for(i, i));
        for (j = i + 1; j < nplain && j < i + (eng_thorough ? 9 : 5); j++) add_root(2, i, j, 0, bound_for(i, j));
        if (i + 5 < nplain) {
            int small = weight(i) + weight(i + 2) + weight(i + 5) < (eng_thorough ? 60 : 36);
            add_root(3, i, i + 2, i + 5, small ? (eng_thorough ? 2 : 1) : 0);
        }
    }
    /* everything else that a thread may do, in itself and against the next one */
    for (i = 0; i < n_all_msgs; i++) {
        const mdesc *d = all_msgs[i];
        alpha v = valid(d, 1, 1), w = bad(d, 1, 1);
        tree *t = typical_tree(d, reach(d), 1);
        size_t size = ref_size(t), c;
        obuf o;
        int first = nb;
        for (j = 0; j < v.n + w.n; j++) {
            tok *x = j < v.n ? &v.t[j] : &w.t[j - v.n];
            ob_init(&o, 64);
            if (v.n) ob_bytes(&o, v.t[0].p, v.t[0].n);
            ob_bytes(&o, x->p, x->n);
            if (j + 1 < v.n) ob_bytes(&o, v.t[j + 1].p, v.t[j + 1].n);
            for (k = 0; k < (eng_thorough ? 3 : 1); k++) {
                body *b = &bodies[nb++];
                b->msg = i; b->what = 4; b->wire = o.p; b->n = o.n; b->cap = k == 1 ? o.n / 2 : 900; b->wsz = k == 2 ? 24 + d->size + 12 : WS;
            }
        }
        ob_init(&o, 256);                                    /* all of them at once */
        for (j = 0; j < v.n && o.n < 300; j++) ob_bytes(&o, v.t[j].p, v.t[j].n);
        for (k = 0; k < 4; k++) {
            body *b = &bodies[nb++];
            b->msg = i; b->what = 4; b->wire = o.p; b->n = o.n; b->cap = k == 1 ? o.n / 2 : 900; b->wsz = k < 2 ? WS : 24 + d->size + 20 * (size_t)k;
        }
        for (c = 0; c < 4; c++) for (k = 0; k < 3; k++) {
            body *b = &bodies[nb++];
            b->msg = i; b->what = 5; b->t = t; b->cap = c == 0 ? 0 : c == 1 ? size / 2 : c == 2 ? size - (size > 0) : size + 3;
            b->wsz = k == 0 ? WS : 24 + d->size + 24 * (size_t)k;
        }
        bodies[nb].wsz = WS; bodies[nb].msg = i; bodies[nb++].what = 6;
        if (nb > 19000) fail("HARNESS: too many bodies");
        for (j = first; j < nb; j++) {
            int bnd = bodies[j].n + 2 * (size_t)d->nf < (eng_thorough ? 60 : 12) ? 1 : 0;
            add_root(2, j, j, 0, bnd);
            if (j + 1 < nb) add_root(2, j, j + 1, 0, 0);
            if (j + 7 < nb) add_root(3, j, j + 2, j + 7, 0);
        }
    }
    return nr;
}

void h_describe(int r, char *b, size_t n)
{
    int i;
    size_t at = 0;
    b[0] = 0;
    for (i = 0; i < roots[r].n && at < n; i++) {
        const body *x = &bodies[roots[r].b[i]];
        at += (size_t)snprintf(b + at, n - at, "thread %d: %s %s; ", i, what_name[x->what], all_msgs[x->msg]->name);
    }
}

void h_init(void)
{
    int i;
    sem_init(&idle, 0, 0);
    for (i = 0; i < NT; i++) {
        sem_init(&T[i].go, 0, 0);
        T[i].ws = malloc(WS + 64);
        T[i].ws += 64 - ((uintptr_t)T[i].ws & 63);
        T[i].buf = malloc(1024);
        pthread_create(&T[i].id, NULL, thread_main, &T[i]);
    }
}

void h_run(int ri)
{
    const root *r = &roots[ri];
    int i;
    const char *e;
    size_t total = 0;
    eng_bound = r->bound;
    nthr = r->n;
    epoch++;
    nshadow = 0;
    switches = 0;
    for (i = 0; i < nthr; i++) {
        body *b = &bodies[r->b[i]];
        T[i].b = b;
        if (b->what >= 4 && !b->known) {
            memset(T[i].ws, 0xa5 + i, WS);
            memset(T[i].buf, 0xee, 512);
            reset_globals();
            run_body(&T[i]);
            b->known = true;
            b->alone = T[i].digest;
        }
        memset(T[i].ws, 0xa5 + i, WS);
        memset(T[i].buf, 0xee, 512);
        T[i].live = true;
        T[i].acc = 0;
    }
    reset_globals();
    next_thread();
    sem_wait(&idle);
    for (i = 0; i < nthr; i++) {
        const body *b = T[i].b;
        st_call(2);
        total += T[i].acc;
        if (b->what >= 4) {
            if (T[i].digest != b->alone)
                fail("thread %d: %s %s of %s gives another result than alone", i, what_name[b->what], all_msgs[b->msg]->name, hexs(b->wire, b->n));
            st_state(hash_u64(hash_u64(10, (uint64_t)ri), (uint64_t)i * 7 + T[i].digest));
            continue;
        }
        if (!T[i].m) fail("thread %d: new() fails", i);
        switch (b->what) {
        case 0:
            if (T[i].res < 0 || (size_t)T[i].res != b->n) fail("thread %d: encode gives %d, alone %zu", i, T[i].res, b->n);
            {
                rdres rr = {0};
                tree *t;
                rr.ws = WS;
                t = ref_decode(all_msgs[b->msg], T[i].buf, b->n, &rr, NULL);
                if (rr.errs || (e = tree_diff(b->t, t))) fail("thread %d: encodes other data than alone: %s", i, hexs(T[i].buf, b->n));
            }
            break;
        case 1:
        case 2:
            if (T[i].res < 0 || (size_t)T[i].res != b->n) fail("thread %d: decode gives %d, alone %zu", i, T[i].res, b->n);
            if ((e = cmp(b->t, T[i].m))) fail("thread %d: decoded message differs from that of a single thread: %s", i, e);
            if (b->what == 2 && (T[i].res2 < 0 || (size_t)T[i].res2 != b->n)) fail("thread %d: encode gives %d", i, T[i].res2);
            break;
        case 3:
            if (T[i].res >= 0) fail("thread %d: truncated data is accepted", i);
            break;
        }
        st_state(hash_u64(hash_u64(hash_u64(10, (uint64_t)ri), (uint64_t)i * 7 + switches), T[i].acc) + (uint64_t)T[i].res);
    }
    st_call((int)total);
    st_outcome((int)(switches > 20 ? 20 : switches));
    st_trace();
    if (want_sample()) { char s[300]; h_describe(ri, s, sizeof(s)); sample("%s%llu preemptive switches, %zu accesses", s, (unsigned long long)switches, total); }
}

const char *h_outcome_name(int k)
{
    static const char *n[] = {"no preemption", "1 preemption", "2 preemptions", "3 preemptions"};
    return k < 4 ? n[k] : NULL;
}
