/* C03-C08: sizes of every order of magnitude, around and above INT_MAX, which is what the positions of the
 * library can hold.  The memory is mapped and only touched where the library looks. */
#define _GNU_SOURCE
#include "model.h"
#include <limits.h>
#include <sys/mman.h>
#include <unistd.h>

const char *h_name = "big";
#define CAP ((5ull << 30) + (1 << 20))
#define PAGE 4096
static uint8_t *map, *smap;
static size_t smapped, slen;
static struct region ws, out;
static int mode;
static const uint64_t SZ[] = {
    INT_MAX - 1, INT_MAX, 1ull << 31, (1ull << 31) + 1, (1ull << 31) + 300, 3ull << 30,
    UINT32_MAX - 1, UINT32_MAX, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 300, 5ull << 30};
#define NSZ ((int)(sizeof(SZ) / sizeof(SZ[0])))
static struct { const mdesc *d; int f; } roots[4000];
static int nroots;

static bool is_len(const fdesc *f) { return f->kind == K_STRING || f->kind == K_BYTES; }

int h_nroots(void)
{
    int i, j;
    ar_setup();
    mode = atoi(eng_mode + 1);
    nroots = 0;
    for (i = 0; i < n_all_msgs; i++) {
        const mdesc *d = all_msgs[i];
        roots[nroots].d = d;
        roots[nroots++].f = -1;
        if (mode == 8) continue;
        for (j = 0; j < d->nf; j++) {
            roots[nroots].d = d;
            roots[nroots++].f = j;
        }
    }
    return nroots;
}

void h_describe(int r, char *b, size_t n)
{
    snprintf(b, n, "%s %s", roots[r].d->name, roots[r].f < 0 ? "" : roots[r].d->f[roots[r].f].name);
}

static uint8_t *mapped(size_t n, int prot)
{
    uint8_t *p = mmap(NULL, n + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    if (mprotect(p + PAGE, n, prot)) return NULL;
    return p + PAGE;
}

void h_init(void)
{
    region_init(&ws, 1 << 20);
    region_init(&out, 1 << 20);
}

/* The [0, n) part is accessible, nothing behind it. */
static uint8_t *big_set(size_t n)
{
    if (!map) map = mapped(CAP, PROT_READ | PROT_WRITE);
    if (!map) return NULL;
    madvise(map, CAP, MADV_DONTNEED);
    /* the end is exact: p + n is at the end of the mapping */
    return map + (CAP - n);
}

/* A string of n bytes: one page of characters mapped over and over. */
static char *big_string(size_t n)
{
    size_t chunk = 1 << 21, len = (n + chunk) / chunk * chunk, i;
    uint8_t *p;
    int fd;
    if (smap) munmap(smap, smapped);
    smap = NULL;
    fd = memfd_create("s", 0);
    if (fd < 0 || ftruncate(fd, (off_t)chunk)) return NULL;
    p = mmap(NULL, len + chunk, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    {
        uint8_t *q = mmap(NULL, chunk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (q == MAP_FAILED) return NULL;
        memset(q, 'x', chunk);
        munmap(q, chunk);
    }
    for (i = 0; i < len; i += chunk)
        if (mmap(p + i, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) return NULL;
    close(fd);
    smap = p;
    smapped = len + chunk;
    p[n] = 0;
    slen = n;
    return (char *)p;
}

static val some(const fdesc *f, int i)
{
    val v = typical_val(f, i, NULL);
    if (f->kind == K_MSG) {
        int j;
        for (j = 0; j < f->sub->nf; j++) {
            const fdesc *g = &f->sub->f[j];
            /* not in a sub-message that may occur twice (known finding dup-submessage) */
            if (g->card == C_REPEATED && f->card != C_REPEATED) continue;
            if (g->kind != K_MSG && g->card != C_ONEOF) *tf_add(&v.m->f[j]) = typical_val(g, i + j, NULL);
        }
    }
    return v;
}

static const char *nm[] = {"no memory for the case", "buffer full", "encoded", "refused", "granted", "decoded", "decode refused", "out of memory as it must", "granted as it must"};
const char *h_outcome_name(int k) { return k < 9 ? nm[k] : NULL; }

static size_t size_of(int k)
{
    static const int delta[] = {-300, -8, -1, 0, 1, 7, 300, 1000};
    int b = 10 + k / 8;
    return (size_t)((int64_t)1 << b) + (size_t)(int64_t)delta[k % 8];
}
#define NSIZES (8 * 23)

/* C07: a value larger than anything the buffer can hold. */
static void huge_value(const mdesc *d, const fdesc *f)
{
    static const uint64_t big[] = {INT_MAX, 1ull << 31, (1ull << 31) + 1, UINT32_MAX, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 7, 1ull << 63, UINT64_MAX - 1, UINT64_MAX};
    static const size_t caps[] = {0, 1, 5, 30, 1000, 70000};
    uint64_t n = big[ch(f->kind == K_BYTES ? 10 : eng_thorough ? 7 : 3)];
    size_t cap = f->kind == K_BYTES || eng_thorough ? caps[ch(6)] : caps[ch(2) * 4], i;
    uint8_t *b;
    void *m;
    char *at;
    int res, k = 0;
    tree *t = tree_new(d);
    for (i = 0; i < (size_t)d->nf; i++)
        if (&d->f[i] == f) { if (f->card == C_REPEATED) { *tf_add(&t->f[i]) = some(f, 0); *tf_add(&t->f[i]) = some(f, 1); *tf_add(&t->f[i]) = some(f, 2); k = ch(3); } else *tf_add(&t->f[i]) = some(f, 0); }
        else if (d->f[i].oneof < 0 && d->f[i].kind != K_MSG) *tf_add(&t->f[i]) = some(&d->f[i], (int)i);
    m = fresh(d, &ws, 1 << 19, 0, 0x11);
    if (!m || build(t, m)) fail("the message cannot be built");
    at = (char *)m + f->off;
    if (f->card == C_REPEATED) {
        struct { int length; char *items; } *rp = (void *)at;
        at = rp->items + k * kind_size(f->kind);
    }
    if (f->kind == K_BYTES) {
        struct { uint8_t *p; size_t n; } *by = (void *)at;
        by->n = n;
    } else {
        char *s = smap && slen == n ? (char *)smap : big_string(n);
        if (!s) { st_outcome(0); return; }
        *(char **)at = s;
    }
    b = region_set(&out, cap, 0);
    st_call(1);
    res = d->encode(m, b, cap);
    region_check(&out, "encode buffer");
    if (res != -E_FULL) fail("%s: encode with %llu bytes in %s into a buffer of %zu bytes returns %d", d->name, (unsigned long long)n, f->name, cap, res);
    st_outcome(1);
    st_state(hash_u64(hash_u64(hash_u64(1, n), cap), (uint64_t)(size_t)f));
    st_trace();
    if (want_sample()) sample("%s.%s of %llu bytes into %zu: buffer full", d->name, f->name, (unsigned long long)n, cap);
}

/* C07: a huge buffer. */
static void huge_buffer(const mdesc *d)
{
    int c = ch(NSZ + NSIZES);
    uint64_t n = c < NSZ ? SZ[c] : size_of(c - NSZ);
    uint8_t *b = big_set(n), *e;
    tree *t = tree_new(d);
    void *m;
    int i, res;
    size_t want;
    if (!b) { st_outcome(0); return; }
    for (i = 0; i < d->nf; i++)
        if (d->f[i].oneof < 0) *tf_add(&t->f[i]) = some(&d->f[i], i);
    want = ref_size(t);
    if (n < want) return;
    m = fresh(d, &ws, 1 << 19, 0, 0x11);
    if (!m || build(t, m)) fail("the message cannot be built");
    e = region_set(&out, want, 0);
    st_call(2);
    res = d->encode(m, e, want);
    if (res < 0 || (size_t)res != want) fail("%s: encode into a buffer of the exact size %zu returns %d", d->name, want, res);
    res = d->encode(m, b, n);
    if (res < 0 || (size_t)res != want) fail("%s: encode of %zu bytes into a buffer of %llu bytes returns %d", d->name, want, (unsigned long long)n, res);
    if (memcmp(b, e, want)) fail("%s: other bytes in a buffer of %llu bytes", d->name, (unsigned long long)n);
    st_outcome(2);
    st_state(hash_u64(hash_u64(2, n), hash_bytes(3, b, want)));
    st_trace();
    if (want_sample()) sample("%s: %zu bytes into %llu", d->name, want, (unsigned long long)n);
}

/* C08: a huge workspace. */
static void huge_workspace(const mdesc *d)
{
    uint64_t n = SZ[ch(NSZ)];
    int off = ch(2) * 3, i, k, res, steps = eng_thorough ? 3 : 2, nrep = 0, last = -1;
    uint8_t *p = big_set(n);
    void *m;
    const char *e;
    int rep[64];
    if (!p) { st_outcome(0); return; }
    p += off;
    n -= (size_t)off;
    st_call(1);
    m = d->new_(p, n);
    if (!m) fail("%s: new() returns NULL for a workspace of %llu bytes", d->name, (unsigned long long)n);
    if ((e = ptr_check(d, m, p, p + n))) fail("%s: workspace of %llu bytes: %s", d->name, (unsigned long long)n, e);
    if ((e = cmp(tree_new(d), m))) fail("%s: new message: %s", d->name, e);
    for (i = 0; i < d->nf && nrep < 64; i++) if (d->f[i].card == C_REPEATED) rep[nrep++] = i;
    for (k = 0; k < steps && nrep; k++) {
        const fdesc *f = &d->f[rep[ch(nrep > 3 && !eng_thorough ? 3 : nrep)]];
        size_t isz = f->kind == K_MSG ? f->sub->size : (size_t)kind_size(f->kind);
        uint64_t items;
        int c = ch(4);
        switch (c) {
        case 0: items = 3; break;
        case 1: items = INT_MAX; break;
        case 2: items = n / isz + 1; break;
        default: items = (1ull << 31) / isz; break;
        }
        if (items > INT_MAX) continue;
        st_call(1);
        /* what fits in more than 2^31 bytes may be refused, but a grant has to be in bounds */
        if (c && items * isz <= n) continue;
        res = f->alloc_n(m, (int)items);
        if (c == 0 && res != 0) fail("%s: 3 items of %s are refused in a workspace of %llu bytes", d->name, f->name, (unsigned long long)n);
        if (c != 0 && res != -1) fail("%s: %llu items of %zu bytes are granted in a workspace of %llu bytes", d->name, (unsigned long long)items, isz, (unsigned long long)n);
        if (c == 0) last = rep[0];
        if ((e = ptr_check(d, m, p, p + n))) fail("%s: workspace of %llu bytes: %s", d->name, (unsigned long long)n, e);
        st_outcome(c ? 3 : 4);
    }
    (void)last;
    st_state(hash_u64(hash_u64(3, n), (uint64_t)(size_t)d));
    st_trace();
    if (want_sample()) sample("%s in %llu bytes", d->name, (unsigned long long)n);
}

static size_t put_one(uint8_t *p, const fdesc *f, const val *v)
{
    obuf o;
    ob_init(&o, 4096);
    ob_tag(&o, f->number, f->kind == K_MSG || is_len(f) ? 2 : wire_of(f->kind));
    ref_encode_val(&o, f, v);
    if (p) memcpy(p, o.p, o.n);
    return o.n;
}

static uint32_t filler;

static size_t put_filler(uint8_t *p, size_t total)
{
    /* tag of five bytes, length of five bytes (padded) and the data, all zero */
    obuf o;
    ob_init(&o, 16);
    ob_tag(&o, filler, 2);
    ob_varint_pad(&o, total - 10, 5);
    memcpy(p, o.p, o.n);
    return total;
}

/* C03, C04, C06: input of about or more than INT_MAX bytes. */
static void huge_input(const mdesc *d, const fdesc *f)
{
    int c = ch((mode == 3 ? 2 : NSZ - 1) + (mode < 5 ? (eng_thorough ? 8 : 1) * 19 : 0));
    uint64_t n, left, at = 0;
    bool bad = mode == 4 || (mode == 5 && ch(2));
    int fillers = 1 + ch(2), res;
    val v[2];
    size_t len[2] = {0, 0};
    uint8_t *p;
    rdres r = {0};
    tree *t;
    void *m;
    const char *e;
    if (c < (mode == 3 ? 2 : NSZ - 1)) n = SZ[mode == 3 ? c : 1 + c];
    else if (eng_thorough) n = size_of(c - (mode == 3 ? 2 : NSZ - 1) + 8 * 3);
    else n = size_of((c - (mode == 3 ? 2 : NSZ - 1) + 3) * 8 + 3);
    if (f) {
        v[0] = some(f, 1);
        v[1] = some(f, 2);
        len[0] = put_one(NULL, f, &v[0]);
        len[1] = put_one(NULL, f, &v[1]);
    }
    filler = 536870911;
    for (res = 0; res < d->nf; res++) if (d->f[res].number == filler) filler--;
    if (!f) {
        m = fresh(d, &ws, 1 << 19, 0, 0x11);
        st_call(1);
        res = d->decode(m, NULL, 0);
        if (res != 0) fail("%s: decode of no bytes at a null pointer returns %d", d->name, res);
        if ((e = cmp(tree_new(d), m))) fail("%s: decode of no bytes: %s", d->name, e);
    }
    p = big_set(n);
    if (!p) { st_outcome(0); return; }
    if (f) at = put_one(p, f, &v[0]);
    left = n - len[0] - len[1];
    if (bad) {
        /* malformed from here on: zeros, or a filler that is cut */
        if (fillers == 2) put_filler(p + at, 64);
    } else {
        while (left > 0) {
            uint64_t take = left / (uint64_t)fillers;
            if (take > (1ull << 31) - 100) take = (1ull << 30) + 17;
            if (left - take < 20 && left > take) take = left;
            if (take > (1ull << 31) - 2 + 10 - 1) take = left / 2;
            put_filler(p + at, take);
            at += take;
            left -= take;
            if (fillers > 1 && left <= (1ull << 31) - 100) fillers = 1;
        }
        if (f) at += put_one(p + at, f, &v[1]);
        if (at != n) fail("HARNESS: %llu bytes of %llu", (unsigned long long)at, (unsigned long long)n);
    }
    r.ws = 1 << 19;
    t = ref_decode(d, p, n, &r, NULL);
    if (!!r.errs != bad) fail("HARNESS: the reference says 0x%x", r.errs);
    m = fresh(d, &ws, 1 << 19, 0, 0x11);
    st_call(1);
    res = d->decode(m, p, n);
    region_check(&ws, "workspace");
    if (n <= INT_MAX && !bad) {
        if ((uint64_t)res != n) fail("%s: decode of %llu well-formed bytes returns %d", d->name, (unsigned long long)n, res);
        if ((e = cmp(t, m))) fail("%s: after decode of %llu bytes: %s", d->name, (unsigned long long)n, e);
        st_outcome(5);
    } else {
        if (res >= 0) fail("%s: decode of %llu %s bytes returns %d", d->name, (unsigned long long)n, bad ? "malformed" : "well-formed", res);
        if (res < -8) fail("%s: decode of %llu bytes returns the undocumented code %d", d->name, (unsigned long long)n, res);
        if (bad && n <= INT_MAX && !(r.errs >> -res & 1)) fail("%s: decode of %llu bytes returns %d, defects are 0x%x", d->name, (unsigned long long)n, res, r.errs);
        if ((e = ptr_check(d, m, ws.p, ws.p + ws.n))) fail("%s: after a refused decode: %s", d->name, e);
        st_outcome(6);
    }
    st_state(hash_u64(hash_u64(hash_u64(4, n), (uint64_t)res), (uint64_t)(size_t)f));
    st_trace();
    if (want_sample()) sample("%s: %llu bytes: %d", d->name, (unsigned long long)n, res);
}

/* C06: workspaces of every order of magnitude. */
static int decode_in(const mdesc *d, size_t size, int off, const uint8_t *p, size_t n, void **mp)
{
    uint8_t *w = big_set(size + (size_t)off) + off;
    void *m;
    int res;
    st_call(1);
    *mp = m = d->new_(w, size);
    if (!m) return -E_MEM;
    st_call(1);
    res = d->decode(m, p, n);
    if (res >= 0) {
        const char *e = ptr_check(d, m, w, w + size);
        if (e) fail("%s: workspace of %zu bytes: %s", d->name, size, e);
    }
    return res;
}

static void magnitudes(const mdesc *d, const fdesc *f)
{
    static uint8_t *payload;
    tree *t = tree_new(d);
    size_t L = 0, lo = 0, hi, s, n;
    int i, k, res, off = ch(2) * 3;
    uint8_t *p;
    obuf o;
    void *m;
    const char *e;
    if (f && !is_len(f) && f->card != C_REPEATED) return;
    if (!payload) { payload = malloc(1 << 22); memset(payload, 'p', 1 << 22); }
    for (i = 0; i < d->nf; i++) if (d->f[i].oneof < 0 && &d->f[i] != f) *tf_add(&t->f[i]) = some(&d->f[i], i);
    if (f) {
        tfield *x = &t->f[f - d->f];
        L = (size_t)1 << (eng_thorough ? 10 + ch(12) : 10 + 2 * ch(5));
        if (ch(2)) L -= 700;                            /* so that it just fits with the rest */
        if (is_len(f)) { val *v = tf_add(x); v->p = payload; v->n = L; }
        else for (s = 0; s * (size_t)(f->kind == K_MSG ? f->sub->size : (size_t)kind_size(f->kind)) < L; s++) *tf_add(x) = some(f, (int)s & 7);
    }
    ob_init(&o, 4096);
    ref_encode(&o, t);
    n = o.n;
    p = region_set(&out, n, 0);
    memcpy(p, o.p, n);
    /* the least size that it decodes in */
    for (hi = 1024; (res = decode_in(d, hi, off, p, n, &m)) == -E_MEM; hi *= 2) if (hi > (64u << 20)) fail("%s: decode of %zu bytes is out of memory in %zu bytes", d->name, n, hi);
    if (res < 0 || (size_t)res != n) fail("%s: decode of %zu well-formed bytes returns %d", d->name, n, res);
    while (lo + 1 < hi) {
        s = (lo + hi) / 2;
        if (decode_in(d, s, off, p, n, &m) >= 0) hi = s; else lo = s;
    }
    if (hi < L) fail("%s: decoded in %zu bytes, less than its contents", d->name, hi);
    for (k = 0; k < NSIZES; k++) {
        s = size_of(k);
        if (s > hi + 4 * L + 5000 && (k & 7) != 3 && f) continue;
        res = decode_in(d, s, off, p, n, &m);
        if (s < hi ? res != -E_MEM : res < 0 || (size_t)res != n)
            fail("%s: decode of %zu bytes, which works in %zu bytes, returns %d in %zu bytes", d->name, n, hi, res, s);
        if (s >= hi && (e = cmp(t, m))) fail("%s: decode in %zu bytes: %s", d->name, s, e);
        st_outcome(s < hi ? 7 : 5);
        st_state(hash_u64(hash_u64(hash_u64(6, s), L), (uint64_t)(size_t)(f ? (const void *)f : d)));
        st_trace();
    }
    /* what obviously fits is granted, what does not is refused */
    if (f && f->card == C_REPEATED) {
        size_t isz = f->kind == K_MSG ? f->sub->size : (size_t)kind_size(f->kind);
        int top = eng_thorough ? 31 : f->kind == K_MSG ? 22 : 25;
        for (k = 0; k < 8 * (top - 10); k++) {
            uint8_t *w;
            int part;
            s = size_of(k);
            if (k / 8 > (eng_thorough ? 15 : 8) && (k & 7) != 3) continue;
            for (part = 0; part < 3; part++) {
                int64_t items = part == 0 ? ((int64_t)s - (int64_t)d->size - 1024) / (int64_t)isz : part == 1 ? (int64_t)(s / isz) + 1 : ((int64_t)s - (int64_t)d->size - 1024) / (int64_t)isz / 2;
                if (items < 0 || (part == 2 && k / 8 > 8)) continue;
                w = big_set(s + (size_t)off) + off;
                m = d->new_(w, s);
                if (!m) { if (s > d->size + 512) fail("%s: new() fails in %zu bytes", d->name, s); continue; }
                st_call(2);
                res = f->alloc_n(m, (int)items);
                if (res != (part == 1 ? -1 : 0)) fail("%s: %lld items of %zu bytes of %s in a workspace of %zu bytes: %d", d->name, (long long)items, isz, f->name, s, res);
                if (part == 2 && (res = f->alloc_n(m, (int)items)) != 0) fail("%s: the second %lld items of %zu bytes of %s in a workspace of %zu bytes: %d", d->name, (long long)items, isz, f->name, s, res);
                st_outcome(part == 1 ? 3 : 8);
            }
            st_state(hash_u64(hash_u64(7, s), (uint64_t)(size_t)f));
            st_trace();
        }
    }
    if (want_sample()) sample("%s.%s: %zu bytes need %zu, in all workspaces up to 4 GiB", d->name, f ? f->name : "", n, hi);
}

void h_run(int r)
{
    const mdesc *d = roots[r].d;
    const fdesc *f = roots[r].f < 0 ? NULL : &d->f[roots[r].f];
    switch (mode) {
    case 7:
        if (!f) huge_buffer(d);
        else if (is_len(f)) huge_value(d, f);
        break;
    case 8: huge_workspace(d); break;
    case 6: if (ch(2)) { magnitudes(d, f); break; } /* fall through */
    default: huge_input(d, f); break;
    }
}
