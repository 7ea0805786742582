/* C05, C06, C08: sizes whose product with the number of items is around 2^31 and 2^32. */
#include "model.h"
#include <limits.h>

const char *h_name = "wide";
static struct region ws, in;
static const mdesc *box[3], *wide[3];
static const char *names[] = {"w.Box4096", "w.Box2048", "w.Box72"};
static int mode;

int h_nroots(void)
{
    int i;
    ar_setup();
    mode = eng_mode[2] - '0';
    for (i = 0; i < 3; i++) { box[i] = msg_by_name(names[i]); wide[i] = box[i]->f[0].sub; }
    return 3 * 3 * 3 * 2;
}

void h_describe(int r, char *b, size_t n)
{
    snprintf(b, n, "%s with items of %zu bytes, %d", names[r % 3], wide[r % 3]->size, r);
}

void h_init(void)
{
    region_init(&ws, 1 << 20);
    region_init(&in, 20u << 20);
}

const char *h_outcome_name(int k)
{
    static const char *nm[] = {"decode refused", "alloc refused", "granted"};
    return k < 3 ? nm[k] : NULL;
}

void h_run(int r)
{
    const mdesc *d = box[r % 3];
    const fdesc *f;
    static const uint64_t at[] = {1ull << 31, 1ull << 32, 3ull << 31};
    uint64_t lim = at[r / 3 % 3];
    uint64_t isz, n;
    int fi = r / 9 % 3, off = r / 27 % 2 * 5, res, i;
    size_t wsz;
    void *m;
    const char *e;
    if (fi >= d->nf) fail("HARNESS: fields");
    f = &d->f[fi];
    isz = f->sub->size;
    n = lim / isz;
    /* just below, at and above, and where a wrapped product is small */
    switch (ch(5)) {
    case 0: break;
    case 1: n += 1; break;
    case 2: n += 2; break;
    case 3: n -= 1; break;
    case 4: n += 7; break;
    }
    wsz = ch(2) ? 1 << 16 : 300;
    m = fresh(d, &ws, wsz, off, 0x6b);
    if (!m) fail("new() returns NULL");
    {
        st_call(1);
        res = f->alloc_n(m, (int)n);
        region_check(&ws, "workspace");
        if (res != -1) fail("%s: %llu items of %llu bytes are granted in a workspace of %zu bytes", d->name, (unsigned long long)n, (unsigned long long)isz, wsz);
        if ((e = ptr_check(d, m, ws.p, ws.p + wsz))) fail("after a refused allocation: %s", e);
        if ((e = cmp(tree_new(d), m))) fail("a refused allocation changed the message: %s", e);
        st_outcome(1);
    }
    if (2 * n <= (16u << 20)) {
        uint8_t *q = region_set(&in, 2 * n, 0);
        for (i = 0; (uint64_t)i < n; i++) { q[2 * i] = (uint8_t)(f->number << 3 | 2); q[2 * i + 1] = 0; }
        m = fresh(d, &ws, wsz, off, 0x6b);
        st_call(1);
        res = d->decode(m, q, 2 * n);
        region_check(&ws, "workspace");
        if (res != -E_MEM) fail("%s: decode of %llu items of %llu bytes returns %d", d->name, (unsigned long long)n, (unsigned long long)isz, res);
        st_outcome(0);
    }
    st_state(hash_u64(hash_u64(88, n), (uint64_t)r));
    st_trace();
    if (want_sample()) sample("%llu items of %llu bytes in %zu bytes at +%d", (unsigned long long)n, (unsigned long long)isz, wsz, off);
}
