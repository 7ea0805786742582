/* Alphabets of wire records for a message, well formed and not. */
#include "model.h"

typedef struct tok { uint8_t *p; size_t n; } tok;
typedef struct alpha { tok *t; int n; } alpha;

static void al_add(alpha *a, const obuf *b)
{
    int i;
    for (i = 0; i < a->n; i++)
        if (a->t[i].n == b->n && !memcmp(a->t[i].p, b->p, b->n)) return;
    a->t = realloc(a->t, sizeof(tok) * (size_t)(a->n + 1));
    a->t[a->n].p = malloc(b->n + 1);
    memcpy(a->t[a->n].p, b->p, b->n);
    a->t[a->n].n = b->n;
    a->n++;
}

static void hexb(obuf *b, const char *h)
{
    for (; h[0] && h[1]; h += 2) {
        unsigned x;
        sscanf(h, "%2x", &x);
        ob_byte(b, (uint8_t)x);
    }
}

static void rec(alpha *a, uint32_t num, int wt, const char *payload)
{
    obuf b;
    ob_init(&b, 64);
    ob_tag(&b, num, wt);
    hexb(&b, payload);
    al_add(a, &b);
}

static void recb(alpha *a, uint32_t num, const uint8_t *p, size_t n)
{
    obuf b;
    ob_init(&b, 64);
    ob_tag(&b, num, 2);
    ob_varint(&b, n);
    ob_bytes(&b, p, n);
    al_add(a, &b);
}

static uint32_t unused_number(const mdesc *d)
{
    uint32_t k = 14;
    int i;
again:
    for (i = 0; i < d->nf; i++) if (d->f[i].number == k) { k++; goto again; }
    return k;
}

/* level 2: rich, 1: medium, 0: small */
__attribute__((unused)) static alpha valid(const mdesc *d, int level, int depth)
{
    alpha a = {0};
    int i, j;
    uint32_t u;
    for (i = 0; i < d->nf; i++) {
        const fdesc *f = &d->f[i];
        uint32_t k = f->number;
        bool rep = f->card == C_REPEATED;
        switch (wire_of(f->kind)) {
        case 0:
            rec(&a, k, 0, "01");
            if (level >= 1) rec(&a, k, 0, "00");
            if (level >= 2) {
                rec(&a, k, 0, "828000");
                rec(&a, k, 0, "8080808010");               /* 1 << 32 */
                rec(&a, k, 0, "ffffffffffffffffff01");
                rec(&a, k, 0, "ffffffff0f");
                rec(&a, k, 0, "80808080808080808001");     /* 1 << 63 */
            }
            if (rep) {
                rec(&a, k, 2, "0102");
                if (level >= 1) { rec(&a, k, 2, "00"); rec(&a, k, 2, "020304"); }
                if (level >= 2) { rec(&a, k, 2, "0405868000"); rec(&a, k, 2, "06808080801007"); }
            }
            break;
        case 5:
            rec(&a, k, 5, "01020304");
            if (level >= 1) rec(&a, k, 5, "00000000");
            if (level >= 2) rec(&a, k, 5, "ffffffff");
            if (rep) {
                rec(&a, k, 2, "0405060708");
                if (level >= 1) { rec(&a, k, 2, "00"); rec(&a, k, 2, "0801000000020000ff"); }
            }
            break;
        case 1:
            rec(&a, k, 1, "0102030405060708");
            if (level >= 1) rec(&a, k, 1, "0000000000000000");
            if (level >= 2) rec(&a, k, 1, "ffffffffffffffff");
            if (rep) {
                rec(&a, k, 2, "080506070809101112");
                if (level >= 1) { rec(&a, k, 2, "00"); rec(&a, k, 2, "1001000000000000000200000000000080"); }
            }
            break;
        default:
            if (f->kind == K_MSG) {
                recb(&a, k, NULL, 0);
                if (depth > 0) {
                    alpha s = valid(f->sub, level > 1 ? 1 : 0, depth - 1);
                    for (j = 0; j < s.n; j++) recb(&a, k, s.t[j].p, s.t[j].n);
                    if (level >= 1)
                        for (j = 0; j + 1 < s.n && j < 6; j++) {
                            obuf b;
                            ob_init(&b, 64);
                            ob_bytes(&b, s.t[j].p, s.t[j].n);
                            ob_bytes(&b, s.t[j + 1].p, s.t[j + 1].n);
                            recb(&a, k, b.p, b.n);
                        }
                }
            } else {
                rec(&a, k, 2, "0161");
                if (level >= 1) rec(&a, k, 2, "00");
                if (level >= 2) { rec(&a, k, 2, "0461006263"); rec(&a, k, 2, "02ff80"); rec(&a, k, 2, "83800062637a"); }
            }
        }
    }
    u = unused_number(d);
    rec(&a, u, 0, "05");
    if (level >= 1) {
        rec(&a, u, 1, "0908070605040302");
        rec(&a, u, 2, "020801");
        rec(&a, u, 5, "09080706");
    }
    if (level >= 2) {
        rec(&a, u, 0, "ffffffffffffffffff01");
        rec(&a, u, 2, "00");
        rec(&a, 536870910, 0, "01");
        if (d->nf) {                                         /* non-minimal tag */
            obuf b;
            ob_init(&b, 16);
            ob_varint_pad(&b, (uint64_t)d->f[0].number << 3 | (uint64_t)wire_of(d->f[0].kind), 5);
            if (wire_of(d->f[0].kind) == 2) ob_byte(&b, 0);
            else if (wire_of(d->f[0].kind) == 0) ob_byte(&b, 3);
            else ob_bytes(&b, big_pattern, wire_of(d->f[0].kind) == 5 ? 4 : 8);
            al_add(&a, &b);
        }
    }
    return a;
}

static const char *bad_any[] = {
    /* complete records that are never legal; also prefixes that end in a wrong place */
    "00", "0000", "0100", "0200", "07", "80",                      /* field number 0, cut tag */
    "ffffffffffffffffffff01", NULL};

__attribute__((unused)) static alpha bad(const mdesc *d, int level, int depth)
{
    alpha a = {0};
    int i, j, wt;
    uint32_t u = unused_number(d);
    obuf b;
    for (i = 0; bad_any[i]; i++) {
        if (level == 0 && i > 0) break;
        ob_init(&b, 16);
        hexb(&b, bad_any[i]);
        al_add(&a, &b);
    }
    for (i = -1; i < d->nf; i++) {
        const fdesc *f = i < 0 ? NULL : &d->f[i];
        uint32_t k = f ? f->number : u;
        /* each wire type with a payload that is complete for it */
        for (wt = 0; wt < 8; wt++) {
            static const char *pay[] = {"01", "0102030405060708", "0161", "", "", "01020304", "", ""};
            if (f && wt == wire_of(f->kind)) continue;
            if (!f && wt != 3 && wt != 4 && wt != 6 && wt != 7) continue;
            if (level == 0 && wt != 3) continue;
            rec(&a, k, wt, pay[wt]);
        }
        /* cut or overflowing values of the own wire type */
        switch (f ? wire_of(f->kind) : 0) {
        case 0:
            rec(&a, k, 0, "80");
            if (level >= 1) { rec(&a, k, 0, ""); rec(&a, k, 0, "8080808080808080808001"); rec(&a, k, 0, "ffffffffffffffffff"); }
            break;
        case 5: rec(&a, k, 5, "010203"); if (level >= 1) rec(&a, k, 5, ""); break;
        case 1: rec(&a, k, 1, "01020304050607"); if (level >= 1) rec(&a, k, 1, ""); break;
        default: break;
        }
        if (!f) { rec(&a, k, 5, "010203"); rec(&a, k, 1, "01"); }
        if (!f || f->card == C_REPEATED || wire_of(f->kind) == 2) {
            rec(&a, k, 2, "02ff");
            if (level >= 1) {
                rec(&a, k, 2, "");
                rec(&a, k, 2, "80");
                rec(&a, k, 2, "fdffffff07");                  /* INT_MAX - 2 */
                rec(&a, k, 2, "feffffff07");                  /* INT_MAX - 1 */
                rec(&a, k, 2, "ffffffff07");                  /* INT_MAX */
                rec(&a, k, 2, "8080808008");                  /* 1 << 31 */
                rec(&a, k, 2, "818080801001");                /* (1 << 32) + 1 */
                rec(&a, k, 2, "ffffffffffffffffff01");
                rec(&a, k, 2, "8080808080808080808001");
            }
        }
        if (f && f->card == C_REPEATED && wire_of(f->kind) != 2) {
            rec(&a, k, 2, "0180");                            /* packed, cut varint or partial item */
            rec(&a, k, 2, "020180");
            rec(&a, k, 2, "03010203");
            if (level >= 1) { rec(&a, k, 2, "0501020304ff"); rec(&a, k, 2, "0c0102030405060708091011ff"); rec(&a, k, 2, "0bffffffffffffffffffff01"); }
        }
        if (f && f->kind == K_MSG && depth > 0) {
            alpha s = bad(f->sub, level > 1 ? 1 : 0, depth - 1);
            for (j = 0; j < s.n; j++) recb(&a, k, s.t[j].p, s.t[j].n);
        }
    }
    return a;
}

