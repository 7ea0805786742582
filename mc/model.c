#include "model.h"
#include <limits.h>

#define BIG (4u << 20)
uint8_t big_pattern[BIG + 1];
static char *big_text;           /* letters, used for long strings */

__attribute__((constructor)) static void init_big(void)
{
    size_t i;
    for (i = 0; i < BIG; i++) big_pattern[i] = (uint8_t)(1 + (i * 7 + i / 251) % 255);
    big_text = (char *)big_pattern;
}

const mdesc *msg_by_name(const char *name)
{
    int i;
    for (i = 0; i < n_all_msgs; i++)
        if (!strcmp(all_msgs[i]->name, name)) return all_msgs[i];
    fprintf(stderr, "no message %s\n", name);
    abort();
}

tree *tree_new(const mdesc *d)
{
    tree *t = ar_alloc(sizeof(*t) + sizeof(tfield) * (size_t)d->nf);
    t->d = d;
    return t;
}

val *tf_add(tfield *f)
{
    if (f->n == f->cap) {
        int c = f->cap ? f->cap * 2 : 4;
        val *v = ar_alloc(sizeof(val) * (size_t)c);
        if (f->n) memcpy(v, f->v, sizeof(val) * (size_t)f->n);
        f->v = v;
        f->cap = c;
    }
    memset(&f->v[f->n], 0, sizeof(val));
    return &f->v[f->n++];
}

tree *tree_clone(const tree *t)
{
    tree *c;
    int i, j;
    if (!t) return NULL;
    c = tree_new(t->d);
    for (i = 0; i < t->d->nf; i++)
        for (j = 0; j < t->f[i].n; j++) {
            val *v = tf_add(&c->f[i]);
            *v = t->f[i].v[j];
            v->m = tree_clone(v->m);
        }
    return c;
}

int kind_size(int k)
{
    switch (k) {
    case K_INT32: case K_SINT32: case K_UINT32: case K_FIXED32: case K_SFIXED32: case K_FLOAT: case K_ENUM:
        return 4;
    case K_BOOL:
        return 1;
    case K_BYTES:
        return 16;
    default:
        return 8;
    }
}

int wire_of(int k)
{
    switch (k) {
    case K_FIXED32: case K_SFIXED32: case K_FLOAT: return 5;
    case K_FIXED64: case K_SFIXED64: case K_DOUBLE: return 1;
    case K_STRING: case K_BYTES: case K_MSG: return 2;
    default: return 0;
    }
}

bool is_varint_kind(int k) { return wire_of(k) == 0; }
static bool packable(int k) { return wire_of(k) != 2; }

/* Canonical 64-bit image of a scalar: unsigned types zero-extended, signed
 * sign-extended, float/double raw bits. */
uint64_t norm_scalar(int k, uint64_t u)
{
    switch (k) {
    case K_INT32: case K_SINT32: case K_SFIXED32: case K_ENUM:
        return (uint64_t)(int64_t)(int32_t)(uint32_t)u;
    case K_UINT32: case K_FIXED32: case K_FLOAT:
        return (uint32_t)u;
    case K_BOOL:
        return u != 0;
    default:
        return u;
    }
}

bool val_is_default(const fdesc *f, const val *v)
{
    switch (f->kind) {
    case K_STRING: case K_BYTES: return v->n == 0;
    case K_MSG: return v->m == NULL;
    default: return v->u == 0;
    }
}

static const char *dbuf(void)
{
    static char b[8][320];
    static int k;
    return b[k++ & 7];
}

static bool val_equal(const fdesc *f, const val *a, const val *b)
{
    switch (f->kind) {
    case K_STRING: case K_BYTES:
        return a->n == b->n && (a->n == 0 || memcmp(a->p, b->p, a->n) == 0);
    case K_MSG:
        return tree_equal(a->m, b->m);
    default:
        return a->u == b->u;
    }
}

bool tree_equal(const tree *a, const tree *b)
{
    int i, j;
    if (a == NULL || b == NULL) return a == b;
    if (a->d != b->d) return false;
    for (i = 0; i < a->d->nf; i++) {
        if (a->f[i].n != b->f[i].n) return false;
        for (j = 0; j < a->f[i].n; j++)
            if (!val_equal(&a->d->f[i], &a->f[i].v[j], &b->f[i].v[j])) return false;
    }
    return true;
}

const char *tree_diff(const tree *a, const tree *b)
{
    int i, j;
    char *s;
    if (tree_equal(a, b)) return NULL;
    s = (char *)dbuf();
    for (i = 0; i < a->d->nf; i++) {
        const fdesc *f = &a->d->f[i];
        if (a->f[i].n != b->f[i].n) {
            snprintf(s, 320, "field %s.%s: %d occurrences vs %d", a->d->name, f->name, a->f[i].n, b->f[i].n);
            return s;
        }
        for (j = 0; j < a->f[i].n; j++)
            if (!val_equal(f, &a->f[i].v[j], &b->f[i].v[j])) {
                if (f->kind == K_MSG && a->f[i].v[j].m && b->f[i].v[j].m)
                    return tree_diff(a->f[i].v[j].m, b->f[i].v[j].m);
                snprintf(s, 320, "field %s.%s[%d]: 0x%llx/%zu bytes vs 0x%llx/%zu bytes", a->d->name, f->name, j,
                         (unsigned long long)a->f[i].v[j].u, a->f[i].v[j].n,
                         (unsigned long long)b->f[i].v[j].u, b->f[i].v[j].n);
                return s;
            }
    }
    return "different";
}

uint64_t tree_hash(uint64_t h, const tree *t)
{
    int i, j;
    h = hash_u64(h, (uint64_t)(uintptr_t)t->d->name[0] + (uint64_t)t->d->nf * 31 + t->d->size * 1009);
    h = hash_bytes(h, t->d->name, strlen(t->d->name));
    for (i = 0; i < t->d->nf; i++)
        for (j = 0; j < t->f[i].n; j++) {
            const val *v = &t->f[i].v[j];
            h = hash_u64(h, (uint64_t)i * 1000003 + 17);
            h = hash_u64(h, v->u);
            if (v->n) h = hash_bytes(h, v->p, v->n);
            if (v->m) h = tree_hash(h + 5, v->m);
        }
    return hash_u64(h, 0xabcdef);
}

static void tp(const tree *t, char *b, size_t n, size_t *at)
{
    int i, j;
#define OUT(...) do { if (*at < n) *at += (size_t)snprintf(b + *at, n - *at, __VA_ARGS__); } while (0)
    OUT("%s{", t->d->name);
    for (i = 0; i < t->d->nf; i++) {
        const fdesc *f = &t->d->f[i];
        if (t->f[i].n > 4) { OUT("%s:x%d ", f->name, t->f[i].n); continue; }
        for (j = 0; j < t->f[i].n; j++) {
            const val *v = &t->f[i].v[j];
            OUT("%s:", f->name);
            if (f->kind == K_MSG) { if (v->m) tp(v->m, b, n, at); else OUT("null"); }
            else if (f->kind == K_STRING || f->kind == K_BYTES) OUT("<%zu bytes %s>", v->n, v->n ? hexs(v->p, v->n < 12 ? v->n : 12) : "");
            else OUT("0x%llx", (unsigned long long)v->u);
            OUT(" ");
        }
    }
    OUT("}");
#undef OUT
}

void tree_print(const tree *t, char *b, size_t n)
{
    size_t at = 0;
    b[0] = 0;
    tp(t, b, n, &at);
}

/* ---- reference encoder ------------------------------------------------- */

void ob_init(obuf *b, size_t cap) { b->p = ar_alloc(cap ? cap : 1); b->n = 0; b->cap = cap; }
void ob_byte(obuf *b, uint8_t v)
{
    if (b->n == b->cap) {
        size_t c = b->cap ? b->cap * 2 : 64;
        uint8_t *p = ar_alloc(c);
        memcpy(p, b->p, b->n);
        b->p = p;
        b->cap = c;
    }
    b->p[b->n++] = v;
}
void ob_bytes(obuf *b, const void *p, size_t n)
{
    if (b->n + n > b->cap) {
        size_t c = (b->n + n) * 2;
        uint8_t *q = ar_alloc(c);
        memcpy(q, b->p, b->n);
        b->p = q;
        b->cap = c;
    }
    if (n) memcpy(b->p + b->n, p, n);
    b->n += n;
}
void ob_varint(obuf *b, uint64_t v)
{
    while (v >= 128) { ob_byte(b, (uint8_t)(v & 127) | 128); v >>= 7; }
    ob_byte(b, (uint8_t)v);
}
void ob_varint_pad(obuf *b, uint64_t v, int total)
{
    int i;
    for (i = 0; i < total; i++) {
        ob_byte(b, (uint8_t)((v & 127) | (i + 1 < total ? 128 : 0)));
        v >>= 7;
    }
}
void ob_tag(obuf *b, uint32_t number, int wt) { ob_varint(b, ((uint64_t)number << 3) | (uint64_t)wt); }

static uint64_t zig(uint64_t u) { return (u << 1) ^ (uint64_t)((int64_t)u >> 63); }
static uint64_t zag(uint64_t u) { return (u >> 1) ^ (0 - (u & 1)); }

static uint64_t wire_varint(int k, uint64_t u)
{
    if (k == K_SINT32 || k == K_SINT64) return zig(u);
    return u; /* int32/enum are sign-extended to 64 bits by norm_scalar */
}

void ref_encode_val(obuf *b, const fdesc *f, const val *v)
{
    int i;
    switch (wire_of(f->kind)) {
    case 0: ob_varint(b, wire_varint(f->kind, v->u)); break;
    case 5: for (i = 0; i < 4; i++) ob_byte(b, (uint8_t)(v->u >> (8 * i))); break;
    case 1: for (i = 0; i < 8; i++) ob_byte(b, (uint8_t)(v->u >> (8 * i))); break;
    default:
        if (f->kind == K_MSG) {
            obuf c;
            ob_init(&c, 64);
            if (v->m) ref_encode(&c, v->m);
            ob_varint(b, c.n);
            ob_bytes(b, c.p, c.n);
        } else {
            ob_varint(b, v->n);
            ob_bytes(b, v->p, v->n);
        }
    }
}

size_t ref_size(const tree *t)
{
    size_t m = ar_mark(), n;
    obuf b;
    ob_init(&b, 256);
    ref_encode(&b, t);
    n = b.n;
    ar_release(m);
    return n;
}

void ref_encode(obuf *b, const tree *t)
{
    int i, j;
    for (i = 0; i < t->d->nf; i++) {
        const fdesc *f = &t->d->f[i];
        const tfield *x = &t->f[i];
        if (x->n == 0) continue;
        if (f->card == C_REPEATED && packable(f->kind)) {
            obuf c;
            ob_init(&c, 64);
            for (j = 0; j < x->n; j++) ref_encode_val(&c, f, &x->v[j]);
            ob_tag(b, f->number, 2);
            ob_varint(b, c.n);
            ob_bytes(b, c.p, c.n);
        } else {
            for (j = 0; j < x->n; j++) {
                if (f->card == C_SINGLE && val_is_default(f, &x->v[j])) continue;
                ob_tag(b, f->number, wire_of(f->kind));
                ref_encode_val(b, f, &x->v[j]);
            }
        }
    }
}

/* ---- reference decoder ------------------------------------------------- */

typedef struct rd { const uint8_t *p; size_t n, pos; rdres *r; } rd;

static bool rvar(rd *d, uint64_t *v, int *len)
{
    int k = 0;
    uint64_t x = 0;
    for (;;) {
        uint8_t c;
        if (d->pos >= d->n) { d->r->errs |= 1u << E_DATA; return false; }
        c = d->p[d->pos++];
        if (k < 10) x |= (k == 9 ? (uint64_t)(c & 1) << 63 : (uint64_t)(c & 127) << (7 * k));
        k++;
        if (!(c & 128)) break;
        if (k == 10) { d->r->errs |= 1u << E_VARINT; return false; }
    }
    if (k > 1 && d->p[d->pos - 1] == 0) d->r->noncanon = true;
    *v = x;
    if (len) *len = k;
    return true;
}

static void nc(rdres *r, const char *why) { if (!r->noncanon) { r->noncanon = true; r->why = why; } }

/* Reads a length and checks it against the data.  mem: something of that
 * size has to be stored. */
static bool rlen(rd *d, bool mem, size_t *out)
{
    uint64_t v;
    if (!rvar(d, &v, NULL)) return false;
    if (v >= INT_MAX) { d->r->errs |= 1u << E_LEN; return false; }
    if (v > d->n - d->pos) {
        d->r->errs |= 1u << E_DATA;
        if (mem && v + 64 >= d->r->ws / 8) d->r->errs |= 1u << E_MEM;
        if (v + d->r->total + 16 > INT_MAX) d->r->errs |= 1u << E_SEEK;
        return false;
    }
    *out = v;
    return true;
}

static bool rscalar(rd *d, const fdesc *f, val *v)
{
    uint64_t u = 0;
    int i, nb;
    memset(v, 0, sizeof(*v));
    switch (wire_of(f->kind)) {
    case 0:
        if (!rvar(d, &u, NULL)) return false;
        if (f->kind == K_SINT32 || f->kind == K_SINT64) v->u = norm_scalar(f->kind, zag(u));
        else v->u = norm_scalar(f->kind, u);
        if (wire_varint(f->kind, v->u) != u) nc(d->r, "over-wide integer");
        return true;
    case 5: nb = 4; break;
    default: nb = 8; break;
    }
    if (d->n - d->pos < (size_t)nb) { d->r->errs |= 1u << E_DATA; return false; }
    for (i = 0; i < nb; i++) u |= (uint64_t)d->p[d->pos++] << (8 * i);
    v->u = norm_scalar(f->kind, u);
    return true;
}

static void clear_oneof(tree *t, int oneof)
{
    int i;
    for (i = 0; i < t->d->nf; i++)
        if (t->d->f[i].oneof == oneof) t->f[i].n = 0;
}

static void rmsg(tree *t, rd *d)
{
    rdres *r = d->r;
    while (d->pos < d->n) {
        uint64_t tag;
        int tl, wt, i;
        uint32_t num;
        const fdesc *f = NULL;
        tfield *x = NULL;
        size_t len;
        val v;
        if (!rvar(d, &tag, &tl)) return;
        if (tl > 5 || tag > UINT32_MAX) { r->ambiguous = true; return; }
        num = (uint32_t)(tag >> 3);
        wt = (int)(tag & 7);
        if (num == 0) {
            r->errs |= 1u << E_FIELD;
            if (wt == 3 || wt == 4 || wt > 5) r->errs |= 1u << E_WIRE;
            return;
        }
        for (i = 0; i < t->d->nf; i++)
            if (t->d->f[i].number == num) { f = &t->d->f[i]; x = &t->f[i]; break; }
        if (!f) {
            nc(r, "unknown field");
            switch (wt) {
            case 0: if (!rvar(d, &tag, NULL)) return; break;
            case 1: case 5:
                len = wt == 1 ? 8 : 4;
                if (d->n - d->pos < len) { r->errs |= 1u << E_DATA; return; }
                d->pos += len;
                break;
            case 2: if (!rlen(d, false, &len)) return; d->pos += len; break;
            default: r->errs |= 1u << E_WIRE; return;
            }
            continue;
        }
        if (f->card == C_REPEATED && packable(f->kind) && wt == 2) {
            rd s;
            if (!rlen(d, false, &len)) return;
            s.p = d->p + d->pos;
            s.n = len;
            s.pos = 0;
            s.r = r;
            d->pos += len;
            if (len == 0) nc(r, "empty packed record");
            if (x->n) nc(r, "split packed field");
            while (s.pos < s.n) {
                if (!rscalar(&s, f, &v)) break;
                *tf_add(x) = v;
            }
            continue;
        }
        if (wt != wire_of(f->kind)) { r->errs |= 1u << E_WIRE; return; }
        if (f->card == C_ONEOF) {
            bool had = x->n != 0;
            val old;
            memset(&old, 0, sizeof(old));
            if (had) old = x->v[0];
            for (i = 0; i < t->d->nf; i++)
                if (t->d->f[i].oneof == f->oneof && t->f[i].n) nc(r, "oneof twice");
            clear_oneof(t, f->oneof);
            if (had && f->kind == K_MSG) { *tf_add(x) = old; }
        } else if (f->card != C_REPEATED) {
            if (x->n) nc(r, "field twice");
            if (f->kind != K_MSG) x->n = 0;
        } else if (packable(f->kind)) {
            nc(r, "not packed");
        }
        if (f->kind == K_MSG) {
            rd s;
            val *pv;
            if (!rlen(d, false, &len)) return;
            s.p = d->p + d->pos;
            s.n = len;
            s.pos = 0;
            s.r = r;
            d->pos += len;
            if (f->card != C_REPEATED && x->n) {
                r->dup_msg = true;
                pv = &x->v[0];
                if (r->replace) pv->m = tree_new(f->sub);
            } else {
                pv = tf_add(x);
                pv->m = tree_new(f->sub);
            }
            rmsg(pv->m, &s);
        } else if (f->kind == K_STRING || f->kind == K_BYTES) {
            if (!rlen(d, true, &len)) return;
            memset(&v, 0, sizeof(v));
            v.p = d->p + d->pos;
            v.n = len;
            d->pos += len;
            /* The C API shows strings up to the first NUL. */
            if (f->kind == K_STRING) {
                const void *z = len ? memchr(v.p, 0, len) : NULL;
                if (z) { v.n = (size_t)((const uint8_t *)z - v.p); nc(r, "NUL in string"); }
            }
            if (f->card == C_SINGLE && v.n == 0) nc(r, "default value");
            else *tf_add(x) = v;
        } else {
            if (!rscalar(d, f, &v)) return;
            if (f->card == C_SINGLE && v.u == 0) nc(r, "default value");
            else *tf_add(x) = v;
        }
    }
}

tree *ref_decode(const mdesc *d, const uint8_t *p, size_t n, rdres *r, tree *into)
{
    tree *t = into ? into : tree_new(d);
    rd x = {p, n, 0, r};
    r->errs = 0;
    r->ambiguous = r->dup_msg = r->noncanon = false;
    r->why = NULL;
    r->total = n;
    rmsg(t, &x);
    return t;
}

/* ---- bridge to the generated structs ----------------------------------- */

struct rep { int length; void *items; };
struct by { uint8_t *p; size_t n; };

void put_val(void *at, const fdesc *f, const val *v)
{
    switch (f->kind) {
    case K_STRING: {
        /* The API takes NUL-terminated char *. */
        char *s = ar_alloc(v->n + 1);
        if (v->n) memcpy(s, v->p, v->n);
        s[v->n] = 0;
        *(char **)at = s;
        break;
    }
    case K_BYTES: {
        struct by *b = at;
        /* exactly sized copy, so that over-reads leave the object */
        b->p = (uint8_t *)v->p;
        b->n = v->n;
        break;
    }
    case K_BOOL: *(bool *)at = v->u != 0; break;
    default:
        if (kind_size(f->kind) == 4) { uint32_t w = (uint32_t)v->u; memcpy(at, &w, 4); }
        else memcpy(at, &v->u, 8);
    }
}

int build(const tree *t, void *msg)
{
    char *m = msg;
    int i, j;
    for (i = 0; i < t->d->nf; i++) {
        const fdesc *f = &t->d->f[i];
        const tfield *x = &t->f[i];
        if (x->n == 0) continue;
        switch (f->card) {
        case C_SINGLE:
            if (f->kind == K_MSG) {
                st_call(1);
                if (f->alloc(msg) != 0) return -1;
                if (build(x->v[0].m, *(void **)(m + f->off))) return -1;
            } else put_val(m + f->off, f, &x->v[0]);
            break;
        case C_OPTIONAL:
            *(bool *)(m + f->off2) = true;
            put_val(m + f->off, f, &x->v[0]);
            break;
        case C_ONEOF:
            st_call(1);
            if (f->kind == K_MSG) {
                if (f->alloc(msg) != 0) return -1;
                if (build(x->v[0].m, *(void **)(m + f->off))) return -1;
            } else {
                f->init(msg);
                put_val(m + f->off, f, &x->v[0]);
            }
            break;
        case C_REPEATED: {
            struct rep *r = (void *)(m + f->off);
            st_call(1);
            if (f->alloc_n(msg, x->n) != 0) return -1;
            if (f->kind == K_MSG) {
                for (j = 0; j < x->n; j++)
                    if (x->v[j].m && build(x->v[j].m, (char *)r->items + (size_t)j * f->sub->size)) return -1;
            } else
                for (j = 0; j < x->n; j++)
                    put_val((char *)r->items + (size_t)j * (size_t)kind_size(f->kind), f, &x->v[j]);
            break;
        }
        }
    }
    return 0;
}

static const char *bad(const mdesc *d, const fdesc *f, int j, const char *what, uint64_t a, uint64_t b)
{
    char *s = (char *)dbuf();
    snprintf(s, 320, "field %s.%s[%d]: %s (expected 0x%llx, got 0x%llx)", d->name, f->name, j, what,
             (unsigned long long)a, (unsigned long long)b);
    return s;
}

static const char *cmp_val(const mdesc *d, const fdesc *f, int j, const val *v, const void *at)
{
    uint64_t u = 0;
    switch (f->kind) {
    case K_STRING: {
        const char *s = *(char *const *)at;
        size_t n, k;
        static const val none;
        if (!v) v = &none;
        if (!s) return bad(d, f, j, "string pointer is NULL", 1, 0);
        for (n = 0; n <= v->n && s[n]; n++) {}
        if (n != v->n) return bad(d, f, j, "string length differs", v->n, n);
        for (k = 0; k < n; k++)
            if ((uint8_t)s[k] != v->p[k]) return bad(d, f, j, "string contents differ", v->p[k], (uint8_t)s[k]);
        return NULL;
    }
    case K_BYTES: {
        const struct by *b = at;
        size_t n = v ? v->n : 0;
        if (b->n != n) return bad(d, f, j, "bytes size differs", n, b->n);
        if (n && memcmp(b->p, v->p, n)) return bad(d, f, j, "bytes contents differ", v->p[0], b->p[0]);
        return NULL;
    }
    case K_BOOL: {
        uint8_t w;
        memcpy(&w, at, 1);
        if (w > 1) return bad(d, f, j, "bool object is neither 0 nor 1", v ? v->u : 0, w);
        u = w;
        break;
    }
    default:
        if (kind_size(f->kind) == 4) { uint32_t w; memcpy(&w, at, 4); u = norm_scalar(f->kind, w); }
        else memcpy(&u, at, 8);
    }
    if (u != (v ? v->u : 0)) return bad(d, f, j, "value differs", v ? v->u : 0, u);
    return NULL;
}

const char *cmp(const tree *t, const void *msg)
{
    const char *m = msg, *e;
    int i, j;
    for (i = 0; i < t->d->noneof; i++) {
        int want = 0, got;
        for (j = 0; j < t->d->nf; j++)
            if (t->d->f[j].oneof == i && t->f[j].n) want = t->d->f[j].choice;
        memcpy(&got, m + t->d->oneof_off[i], sizeof(got));
        if (got != want) {
            char *s = (char *)dbuf();
            snprintf(s, 320, "oneof %d of %s: expected choice %d, got %d", i, t->d->name, want, got);
            return s;
        }
    }
    for (i = 0; i < t->d->nf; i++) {
        const fdesc *f = &t->d->f[i];
        const tfield *x = &t->f[i];
        switch (f->card) {
        case C_ONEOF:
            if (!x->n) break;
            /* fall through */
        case C_SINGLE:
            if (f->kind == K_MSG) {
                const void *p = *(void *const *)(m + f->off);
                if ((p != NULL) != (x->n != 0)) return bad(t->d, f, 0, "sub-message presence differs", (uint64_t)x->n, p != NULL);
                if (p && (e = cmp(x->v[0].m, p))) return e;
            } else if ((e = cmp_val(t->d, f, 0, x->n ? &x->v[0] : NULL, m + f->off))) return e;
            break;
        case C_OPTIONAL: {
            uint8_t w;
            memcpy(&w, m + f->off2, 1);
            if (w != (x->n != 0)) return bad(t->d, f, 0, "presence differs", (uint64_t)x->n, w);
            if (x->n && (e = cmp_val(t->d, f, 0, &x->v[0], m + f->off))) return e;
            break;
        }
        case C_REPEATED: {
            const struct rep *r = (const void *)(m + f->off);
            if (r->length != x->n) return bad(t->d, f, 0, "length differs", (uint64_t)x->n, (uint64_t)r->length);
            for (j = 0; j < x->n; j++) {
                if (f->kind == K_MSG) {
                    if ((e = cmp(x->v[j].m, (char *)r->items + (size_t)j * f->sub->size))) return e;
                } else if ((e = cmp_val(t->d, f, j, &x->v[j], (char *)r->items + (size_t)j * (size_t)kind_size(f->kind)))) return e;
            }
            break;
        }
        }
    }
    return NULL;
}

static uint64_t hash_val(uint64_t h, const fdesc *f, const void *at)
{
    uint64_t u = 0;
    switch (f->kind) {
    case K_STRING: {
        const char *s = *(char *const *)at;
        return s ? hash_bytes(h, s, strlen(s)) : hash_u64(h, 99);
    }
    case K_BYTES: {
        const struct by *b = at;
        return hash_bytes(h, b->p, b->n);
    }
    default:
        memcpy(&u, at, (size_t)kind_size(f->kind));
        return hash_u64(h, u);
    }
}

uint64_t msg_hash(uint64_t h, const mdesc *d, const void *msg)
{
    const char *m = msg;
    int i, j;
    for (i = 0; i < d->nf; i++) {
        const fdesc *f = &d->f[i];
        h = hash_u64(h, (uint64_t)i + 1);
        if (f->card == C_ONEOF) {
            int got;
            memcpy(&got, m + f->off2, sizeof(got));
            h = hash_u64(h, (uint64_t)(unsigned)got);
            if (got != f->choice) continue;
        }
        if (f->card == C_OPTIONAL) {
            if (!*(const uint8_t *)(m + f->off2)) continue;
            h = hash_u64(h, 77);
        }
        if (f->card == C_REPEATED) {
            const struct rep *r = (const void *)(m + f->off);
            h = hash_u64(h, (uint64_t)(unsigned)r->length);
            for (j = 0; j < r->length; j++) {
                if (f->kind == K_MSG) h = msg_hash(h, f->sub, (char *)r->items + (size_t)j * f->sub->size);
                else h = hash_val(h, f, (char *)r->items + (size_t)j * (size_t)kind_size(f->kind));
            }
        } else if (f->kind == K_MSG) {
            const void *p = *(void *const *)(m + f->off);
            h = p ? msg_hash(h, f->sub, p) : hash_u64(h, 55);
        } else h = hash_val(h, f, m + f->off);
    }
    return h;
}

static const char *in(const void *p, size_t n, size_t align, const uint8_t *lo, const uint8_t *hi,
                      const mdesc *d, const fdesc *f, const char *what)
{
    const uint8_t *q = p;
    char *s;
    if (q >= lo && q <= hi && n <= (size_t)(hi - q)) {
        if (((uintptr_t)q & (align - 1)) == 0) return NULL;
        s = (char *)dbuf();
        snprintf(s, 320, "field %s.%s: %s is not aligned to %zu", d->name, f->name, what, align);
        return s;
    }
    s = (char *)dbuf();
    snprintf(s, 320, "field %s.%s: %s is outside the workspace (offset %ld, size %zu of %ld)", d->name, f->name, what,
             (long)(q - lo), n, (long)(hi - lo));
    return s;
}

static const char *pc_val(const mdesc *d, const fdesc *f, const void *at, const uint8_t *lo, const uint8_t *hi)
{
    if (f->kind == K_STRING) {
        const char *s = *(char *const *)at;
        if (!s) return "string pointer is NULL";
        if ((const uint8_t *)s < lo || (const uint8_t *)s >= hi) {
            if (s[0] == 0 || ar_contains(s)) return NULL;
            return in(s, 1, 1, lo, hi, d, f, "string");
        }
        if (!memchr(s, 0, (size_t)(hi - (const uint8_t *)s))) return in(s, (size_t)-1, 1, lo, hi, d, f, "string end");
    } else if (f->kind == K_BYTES) {
        const struct by *b = at;
        if (b->n && !ar_contains(b->p) && !(b->p >= big_pattern && b->p < big_pattern + BIG)) return in(b->p, b->n, 1, lo, hi, d, f, "bytes");
    }
    return NULL;
}

const char *ptr_check(const mdesc *d, const void *msg, const uint8_t *lo, const uint8_t *hi)
{
    const char *m = msg, *e;
    int i, j;
    static const fdesc self = {.name = "(message)"};
    if ((e = in(msg, d->size, d->align, lo, hi, d, &self, "message"))) return e;
    for (i = 0; i < d->nf; i++) {
        const fdesc *f = &d->f[i];
        if (f->card == C_ONEOF) {
            int got;
            memcpy(&got, m + f->off2, sizeof(got));
            if (got != f->choice) continue;
        }
        if (f->card == C_OPTIONAL && !*(const bool *)(m + f->off2)) continue;
        if (f->card == C_REPEATED) {
            const struct rep *r = (const void *)(m + f->off);
            size_t sz = f->kind == K_MSG ? f->sub->size : (size_t)kind_size(f->kind);
            size_t al = f->kind == K_MSG ? f->sub->align : f->kind == K_BYTES ? 8 : sz;
            if (r->length < 0) return "negative repeated length";
            if (r->length == 0) continue;
            if ((e = in(r->items, sz * (size_t)r->length, al, lo, hi, d, f, "items"))) return e;
            for (j = 0; j < r->length; j++) {
                const char *q = (char *)r->items + sz * (size_t)j;
                if (f->kind == K_MSG) { if ((e = ptr_check(f->sub, q, lo, hi))) return e; }
                else if ((e = pc_val(d, f, q, lo, hi))) return e;
            }
        } else if (f->kind == K_MSG) {
            const void *p = *(void *const *)(m + f->off);
            if (!p) continue;
            if ((e = ptr_check(f->sub, p, lo, hi))) return e;
        } else if ((e = pc_val(d, f, m + f->off, lo, hi))) return e;
    }
    return NULL;
}

/* ---- generators --------------------------------------------------------- */

static uint64_t alph[K_COUNT][3][64];
static int alphn[K_COUNT][3];

static void aadd(int k, int lvl, uint64_t u)
{
    int i;
    u = norm_scalar(k, u);
    if (u == 0) return;
    for (i = 0; i < alphn[k][lvl]; i++) if (alph[k][lvl][i] == u) return;
    alph[k][lvl][alphn[k][lvl]++] = u;
}

__attribute__((constructor)) static void init_alph(void)
{
    int k, b;
    for (k = 0; k < K_COUNT; k++) {
        bool w32 = kind_size(k) == 4;
        if (k == K_STRING || k == K_BYTES || k == K_MSG) continue;
        if (k == K_BOOL) { aadd(k, 0, 1); aadd(k, 1, 1); aadd(k, 2, 1); continue; }
        if (k == K_FLOAT) {
            static const uint32_t v[] = {0x3f800000, 0x80000000, 0x7fc00001, 0xff800000, 0x00000001, 0x04030201,
                                         0xffffffff, 0x7f7fffff, 0x00800000, 0x40490fdb, 0x000000ff, 0x0000ff00,
                                         0x00ff0000, 0x7f800000, 0x7fa00000};
            for (b = 0; b < 15; b++) { if (b < 2) aadd(k, 0, v[b]); if (b < 5) aadd(k, 1, v[b]); aadd(k, 2, v[b]); }
            continue;
        }
        if (k == K_DOUBLE) {
            static const uint64_t v[] = {0x3ff0000000000000, 0x8000000000000000, 0x7ff8000000000001, 0xfff0000000000000,
                                         1, 0x0807060504030201, ~0ull, 0x7fefffffffffffff, 0x0010000000000000,
                                         0x400921fb54442d18, 0xff, 0xff00, 0xff0000, 0xff000000, 0xff00000000,
                                         0xff0000000000, 0xff000000000000, 0xff00000000000000, 0x00000000ffffffff,
                                         0xffffffff00000000};
            for (b = 0; b < 20; b++) { if (b < 2) aadd(k, 0, v[b]); if (b < 5) aadd(k, 1, v[b]); aadd(k, 2, v[b]); }
            continue;
        }
        /* integers */
        aadd(k, 0, 1);
        aadd(k, 0, ~0ull);
        aadd(k, 1, 1); aadd(k, 1, ~0ull); aadd(k, 1, 128); aadd(k, 1, w32 ? 0x80000000u : 1ull << 63);
        aadd(k, 1, w32 ? 0x7fffffffu : 0x123456789abcdefull);
        aadd(k, 2, 1); aadd(k, 2, ~0ull); aadd(k, 2, 2);
        for (b = 7; b < 64; b += 7) {
            aadd(k, 2, (1ull << b) - 1);
            aadd(k, 2, 1ull << b);
            if (k == K_SINT32 || k == K_SINT64) {
                aadd(k, 2, zag((1ull << b) - 1));
                aadd(k, 2, zag(1ull << b));
            }
        }
        aadd(k, 2, 0x7fffffff); aadd(k, 2, 0x80000000); aadd(k, 2, 0xffffffff); aadd(k, 2, 1ull << 32);
        aadd(k, 2, (1ull << 63) - 1); aadd(k, 2, 1ull << 63); aadd(k, 2, 0x0807060504030201ull); aadd(k, 2, 0xfffffffe);
        aadd(k, 2, 0xff); aadd(k, 2, 0xff00); aadd(k, 2, 0xff0000); aadd(k, 2, 0xff000000);
        aadd(k, 2, 0xff00000000ull); aadd(k, 2, 0xff0000000000ull); aadd(k, 2, 0xff000000000000ull);
    }
}

static const struct { const char *s; int n; } strs[] = {
    {"a", 1}, {"\xc3\xa5 z", 4}, {"\xff\x80\x01", 3}, {"hello, world", 12}};
static const struct { const char *s; int n; } byts[] = {
    {"\x00", 1}, {"ab\x00\xff", 4}, {"\x80", 1}, {"\x00\x00\x00", 3}};
static const int lens[] = {127, 128, 255, 256, 300, 129, 126};

int alpha_size(int k, int lvl)
{
    if (k == K_STRING || k == K_BYTES) return lvl == 0 ? 1 : lvl == 1 ? 3 : 4 + 3;
    if (k == K_MSG) return 0;
    return alphn[k][lvl];
}

val alpha_val(const fdesc *f, int lvl, int i, const gencfg *g)
{
    val v;
    (void)g;
    memset(&v, 0, sizeof(v));
    if (f->kind == K_STRING || f->kind == K_BYTES) {
        if (i >= 4) { v.p = big_pattern; v.n = (size_t)lens[i - 4]; }
        else if (f->kind == K_STRING) { v.p = (const uint8_t *)strs[i].s; v.n = (size_t)strs[i].n; }
        else { v.p = (const uint8_t *)byts[i].s; v.n = (size_t)byts[i].n; }
    } else v.u = alph[f->kind][lvl][i];
    return v;
}

/* A non-default value that differs for different i. */
val typical_val(const fdesc *f, int i, const gencfg *g)
{
    val v;
    (void)g;
    memset(&v, 0, sizeof(v));
    switch (f->kind) {
    case K_STRING: case K_BYTES: v.p = big_pattern + (i * 13) % 4000 + 3; v.n = (size_t)(1 + i % 3); break;
    case K_BOOL: v.u = (uint64_t)(i % 2 == 0); break;
    case K_FLOAT: v.u = 0x3f800000u + (uint32_t)i; break;
    case K_DOUBLE: v.u = 0x3ff0000000000000u + (uint64_t)i; break;
    case K_MSG: v.m = tree_new(f->sub); break;
    default: v.u = (uint64_t)(i + 1); break;
    }
    return v;
}

static val gen_item(const fdesc *f, int idx, const gencfg *g)
{
    /* typical, default, alphabet... */
    int c = dev(2 + alpha_size(f->kind, g->alpha));
    val v;
    if (c == 0) return typical_val(f, idx, g);
    memset(&v, 0, sizeof(v));
    if (c == 1) return v;
    return alpha_val(f, g->alpha, c - 2, g);
}

static const int counts_long[] = {16, 32, 127, 128};

void gen_tree(tree *t, const gencfg *g) { gen_tree_from(t, g, -1); }

bool gen_can_start(const mdesc *d, int i, const gencfg *g)
{
    int j;
    if (d->f[i].kind == K_MSG && g->depth <= 0) return false;
    for (j = 0; j < i; j++)
        if (d->f[i].oneof >= 0 && d->f[j].oneof == d->f[i].oneof) return false;
    return true;
}

/* First deviation at field `first` (which must be one where gen_can_start()):
 * the fields before it keep their defaults, it does not.  The caller has
 * paid for that deviation. */
void gen_tree_from(tree *t, const gencfg *g, int first)
{
    int i, j, c, force;
    gencfg s = *g;
    s.depth--;
#define DEV(n) (force ? 1 + ch((n) - 1) : dev(n))
    for (i = first < 0 ? 0 : first; i < t->d->nf; i++) {
        const fdesc *f = &t->d->f[i];
        tfield *x = &t->f[i];
        force = i == first;
        if (f->kind == K_MSG && f->card != C_ONEOF && g->depth <= 0) continue;
        switch (f->card) {
        case C_SINGLE:
            if (f->kind == K_MSG) {
                if (DEV(2)) { val *v = tf_add(x); v->m = tree_new(f->sub); gen_tree(v->m, &s); }
            } else {
                c = DEV(1 + alpha_size(f->kind, g->alpha));
                if (c) *tf_add(x) = alpha_val(f, g->alpha, c - 1, g);
            }
            break;
        case C_OPTIONAL:
            if (DEV(2)) *tf_add(x) = gen_item(f, 0, g);
            break;
        case C_REPEATED:
            c = DEV(1 + g->maxrep + (g->longs ? 4 : 0));
            if (c > g->maxrep) {
                c = counts_long[c - g->maxrep - 1];
                for (j = 0; j < c; j++) *tf_add(x) = typical_val(f, j, g);
            } else
                for (j = 0; j < c; j++) {
                    if (f->kind == K_MSG) { val *v = tf_add(x); v->m = tree_new(f->sub); gen_tree(v->m, &s); }
                    else *tf_add(x) = gen_item(f, j, g);
                }
            break;
        case C_ONEOF:
            /* the first member of each oneof decides for all */
            for (j = 0; j < i; j++) if (t->d->f[j].oneof == f->oneof) break;
            if (j < i) break;
            {
                int idx[2048], n = 0;
                for (j = i; j < t->d->nf; j++)
                    if (t->d->f[j].oneof == f->oneof && (t->d->f[j].kind != K_MSG || g->depth > 0)) idx[n++] = j;
                c = n ? DEV(1 + n) : 0;
                if (c) {
                    const fdesc *h = &t->d->f[idx[c - 1]];
                    tfield *y = &t->f[idx[c - 1]];
                    if (h->kind == K_MSG) { val *v = tf_add(y); v->m = tree_new(h->sub); gen_tree(v->m, &s); }
                    else *tf_add(y) = gen_item(h, 0, g);
                }
            }
            break;
        }
    }
}

void *fresh(const mdesc *d, struct region *ws, size_t size, int offset, uint8_t fill)
{
    uint8_t *p = region_set(ws, size, offset);
    memset(p, fill, size);
    st_call(1);
    return d->new_(p, size);
}
