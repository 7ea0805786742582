/* Schema descriptors, reference message contents ("trees"), reference
 * encoder/decoder, and the bridge to the generated C API. */
#ifndef MODEL_H
#define MODEL_H
#include "engine.h"
#ifdef __cplusplus
extern "C" {
#endif

enum kind { K_INT32, K_INT64, K_SINT32, K_SINT64, K_UINT32, K_UINT64, K_FIXED32, K_FIXED64,
            K_SFIXED32, K_SFIXED64, K_FLOAT, K_DOUBLE, K_BOOL, K_STRING, K_BYTES, K_ENUM, K_MSG,
            K_COUNT };
enum card { C_SINGLE, C_OPTIONAL, C_REPEATED, C_ONEOF };

typedef struct mdesc mdesc;
typedef struct fdesc {
    const char *name;
    uint32_t number;
    int kind, card;
    size_t off;                  /* value, or {length, items} for repeated */
    size_t off2;                 /* is_present / oneof choice */
    int oneof;                   /* oneof index or -1 */
    int choice;                  /* enum value of the choice */
    const mdesc *sub;
    int (*alloc)(void *);        /* sub-message, oneof sub-message */
    int (*alloc_n)(void *, int); /* repeated */
    void (*init)(void *);        /* oneof non-message */
} fdesc;

struct mdesc {
    const char *name;
    size_t size, align;
    int nf, noneof;
    const fdesc *f;
    const size_t *oneof_off;
    void *(*new_)(void *, size_t);
    int (*encode)(void *, uint8_t *, size_t);
    int (*decode)(void *, const uint8_t *, size_t);
};

/* The schema under test (generated glue). */
extern const mdesc *const all_msgs[];
extern const int n_all_msgs;
const mdesc *msg_by_name(const char *name);

typedef struct tree tree;
typedef struct val { uint64_t u; const uint8_t *p; size_t n; tree *m; } val;
typedef struct tfield { int n, cap; val *v; } tfield;
struct tree { const mdesc *d; tfield f[]; };

tree *tree_new(const mdesc *d);
val *tf_add(tfield *f);
tree *tree_clone(const tree *t);
bool val_is_default(const fdesc *f, const val *v);
uint64_t norm_scalar(int kind, uint64_t u);
int kind_size(int kind);         /* size of the C item */
int wire_of(int kind);
bool is_varint_kind(int k);

/* NULL if equal, else a description. */
const char *tree_diff(const tree *a, const tree *b);
bool tree_equal(const tree *a, const tree *b);
uint64_t tree_hash(uint64_t h, const tree *t);
void tree_print(const tree *t, char *b, size_t n);

/* Reference encoder: canonical form, ascending declaration order. */
typedef struct obuf { uint8_t *p; size_t n, cap; } obuf;
void ob_init(obuf *b, size_t cap);
void ob_byte(obuf *b, uint8_t v);
void ob_bytes(obuf *b, const void *p, size_t n);
void ob_varint(obuf *b, uint64_t v);
void ob_varint_pad(obuf *b, uint64_t v, int total);
void ob_tag(obuf *b, uint32_t number, int wt);
void ref_encode(obuf *b, const tree *t);
void ref_encode_val(obuf *b, const fdesc *f, const val *v); /* payload without tag, with length prefix */
size_t ref_size(const tree *t);

/* Error codes of the library, as documented. */
enum { E_WIRE = 1, E_DATA = 2, E_MEM = 3, E_FULL = 4, E_FIELD = 5, E_VARINT = 6, E_SEEK = 7, E_LEN = 8 };

typedef struct rdres {
    unsigned errs;               /* bit set of defects present */
    bool ambiguous;              /* outside what proto3/pbtools define; only safety is checked */
    bool dup_msg;                /* a singular sub-message occurs more than once */
    bool noncanon;               /* strict mode: not the canonical form */
    const char *why;
    size_t total;                /* input size */
    size_t ws;                   /* workspace size, for out-of-memory admissibility */
    bool replace;                /* duplicates of singular sub-messages replace instead of merge */
} rdres;
/* into: existing contents (decode into a non-empty message) or NULL. */
tree *ref_decode(const mdesc *d, const uint8_t *p, size_t n, rdres *r, tree *into);

/* Bridge. */
void put_val(void *at, const fdesc *f, const val *v);
int build(const tree *t, void *msg);            /* 0, or -1 if an allocation failed */
const char *cmp(const tree *t, const void *msg); /* NULL if the struct holds exactly t */
/* Hash of the contents of the struct. */
uint64_t msg_hash(uint64_t h, const mdesc *d, const void *msg);
/* Checks every reachable pointer against [lo, hi). */
const char *ptr_check(const mdesc *d, const void *msg, const uint8_t *lo, const uint8_t *hi);

/* Generators driven by the explorer. */
typedef struct gencfg {
    int depth;                   /* sub-message nesting */
    int alpha;                   /* 0 tiny, 1 small, 2 full */
    int maxrep;
    bool longs;                  /* include length-boundary strings and counts */
} gencfg;
void gen_tree(tree *t, const gencfg *g);
void gen_tree_from(tree *t, const gencfg *g, int first);
bool gen_can_start(const mdesc *d, int i, const gencfg *g);
int alpha_size(int kind, int level);
val alpha_val(const fdesc *f, int level, int i, const gencfg *g);
val typical_val(const fdesc *f, int i, const gencfg *g);

/* A fresh message in the region, which is filled with garbage first. */
void *fresh(const mdesc *d, struct region *ws, size_t size, int offset, uint8_t fill);
extern uint8_t big_pattern[];    /* non-zero bytes */
#ifdef __cplusplus
}
#endif
#endif
