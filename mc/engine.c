#define _GNU_SOURCE
#include "engine.h"
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)(a), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)(a), (void)(n))
#endif

int eng_bound = 1000000;
int eng_thorough;
int eng_replaying;
const char *eng_mode = "";

#define MAXW 64
#define NSAMP 2
struct wshm {
    volatile uint64_t beat, execs, calls, traces, maxdepth;
    volatile uint64_t outc[32];
    volatile uint64_t knownc[32];
    char knownmsg[32][160];
    volatile int root, nch, failed, done, bound;
    volatile int vec[MAXCH];
    char msg[2048];
    volatile int nsamp;
    char samp[NSAMP][512];
};
struct shm {
    volatile uint64_t next_root;
    volatile uint64_t states;
    volatile uint64_t state_cap_hit;
    volatile int stop, cut;
    struct wshm w[MAXW];
};
#define HBITS 27
static struct shm *S;
static volatile uint64_t *H;
static struct wshm *W;

static int vec[MAXCH], vn[MAXCH];
static uint8_t vdev[MAXCH];
static int ncur, nprefix, cost;

uint64_t hash_bytes(uint64_t h, const void *p_, size_t n)
{
    const uint8_t *p = p_;
    size_t i;
    h ^= n * 0x9e3779b97f4a7c15ull;
    for (i = 0; i + 8 <= n; i += 8) {
        uint64_t v;
        memcpy(&v, p + i, 8);
        h = (h ^ v) * 0xff51afd7ed558ccdull;
        h ^= h >> 32;
    }
    for (; i < n; i++) {
        h = (h ^ p[i]) * 0x100000001b3ull;
        h ^= h >> 29;
    }
    return h * 0xc4ceb9fe1a85ec53ull ^ (h >> 31);
}

uint64_t hash_u64(uint64_t h, uint64_t v)
{
    h = (h ^ v) * 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}

void st_call(int n) { W->calls += (uint64_t)n; }
void st_trace(void) { W->traces++; }
void st_outcome(int k) { W->outc[k & 31]++; }

void st_state(uint64_t h)
{
    uint64_t i, m = (1ull << HBITS) - 1, probes = 0, v;
    if (h == 0) h = 1;
    h ^= h >> 29;
    h *= 0x9e3779b97f4a7c15ull;
    if (h == 0) h = 1;
    for (i = h >> (64 - HBITS);; i = (i + 1) & m) {
        v = H[i];
        if (v == h) return;
        if (v == 0) {
            if (S->states > (m * 3) / 4) { S->state_cap_hit = 1; return; }
            if (__sync_bool_compare_and_swap(&H[i], 0, h)) {
                __sync_fetch_and_add(&S->states, 1);
                return;
            }
            if (H[i] == h) return;
        }
        if (++probes > 1000) { S->state_cap_hit = 1; return; }
    }
}

static int choose(int n, int isdev)
{
    int c;
    if (n <= 0) fail("HARNESS: choice among %d", n);
    if (ncur >= MAXCH) fail("HARNESS: too many choices");
    if (ncur < nprefix) {
        c = vec[ncur];
        if ((vn[ncur] != 0 && vn[ncur] != n) || c >= n)
            fail("HARNESS: divergence while replaying: choice %d of %d, had %d of %d",
                 ncur, n, c, vn[ncur]);
    } else {
        c = 0;
        vec[ncur] = 0;
    }
    vn[ncur] = n;
    vdev[ncur] = (uint8_t)isdev;
    W->vec[ncur] = c;
    ncur++;
    W->nch = ncur;
    if (isdev && c) cost++;
    return c;
}

int ch(int n) { return choose(n, 0); }
int dev(int n) { return choose(n, 1); }
int eng_choices(const int **v) { *v = vec; return ncur; }

void fail(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(W->msg, sizeof(W->msg), fmt, ap);
    va_end(ap);
    W->failed = 1;
    __sync_synchronize();
    _exit(3);
}

void known(int id, const char *fmt, ...)
{
    if (W->knownc[id]++ == 0) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(W->knownmsg[id], sizeof(W->knownmsg[id]), fmt, ap);
        va_end(ap);
    }
}

bool want_sample(void)
{
    uint64_t e = W->execs;
    /* deterministic per worker, spread out */
    return W->nsamp < NSAMP && (e == 3 || e == 20000 || eng_replaying);
}

void sample(const char *fmt, ...)
{
    va_list ap;
    if (W->nsamp >= NSAMP) return;
    va_start(ap, fmt);
    vsnprintf(W->samp[W->nsamp], sizeof(W->samp[0]), fmt, ap);
    va_end(ap);
    W->nsamp++;
}

static char *ar;
static size_t ar_pos;
#define AR_CAP ((size_t)4 << 30)
void *ar_alloc(size_t n)
{
    void *p;
    n = (n + 15) & ~(size_t)15;
    if (ar_pos + n > AR_CAP) fail("HARNESS: arena full");
    p = ar + ar_pos;
    ar_pos += n;
    memset(p, 0, n);
    return p;
}
/* For h_nroots(), which runs before the workers. */
void ar_setup(void)
{
    ar = mmap(NULL, AR_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ar_pos = 0;
}
bool ar_contains(const void *p) { return (const char *)p >= ar && (const char *)p < ar + AR_CAP; }
size_t ar_mark(void) { return ar_pos; }
void ar_release(size_t m) { ar_pos = m; }

#define RZ 256
void region_init(struct region *r, size_t cap)
{
    cap = (cap + 127) & ~(size_t)63;
    r->base = mmap(NULL, cap + 2 * RZ + 64, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (r->base == MAP_FAILED) { perror("mmap"); _exit(9); }
    r->cap = cap;
    r->p = r->base + RZ;
    r->n = 0;
    r->shown = 0;
    r->shown_p = r->p;
    ASAN_POISON_MEMORY_REGION(r->base, cap + 2 * RZ);
}

static uint8_t canary(const uint8_t *p) { return (uint8_t)(0x5a ^ ((uintptr_t)p & 0xff)); }

uint8_t *region_set(struct region *r, size_t n, int offset)
{
    uint8_t *p = r->base + RZ + offset;
    size_t i;
    if (n + (size_t)offset > r->cap) fail("HARNESS: region too small (%zu)", n);
    if (r->shown_p == p && r->shown == n) return p;
    ASAN_POISON_MEMORY_REGION(r->base, r->cap + 2 * RZ);
    r->p = p;
    r->n = n;
    r->shown = n;
    r->shown_p = p;
    ASAN_UNPOISON_MEMORY_REGION(p, n);
    /* The 8-byte granules around cannot always be exact: canaries. */
    {
        uint8_t *a = (uint8_t *)((uintptr_t)p & ~(uintptr_t)7);
        (void)a;
#ifdef HAVE_ASAN
        for (i = 0; a + i < p; i++)
            if (!__asan_address_is_poisoned(a + i)) a[i] = canary(a + i);
#else
        for (i = 0; i < RZ / 2; i++) {
            p[-(long)i - 1] = canary(p - i - 1);
            p[n + i] = canary(p + n + i);
        }
#endif
    }
    return p;
}

void region_check(struct region *r, const char *what)
{
    uint8_t *p = r->p;
    size_t i;
#ifdef HAVE_ASAN
    uint8_t *a = (uint8_t *)((uintptr_t)p & ~(uintptr_t)7);
    for (i = 0; a + i < p; i++)
        if (!__asan_address_is_poisoned(a + i) && a[i] != canary(a + i))
            fail("%s: byte before the start was overwritten", what);
#else
    for (i = 0; i < RZ / 2; i++) {
        if (p[-(long)i - 1] != canary(p - i - 1))
            fail("%s: byte %zu before the start was overwritten", what, i + 1);
        if (p[r->n + i] != canary(p + r->n + i))
            fail("%s: byte %zu after the end was overwritten", what, i);
    }
#endif
}

const char *hexs(const uint8_t *p, size_t n)
{
    static char b[4][600];
    static int k;
    size_t i;
    char *s = b[k++ & 3];
    s[0] = 0;
    for (i = 0; i < n && i < 250; i++) sprintf(s + 2 * i, "%02x", p[i]);
    if (n > 250) strcat(s, "...");
    return s;
}

static void explore(int root)
{
    int i, c;
    nprefix = 0;
    memset(vn, 0, sizeof(vn));
    W->root = root;
    for (;;) {
        ncur = 0;
        cost = 0;
        ar_pos = 0;
        W->nch = 0;
        h_run(root);
        if (ncur < nprefix) fail("HARNESS: divergence: replayed prefix not consumed");
        W->execs++;
        W->beat++;
        if (eng_bound < 1000000 && eng_bound > W->bound) W->bound = eng_bound;
        if ((uint64_t)ncur > W->maxdepth) W->maxdepth = (uint64_t)ncur;
        /* next vector */
        c = cost;
        for (i = ncur - 1; i >= 0; i--) {
            int d = vdev[i] && vec[i] ? 1 : 0;
            c -= d;                                /* deviations before i */
            if (vec[i] + 1 < vn[i] && (!vdev[i] || c + 1 <= eng_bound)) break;
        }
        if (i < 0) return;
        vec[i]++;
        nprefix = i + 1;
        memset(&vn[nprefix], 0, sizeof(int) * (size_t)(ncur - nprefix));
        if (S->stop) return;
    }
}

static void worker(int k, int nroots)
{
    W = &S->w[k];
    ar = mmap(NULL, AR_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    h_init();
    for (;;) {
        uint64_t r = __sync_fetch_and_add(&S->next_root, 1);
        if (r >= (uint64_t)nroots || S->stop) break;
        explore((int)r);
    }
    W->done = 1;
    _exit(0);
}

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) fprintf(f, "\\u%04x", (unsigned char)*s);
        else fputc(*s, f);
    }
    fputc('"', f);
}

__attribute__((weak)) void h_describe(int root, char *buf, size_t n) { snprintf(buf, n, "root %d", root); }
__attribute__((weak)) const char *h_outcome_name(int k) { (void)k; return NULL; }
__attribute__((weak)) void h_init(void) {}
__attribute__((weak)) void h_extra(FILE *f) { (void)f; }

int main(int argc, char **argv)
{
    /* args: STATS TIER NWORKERS HANGSEC MODE [ROOT c0 c1 ...] */
    int nw, i, nroots, live, rc = 0, hang;
    long long deadline;
    pid_t pid[MAXW];
    uint64_t beat[MAXW];
    double quiet[MAXW];
    const char *stats;
    FILE *f;
    if (argc < 6) return 9;
    stats = argv[1];
    eng_thorough = !strcmp(argv[2], "thorough");
    nw = atoi(argv[3]);
    hang = atoi(argv[4]);
    eng_mode = argv[5];
    deadline = getenv("PBMC_DEADLINE") ? atoll(getenv("PBMC_DEADLINE")) : 0;
    S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    H = mmap(NULL, sizeof(uint64_t) << HBITS, PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || H == MAP_FAILED) { perror("mmap"); return 9; }
    W = &S->w[0];
    nroots = h_nroots();
    if (argc > 6) {
        int root = atoi(argv[6]);
        eng_replaying = 1;
        nprefix = argc - 7;
        for (i = 0; i < nprefix; i++) vec[i] = atoi(argv[7 + i]);
        pid[0] = fork();
        if (pid[0] == 0) {
            W = &S->w[0];
            ar = mmap(NULL, AR_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            h_init();
            alarm((unsigned)hang);
            h_run(root);
            W->done = 1;
            _exit(0);
        }
        int stt;
        waitpid(pid[0], &stt, 0);
        for (i = 0; i < S->w[0].nsamp; i++) printf("%s\n", S->w[0].samp[i]);
        if (S->w[0].failed) { printf("reproduced: %s\n", S->w[0].msg); return 1; }
        if (!S->w[0].done) { printf("reproduced: process died, status 0x%x\n", stt); return 1; }
        printf("not reproduced\n");
        return 0;
    }
    if (nw > MAXW) nw = MAXW;
    if (nw > nroots) nw = nroots > 0 ? nroots : 1;
    for (i = 0; i < nw; i++) {
        fflush(NULL);
        pid[i] = fork();
        if (pid[i] == 0) worker(i, nroots);
        beat[i] = 0;
        quiet[i] = 0;
    }
    live = nw;
    while (live > 0) {
        struct timespec ts = {0, 20000000};
        nanosleep(&ts, NULL);
        if (deadline && !S->stop && time(NULL) > deadline) S->cut = S->stop = 1;
        for (i = 0; i < nw; i++) {
            int stt;
            if (pid[i] == 0) continue;
            if (waitpid(pid[i], &stt, WNOHANG) == pid[i]) {
                pid[i] = 0;
                live--;
                if (!S->w[i].done && !S->w[i].failed) {
                    if (!(S->stop && WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL)) {
                        S->w[i].failed = 2;
                        if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL)
                            snprintf(S->w[i].msg, sizeof(S->w[i].msg), "HARNESS killed (out of memory?)");
                        else
                        snprintf(S->w[i].msg, sizeof(S->w[i].msg),
                                 "process died (wait status 0x%x): memory error or crash", stt);
                    }
                }
                if (S->w[i].failed) S->stop = 1;
                continue;
            }
            if (S->w[i].beat != beat[i]) { beat[i] = S->w[i].beat; quiet[i] = 0; }
            else {
                quiet[i] += 0.02;
                if (quiet[i] > hang) {
                    S->w[i].failed = 3;
                    snprintf(S->w[i].msg, sizeof(S->w[i].msg),
                             "no progress for %d s: does not terminate", hang);
                    kill(pid[i], SIGKILL);
                    S->stop = 1;
                }
            }
        }
    }
    f = fopen(stats, "w");
    if (!f) return 9;
    {
        uint64_t execs = 0, calls = 0, traces = 0, md = 0, outc[32] = {0}, kc[32] = {0};
        int first = 1, fw = -1, k, mb = 0;
        for (i = 0; i < nw; i++) {
            execs += S->w[i].execs;
            calls += S->w[i].calls;
            traces += S->w[i].traces;
            if (S->w[i].bound > mb) mb = S->w[i].bound;
            if (S->w[i].maxdepth > md) md = S->w[i].maxdepth;
            for (k = 0; k < 32; k++) { outc[k] += S->w[i].outc[k]; kc[k] += S->w[i].knownc[k]; }
            if (S->w[i].failed && (fw < 0 || S->w[i].nch < S->w[fw].nch)) fw = i;
        }
        fprintf(f, "{\"harness\":\"%s\",\"roots\":%d,\"execs\":%llu,\"calls\":%llu,\"traces\":%llu,"
                "\"states\":%llu,\"state_cap_hit\":%llu,\"max_choices\":%llu,\"bound\":%d,",
                h_name, nroots, (unsigned long long)execs, (unsigned long long)calls,
                (unsigned long long)traces, (unsigned long long)S->states,
                (unsigned long long)S->state_cap_hit, (unsigned long long)md, mb);
        fprintf(f, "\"cut\":%d,\"outcomes\":{", S->cut);
        for (k = 0; k < 32; k++)
            if (outc[k]) {
                const char *nm = h_outcome_name(k);
                char b[32];
                snprintf(b, sizeof(b), "%d", k);
                fprintf(f, "%s\"%s\":%llu", first ? "" : ",", nm ? nm : b, (unsigned long long)outc[k]);
                first = 0;
            }
        fprintf(f, "},\"known\":{");
        first = 1;
        for (k = 0; k < 32; k++)
            if (kc[k]) {
                fprintf(f, "%s\"%d\":{\"count\":%llu,\"msg\":", first ? "" : ",", k, (unsigned long long)kc[k]);
                for (i = 0; i < nw; i++) if (S->w[i].knownc[k]) break;
                jstr(f, S->w[i].knownmsg[k]);
                fprintf(f, "}");
                first = 0;
            }
        fprintf(f, "},\"samples\":[");
        first = 1;
        for (i = 0; i < nw; i++)
            for (k = 0; k < S->w[i].nsamp; k++) {
                if (!first) fprintf(f, ",");
                jstr(f, S->w[i].samp[k]);
                first = 0;
            }
        fprintf(f, "],\"fail\":");
        if (fw >= 0) {
            char d[256];
            h_describe(S->w[fw].root, d, sizeof(d));
            fprintf(f, "{\"kind\":%d,\"msg\":", S->w[fw].failed);
            jstr(f, S->w[fw].msg);
            fprintf(f, ",\"where\":");
            jstr(f, d);
            fprintf(f, ",\"root\":%d,\"choices\":[", S->w[fw].root);
            for (k = 0; k < S->w[fw].nch; k++) fprintf(f, "%s%d", k ? "," : "", S->w[fw].vec[k]);
            fprintf(f, "]}");
            rc = 1;
        } else {
            fprintf(f, "null");
        }
        h_extra(f);
        fprintf(f, "}\n");
    }
    fclose(f);
    return rc;
}
