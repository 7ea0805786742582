/* C13: pbtools_error_code_to_string() for every int. */
#include "engine.h"
#include "pbtools.h"
#include <limits.h>
const char *h_name = "error strings";
#define STEP (1u << 20)
static const char *names[] = {"Ok", "Bad wire type", "Out of data", "Out of memory", "Encode buffer full", "Bad field number",
                              "Varint overflow", "Seek overflow", "Length delimited overflow"};
int h_nroots(void) { return 4096; }
void h_describe(int r, char *b, size_t n) { snprintf(b, n, "codes from %d", (int)((unsigned)r * STEP)); }
const char *h_outcome_name(int k) { return k == 0 ? "Unknown error" : k <= 9 ? names[k - 1] : NULL; }
void h_run(int r)
{
    unsigned i, lo = (unsigned)r * STEP;
    char copy[64];
    const char *unk = NULL;
    (void)ch(1);
    for (i = 0; i < STEP; i++) {
        int c = (int)(lo + i);
        const char *s, *want = "Unknown error";
        if (c >= -8 && c <= 8) want = names[c < 0 ? -c : c];
        s = pbtools_error_code_to_string(c);
        if (!s) fail("code %d gives NULL", c);
        if ((s != unk || (c >= -8 && c <= 8)) && strcmp(s, want)) fail("code %d gives \"%s\", not \"%s\"", c, s, want);
        if (c < -8 || c > 8) { if (s != unk) { unk = s; } if (i % 4096 == 0 && strcmp(s, want)) fail("code %d gives \"%s\"", c, s); }
        else {
            /* a constant: later calls do not change it */
            snprintf(copy, sizeof(copy), "%s", s);
            (void)pbtools_error_code_to_string(12345);
            (void)pbtools_error_code_to_string(c == 1 ? 2 : 1);
            if (strcmp(copy, s)) fail("the string for code %d is overwritten by later calls", c);
            st_outcome(1 + (c < 0 ? -c : c));
            sample("%d -> %s", c, s);
        }
    }
    st_call((int)STEP);
    st_state(hash_u64(13, lo));
    st_trace();
    if (unk && strcmp(unk, "Unknown error")) fail("the string changes");
}
