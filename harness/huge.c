/* The huge world (huge.h): a line from LINES ('?': any byte but NUL, %0..%3 the long names,
 * %4, %5 the long commands, #NNNtext# repeats), from one of CDS; everything is compared with
 * the model; then a probe line. */
#include "huge.h"
#ifndef CDS
#define CDS { "" }
#endif
#ifndef IN
#define IN RLINE
#endif
#ifndef OUT
#define OUT 1200
#endif
#ifndef PMAX
#define PMAX 1400
#endif
static const char *const cds[] = CDS;
static const char *const lines[] = { LINES };
static uint8_t key[RLINE * 2 + 64];
static size_t expand(const char *p, size_t n)
{
        while (*p) {
                if (*p == '%') { unsigned k = (unsigned)(p[1] - '0'); const char *s = k < 2 ? hl[k] : k < 4 ? hl[k] + 3 : hu_lc[k - 4].name; for (; *s; s++) key[n++] = (uint8_t)*s; p += 2; }
                else if (*p == '#') { unsigned k = (unsigned)((p[1] - '0') * 100 + (p[2] - '0') * 10 + (p[3] - '0')); const char *q = p + 4; p = strchr(q, '#'); while (k-- > 0) for (const char *t = q; t < p; t++) key[n++] = (uint8_t)*t; p++; }
                else key[n++] = (uint8_t)*p++;
        }
        return n;
}
void harness(void)
{
        struct env *e = env_new(IN, OUT, PMAX, "h");
        struct ref *r = huge(e, true);
        size_t n = expand(cds[sizeof(cds) / sizeof(cds[0]) == 1 ? 0 : sym_choice(sizeof(cds) / sizeof(cds[0]), "working directory")], 0);
        both_keys(e, r, key, n); ref_agree(r, e, "cd");
        n = expand(lines[sym_choice(sizeof(lines) / sizeof(lines[0]), "line")], 0);
        for (size_t i = 0; i < n; i++) if (key[i] == '?') { sym_bytes(key + i, 1); sym_assume(key[i] != 0); }
        for (size_t i = 0; i < n; i++) sym_log(key[i]);
        both_keys(e, r, key, n); ref_agree(r, e, "line");
        both_types(e, r, "\r"); ref_agree(r, e, "execution");
        both_types(e, r, "pwd\r"); ref_agree(r, e, "pwd");
        sym_reach("done");
}
