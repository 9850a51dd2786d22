/* C08: the first argument resolves to exactly the right file, from every working directory. */
#include "world.h"
#ifndef N
#define N 4
#endif
static uint8_t key[N + 4];
static const char *const cds[] = { "", "cd d\r", "cd d/e\r", "cd b\r" };
#ifndef SUFS
#define SUFS { "\r", " a\r" }
#endif
static const char *const sufs[] = SUFS;
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        struct ref *r = world(e, HOOK);
        const char *c = cds[sym_choice(4, "working directory")];
        both_types(e, r, c); ref_agree(r, e, "cd");
        r->executed = 0;
#ifdef PRE
        both_types(e, r, PRE);
#endif
        size_t n = sym_choice(N + 1, "length");
        sym_bytes(key, n);
        for (size_t i = 0; i < n; i++) { uint8_t k = key[i]; sym_assume((k != 0) & (k != 3) & (k != 8) & (k != 9) & (k != 10) & (k != 13) & (k != 27) & (k != 127) & (k != ' ') & (k != '"') & (k != '\\')); }
        const char *s = sufs[sym_choice(sizeof(sufs) / sizeof(sufs[0]), "arguments")]; size_t l = strlen(s);
        memcpy(key + n, s, l);
        both_keys(e, r, key, n + l);
        bool x = r->ev.n > 2 && r->ev.b[HOOK ? 0 : 0] != 0; (void)x;
        for (size_t i = 0; i + 1 < r->ev.n; i++) if (r->ev.b[i] == 'X') { sym_reach("file executed"); break; }
        ref_agree(r, e, "command name");
        sym_reach("done");
}
