/* C13 with the built-in commands and a real tree: any word typed in any directory. */
#include "world.h"
#ifndef N
#define N 3
#endif
static uint8_t key[N + 4];
static const char *const cds[] = { "", "cd d\r", "cd d/e\r", "cd b\r" };
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        struct ref *r = world(e, true);
        both_types(e, r, cds[sym_choice(4, "working directory")]); ref_agree(r, e, "cd");
        static const char *const pre[] = { "", "cat ", "u  " };
        both_types(e, r, pre[sym_choice(3, "before the word")]);
        size_t n = sym_choice(N + 1, "typed length"); sym_bytes(key, n);
        for (size_t i = 0; i < n; i++) { uint8_t c = key[i]; sym_assume((c != 0) & (c != 3) & (c != 8) & (c != 10) & (c != 13) & (c != 27) & (c != 127)); }
        both_keys(e, r, key, n); ref_agree(r, e, "typing");
        both_types(e, r, "\t"); ref_agree(r, e, "completion");
        both_types(e, r, "\t"); ref_agree(r, e, "second completion");
        both_types(e, r, "z\r"); ref_agree(r, e, "execution");
        both_types(e, r, "\t"); ref_agree(r, e, "completion of the empty line");
        sym_reach("done");
}
