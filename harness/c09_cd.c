/* C09 as a user sees it: cd <path>, then pwd. */
#include "world.h"
#ifndef N
#define N 6
#endif
static const char *const cds[] = { "", "cd d\r", "cd d/e\r", "cd b\r" };
static uint8_t in[N + 4];
void harness(void)
{
        struct env *e = env_new(N + 16, 64, 64, "h");
        struct ref *r = world(e, false);
        both_types(e, r, cds[sym_choice(4, "working directory")]); ref_agree(r, e, "cd");
        size_t n = 1 + sym_choice(N, "length");
        sym_bytes(in, n);
        for (size_t i = 0; i < n; i++) sym_assume((in[i] == '.') | (in[i] == '/') | (in[i] == 'd') | (in[i] == 'e'));
        in[n] = '\r';
        both_types(e, r, "cd "); both_keys(e, r, in, n + 1); ref_agree(r, e, "cd");
        both_types(e, r, "pwd\r"); ref_agree(r, e, "pwd");
        sym_reach("done");
}
