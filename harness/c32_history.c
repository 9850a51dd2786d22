/* C32: what a line does depends only on the tree, the groups, the working directory and the
 * files, not on the lines, completions, prints and edits before: sequences of K lines, each
 * compared with the model, which keeps nothing else from line to line. */
#ifdef BIG
#define OUTMAX 16384
#include "big.h"
#else
#define OUTMAX 2048
#include "world.h"
#endif
#ifndef K
#define K 2
#endif
static const char *const lines[] = { LINES };
#define NL (sizeof(lines) / sizeof(lines[0]))
static uint8_t key[K][600];
void harness(void)
{
#ifdef BIG
        struct env *e = env_new(700, 600, 512, "h"); struct ref *r = big(e, true);
#else
        struct env *e = env_new(28, 64, 28, "h"); struct ref *r = world(e, true);
        static uint8_t data[4]; sym_bytes(data, 2); data[2] = 0; beh[W_G].data = data; beh[W_G].n = 3;
#endif
        for (unsigned k = 0; k < K; k++) {
                unsigned c = sym_choice(NL + 3, "line");
                if (c >= NL) {
                        struct fbeh b = { .act = c == NL ? A_PRINT : c == NL + 1 ? A_PRINTF : A_RESET, .text = "t" };
                        f_act(e->sh, &b); env_idle(e); ref_action(r, &b); ref_agree(r, e, "call from outside"); sym_reach("call between lines"); continue;
                }
                const char *l = lines[c]; size_t n = 0;
                for (; l[n]; n++) { key[k][n] = (uint8_t)l[n]; if (l[n] == '?') { sym_bytes(&key[k][n], 1); sym_assume(key[k][n] != 0); } }
                both_keys(e, r, key[k], n); ref_agree(r, e, "line");
        }
        both_types(e, r, "\x03"); both_types(e, r, "pwd\r"); ref_agree(r, e, "last line");
        sym_reach("done");
}
