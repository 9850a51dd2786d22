/* C19: echo passes exactly the decoded bytes on: any text, every kind of target. */
#include "world.h"
#ifndef N
#define N 4
#endif
#ifndef PRES
#define PRES { "", "\\x", "\"a\\", "q\\x4" }
#endif
static const char *const pre[] = PRES;
static const char *const suf[] = { "\r", " > g\r", " > d/e/r\r", " > h\r", " > zz\r", " >\r", " g\r", " > g x\r", " < g\r" };
static uint8_t txt[N + 2];
void harness(void)
{
        struct env *e = env_new(40, 64, 32, "h");
        struct ref *r = world(e, false);
#ifdef RAW
        both_types(e, r, "echo");
#else
        both_types(e, r, "echo ");
#endif
        both_types(e, r, pre[sym_choice(sizeof(pre) / sizeof(pre[0]), "prefix")]);
        size_t n = sym_choice(N + 1, "length"); sym_bytes(txt, n);
        for (size_t i = 0; i < n; i++) {
                uint8_t k = txt[i]; sym_assume((k != 0) & (k != 3) & (k != 8) & (k != 9) & (k != 10) & (k != 13) & (k != 27) & (k != 127));
#ifdef HEX
                sym_assume((k == '\\') | (k == 'x') | (k == '"') | (k == ' ') | ((k >= '/') & (k <= ':')) | ((k >= '@') & (k <= 'G')) | ((k >= '`') & (k <= 'g')));
#endif
        }
        both_keys(e, r, txt, n);
        both_types(e, r, suf[sym_choice(9, "target")]);
        for (size_t i = 0; i + 6 < r->ev.n && i < 1; i++) if (r->ev.b[i] == 'S') { sym_reach("written"); if (r->ev.b[i + 4] == 0) sym_reach("wrote nothing"); }
        ref_agree(r, e, "echo");
        both_types(e, r, "u\r"); ref_agree(r, e, "following command");
        sym_reach("done");
}
