/* C20: printing at any time, also while a command or output is in progress. */
#include "world.h"
#ifndef J
#define J 60
#endif
static char t[4];
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        struct ref *r = world(e, true);
        static const char *const l[] = { "xxd g\r", "cat g\r", "ls\r", "help\r", "h\t", "zz\r", "ab" };
        const char *s = l[sym_choice(7, "line")];
        env_feed(e, s, strlen(s));
        unsigned j = sym_choice(J, "calls before printing");
        for (unsigned i = 0; i < j; i++) env_service(e);
        e->feed_len = e->feed_pos;
        sym_bytes(t, 2); sym_assume((t[0] != 0) & (t[1] != 0)); t[2] = 0;
        ush_printf(e->sh, "%s", t); ush_printf(e->sh, "-%d-", 5);
        env_idle(e);
        struct sb x = { .n = 0 }; sb_s(&x, t); sb_s(&x, "-5-"); sb_prompt(&x, "h", "/");
        sym_check(e->out_n >= x.n && memcmp(e->out + e->out_n - x.n, x.b, x.n) == 0, "text or prompt is missing at the end of the output");
        env_clear(e); ev.n = 0; r->ev.n = 0; r->out.n = 0;
        both_types(e, r, "u a\r"); ref_agree(r, e, "following command");
        sym_reach("done");
}
