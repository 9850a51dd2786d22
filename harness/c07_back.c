/* C07: whatever was typed, the shell comes back to reading within a bounded number of
 * calls, and after Ctrl-C or an end of line the next command is executed normally. */
#define OUTMAX 4096
#define RLINE 128
#include "world.h"
#ifndef N
#define N 3
#endif
#ifndef IN_SIZES
#define IN_SIZES { 7, 24 }
#endif
#ifndef PRES
#define PRES { "" }
#endif
#ifndef STEPS
#define STEPS 2500
#endif
static const uint8_t in_sizes[] = IN_SIZES;
static const char *const pres[] = PRES;
static uint8_t key[N + 2];
static void idle(struct env *e) { bool ok = env_try_idle(e, STEPS); sym_check(ok, "the shell does not return to reading input within the bound"); }
void harness(void)
{
        size_t in = in_sizes[sym_choice(sizeof(in_sizes), "input buffer size")];
        struct env *e = env_new(in, 64, 32, "h");
        struct ref *r = world(e, true);
        const char *p = pres[sym_choice(sizeof(pres) / sizeof(pres[0]), "prefix")];
        env_feed(e, p, strlen(p)); idle(e);
        sym_bytes(key, N);
        env_feed(e, key, N); idle(e);
        sym_reach(r->cwd ? "typed" : "");
        static const char *const ends[] = { "\x03", "\r\r", "\n\n" };
        env_feed(e, ends[sym_choice(3, "end")], 0); e->feed_len = strlen((const char*)e->feed); idle(e);
        env_clear(e); ev.n = 0;
        env_feed(e, "f2 q\r", 5); idle(e);
        struct sb x = { .n = 0 }; char *const av[] = { (char*)"f2", (char*)"q" };
        ev_exec(&x, 'H', 0, 2, av); ev_exec(&x, 'X', W_F2, 2, av);
        sym_check(ev.n == x.n && memcmp(ev.b, x.b, x.n) == 0, "the following command is not executed normally");
        x.n = 0; sb_s(&x, "f2 q\r\n"); sb_s(&x, ref_status[2]); sb_s(&x, "\r\n");
        sym_check(e->out_n > x.n && memcmp(e->out, x.b, x.n) == 0, "the following command's output is wrong");
        sym_reach("done");
}
