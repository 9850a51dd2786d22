/* C05: back-pressure.  The same typed bytes under every schedule of at most KW refused
 * writes and KR delayed reads give the model's output and events. */
#include "world.h"
#ifndef KW
#define KW 1
#endif
#ifndef KR
#define KR 0
#endif
static unsigned kw, kr; static bool on;
static int refuse(struct env *e, char c) { (void)e; (void)c; if (on & (kw < KW)) if (sym_choice(2, "refuse write")) { kw++; return 0; } return 1; }
static int delay(struct env *e) { (void)e; if (on & (kr < KR)) if (sym_choice(2, "delay read")) { kr++; return 0; } return 1; }
#ifndef LINES
#define LINES { "cat g\r", "pwd\r", "p\r" }
#endif
static const char *const lines[] = LINES;
#define NL (sizeof(lines) / sizeof(lines[0]))
#ifndef N
#define N 0
#endif
static uint8_t key[N + 2], data[4];
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        struct ref *r = world(e, true);
        e->write_hook = refuse; e->read_hook = delay;
        sym_bytes(data, 4); beh[W_G].data = data;
#if N > 0
        sym_bytes(key, N);
        for (size_t i = 0; i < N; i++) sym_assume(key[i] != 0);
        key[N] = '\r';
        on = true; both_keys(e, r, key, N + 1); on = false;
        if (r->executed) sym_reach("executed");
        ref_agree(r, e, "keys under back-pressure");
#else
        const char *l = lines[sym_choice(NL, "line")];
        on = true; both_types(e, r, l); on = false;
        ref_agree(r, e, "command under back-pressure");
#endif
        if (kw == KW) sym_reach("all refusals used");
        if (KR && kr == KR) sym_reach("all delays used");
        both_types(e, r, "f2\r"); ref_agree(r, e, "following command");
        sym_reach("done");
}
