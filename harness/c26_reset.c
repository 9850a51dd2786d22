/* C26: reset at any moment, from the application or from a command. */
#include "world.h"
#ifndef N
#define N 1
#endif
#ifndef NB
#define NB 1
#endif
#ifndef LINES
#define LINES { "", "cat g d/q g\r", "xxd g\r", "ls d\r", "help\r", "help h\r", "echo ab > g\r", "echo a\r", "cd d\r", "pwd\r", "u 1\r", "d/p\r", "zz\r", "\t", "u\t", "f\t\t", "\x1b[", "\x1b", "u \"a", "cd d/e\rls", "cd d\rq\t" }
#endif
static const char *const lines[] = LINES;
static uint8_t in[64];
static void fresh(struct env *e, struct ref *r)
{
        r->out.n = 0; r->ev.n = 0; ev.n = 0; env_clear(e); env_feed(e, NULL, 0);
        r->n = 0; r->esc = 0; ref_boot(r);
}
static void after(struct env *e, struct ref *r)
{
        ref_agree(r, e, "output after reset");
        switch (sym_choice(5, "next")) {
        case 0: both_types(e, r, "pwd\r"); break;
        case 1: both_types(e, r, "\r"); break;
        case 2: both_types(e, r, "[A\tf 1\r"); break;
        case 3: { uint8_t k[NB + 1]; sym_bytes(k, NB); for (unsigned i = 0; i < NB; i++) sym_assume((k[i] != 9) & (k[i] != 0)); k[NB] = '\r'; both_keys(e, r, k, NB + 1); break; }
        case 4: both_types(e, r, "d/q\t\b \x03"); break;
        }
        ref_agree(r, e, "first command after reset");
        both_types(e, r, "ls\r"); ref_agree(r, e, "ls after reset");
        both_types(e, r, "cat g\r"); ref_agree(r, e, "data after reset");
        both_types(e, r, "cd d\r"); both_types(e, r, "q"); both_types(e, r, "\r"); ref_agree(r, e, "tree after reset");
        both_types(e, r, "help\r"); ref_agree(r, e, "commands after reset");
        sym_reach("done");
}
void harness(void)
{
        struct env *e = env_new(20, 64, 24, "h");
        struct ref *r;
#ifdef FROMCMD
        world_files(); beh[W_F].act = A_RESET; beh[W_DF].act = A_RESET; cb_shell = e->sh; e->desc->exec = sym_choice(2, "execute hook") ? f_hook : NULL;
        ush_init(e->sh, e->desc); r = ref_new(e); world_groups(e, r); world_tree(e, r); world_boot(e, r);
        switch (sym_choice(4, "directory")) { case 1: both_types(e, r, "cd d\r"); break; case 2: both_types(e, r, "cd d/e\r"); break; case 3: both_types(e, r, "cd b\r"); break; }
        ref_agree(r, e, "cd");
        static const char *const cmd[] = { "/f", "/d/f", "/f 1 2 ", "../f", "f", "  \"/f\"" };
        const char *c = cmd[sym_choice(6, "command")]; size_t n = strlen(c); memcpy(in, c, n); sym_bytes(in + n, N);
        for (unsigned i = 0; i < N; i++) sym_assume((in[n + i] != 9) & (in[n + i] != 0)); n += N; in[n++] = '\r';
        both_keys(e, r, in, n); ref_agree(r, e, "command that resets"); sym_reach("command executed");
        if (strcmp(r->cwd, "/") == 0) sym_reach("at the root");
        after(e, r);
#else
        r = world(e, false);
        unsigned l = sym_choice(sizeof(lines) / sizeof(lines[0]), "line"); size_t n = strlen(lines[l]); memcpy(in, lines[l], n); sym_bytes(in + n, N); n += N;
        env_feed(e, in, n);
        bool twice = sym_choice(2, "twice");
        unsigned j = 0; bool idle = false;
        static unsigned grid = STRIDE;
        while (j < 400) { if (j % grid == 0 && sym_choice(2, "reset now")) break; unsigned k = e->read_empty; env_service(e); j++; if (e->read_empty != k && e->feed_pos >= e->feed_len) { idle = true; break; } }
        if (!idle) sym_reach("reset while busy"); else sym_reach("reset while idle");
        fresh(e, r);
        ush_reset(e->sh); 
        if (twice) { env_service(e); env_service(e); fresh(e, r); ush_reset(e->sh); }
        env_idle(e);
        after(e, r);
#endif
}
