/* C13: TAB offers and inserts exactly the common continuation: symbolic command, file and
 * directory names, symbolic typed word, one or two TABs, then more typing and CR. */
#include "ref.h"
#ifndef L
#define L 3
#endif
#ifndef N
#define N 2
#endif
/* names as a user can type them: no control characters, space, quotes, backslash, slash */
#define PLAINNAME(c) sym_assume((((uint8_t)(c) > 32) & ((uint8_t)(c) != 127)) & ((c) != 34) & ((c) != 92) & ((c) != 47))
static char nm[4][L + 1];
static fd_t g1[1], g2[1], fr[1];
static struct ush_node_object n_g1, n_g2, n_root, n_sub, n_w;
static char sub[L + 3];
static uint8_t key[N + 4];
static void name(char *s) { size_t n = 1 + sym_choice(L, "name length"); sym_bytes(s, n); s[n] = 0; for (size_t i = 0; i < n; i++) PLAINNAME(s[i]); }
void harness(void)
{
        struct env *e = env_new(24, 64, 32, "h");
        for (int i = 0; i < 4; i++) name(nm[i]);
        sym_assume(!(nm[3][0] == '.'));
        g1[0].name = nm[0]; g1[0].exec = f_exec; g2[0].name = nm[1]; g2[0].exec = f_exec; fr[0].name = nm[2]; fr[0].exec = f_exec;
        fid_reg(g1, 1); fid_reg(g2, 1); fid_reg(fr, 1);
        sub[0] = '/'; strcpy(sub + 1, nm[3]);
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
        ush_commands_add(e->sh, &n_g1, g1, 1); ref_grp_add(r, g1, 1, g1);
#ifndef ONEGRP
        ush_commands_add(e->sh, &n_g2, g2, 1); ref_grp_add(r, g2, 1, g2);
#endif
        both_mount(e, r, "/", &n_root, fr, 1);
        both_mount(e, r, sub, &n_sub, NULL, 0);
        ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up");
        static const char *const pre[] = { "", "x ", " ", "\"a b" };
        both_types(e, r, pre[sym_choice(PRES, "before the word")]);
        size_t n = sym_choice(N + 1, "typed length"); sym_bytes(key, n);
        for (size_t i = 0; i < n; i++) { uint8_t c = key[i]; sym_assume((c != 0) & (c != 3) & (c != 8) & (c != 9) & (c != 10) & (c != 13) & (c != 27) & (c != 127)); }
        both_keys(e, r, key, n); ref_agree(r, e, "typing");
        size_t before = r->n; size_t o = r->out.n;
        both_types(e, r, "\t");
        if (r->n > before) sym_reach("extended"); else if (r->out.n > o) sym_reach("listed"); else sym_reach("nothing");
        ref_agree(r, e, "completion");
        both_types(e, r, "\t"); ref_agree(r, e, "second completion");
        both_types(e, r, "y\b"); ref_agree(r, e, "typing after completion");
        both_types(e, r, "\r"); ref_agree(r, e, "executing the completed line");
        sym_reach("done");
}
