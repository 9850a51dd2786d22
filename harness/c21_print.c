/* C21: print calls emit exactly their text and then one prompt; the prompt is fixed-format. */
#include "world.h"
#ifndef L
#define L 4
#endif
static char host[4], text[L + 1];
static struct ush_node_object n_z;
static char zdir[6];
void harness(void)
{
        size_t hl = sym_choice(4, "host name length"); sym_bytes(host, hl); host[hl] = 0; for (size_t i = 0; i < hl; i++) sym_assume(host[i] != 0);
        struct env *e = env_new(32, 64, 32, host);
        struct ref *r = world(e, false);
        /* a directory with a symbolic name */
        size_t zl = 1 + sym_choice(2, "directory name length"); zdir[0] = '/'; sym_bytes(zdir + 1, zl); for (size_t i = 1; i <= zl; i++) sym_assume((zdir[i] > 32) & (zdir[i] != '/') & (zdir[i] != '"') & (zdir[i] != '\\') & (zdir[i] != 127) & (zdir[i] != 'd') & (zdir[i] != 'b') & (zdir[i] != '.')); zdir[zl + 1] = 0;
        both_mount(e, r, zdir, &n_z, NULL, 0);
        switch (sym_choice(4, "working directory")) {
        case 1: both_types(e, r, "cd d/e\r"); break;
        case 2: both_types(e, r, "cd d\r"); break;
        case 3: both_types(e, r, "cd "); both_types(e, r, zdir); both_types(e, r, "\r"); break;
        default: both_types(e, r, "pwd\r"); break;
        }
        ref_agree(r, e, "prompt");
        unsigned act = A_PRINT + sym_choice(4, "call");
        size_t n = sym_choice(L + 1, "text length"); sym_bytes(text, n); text[n] = 0; for (size_t i = 0; i < n; i++) sym_assume(text[i] != 0);
        struct fbeh b = { .act = (int)act, .text = text, .status = 0 };
        if (act == A_STATUS) { unsigned s = sym_choice(13, "status"); b.status = (int)s; sym_reach("status"); }
        if (sym_choice(2, "called from")) {
                beh[W_U2] = b; both_types(e, r, "u\r"); ref_agree(r, e, "print from a command callback");
        } else {
                if (sym_choice(2, "pending text")) { both_types(e, r, "ab"); ref_agree(r, e, "typing"); }
                f_act(e->sh, &b); env_idle(e); ref_action(r, &b);
                ref_agree(r, e, "print from outside");
        }
        both_types(e, r, "f2\r"); ref_agree(r, e, "following command");
        sym_reach("done");
}
