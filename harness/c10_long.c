/* C10: over-long paths are refused at exactly the limit, from every depth, by every
 * command that takes a path, and by completion. */
#include "ref.h"
#ifndef N
#define N 5
#endif
#ifndef PMAXES
#define PMAXES { 5, 6, 7, 8, 9, 10 }
#endif
static const fd_t w_root[] = { { .name = "f", .exec = f_exec }, { .name = "longname", .exec = f_exec, .get_data = f_get, .set_data = f_set, .help = "h" } };
static const fd_t w_d[] = { { .name = "p", .exec = f_exec, .get_data = f_get, .set_data = f_set, .help = "p" }, { .name = "ppp", .exec = f_exec, .get_data = f_get, .set_data = f_set, .help = "p" } };
static struct ush_node_object n_root, n_d, n_e, n_f;
static const uint8_t pmaxes[] = PMAXES;
static const char *const cmds[] = { "", "cd ", "ls ", "cat ", "xxd ", "help ", "echo a > " };
static const uint8_t one[1] = { 'D' };
static uint8_t key[32];
void harness(void)
{
        size_t pm = pmaxes[sym_choice(sizeof(pmaxes), "path_max_length")];
        struct env *e = env_new(48, 64, pm, "h");
        fid_reg(w_root, 2); fid_reg(w_d, 2); beh[17].data = beh[18].data = beh[2].data = one; beh[17].n = beh[18].n = beh[2].n = 1;
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
        both_mount(e, r, "/", &n_root, w_root, 2);
        unsigned depth = sym_choice(4, "depth");
        if (depth >= 1) { both_mount(e, r, "/d", &n_d, w_d, 2); }
        if (depth >= 2) { sym_assume(pm >= 5); both_mount(e, r, "/d/e", &n_e, w_d, 2); }
        if (depth >= 3) { sym_assume(pm >= 7); both_mount(e, r, "/d/e/g", &n_f, w_d, 2); }
        ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up");
        static const char *const into[] = { "", "cd d\r", "cd e\r", "cd g\r" };
        unsigned cd = sym_choice(depth + 1, "working directory");
        for (unsigned i = 1; i <= cd; i++) { both_types(e, r, into[i]); ref_agree(r, e, "cd"); }
        unsigned c = sym_choice(sizeof(cmds) / sizeof(cmds[0]), "command");
        both_types(e, r, cmds[c]);
#ifdef FILL
        /* a long concrete tail of '.' components / letters around the limit, then symbolic bytes */
        size_t k = sym_choice(FILL + 1, "filler");
        for (size_t i = 0; i < k; i++) key[i] = (i % 2 == 0) ? '.' : '/';
#else
        size_t k = 0;
#endif
        size_t n = sym_choice(N + 1, "length");
        sym_bytes(key + k, n);
        for (size_t i = k; i < k + n; i++) sym_assume((key[i] == '.') | (key[i] == '/') | (key[i] == 'd') | (key[i] == 'e') | (key[i] == 'g') | (key[i] == 'p') | (key[i] == 'x'));
        n += k;
        char t[64]; memcpy(t, key, n); t[n] = 0;
        key[n] = sym_choice(2, "end") ? '\t' : '\r'; key[n + 1] = '\r';
        char p[128]; if (n > 0 && !ref_abs(r, t, p)) sym_reach("refused"); else sym_reach("fits");
        if (key[n] == '\t') { both_keys(e, r, key, n + 1); both_types(e, r, "\x03"); } else both_keys(e, r, key, n + 1);
        ref_agree(r, e, "path at the limit");
        both_types(e, r, "pwd\r"); both_types(e, r, "ls\r"); ref_agree(r, e, "afterwards");
        sym_reach("done");
}
