/* C18: help lists every command of every group once, newest group first, or shows exactly
 * the named file's manual; symbolic names, descriptions, manuals and arguments. */
#include "ref.h"
#ifndef L
#define L 2
#endif
#ifndef N
#define N 3
#endif
static char nm[3][24], ds[3][4], hp[3][4];
static fd_t g1[2], g2[1], fr[2], fd[1];
static struct ush_node_object n_g1, n_g2, n_root, n_d;
static uint8_t arg[N + 2];
static void text(char *s, unsigned max) { size_t n = sym_choice(max + 1, "text length"); sym_bytes(s, n); s[n] = 0; for (size_t i = 0; i < n; i++) sym_assume(s[i] != 0); }
static void file(fd_t *f, unsigned i)
{
        size_t n = 1 + sym_choice(L, "name length");
        if (n == 2) { memcpy(nm[i], "sixteencharacters", 18); nm[i][15 + sym_choice(3, "long name")] = 0; }
        else { sym_bytes(nm[i], n); nm[i][n] = 0; for (size_t k = 0; k < n; k++) sym_assume((nm[i][k] != 0) & (nm[i][k] != '/')); }
        f->name = nm[i];
        if (sym_choice(2, "description")) { text(ds[i], 2); f->description = ds[i]; }
        if (sym_choice(2, "manual")) { text(hp[i], 3); f->help = hp[i]; }
}
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        fid_reg(g1, 2); fid_reg(g2, 1); fid_reg(fr, 2); fid_reg(fd, 1);
        file(&g1[0], 0); g1[1].name = "n"; g1[1].exec = f_exec;
        g2[0].name = "n"; g2[0].description = "newer"; g2[0].help = "manual of newer\r\n";
        fr[0].name = "n"; fr[0].help = "never"; fr[1].name = "r"; fr[1].help = hp[1]; text(hp[1], 2);
        fd[0].name = "r"; fd[0].exec = f_exec;
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
        ush_commands_add(e->sh, &n_g1, g1, 2); ref_grp_add(r, g1, 2, g1);
        if (sym_choice(2, "second group")) { ush_commands_add(e->sh, &n_g2, g2, 1); ref_grp_add(r, g2, 1, g2); }
        both_mount(e, r, "/", &n_root, fr, 2); both_mount(e, r, "/d", &n_d, fd, 1);
        ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up");
#ifdef LIST
        both_types(e, r, "help\r"); ref_agree(r, e, "list of commands");
#else
        static const char *const cmd[] = { "help n\r", "help r\r", "help d/r\r", "help d\r", "help n n\r", "help help\r", "help \"\"\r", "" };
        const char *c = cmd[sym_choice(8, "command")];
        if (*c) both_types(e, r, c);
        else {
                size_t n = sym_choice(N + 1, "length"); sym_bytes(arg, n);
                for (size_t i = 0; i < n; i++) { uint8_t k = arg[i]; sym_assume((k != 0) & (k != 3) & (k != 8) & (k != 9) & (k != 10) & (k != 13) & (k != 27) & (k != 127) & (k != '\\') & (k != ' ')); }
                arg[n] = '\r'; both_types(e, r, "help "); both_keys(e, r, arg, n + 1);
        }
        ref_agree(r, e, "manual");
#endif
        sym_reach("done");
}
