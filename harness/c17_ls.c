/* C17: ls lists exactly the directory's content: symbolic names, descriptions, callbacks
 * and paths. */
#include "ref.h"
#ifndef L
#define L 2
#endif
#ifndef N
#define N 3
#endif
static char nm[2][24], ds[2][4];
static fd_t fr[3], fd[2];
static struct ush_node_object n_root, n_d, n_e, n_x, n_y;
static uint8_t arg[N + 2];
static void file(fd_t *f, unsigned i)
{
        size_t n = sym_choice(L + 1, "name length"); if (n == L) { memcpy(nm[i], "sixteencharacters", 18); nm[i][15 + sym_choice(3, "long name")] = 0; } else n++, sym_bytes(nm[i], n), nm[i][n] = 0;
        if (n <= L) for (size_t k = 0; k < n; k++) sym_assume(nm[i][k] != 0);
        f->name = nm[i];
        unsigned m = sym_choice(32, "attributes");
        if (m & 1) f->get_data = f_get; if (m & 2) f->set_data = f_set; if (m & 4) f->exec = f_exec; if (m & 8) f->help = "help";
        if (m & 16) { size_t k = sym_choice(3, "description length"); sym_bytes(ds[i], k); ds[i][k] = 0; for (size_t j = 0; j < k; j++) sym_assume(ds[i][j] != 0); f->description = ds[i]; }
}
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        fid_reg(fr, 3); fid_reg(fd, 2);
        unsigned nf = 1;
        fr[0].name = "first"; fr[0].exec = f_exec;
#ifdef ATTR
        file(&fr[0], 0); fr[1].name = "last"; fr[1].description = "d"; nf = 2;
#endif
        fd[0].name = "in_d"; fd[0].description = "x"; fd[0].get_data = f_get;
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
        both_mount(e, r, "/", &n_root, fr, nf);
        unsigned shape = sym_choice(SHAPES, "tree");
        if (shape > 0) both_mount(e, r, "/d", &n_d, fd, 1);
        if (shape > 1) both_mount(e, r, "/x", &n_x, NULL, 0);
        if (shape > 2) both_mount(e, r, "/d/e", &n_e, fd, 1);
        if (shape > 3) both_mount(e, r, "/d/yy", &n_y, NULL, 0);
        ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up");
        if (shape > 0 && sym_choice(2, "go into d")) { both_types(e, r, "cd d\r"); ref_agree(r, e, "cd"); }
        unsigned c = sym_choice(4, "command");
        if (c == 0) both_types(e, r, "ls\r");
        else if (c == 1) both_types(e, r, "ls / d\r");
        else if (c == 2) both_types(e, r, "ls ..\r");
        else {
                size_t n = sym_choice(N + 1, "length"); sym_bytes(arg, n);
                for (size_t i = 0; i < n; i++) { uint8_t k = arg[i]; sym_assume((k != 0) & (k != 3) & (k != 8) & (k != 9) & (k != 10) & (k != 13) & (k != 27) & (k != 127) & (k != ' ') & (k != '\\')); }
                arg[n] = '\r'; both_types(e, r, "ls "); both_keys(e, r, arg, n + 1);
        }
        if (r->out.n > 60) sym_reach("long listing");
        ref_agree(r, e, "ls");
        sym_reach("done");
}
