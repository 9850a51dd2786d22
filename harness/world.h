/* A small file system with every kind of file, used by several harnesses.
 *   commands (newest first): {u, f2}, {u, w}, built-ins
 *   /      f(exec) g(rw,desc) h(help)        /d   p(exec prints) q(read) f(exec)
 *   /d/e   r(write,help)                      /b   (no files)                     */
#ifndef WORLD_H
#define WORLD_H
#include "ref.h"
static const fd_t w_grp1[] = { { .name = "u", .description = "old u", .exec = f_exec }, { .name = "w", .help = "help of w\r\n" } };
static const fd_t w_grp2[] = { { .name = "u", .description = "new u", .help = "help of u\r\n", .exec = f_exec }, { .name = "f2", .exec = f_exec } };
static const fd_t w_root[] = { { .name = "f", .exec = f_exec }, { .name = "g", .description = "data", .get_data = f_get, .set_data = f_set }, { .name = "h", .help = "help of h\r\n" } };
static const fd_t w_d[] = { { .name = "p", .exec = f_exec, .help = "p" }, { .name = "q", .get_data = f_get }, { .name = "f", .exec = f_exec } };
static const fd_t w_e[] = { { .name = "r", .set_data = f_set, .help = "help of r\r\n" } };
static struct ush_node_object n_root, n_d, n_e, n_b, n_g1, n_g2;
static uint8_t w_g_data[4] = { 'G', 0, 0xFF, '\n' }, w_q_data[2] = { 'q', '!' };
enum { W_U1 = 1, W_W, W_U2 = 17, W_F2, W_F = 33, W_G, W_H, W_P = 49, W_Q, W_DF, W_R = 65 };
static void world_files(void)
{
        fid_reg(w_grp1, 2); fid_reg(w_grp2, 2); fid_reg(w_root, 3); fid_reg(w_d, 3); fid_reg(w_e, 1);
        beh[W_G].data = w_g_data; beh[W_G].n = 4; beh[W_Q].data = w_q_data; beh[W_Q].n = 2;
        beh[W_P].act = A_PRINT; beh[W_P].text = "pp"; beh[W_U2].act = A_NONL; beh[W_U2].text = "uu"; beh[W_F2].act = A_STATUS; beh[W_F2].status = 2;
}
static void world_groups(struct env *e, struct ref *r)
{
        sym_check(ush_commands_add(e->sh, &n_g1, w_grp1, 2) == USH_STATUS_OK, "commands_add"); ref_grp_add(r, w_grp1, 2, &n_g1);
        sym_check(ush_commands_add(e->sh, &n_g2, w_grp2, 2) == USH_STATUS_OK, "commands_add"); ref_grp_add(r, w_grp2, 2, &n_g2);
}
static void world_tree(struct env *e, struct ref *r)
{
        both_mount(e, r, "/", &n_root, w_root, 3); both_mount(e, r, "/d", &n_d, w_d, 3);
        both_mount(e, r, "/b", &n_b, NULL, 0); both_mount(e, r, "/d/e", &n_e, w_e, 1);
}
/* boot: banner and prompt are consumed and compared */
static void world_boot(struct env *e, struct ref *r)
{
        ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up");
}
static struct ref *world(struct env *e, bool hook)
{
        world_files();
        if (hook) e->desc->exec = f_hook;
        cb_shell = e->sh;
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e); world_groups(e, r); world_tree(e, r); world_boot(e, r);
        return r;
}
__attribute__((unused)) static void *world_unused_[] = { (void*)world };
#endif
