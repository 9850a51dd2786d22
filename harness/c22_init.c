/* C22: initialisation is complete whatever the shell object, nodes and buffers contained
 * (fresh memory is indeterminate, or the object was used before), deinit leaves zeros. */
#include "world.h"
#ifndef N
#define N 2
#endif
static uint8_t key[N + 1];
static struct ush_node_object spare, snap_spare, snap_g1;
static struct ref *start(struct env *e)
{
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
        return r;
}
static void exercise(struct env *e, struct ref *r)
{
        both_types(e, r, "help\r"); ref_agree(r, e, "help");
        both_types(e, r, "ls\r"); ref_agree(r, e, "ls");
        both_types(e, r, "u\t\x03" "f\r"); ref_agree(r, e, "commands");
        both_types(e, r, "cd d/e\r"); both_types(e, r, "r\r"); ref_agree(r, e, "files");
}
void harness(void)
{
        struct env *e = env_new(24, 64, 32, "h");
        world_files(); e->desc->exec = f_hook; cb_shell = e->sh;
        struct ref *r;
        /* first life: any keys, possibly in the middle of something */
        if (sym_choice(2, "used before")) {
                r = start(e); world_groups(e, r); world_tree(e, r);
                world_boot(e, r);
                if (sym_choice(2, "moved")) { both_types(e, r, "cd d\r"); ref_agree(r, e, "cd"); }
                sym_bytes(key, N); env_feed(e, key, N);
                for (unsigned i = 0, j = sym_choice(12, "service calls"); i < j; i++) env_service(e);
                unsigned how = sym_choice(3, "end of first use");
                if (how == 1) {
                        ush_node_mount(e->sh, "/sp", &spare, w_d, 3); ush_node_unmount(e->sh, "/sp"); snap_spare = spare; snap_g1 = n_g1;
                        char ib[24], ob[64]; memcpy(ib, e->in_buf, 1); (void)ob; struct ush_descriptor sd = *e->desc;
                        ush_deinit(e->sh);
                        static struct ush_object zero; static struct ush_node_object zn;
                        sym_check(memcmp(e->sh, &zero, sizeof(zero)) == 0, "deinit leaves data in the shell object");
                        sym_check(memcmp(&n_root, &zn, sizeof(zn)) == 0 && memcmp(&n_d, &zn, sizeof(zn)) == 0 && memcmp(&n_b, &zn, sizeof(zn)) == 0 && memcmp(&n_e, &zn, sizeof(zn)) == 0, "deinit leaves a mounted node uncleared");
                        sym_check(memcmp(&spare, &snap_spare, sizeof(spare)) == 0, "deinit touched a node that is not mounted");
                        sym_check(memcmp(&n_g1, &snap_g1, sizeof(n_g1)) == 0, "deinit touched a command group node");
                        sym_check(memcmp(&sd, e->desc, sizeof(sd)) == 0 && e->in_buf[0] == ib[0], "deinit touched the descriptor or the buffers");
                        sym_reach("deinitialised");
                }
                if (how == 2) { memset(&n_root, 0xA5, sizeof(n_root)); memset(&n_d, 0x5A, sizeof(n_d)); memset(&n_g1, 0xFF, sizeof(n_g1)); memset(e->sh, 0xA5, sizeof(*e->sh)); }
                env_clear(e); ev.n = 0;
        }
        /* second (or first) life */
        r = start(e);
        if (REF_NBUILTIN > 0 && sym_choice(2, "no groups")) sym_reach("without groups"); else world_groups(e, r);
        sym_check(ush_node_get_by_path(e->sh, "/") == NULL, "the tree is not empty after initialisation");
        world_tree(e, r);
        world_boot(e, r);
        exercise(e, r);
        if (sym_choice(2, "deinit at the end")) {
                ush_deinit(e->sh);
                static struct ush_object zero;
                sym_check(memcmp(e->sh, &zero, sizeof(zero)) == 0, "deinit leaves data in the shell object");
        }
        sym_reach("done");
}
