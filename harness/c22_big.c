/* C22 in the large world: deinitialisation clears the shell object and every one of 47
 * mounted nodes at any depth, and nothing else; a second life behaves like the first. */
#include "big.h"
#include "inc/ush_node.h"
static uint8_t key[2];
static const char *const lines[] = { "", "cd q/q/q/q\r", "cat blob\r", "ls files\r", "help\r", "abc", "a\t" };
static struct ush_node_object g_snap[4], zn; static struct ush_object zo;
static struct { uint8_t before[32]; struct ush_node_object n; uint8_t after[32]; } fence;
static bool node_zero(const struct ush_node_object *n) { return memcmp(n, &zn, sizeof(zn)) == 0; }
void harness(void)
{
        struct env *e = env_new(700, 600, 512, "h");
        memset(&fence, 0x3C, sizeof(fence)); memset(&bn_s[0], 0xFF, sizeof(bn_s)); memset(bn_lad, 0xA5, sizeof(bn_lad));
        struct ref *r = big(e, true);
        sym_check(ush_node_mount(e->sh, "/files/fence", &fence.n, b_old, 2) == USH_STATUS_OK, "mount");
        /* unmount one directory before: it must not be touched any more */
        unsigned u = sym_choice(4, "unmounted before"); struct ush_node_object *un = u == 0 ? NULL : u == 1 ? &bn_lad[0] : u == 2 ? &bn_lad[LADDERS - 1] : &bn_chain[11], us;
        if (u) { sym_check(ush_node_unmount(e->sh, (char*)un->path) == USH_STATUS_OK, "unmount"); memset(un, 0x99, sizeof(*un)); us = *un; }
        const char *l = lines[sym_choice(sizeof(lines) / sizeof(lines[0]), "line")];
        env_feed(e, l, strlen(l));
        unsigned j = sym_choice(4, "service calls"); for (unsigned i = 0; i < j * j * j * 16; i++) env_service(e);
        sym_bytes(key, 1); env_feed(e, key, 1); env_service(e); env_service(e);
        memcpy(g_snap, bn_g, sizeof(bn_g)); struct ush_descriptor sd = *e->desc; ev.n = 0; unsigned w = e->writes, rd = e->reads;
        ush_deinit(e->sh);
        sym_check(ev.n == 0 && w == e->writes && rd == e->reads, "deinit calls back");
        sym_check(memcmp(e->sh, &zo, sizeof(zo)) == 0, "deinit leaves data in the shell object");
        sym_check(node_zero(&bn_root) & node_zero(&bn_p) & node_zero(&bn_files) & node_zero(&bn_dot) & node_zero(&bn_many) & node_zero(&bn_old) & node_zero(&bn_new), "deinit leaves a mounted node uncleared");
        for (unsigned i = 0; i < LADDERS; i++) if (un != &bn_lad[i]) sym_check(node_zero(&bn_lad[i]), "deinit leaves one of many siblings uncleared");
        for (unsigned i = 0; i < 12; i++) if (un != &bn_chain[i]) sym_check(node_zero(&bn_chain[i]), "deinit leaves a deep node uncleared");
        for (unsigned i = 0; i < 6; i++) sym_check(node_zero(&bn_s[i]), "deinit leaves a node uncleared");
        sym_check(node_zero(&fence.n), "deinit leaves a node uncleared");
        for (unsigned i = 0; i < 32; i++) sym_check((fence.before[i] == 0x3C) & (fence.after[i] == 0x3C), "deinit touches memory next to a node");
        if (u) sym_check(memcmp(un, &us, sizeof(us)) == 0, "deinit touches a node that is not mounted any more");
        sym_check(memcmp(g_snap, bn_g, sizeof(bn_g)) == 0, "deinit touches a command group node"); sym_check(memcmp(&sd, e->desc, sizeof(sd)) == 0, "deinit touches the descriptor");
        /* second life, nodes as they are */
        e->out_n = 0; e->feed_len = e->feed_pos = 0;
        ush_init(e->sh, e->desc); r = ref_new(e);
        sym_check(ush_node_get_by_path(e->sh, "/") == NULL, "the tree is not empty after initialisation");
        for (unsigned i = 0; i < 2; i++) { sym_check(ush_commands_add(e->sh, &bn_g[i], i ? b_cmd3 : b_cmd1, 14) == USH_STATUS_OK, "commands_add"); ref_grp_add(r, i ? b_cmd3 : b_cmd1, 14, &bn_g[i]); }
        big_mounts(e, r); big_boot(e, r);
        both_types(e, r, "ls\r"); both_types(e, r, "help\r"); both_types(e, r, "ls p\r"); both_types(e, r, "cd q/q/q\r"); both_types(e, r, "f 1\r"); both_types(e, r, "k1\t\t\r"); ref_agree(r, e, "second life");
        sym_reach("done");
}
