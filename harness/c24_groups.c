/* C24: any sequence of adding and removing command groups; execution, help and completion
 * consult exactly the registered groups, newest first. */
#include "ref.h"
#ifndef K
#define K 4
#endif
static const fd_t ga[] = { { .name = "u", .exec = f_exec, .description = "a" }, { .name = "va", .exec = f_exec } };
static const fd_t gb[] = { { .name = "u", .exec = f_exec, .help = "b" } };
static const fd_t gc[] = { { .name = "vc", .exec = f_exec }, { .name = "u", .description = "c" }, { .name = "ls", .exec = f_exec } };
#ifdef SAME     /* the third group is made from the same list as the first */
static const fd_t *const g[3] = { ga, gb, ga }; static const size_t gn[3] = { 2, 1, SAME };
#else
static const fd_t *const g[3] = { ga, gb, gc }; static const size_t gn[3] = { 2, 1, 3 };
#endif
static struct ush_node_object node[3], root, other, snap[3];
static const fd_t fr[] = { { .name = "f", .exec = f_exec } };
static uint8_t key[3];
void harness(void)
{
        struct env *e = env_new(24, 64, 32, "h");
        fid_reg(ga, 2); fid_reg(gb, 1); fid_reg(gc, 3); fid_reg(fr, 1);
        e->desc->exec = f_hook; memset(node, 0x5A, sizeof(node)); memset(&other, 0x5A, sizeof(other));
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
        both_mount(e, r, "/", &root, fr, 1);
        ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up");
        for (unsigned k = 0; k < K; k++) {
                unsigned i = sym_choice(3, "group"); bool in = false;
                for (unsigned j = 0; j < r->ngrp; j++) if (r->grp[j].tag == &node[i]) in = true;
                memcpy(snap, node, sizeof(snap));
                if (sym_choice(2, "operation")) {
                        if (in) { sym_reach("already registered"); return; }            /* adding twice is the caller's error */
                        sym_check(ush_commands_add(e->sh, &node[i], g[i], gn[i]) == USH_STATUS_OK, "adding a group fails");
                        ref_grp_add(r, g[i], gn[i], &node[i]);
                } else {
                        ush_status_t s = ush_commands_remove(e->sh, &node[i]);
                        sym_check(s == (in ? USH_STATUS_OK : USH_STATUS_ERROR_NODE_NOT_FOUND), "removing returns the wrong status");
                        if (in) { ref_grp_del(r, &node[i]); sym_reach("removed"); } else sym_check(memcmp(snap, node, sizeof(node)) == 0, "removing an unregistered group changed a node");
                }
                sym_check(ush_commands_remove(e->sh, &other) == USH_STATUS_ERROR_NODE_NOT_FOUND, "removing an unknown node");
#ifdef EACH
                both_types(e, r, "help\r"); ref_agree(r, e, "help between the operations");
#endif
        }
        both_types(e, r, "help\r"); ref_agree(r, e, "help");
        sym_bytes(key, 2); for (int i = 0; i < 2; i++) { uint8_t c = key[i]; sym_assume((c != 0) & (c != 3) & (c != 8) & (c != 9) & (c != 10) & (c != 13) & (c != 27) & (c != 127)); }
        size_t n = sym_choice(3, "typed length");
        both_keys(e, r, key, n); both_types(e, r, "\t"); ref_agree(r, e, "completion");
        both_types(e, r, "\r"); ref_agree(r, e, "execution");
        both_types(e, r, "u 1\r"); ref_agree(r, e, "execution of the shared name");
        both_types(e, r, "help u\r"); ref_agree(r, e, "manual of the shared name");
        sym_reach("done");
}
