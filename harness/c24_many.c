/* C24 with many groups: 12 groups sharing names, added in order; any K removals or
 * re-additions; then help, completion, and execution of every name. */
#define OUTMAX 4096
#define RGRPS 20
#define RCAND 80
#include "ref.h"
#ifndef K
#define K 3
#endif
#define G 12
static fd_t f[G][3]; static char own[G][4], pair[G][8];
static struct ush_node_object node[G], root;
static const fd_t fr[] = { { .name = "f", .exec = f_exec } };
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        for (unsigned i = 0; i < G; i++) {
                own[i][0] = 'g'; own[i][1] = (char)('a' + i); strcpy(pair[i], "pair-0"); pair[i][5] = (char)('0' + i / 2);
                f[i][0].name = "shared"; f[i][0].exec = i % 4 == 3 ? NULL : f_exec; f[i][0].help = own[i]; f[i][1].name = own[i]; f[i][1].exec = f_exec; f[i][2].name = pair[i]; f[i][2].exec = f_exec; f[i][2].help = own[i];
                fid_reg(f[i], 3); memset(&node[i], 0x5A, sizeof(node[i]));
        }
        fid_reg(fr, 1);
        ush_init(e->sh, e->desc); struct ref *r = ref_new(e);
        unsigned order = sym_choice(3, "order");
        for (unsigned j = 0; j < G; j++) { unsigned i = order == 0 ? j : order == 1 ? G - 1 - j : j * 5 % G; sym_check(ush_commands_add(e->sh, &node[i], f[i], 1 + (i + order) % 3) == USH_STATUS_OK, "adding a group fails"); ref_grp_add(r, f[i], 1 + (i + order) % 3, &node[i]); }
        both_mount(e, r, "/", &root, fr, 1);
        ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up");
        for (unsigned k = 0; k < K; k++) {
                unsigned i = sym_choice(G, "group"); bool in = false;
                for (unsigned j = 0; j < r->ngrp; j++) if (r->grp[j].tag == &node[i]) in = true;
                if (in) { sym_check(ush_commands_remove(e->sh, &node[i]) == USH_STATUS_OK, "removing a registered group fails"); ref_grp_del(r, &node[i]); sym_reach("removed"); }
                else if (sym_choice(2, "operation")) { sym_check(ush_commands_remove(e->sh, &node[i]) == USH_STATUS_ERROR_NODE_NOT_FOUND, "removing an unregistered group"); sym_reach("removed twice"); }
                else { sym_check(ush_commands_add(e->sh, &node[i], f[i], 3) == USH_STATUS_OK, "adding a group again fails"); ref_grp_add(r, f[i], 3, &node[i]); sym_reach("added again"); }
        }
        both_types(e, r, "help\r"); ref_agree(r, e, "help");
        both_types(e, r, "shared 1\rhelp shared\rg\t\t\x03p\t\t\x03sh\t\r"); ref_agree(r, e, "shared names and completion");
        for (unsigned i = 0; i < G; i++) { both_types(e, r, own[i]); both_types(e, r, "\r"); both_types(e, r, pair[i]); both_types(e, r, " x\rhelp "); both_types(e, r, pair[i]); both_types(e, r, "\r"); ref_agree(r, e, "every name"); }
        static uint8_t key[] = "pair-? x\rhelp g?\rshare?\tz\r"; sym_bytes(key + 5, 1); key[15] = key[5]; key[22] = key[5];
        sym_assume((key[5] != 0)); both_keys(e, r, key, sizeof(key) - 1); ref_agree(r, e, "any name");
        sym_reach("done");
}
