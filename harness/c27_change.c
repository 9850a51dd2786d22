/* C27: the tree and the command groups change between any two service calls. */
#define OUTMAX 1024
#include "world.h"
#ifndef LINES
#define LINES { "cat /d/q g d/q\r", "ls d\r", "ls\r", "help\r", "help h\r", "u\t", "f\t\t", "d\t\t", "xxd d/q\r", "cd d\r", "d/p\r", "u 1\r", "pwd\r", "cat g", "ls d", "d/f 1" }
#define NWHOLE 13
#endif
static const char *const lines[] = LINES;
static const fd_t w_new[] = { { .name = "nn", .exec = f_exec }, { .name = "f", .exec = f_exec } };
static struct ush_node_object n_new;
static uint8_t in[64];
static void change(struct env *e, struct ref *r, unsigned what)
{
        switch (what) {
        case 0: sym_check(ush_node_unmount(e->sh, "/d/e") == USH_STATUS_OK, "unmount /d/e"); ref_unmount(r, "/d/e"); break;
        case 1: ush_node_unmount(e->sh, "/d/e"); ref_unmount(r, "/d/e"); sym_check(ush_node_unmount(e->sh, "/d") == USH_STATUS_OK, "unmount /d"); ref_unmount(r, "/d"); break;
        case 2: sym_check(ush_node_unmount(e->sh, "/b") == USH_STATUS_OK, "unmount /b"); ref_unmount(r, "/b"); break;
        case 3: sym_check(ush_commands_remove(e->sh, &n_g2) == USH_STATUS_OK, "remove"); ref_grp_del(r, &n_g2); break;
        case 4: sym_check(ush_commands_remove(e->sh, &n_g1) == USH_STATUS_OK, "remove"); ref_grp_del(r, &n_g1); break;
        case 5: both_mount(e, r, "/dn", &n_new, w_new, 2); break;
        case 6: sym_check(ush_commands_add(e->sh, &n_new, w_new, 2) == USH_STATUS_OK, "add"); ref_grp_add(r, w_new, 2, &n_new); break;
        case 7: both_mount(e, r, "/d/n", &n_new, w_new, 2); break;
        }
}
void harness(void)
{
        struct env *e = env_new(20, 64, 24, "h");
        struct ref *r = world(e, false);
        fid_reg(w_new, 2); sym_bytes(w_g_data, 2); sym_bytes(w_q_data, 1);
        if (sym_choice(2, "start in /d/e")) { both_types(e, r, "cd d/e\r"); ref_agree(r, e, "cd"); }
        unsigned l = sym_choice(sizeof(lines) / sizeof(lines[0]), "line"); size_t n = strlen(lines[l]); memcpy(in, lines[l], n);
        env_feed(e, in, n);
        unsigned j = 0, done = 0; bool idle = false;
        while (done < CHANGES) {
                if (idle || (j % STRIDE == 0 && sym_choice(2, "change now"))) {
                        if (!idle && l < NWHOLE) sym_reach("changed while busy");
                        if (!idle && l >= NWHOLE) sym_reach("changed while a line is half typed");
                        unsigned w = sym_choice(8, "change");
                        if (done > 0) { static const char *const p[] = { "/d/e", "/d", "/b" };
                                if (w < 3 && ref_dir(r, p[w]) == NULL) return;
                                if (w == 1 && done) { for (unsigned i = 0; i < r->ndir; i++) if (strcmp(r->dir[i].path, "/d/n") == 0) return; }
                                if (w == 7 && ref_dir(r, "/d") == NULL) return;
                                if ((w == 3 || w == 4)) { bool has = false; for (unsigned i = 0; i < r->ngrp; i++) if (r->grp[i].tag == (w == 3 ? &n_g2 : &n_g1)) has = true; if (!has) return; }
                                if (w >= 5) for (unsigned i = 0; i < r->ngrp; i++) if (r->grp[i].tag == &n_new) return;
                                if (w >= 5 && n_new.path != NULL) return; }
                        change(e, r, w); done++;
                        if (!idle) { j++; env_service(e); }
                        continue;
                }
                unsigned k = e->read_empty; env_service(e); j++; if (e->read_empty != k && e->feed_pos >= e->feed_len) idle = true;
                sym_check(j < 2000, "the shell does not come back");
        }
        env_idle(e);
        sym_check(r->cwd != NULL && e->sh->current_node != NULL, "no working directory");
        if (l >= NWHOLE) {               /* the half typed line is executed in the new tree */
                env_clear(e); ev.n = 0; r->out.n = 0; r->ev.n = 0;
                ref_keys(r, in, n); r->out.n = 0; uint8_t k[2]; sym_bytes(k, 1); sym_assume((k[0] != 0) & (k[0] != 9)); k[1] = '\r'; both_keys(e, r, k, 2); ref_agree(r, e, "line completed after the change");
        } else {
                bool tab = lines[l][n - 1] == '\t';
                if (!tab) { sym_check(e->out_n >= 3, "no output"); struct sb p = { .n = 0 }; sb_s(&p, "]$ "); sym_check(memcmp(e->out + e->out_n - 3, p.b, 3) == 0, "no prompt after the command"); }
                env_clear(e); ev.n = 0; r->out.n = 0; r->ev.n = 0;
                if (!tab && strncmp(lines[l], "cd", 2) == 0) { both_types(e, r, "cd /\r"); env_clear(e); r->out.n = 0; ev.n = 0; r->ev.n = 0; r->cwd = "/"; }
                both_types(e, r, "\x03"); ref_agree(r, e, "Ctrl-C after the change");
        }
        both_types(e, r, "pwd\r"); ref_agree(r, e, "pwd after the change");
        both_types(e, r, "ls\r"); ref_agree(r, e, "ls after the change");
        both_types(e, r, "cat /d/q g q\r"); ref_agree(r, e, "cat after the change");
        both_types(e, r, "u 1\r"); ref_agree(r, e, "command after the change");
        both_types(e, r, "f\t\t\x03"); ref_agree(r, e, "completion after the change");
        both_types(e, r, "nn\r"); both_types(e, r, "dn/f\r"); both_types(e, r, "/d/n/f\r"); ref_agree(r, e, "new node");
        both_types(e, r, "cd /\r"); both_types(e, r, "ls d\r"); both_types(e, r, "help\r"); ref_agree(r, e, "tree after the change");
        sym_reach("done");
}
