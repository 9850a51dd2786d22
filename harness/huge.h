/* A huge world: more than 256 of everything (files in a directory, subdirectories, commands,
 * groups, arguments, directory levels, characters of a name), and texts of more than 65536
 * characters.  For counters and lengths that are too narrow. */
#ifndef HUGE_H
#define HUGE_H
#ifndef NF
#define NF 300          /* files, commands, subdirectories */
#endif
#ifndef OUTMAX
#define OUTMAX 65536
#endif
#ifndef RLINE
#define RLINE 2600
#endif
#define RARGS 700
#define RPATH 1600
#define RDIRS 700
#define RGRPS 320
#define RCAND 1000
#define NBEH 2048
#ifndef IDLE_MAX
#define IDLE_MAX 2000000
#endif
#include "ref.h"
#define NL 300          /* length of the long names */
#ifndef TEXT
#define TEXT 700        /* length of the long text */
#endif
static char hc[NF][8], hf[NF][8], hsn[NF][16], hg[NF][8], hl[4][NL + 12], hdeep[NF * 2 + 2][NF * 2 + 2], htext[TEXT + 1];
static fd_t hu_cmd[NF], hu_root[NF + 1], hu_s[NF], hu_long[2], hu_lc[3], hu_grp[NF], hu_deep[1];
static struct ush_node_object hn_g[3], hn_grp[NF], hn_root, hn_n, hn_s[NF], hn_l, hn_l3, hn_l4, hn_deep[NF];
static uint8_t hblob[300];
enum { H_CMD = 1, H_ROOT = 401, H_S = 801, H_LONG = 1201, H_LC = 1205, H_GRP = 1210, H_DEEP = 1610 };
static void num(char *p, char c, unsigned i) { p[0] = c; p[1] = (char)('0' + i / 100); p[2] = (char)('0' + i / 10 % 10); p[3] = (char)('0' + i % 10); p[4] = 0; }
static void huge_boot(struct env *e, struct ref *r) { ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up"); }
static struct ref *huge_again(struct env *e);
static struct ref *huge(struct env *e, bool hook)
{
        for (unsigned i = 0; i < sizeof(hblob); i++) hblob[i] = (uint8_t)(i * 13 + 7);
        for (unsigned i = 0; i < TEXT; i++) htext[i] = (char)(i % 61 == 60 ? '\n' : 'a' + (i + i / 256) % 26);
        for (unsigned i = 0; i < NF; i++) {
                num(hc[i], 'c', i); num(hf[i], 'f', i); num(hg[i], 'g', i); memcpy(hsn[i], "/n/", 3); num(hsn[i] + 3, 's', i);
                hu_cmd[i].name = hc[i]; hu_cmd[i].exec = f_exec; hu_cmd[i].description = i % 50 == 7 ? "some command" : NULL; hu_cmd[i].help = i % 3 ? hf[i] : NULL;
                hu_root[i].name = hf[i]; hu_root[i].exec = i % 2 ? f_exec : NULL; hu_root[i].get_data = i % 7 ? f_get : NULL; hu_root[i].set_data = i % 5 ? f_set : NULL; hu_root[i].description = i % 60 == 9 ? "some file" : NULL;
                hu_s[i].name = "x"; hu_s[i].exec = f_exec; hu_s[i].get_data = f_get; hu_s[i].set_data = f_set;
                hu_grp[i].name = hg[i]; hu_grp[i].exec = f_exec; hu_grp[i].help = i % 2 ? NULL : hc[i];
                beh[H_ROOT + i].data = hblob + i % 100; beh[H_ROOT + i].n = i % 5; beh[H_S + i].data = hblob + i / 10; beh[H_S + i].n = 1 + i % 3;
        }
        hu_root[NF].name = "big"; hu_root[NF].help = htext; hu_root[NF].exec = f_exec; hu_root[NF].get_data = f_get; beh[H_ROOT + NF].data = (uint8_t*)htext; beh[H_ROOT + NF].n = TEXT; beh[H_ROOT + NF].act = A_PRINT; beh[H_ROOT + NF].text = htext;
        /* long names: 0,1 files of /l and commands; 2,3 directories /l/... */
        for (unsigned k = 0; k < 4; k++) { char *p = hl[k]; if (k > 1) { memcpy(p, "/l/", 3); p += 3; } for (unsigned i = 0; i < NL; i++) p[i] = (char)((k > 1 ? 'A' : 'a') + (i + i / 26) % 26); p[NL - 1 - k / 2 * 5] = k & 1 ? '1' : '2'; }
        hu_long[0].name = hl[0]; hu_long[1].name = hl[1]; for (unsigned k = 0; k < 2; k++) { hu_long[k].exec = f_exec; hu_long[k].get_data = f_get; hu_lc[k].name = hl[1 - k] + 10; hu_lc[k].exec = f_exec; hu_lc[k].help = hl[k]; }
        beh[H_LONG].data = hblob; beh[H_LONG].n = 270; beh[H_LONG + 1].data = hblob + 1; beh[H_LONG + 1].n = 9;
        hu_lc[2].name = "far"; hu_lc[2].description = htext; hu_lc[2].exec = f_exec; hu_lc[2].help = htext; beh[H_LC + 2].act = A_NONL; beh[H_LC + 2].text = htext;
        hu_deep[0].name = "x"; hu_deep[0].exec = f_exec; hu_deep[0].get_data = f_get; beh[H_DEEP].data = hblob; beh[H_DEEP].n = 2;
        fid_reg_at(hu_cmd, NF, H_CMD); fid_reg_at(hu_root, NF + 1, H_ROOT); fid_reg_at(hu_s, NF, H_S); fid_reg_at(hu_long, 2, H_LONG); fid_reg_at(hu_lc, 3, H_LC); fid_reg_at(hu_grp, NF, H_GRP); fid_reg_at(hu_deep, 1, H_DEEP);
        if (hook) e->desc->exec = f_hook;
        return huge_again(e);
}
static struct ref *huge_again(struct env *e)
{
        cb_shell = e->sh; ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
#define GRP(node, f, n) do { sym_check(ush_commands_add(e->sh, node, f, n) == USH_STATUS_OK, "commands_add"); ref_grp_add(r, f, n, node); } while (0)
        GRP(&hn_g[0], hu_lc, 3);
#ifdef GROUPS
        for (unsigned i = 0; i < NF; i++) GRP(&hn_grp[i], &hu_grp[i], 1);
#endif
        GRP(&hn_g[1], hu_cmd, NF);
        both_mount(e, r, "/", &hn_root, hu_root, NF + 1); both_mount(e, r, "/n", &hn_n, NULL, 0); both_mount(e, r, "/l", &hn_l, hu_long, 2);
        both_mount(e, r, hl[2], &hn_l3, hu_deep, 1); both_mount(e, r, hl[3], &hn_l4, NULL, 0);
#ifdef DIRS
        for (unsigned i = 0; i < NF; i++) both_mount(e, r, hsn[i], &hn_s[i], &hu_s[i], 1);
#endif
#ifdef DEEP
        for (unsigned i = 0; i < DEEP; i++) { for (unsigned k = 0; k <= i; k++) { hdeep[i][2 * k] = '/'; hdeep[i][2 * k + 1] = 'q'; } both_mount(e, r, hdeep[i], &hn_deep[i], hu_deep, 1); }
#endif
        huge_boot(e, r);
        return r;
}
#endif
