/* A large world: names that are prefixes of one another or differ only in their last
 * character at lengths around every small power of two, many siblings, deep directories,
 * many commands, long descriptions, manuals and data, dot-names.  For everything that goes
 * wrong only beyond a size. */
#ifndef BIG_H
#define BIG_H
#define OUTMAX 32768
#define RLINE 700
#define RARGS 400
#define RPATH 600
#define RDIRS 48
#define RGRPS 24
#define RCAND 120
#ifndef IDLE_MAX
#define IDLE_MAX 60000
#endif
#include "ref.h"
#define BASE "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
#define LADDERS 14
static const unsigned rung[LADDERS] = { 17, 3, 33, 4, 8, 32, 7, 16, 9, 15, 31, 40, 63, 65 };
static char names[2 * LADDERS][72];              /* rung i: prefix of BASE; LADDERS+i: the same with another last character */
static char dnames[LADDERS][80];                 /* /p/<rung> */
static char cnames[12][32];                      /* /q, /q/q, ... */
static char longtext[520], manual[520];
static uint8_t blob[600];
static fd_t b_cmd1[LADDERS], b_cmd2[LADDERS], b_cmd3[14], b_root[16], b_files[2 * LADDERS], b_lad[LADDERS], b_chain[12], b_many[24];
static struct ush_node_object bn_g[4], bn_root, bn_p, bn_lad[LADDERS], bn_chain[12], bn_files, bn_s[6], bn_dot, bn_many, bn_old, bn_new;
static char c3[14][4], m24[24][8];
enum { B_C1 = 1, B_C2 = 20, B_C3 = 40, B_ROOT = 60, B_FILES = 80, B_LAD = 120, B_CHAIN = 140, B_MANY = 160, B_OLD = 190, B_NEW = 195 };
static const fd_t b_old[] = { { .name = "x", .exec = f_exec }, { .name = "y", .get_data = f_get } }, b_new[] = { { .name = "x", .exec = f_exec, .help = "newer x\r\n" }, { .name = "y", .get_data = f_get, .set_data = f_set } };
static void big_files(size_t out_size)
{
        for (unsigned i = 0; i < LADDERS; i++) {
                memcpy(names[i], BASE, rung[i]); memcpy(names[LADDERS + i], BASE, rung[i]); names[LADDERS + i][rung[i] - 1] = '_';
                b_cmd1[i].name = names[i]; b_cmd1[i].exec = f_exec; if (i % 3 == 0) b_cmd1[i].description = longtext;
                b_cmd2[i].name = names[LADDERS + i]; b_cmd2[i].exec = f_exec; if (i % 2 == 0) b_cmd2[i].help = manual;
                strcpy(dnames[i], "/p/"); strcat(dnames[i], names[i]);
                b_lad[i].name = "f"; b_lad[i].exec = f_exec; b_lad[i].get_data = f_get; b_lad[i].help = names[i];
        }
        for (unsigned i = 0; i < 2 * LADDERS; i++) { b_files[i].name = names[2 * LADDERS - 1 - i]; b_files[i].exec = f_exec; b_files[i].get_data = f_get; b_files[i].set_data = i % 2 ? f_set : NULL; b_files[i].help = i % 3 ? names[i] : NULL; b_files[i].description = i % 4 == 1 ? "a file" : NULL; }
        for (unsigned i = 0; i < sizeof(longtext) - 1; i++) { longtext[i] = (char)('A' + i % 26); manual[i] = (char)(i % 41 == 40 ? '\n' : 'a' + i % 25); }
        for (unsigned i = 0; i < sizeof(blob); i++) blob[i] = (uint8_t)(i * 11 + (i >> 8));
        for (unsigned i = 0; i < 14; i++) { c3[i][0] = 'k'; c3[i][1] = (char)('0' + i / 10); c3[i][2] = (char)('0' + i % 10); b_cmd3[i].name = c3[i]; b_cmd3[i].exec = f_exec; }
        for (unsigned i = 0; i < 12; i++) { for (unsigned k = 0; k <= i; k++) strcat(cnames[i], "/q"); b_chain[i].name = "f"; b_chain[i].exec = f_exec; b_chain[i].get_data = f_get; b_chain[i].set_data = f_set; }
        for (unsigned i = 0; i < 24; i++) { m24[i][0] = 'm'; m24[i][1] = (char)('a' + i); m24[i][2] = i % 2 ? 'x' : 0; b_many[i].name = m24[i]; b_many[i].get_data = f_get; b_many[i].exec = i % 3 ? f_exec : NULL; }
        b_root[0].name = "blob"; b_root[0].get_data = f_get; b_root[0].set_data = f_set; b_root[0].help = manual; b_root[0].description = longtext;
        b_root[1].name = "temperature-sensor-a"; b_root[1].get_data = f_get; b_root[2].name = "temperature-sensor-b"; b_root[2].get_data = f_get; b_root[2].set_data = f_set;
        b_root[3].name = ".hidden"; b_root[3].exec = f_exec; b_root[4].name = "..x"; b_root[4].exec = f_exec; b_root[5].name = "..."; b_root[5].exec = f_exec;
        b_root[6].name = "k03"; b_root[6].exec = f_exec; b_root[10].name = NULL; b_root[6].get_data = f_get; b_root[7].name = "empty"; b_root[7].get_data = f_get; b_root[8].name = "d"; b_root[8].exec = f_exec; b_root[9].name = "z\xE9\xFFz"; b_root[9].exec = f_exec; b_root[9].get_data = f_get;
        fid_reg_at(b_cmd1, LADDERS, B_C1); fid_reg_at(b_cmd2, LADDERS, B_C2); fid_reg_at(b_cmd3, 14, B_C3); fid_reg_at(b_root, 10, B_ROOT); fid_reg_at(b_files, 2 * LADDERS, B_FILES);
        fid_reg_at(b_lad, LADDERS, B_LAD); fid_reg_at(b_chain, 12, B_CHAIN); fid_reg_at(b_many, 24, B_MANY); fid_reg_at(b_old, 2, B_OLD); fid_reg_at(b_new, 2, B_NEW);
        for (unsigned i = 1; i < 256; i++) { beh[i].data = blob + i; beh[i].n = i % 16; }
        beh[B_ROOT].data = blob; beh[B_ROOT].n = sizeof(blob); beh[B_ROOT + 1].n = 255; beh[B_ROOT + 2].n = 257; beh[B_ROOT + 7].n = 0; beh[B_ROOT + 7].data = NULL;
        static const struct fbeh acts[] = { { .act = A_PRINT, .text = longtext }, { .act = A_NONL, .text = manual }, { .act = A_STATUS, .status = 12 }, { .act = A_STATUS, .status = 0 }, { .act = A_FLUSH, .text = longtext }, { .act = A_PRINTF, .text = manual }, { .act = A_RESET }, { .act = A_PRINT, .text = "" } };
        for (unsigned i = 0; i < 8; i++) if (out_size >= 520 || i < 4 || i > 5) beh[B_C3 + i] = acts[i];
}
static void big_mounts(struct env *e, struct ref *r)
{
        static const char *const s4[] = { "/s1", "/s2", "/s3", "/s4", "/s1/s1", "/s1/s2" };
        both_mount(e, r, "/", &bn_root, b_root, 10); both_mount(e, r, "/p", &bn_p, NULL, 0);
        for (unsigned i = 0; i < LADDERS; i++) both_mount(e, r, dnames[i], &bn_lad[i], &b_lad[i], 1);
        for (unsigned i = 0; i < 12; i++) both_mount(e, r, cnames[i], &bn_chain[i], &b_chain[i], 1);
        both_mount(e, r, "/files", &bn_files, b_files, 2 * LADDERS); for (unsigned i = 0; i < 6; i++) both_mount(e, r, s4[i], &bn_s[i], b_old, i % 3);
        both_mount(e, r, "/...", &bn_dot, b_old, 2); both_mount(e, r, "/many", &bn_many, b_many, 24);
        both_mount(e, r, "/configurations-old", &bn_old, b_old, 2); both_mount(e, r, "/configurations-new", &bn_new, b_new, 2);
}
static void big_boot(struct env *e, struct ref *r) { ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up"); }
static struct ref *big(struct env *e, bool hook)
{
        big_files(e->desc->output_buffer_size);
        if (hook) e->desc->exec = f_hook;
        cb_shell = e->sh;
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
        static const struct { fd_t *f; size_t n; } g[] = { { b_cmd1, LADDERS }, { b_cmd2, LADDERS }, { b_cmd3, 14 } };
        for (unsigned i = 0; i < 3; i++) { sym_check(ush_commands_add(e->sh, &bn_g[i], g[i].f, g[i].n) == USH_STATUS_OK, "commands_add"); ref_grp_add(r, g[i].f, g[i].n, &bn_g[i]); }
        big_mounts(e, r);
        big_boot(e, r);
        return r;
}
#endif
