/* C27 in the large world: one change at any service call (grid STRIDE) of long commands. */
#include "big.h"
static const char *const lines[] = { "cat /p/abc/f /p/abcdefg/f /files/abc q/q/q/q/f blob /p/abcdefghijklmnopq/f\r", "ls /p\r", "ls /files\r", "ls\r", "help\r", "ab\t", "k\t\t", "help /p/abc/f\r", "xxd /q/q/q/q/f\r", "/p/abc/f 1\r", "cd /q/q/q\r", "cat /p/abc/f /files/abcdefg", "ls /p/abcd" };
#define NWHOLE 11
static const char *const starts[] = { "", "cd /p/abc\r", "cd /q/q/q/q/q/q/q/q/q/q/q/q\r", "cd p\r" };
static struct ush_node_object bn_x; static uint8_t in[256];
static void gone(struct env *e, struct ref *r, const char *p) { sym_check(ush_node_unmount(e->sh, p) == USH_STATUS_OK, "unmount"); ref_unmount(r, p); }
static void change(struct env *e, struct ref *r, unsigned w)
{
        switch (w) {
        case 0: gone(e, r, "/p/abc"); break;
        case 1: gone(e, r, dnames[0]); break;
        case 2: gone(e, r, dnames[LADDERS - 1]); gone(e, r, dnames[6]); break;
        case 3: for (unsigned i = 0; i < LADDERS; i++) gone(e, r, dnames[i]); gone(e, r, "/p"); break;
        case 4: for (unsigned i = 12; i-- > 2; ) gone(e, r, cnames[i]); break;
        case 5: gone(e, r, "/files"); break;
        case 6: case 7: case 8: sym_check(ush_commands_remove(e->sh, &bn_g[w - 6]) == USH_STATUS_OK, "remove"); ref_grp_del(r, &bn_g[w - 6]); break;
        case 9: both_mount(e, r, "/p/new", &bn_x, b_new, 2); break;
        case 10: sym_check(ush_commands_add(e->sh, &bn_x, b_new, 2) == USH_STATUS_OK, "add"); ref_grp_add(r, b_new, 2, &bn_x); break;
        case 11: gone(e, r, "/p/abcdefg"); both_mount(e, r, "/p/abcdefg", &bn_x, b_new, 2); break;
        }
}
void harness(void)
{
        struct env *e = env_new(300, 600, 128, "h");
        struct ref *r = big(e, false);
        both_types(e, r, starts[sym_choice(4, "start")]); ref_agree(r, e, "cd");
        sym_bytes(blob, 1); sym_bytes(blob + 145, 1);
        unsigned l = sym_choice(sizeof(lines) / sizeof(lines[0]), "line"); size_t n = strlen(lines[l]); memcpy(in, lines[l], n);
        env_feed(e, in, n);
        unsigned w = sym_choice(12, "change"), at = STRIDE * sym_choice(TIMES, "time"); bool idle = false;
        for (unsigned i = 0; i < at && !idle; i++) { unsigned k = e->read_empty; env_service(e); if (e->read_empty != k && e->feed_pos >= e->feed_len) idle = true; }
        if (!idle) sym_reach(l < NWHOLE ? "changed while busy" : "changed while a line is half typed"); else if (at > 0) { sym_reach("changed when idle"); }
        change(e, r, w);
        env_idle(e);
        sym_check(e->sh->current_node != NULL, "no working directory");
        if (l >= NWHOLE) {
                env_clear(e); ev.n = 0; ref_keys(r, in, n); r->out.n = 0; r->ev.n = 0;
                uint8_t k[2]; sym_bytes(k, 1); sym_assume((k[0] != 0) & (k[0] != 9)); k[1] = '\r'; both_keys(e, r, k, 2); ref_agree(r, e, "line completed after the change");
        } else {
                bool tab = lines[l][n - 1] == '\t';
                if (!tab) sym_check(e->out_n >= 3 && memcmp(e->out + e->out_n - 3, "]$ ", 3) == 0, "no prompt after the command");
                env_types(e, "\x03"); env_clear(e); ev.n = 0; r->out.n = 0; r->ev.n = 0; r->n = 0;
                if (strncmp(lines[l], "cd", 2) == 0) { both_types(e, r, "cd /\r"); env_clear(e); r->out.n = 0; ev.n = 0; r->ev.n = 0; r->cwd = "/"; }
        }
        both_types(e, r, "pwd\r"); both_types(e, r, "ls\r"); ref_agree(r, e, "ls after the change");
        static const char *const t[] = { "ls /p\r", "cat /p/abcdefg/f /p/abcdefghijklmnopq/f\r", "/p/abc/f 1\r", "/p/new/x 2\r", "abc\r", "ab_\rk00\rx 3\r", "ab\t\t\x03", "k\t\t\x03", "ls /q/q\r", "cat /files/abc\r", "help k00\r", "cd ..\r", "pwd\r" };
        for (unsigned i = 0; i < sizeof(t) / sizeof(t[0]); i++) { both_types(e, r, t[i]); ref_agree(r, e, "commands after the change"); }
        sym_reach("done");
}
