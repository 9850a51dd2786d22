/* C21: long host names and long directory names in the prompt, shown at the start, after a
 * command and when a completion shows the line again. */
#define OUTMAX 210000
#define IDLE_MAX 300000
#include "env.h"
#ifndef SIZES
#define SIZES { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513 }
#endif
static const unsigned sizes[] = SIZES;
static const struct ush_file_descriptor c[] = { { .name = "za" }, { .name = "zb" } };
static struct ush_node_object r, d, g; static struct sb x;
static void prompt(const char *h, size_t n, const char *dir, size_t m) { sb_s(&x, ST_MAG "["); sb_b(&x, h, n); sb_c(&x, ' '); sb_b(&x, dir, m); sb_s(&x, "]$ " ST_RST); }
void harness(void)
{
        env_quiet = true;
        size_t n = sizes[sym_choice(sizeof(sizes) / sizeof(sizes[0]), "length of the host name")], m = sym_choice(2, "directory") ? n : 1;
        char *h = malloc(n + 1), *p = malloc(m + 2); memset(h, 'h', n); h[n] = 0; p[0] = '/'; memset(p + 1, 'd', m); p[m + 1] = 0;
        uint8_t b[2]; sym_bytes(b, 2); sym_assume(b[0] != 0); sym_assume(b[1] != 0); sym_assume(b[1] != '/'); sym_assume(b[1] != '.'); h[n - 1] = (char)b[0]; p[m] = (char)b[1];
        struct env *e = env_new(16, 64, m + 16, h); ush_init(e->sh, e->desc);
        sym_check(ush_commands_add(e->sh, &g, c, 2) == USH_STATUS_OK, "add"); sym_check(ush_node_mount(e->sh, "/", &r, NULL, 0) == USH_STATUS_OK && ush_node_mount(e->sh, p, &d, NULL, 0) == USH_STATUS_OK, "mount");
        env_idle(e); sb_s(&x, BANNER); prompt(h, n, "/", 1); expect_out(e, &x, "start");
        sym_check(ush_node_set_current_dir(e->sh, p) == USH_STATUS_OK, "cd");
        x.n = 0; env_types(e, "\r"); sb_s(&x, "\r\n"); prompt(h, n, p + 1, m); expect_out(e, &x, "prompt after a line");
        x.n = 0; env_types(e, "z\t"); sb_s(&x, "z\r\nza\r\nzb\r\n"); prompt(h, n, p + 1, m); sb_c(&x, 'z'); expect_out(e, &x, "prompt after the candidates");
        x.n = 0; ush_print(e->sh, h); env_idle(e); sb_b(&x, h, n); sb_s(&x, "\r\n"); prompt(h, n, p + 1, m); expect_out(e, &x, "prompt after a print");
        sym_reach("done");
}
