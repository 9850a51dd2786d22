/* C20: formatted printing for every output buffer size: complete, or a prefix and the notice. */
#include "world.h"
#ifndef SIZES
#define SIZES { 4, 5, 6, 18, 19, 20, 21, 24 }
#endif
#ifndef K
#define K 2
#endif
static const uint8_t sizes[] = SIZES;
static char text[K][80]; static unsigned kind[K]; static int num;
static void print_all(struct ush_object *s)
{
        for (unsigned i = 0; i < K; i++) switch (kind[i]) {
        case 0: ush_printf(s, "%s", text[i]); break;
        case 1: ush_printf(s, "<%-4s|%3d%%>", text[i], num); break;
        case 2: ush_printf(s, "%lc", 0xffffffffu); break;
        case 3: ush_printf(s, "%d:%x", num, (unsigned)num & 0xffu); break;
        }
}
static void x_exec(struct ush_object *self, fd_t const *f, int c, char **v) { (void)f; (void)c; (void)v; print_all(self); }
static const fd_t x_root[] = { { .name = "x", .exec = x_exec }, { .name = "g", .get_data = f_get } };
static struct ush_node_object m_root;
static char cat[256]; static size_t n_cat;
static void add(const char *s) { while (*s) cat[n_cat++] = *s++; }
static void addn(long v, unsigned base) { char t[24]; int n = 0; unsigned long u = v < 0 ? (unsigned long)-v : (unsigned long)v; do { t[n++] = "0123456789abcdef"[u % base]; u /= base; } while (u); if (v < 0) cat[n_cat++] = '-'; while (n) cat[n_cat++] = t[--n]; }
void harness(void)
{
        size_t size = sizes[sym_choice(sizeof(sizes), "output buffer size")];
        struct env *e = env_new(32, size, 32, "h");
        fid_reg(x_root, 2); beh[2].data = (const uint8_t*)"DATA"; beh[2].n = 4;
        ush_init(e->sh, e->desc);
        ush_node_mount(e->sh, "/", &m_root, x_root, 2);
        env_feed(e, NULL, 0); env_idle(e); env_clear(e);
        bool err = false;
        static const int nums[] = { 0, 7, -42, 12345 };
        num = nums[sym_choice(KINDS > 1 ? 4 : 1, "number")];
        for (unsigned i = 0; i < K; i++) {
                kind[i] = sym_choice(KINDS, "format");
                if (kind[i] < 2) {
                        size_t n = (kind[i] == 0 && KINDS == 1) ? sym_choice((unsigned)size + 2, "text length") : sym_choice(3, "text length");
                        sym_bytes(text[i], n); text[i][n] = 0; for (size_t k = 0; k < n; k++) sym_assume((text[i][k] != 0));
                }
                switch (kind[i]) {
                case 0: add(text[i]); break;
                case 1: { add("<"); size_t l = strlen(text[i]); add(text[i]); for (; l < 4; l++) add(" "); add("|"); if (num >= 0 && num < 10) add("  "); addn(num, 10); add("%>"); break; }
                case 2: if (i + 1 < K) return; err = true; break;          /* a format error ends the sequence */
                case 3: addn(num, 10); add(":"); addn((unsigned)num & 0xff, 16); break;
                }
        }
        unsigned how = sym_choice(3, "called from");
        struct sb pre = { .n = 0 }, post = { .n = 0 };
        sb_prompt(&post, "h", "/");
        if (how == 0) { print_all(e->sh); env_idle(e); }
        else if (how == 1) { env_types(e, "ab"); env_clear(e); print_all(e->sh); env_idle(e); }
        else { env_types(e, "x\r"); sb_s(&pre, "x\r\n"); }
        const char *notice = err ? "...format error\r\n" : "...overflow error\r\n";
        sym_check(e->out_n >= pre.n + post.n, "output too short");
        sym_check(memcmp(e->out, pre.b, pre.n) == 0, "echo missing");
        sym_check(memcmp(e->out + e->out_n - post.n, post.b, post.n) == 0, "prompt does not follow");
        const uint8_t *o = e->out + pre.n; size_t n = e->out_n - pre.n - post.n;
        if (!err && n_cat + 1 <= size) {
                sym_check(n == n_cat && memcmp(o, cat, n) == 0, "formatted text is not printed completely");
                sym_reach("complete");
        } else {
#ifndef NONUL
                if (n > 0 && n == size && o[n - 1] == 0) n--;             /* known finding, see job no-nul */
#endif
                for (size_t i = 0; i < n; i++) sym_check(o[i] != 0, "a NUL byte was emitted");
                sym_check(n < size, "more emitted than fits the buffer");
                size_t l = strlen(notice), m = l < size - 1 ? l : size - 1;
                sym_check(n >= m, "no complete notice although it fits");
                sym_check(memcmp(o + n - m, notice, m) == 0, "no error notice");
                sym_check(n - m <= n_cat && memcmp(o, cat, n - m) == 0, "text before the notice is no prefix");
                if (!err) sym_check(n == size - 1, "text dropped although it fits");
                sym_reach(err ? "format error" : "overflow");
        }
        env_clear(e); env_types(e, "zz\r");
        struct sb z = { .n = 0 }; sb_s(&z, "zz\r\n"); sb_s(&z, ref_status[5]); sb_s(&z, "\r\n"); sb_prompt(&z, "h", "/");
        expect_out(e, &z, "following command");
        sym_reach("done");
}
