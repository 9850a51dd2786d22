/* C20 with large buffers and texts: three prints whose lengths are around the buffer size,
 * with one arbitrary byte each; conversions with width and precision; numbers of any value. */
#ifndef MAXTEXT
#define MAXTEXT 1400
#define OUTMAX 4096
#else
#define OUTMAX (MAXTEXT + 400)
#define IDLE_MAX 2000000
#endif
#include "world.h"
static const unsigned sizes[] = { SIZES };
static char text[3][MAXTEXT]; static unsigned form[3]; static size_t len[3]; static struct { char b[MAXTEXT * 3 + 800]; size_t n; } cat;
static uint32_t num;
static void print_all(struct ush_object *s)
{
        for (unsigned i = 0; i < 3; i++) switch (form[i]) {
        case 0: ush_printf(s, "%s", text[i]); break;
        case 1: ush_printf(s, "[%s]%c", text[i], 'c'); break;
        case 2: ush_printf(s, "%.*s%08X", (int)len[i], text[i], (unsigned)num); break;
        case 3: ush_printf(s, "%*s", (int)len[i], "r"); break;
        }
}
static void x_exec(struct ush_object *self, fd_t const *f, int c, char **v) { (void)f; (void)c; (void)v; print_all(self); }
static const fd_t x_root[] = { { .name = "x", .exec = x_exec } };
static struct ush_node_object m_root;
static void addn(const char *s, size_t n) { for (size_t i = 0; i < n; i++) cat.b[cat.n++] = s[i]; }
void harness(void)
{
        size_t size = sizes[sym_choice(sizeof(sizes) / sizeof(sizes[0]), "output buffer size")];
        struct env *e = env_new(32, size, 32, "h");
        ush_init(e->sh, e->desc); ush_node_mount(e->sh, "/", &m_root, x_root, 1);
        env_feed(e, NULL, 0); env_idle(e); env_clear(e);
        size_t left = size - 1; uint8_t hb[4] = { 0x12, 0xAB, 0x00, 0xF7 }; sym_bytes(hb, 1); num = (uint32_t)hb[0] << 24 | 0xAB00F7u;
        for (unsigned i = 0; i < 3; i++) {
#ifdef FEW
                form[i] = i == 2 ? sym_choice(4, "format") : i * 2;
#else
                form[i] = sym_choice(4, "format");
#endif
                static const int d[] = { 0, 1, -1, -18, -19, 5 };
                if (i < 2) len[i] = left / 3; else { long t = (long)left + d[sym_choice(6, "length")]; if (form[i] == 1) t -= 3; if (form[i] == 2) t -= 8; len[i] = t < 0 ? 0 : (size_t)t; }
                for (size_t k = 0; k < len[i]; k++) text[i][k] = (char)('A' + (k + i) % 26);
                if (len[i] > 0) { size_t at = (i == 1 ? 0 : len[i] - 1); sym_bytes(&text[i][at], 1); sym_assume(text[i][at] != 0); }
                text[i][len[i]] = 0;
                size_t before = cat.n;
                switch (form[i]) {
                case 0: addn(text[i], len[i]); break;
                case 1: addn("[", 1); addn(text[i], len[i]); addn("]c", 2); break;
                case 2: addn(text[i], len[i]); for (int k = 7; k >= 0; k--) { unsigned h = (num >> (4 * k)) & 15; char c = (char)(h + (h < 10 ? '0' : 'A' - 10)); addn(&c, 1); } break;
                case 3: for (size_t k = 1; k < len[i]; k++) addn(" ", 1); addn("r", 1); break;
                }
                size_t add = cat.n - before; left = add > left ? 0 : left - add;
        }
        struct sb pre = { .n = 0 }, post = { .n = 0 }; sb_prompt(&post, "h", "/");
        unsigned how = sym_choice(2, "called from");
        if (how == 0) { print_all(e->sh); env_idle(e); } else { env_types(e, "x\r"); sb_s(&pre, "x\r\n"); }
        sym_check(e->out_n >= pre.n + post.n, "output too short");
        sym_check(memcmp(e->out, pre.b, pre.n) == 0, "echo missing");
        sym_check(memcmp(e->out + e->out_n - post.n, post.b, post.n) == 0, "prompt does not follow");
        const uint8_t *o = e->out + pre.n; size_t n = e->out_n - pre.n - post.n;
        if (cat.n + 1 <= size) { sym_check(n == cat.n, "formatted text is not printed completely (length)"); sym_check(memcmp(o, cat.b, n) == 0, "formatted text is not printed completely"); sym_reach("complete"); }
        else {
                static const char notice[] = "...overflow error\r\n"; size_t m = sizeof(notice) - 1;
                if (n == size && o[n - 1] == 0) n--;                      /* known finding, see job no-nul */
                sym_check(n == size - 1, "overflow: text dropped although it fits, or too much emitted");
                if (m > size - 1) m = size - 1;
                sym_check(memcmp(o + n - m, notice, m) == 0, "overflow: no error notice"); sym_check(memcmp(o, cat.b, n - m) == 0, "overflow: text before the notice is no prefix");
                sym_reach("overflow");
        }
        env_clear(e); env_types(e, "zz\r"); struct sb z = { .n = 0 }; sb_s(&z, "zz\r\nerror: syntax error\r\n"); sb_prompt(&z, "h", "/"); expect_out(e, &z, "following command");
        sym_reach("done");
}
