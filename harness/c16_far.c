/* C16/C15: files far larger than any 8- or 16-bit counter can hold: the output is compared
 * byte by byte while it is produced (nothing is recorded); S symbolic bytes are spread over the
 * places where counters wrap. */
#define OUTMAX 128
#include "env.h"
#ifndef LEN
#define LEN 66000
#endif
static uint8_t data[LEN + 1];
static size_t pos; static const char *pre; static size_t npre, ntotal;
static size_t x_get(struct ush_object *self, struct ush_file_descriptor const *file, uint8_t **d) { (void)self; (void)file; *d = data; return LEN; }
static const struct ush_file_descriptor files[] = { { .name = "big", .get_data = x_get } };
static struct ush_node_object root;
static const char hx[] = "0123456789ABCDEF";
static uint8_t hexd(unsigned d) { return (uint8_t)(d + (d < 10 ? '0' : 'A' - 10)); }
static uint8_t want(size_t p)
{
        if (p < npre) return (uint8_t)pre[p];
        p -= npre;
#ifdef CAT
        if (p < LEN) return data[p];
        p -= LEN;
#else
        size_t rows = (LEN + 7) / 8;
        if (p < rows * 45) {
                size_t row = p / 45, c = p % 45;
                if (c < 8) return (uint8_t)hx[(row * 8 >> (28 - 4 * c)) & 15];
                if (c == 8) return ':';
                if (c == 9) return ' ';
                if (c < 34) { size_t i = row * 8 + (c - 10) / 3; if (i >= LEN || (c - 10) % 3 == 2) return ' '; return hexd((c - 10) % 3 == 0 ? data[i] >> 4 : data[i] & 15); }
                if (c == 34) return ' ';
                if (c < 43) { size_t i = row * 8 + c - 35; return (uint8_t)(i >= LEN ? ' ' : (((data[i] >= 32) & (data[i] < 127)) ? data[i] : '.')); }
                return c == 43 ? '\r' : '\n';
        }
        p -= rows * 45;
#endif
        return (uint8_t)"[h /]$ "[p];
}
static int on_write(struct env *e, char ch) { sym_check(pos < ntotal, "more output than the dump"); sym_check((uint8_t)ch == want(pos), "output byte differs"); pos++; e->out_n = 0; return 1; }
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        ush_init(e->sh, e->desc);
        for (size_t i = 0; i < LEN; i++) data[i] = (uint8_t)(i * 7 + (i >> 8));
        static const size_t at[] = {
#ifdef MORE
                0, 7, 127, 128, 255, 256, 257, 4095, 4096, LEN - 1,
#endif
                65536 };
        size_t a = at[sym_choice(sizeof(at) / sizeof(at[0]), "which byte is symbolic")]; if (a >= LEN) a = LEN / 2; sym_bytes(&data[a], 1);
        ush_node_mount(e->sh, "/", &root, files, 1);
        env_feed(e, NULL, 0); env_idle(e);
        e->write_hook = on_write;
#ifdef CAT
        pre = "cat big\r\n"; ntotal = LEN;
        env_feed(e, "cat big\r", 8);
#else
        pre = "xxd big\r\n"; ntotal = (LEN + 7) / 8 * 45;
        env_feed(e, "xxd big\r", 8);
#endif
        npre = strlen(pre); ntotal += npre + 7;
        bool ok = env_try_idle(e, (unsigned)(ntotal * 4 + 1000));
        sym_check(ok, "shell does not become idle"); sym_check(pos == ntotal, "output ended early");
        sym_reach("done");
}
