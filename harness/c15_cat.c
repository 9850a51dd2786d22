/* C15: cat prints exactly the bytes the getters supply, or an error and nothing.  Every
 * getter call supplies fresh symbolic bytes (or nothing, with or without a pointer). */
#include "world.h"
#ifndef A
#define A 3
#endif
#ifndef D
#define D 3
#endif
static uint8_t data[8][D + 1]; static unsigned gets, who[8]; static struct sb sup;
static size_t x_get(struct ush_object *self, fd_t const *file, uint8_t **out)
{
        cb_enter(self); sym_check(gets < 8, "getter called too often");
        unsigned k = gets++; who[k] = (unsigned)(file->name[0]);
        size_t n = sym_choice(D + 2, "data size");
        if (n == D + 1) { sym_reach("empty file without data pointer"); return 0; }
        sym_bytes(data[k], n); *out = data[k]; sb_b(&sup, data[k], n);
        for (size_t i = 0; i < n; i++) sym_log(data[k][i]);
        return n;
}
static void x_set(struct ush_object *self, fd_t const *file, uint8_t *d, size_t n) { (void)self; (void)file; (void)d; (void)n; sym_check(0, "cat called a setter"); }
static void x_exec(struct ush_object *self, fd_t const *file, int c, char **v) { (void)self; (void)file; (void)c; (void)v; sym_check(0, "cat executed a file"); }
static const fd_t x_root[] = { { .name = "a", .get_data = x_get, .exec = x_exec }, { .name = "b", .get_data = x_get, .set_data = x_set }, { .name = "n", .set_data = x_set, .help = "h" } };
static const fd_t x_d[] = { { .name = "c", .get_data = x_get } };
static const fd_t x_cmd[] = { { .name = "k", .get_data = x_get, .exec = x_exec }, { .name = "m", .exec = x_exec } };
static struct ush_node_object m_root, m_d, m_c;
void harness(void)
{
        struct env *e = env_new(48, 64, 32, "h");
        cb_shell = e->sh;
        ush_init(e->sh, e->desc);
        ush_commands_add(e->sh, &m_c, x_cmd, 2);
        ush_node_mount(e->sh, "/", &m_root, x_root, 3); ush_node_mount(e->sh, "/d", &m_d, x_d, 1);
        env_feed(e, NULL, 0); env_idle(e); env_clear(e);
        static const struct { const char *t; char id; bool found; } arg[] = {
                { "a", 'a', true }, { "/b", 'b', true }, { "d/c", 'c', true }, { "k", 'k', true },
                { "n", 'n', true }, { "m", 'm', true }, { "zz", 0, false }, { "d", 0, false }, { "\"\"", 0, false } };
        unsigned n = sym_choice(A + 1, "arguments"), pick[A]; char l[48] = "cat";
        for (unsigned i = 0; i < n; i++) { pick[i] = sym_choice(9, "file"); strcat(l, " "); strcat(l, arg[pick[i]].t); }
        strcat(l, "\r");
        env_types(e, l);
        struct sb x = { .n = 0 }; l[strlen(l) - 1] = 0; sb_s(&x, l); sb_s(&x, "\r\n");
        int err = n == 0 ? 6 : -1;
        for (unsigned i = 0; i < n && err < 0; i++) { if (!arg[pick[i]].found) err = 11; else if (arg[pick[i]].id == 'n' || arg[pick[i]].id == 'm') err = 9; }
        if (err >= 0) { sym_check(gets == 0, "a getter was called although the arguments are wrong"); sb_s(&x, ref_status[err]); sb_s(&x, "\r\n"); sym_reach("error"); }
        else {
                sym_check(gets == n, "getters not called once per occurrence");
                for (unsigned i = 0; i < n; i++) sym_check(who[i] == (unsigned)arg[pick[i]].id, "wrong file read");
                sb_b(&x, sup.b, sup.n);
        }
        sb_prompt(&x, "h", "/");
        expect_out(e, &x, "cat output");
        sym_reach("done");
}
