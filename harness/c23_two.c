/* C23: two shells with own objects, buffers and nodes: under every interleaving of their
 * service and API calls each behaves as when running alone. */
#define ENVS 4
#define OUTMAX 640
#include "env.h"
#include <microshell.h>
#ifndef SW
#define SW 2
#endif
#ifndef N
#define N 1
#endif
#ifdef RR
#define NA 13
#define NB 12
#else
#define NA 8
#define NB 7
#endif
typedef struct ush_file_descriptor fd_t;
struct life { struct ush_node_object root, d, x, grp; fd_t files[3], sub[1], cmd[2]; uint8_t data[3]; uint8_t ev[200]; size_t nev; };
static struct life life[4];
static struct life *of(struct ush_object *s) { for (unsigned i = 0; i < 4; i++) if (envs[i]->sh == s) return &life[i]; return NULL; }
static void log1(struct life *l, uint8_t c) { if (l->nev < sizeof(l->ev)) l->ev[l->nev++] = c; }
static void x_exec(struct ush_object *s, fd_t const *f, int argc, char **argv) { struct life *l = of(s); log1(l, f->name[0]); for (int i = 0; i < argc; i++) for (const char *p = argv[i]; ; p++) { log1(l, (uint8_t)*p); if (!*p) break; } }
static void x_print(struct ush_object *s, fd_t const *f, int argc, char **argv) { x_exec(s, f, argc, argv); ush_printf(s, "%s;", argc > 1 ? argv[1] : "-"); ush_printf(s, "%d\r\n", argc); }
static size_t x_get(struct ush_object *s, fd_t const *f, uint8_t **d) { (void)f; struct life *l = of(s); log1(l, 'G'); *d = l->data; return 3; }
static void x_set(struct ush_object *s, fd_t const *f, uint8_t *d, size_t n) { (void)f; struct life *l = of(s); log1(l, 'S'); for (size_t i = 0; i < n; i++) log1(l, d[i]); }
static void setup(unsigned i, const uint8_t *data)
{
        struct life *l = &life[i]; struct env *e = env_new(24, 32, 24, i & 1 ? "two" : "h");
        memcpy(l->data, data, 3);
        l->files[0].name = "x"; l->files[0].exec = x_exec; l->files[1].name = "g"; l->files[1].get_data = x_get; l->files[1].set_data = x_set; l->files[2].name = i & 1 ? "pp" : "p"; l->files[2].exec = x_print;
        l->sub[0].name = "y"; l->sub[0].exec = x_exec; l->cmd[0].name = i & 1 ? "k" : "kk"; l->cmd[0].exec = x_exec; l->cmd[1].name = "m"; l->cmd[1].help = "H";
        ush_init(e->sh, e->desc);
        ush_commands_add(e->sh, &l->grp, l->cmd, 2);
        ush_node_mount(e->sh, "/", &l->root, l->files, 3);
        ush_node_mount(e->sh, i & 1 ? "/d" : "/dd", &l->d, l->sub, 1);
}
static const char *const linesA[] = { "xxd g\r", "cat g g\r", "ls\r", "cd dd\r", "echo \\x41b > g\r", "\t", "p 1 2\r", "help\r", "p\x1b[A \"a  b\"\\x41\r", "zz\b\bx \\\"1\r", "dd/y 1\r", "echo \\x4\r", "cd dd\rpwd\ry 2\r" };
static const char *const linesB[] = { "cat g\r", "xxd g\r", "cd d\r", "pp 3\r", "ls d\r", "k a b\r", "x\t\r", "x\x1b[B \\\\ \"q\"\r", "k\bpp 4\r", "cd d\rls\r", "echo \\x41\\x4 > g\r", "cat x g\r" };
static uint8_t inA[40], inB[40], dat[6];
static bool idle(struct env *e) { unsigned k = e->read_empty; env_service(e); return e->read_empty != k && e->feed_pos >= e->feed_len; }
static void api(unsigned i, unsigned what)
{
        struct env *e = envs[i];
        if (what == 1) ush_node_mount(e->sh, i & 1 ? "/d/n" : "/n", &life[i].x, life[i].sub, 1);
        if (what == 2) ush_printf(e->sh, "<%d>", (int)(i & 1));
        if (what == 3) ush_commands_remove(e->sh, &life[i].grp);
        if (what == 4) ush_reset(e->sh);
}
void harness(void)
{
        memcpy(dat, "q\0z" "r\x7f" "7", 6); sym_bytes(dat, 1); sym_bytes(dat + 3, 1);
        const char *a = linesA[sym_choice(NA, "line A")], *b = linesB[sym_choice(NB, "line B")];
        size_t na = strlen(a), nb = strlen(b);
        memcpy(inA, a, na); memcpy(inB, b, nb);
        sym_bytes(inA + na, N); sym_bytes(inB + nb, N); na += N; nb += N; inA[na++] = '\r'; inB[nb++] = '\r';
        for (unsigned i = 0; i < 4; i++) setup(i, i & 1 ? dat + 3 : dat);
        for (unsigned i = 0; i < 4; i++) env_feed(envs[i], i & 1 ? inB : inA, i & 1 ? nb : na);
        #ifdef API
        unsigned what = 1 + sym_choice(4, "API call on B"), when = 0;
#else
        unsigned what = 0, when = 0;
#endif
        /* together: 0 and 1 interleaved with at most SW switches */
#ifdef RR               /* alternate every PER calls, one shell some calls ahead */
        static const uint8_t pers[] = { 1, 2, 3, 4, 7, 11 }; unsigned per = pers[sym_choice(6, "period")], ahead = sym_choice(4, "ahead");
#else
        unsigned per = 0, ahead = 0;
#endif
        bool done[2] = { false, false }; unsigned cur = sym_choice(2, "first"), sw = 0, steps = 0, bsteps = 0; bool called = false;
        unsigned at = what ? 10 * sym_choice(4, "API call time") : 0;
        while (!done[0] || !done[1]) {
                sym_check(steps++ < 3000, "the shells do not become idle");
                if (cur == 1 && what && !called && bsteps == at) { api(1, what); called = true; when = bsteps; }
                bool d = idle(envs[cur]); if (cur == 1) bsteps++;
                if (d) { done[cur] = true; }
                if (cur == 1 && d && what && !called) { done[1] = false; api(1, what); called = true; when = bsteps; continue; }
                if (done[cur]) { if (!done[cur ^ 1]) cur ^= 1; }
                else if (per) { if (!done[cur ^ 1] && steps > ahead * 3 && steps % per == 0) { sw++; cur ^= 1; } }
                else if (!done[cur ^ 1] && sw < SW && steps % STRIDE == 0 && sym_choice(2, "switch")) { sw++; cur ^= 1; }
        }
        if (per ? sw > 3 : sw == SW) sym_reach("all switches used");
        /* alone: 2 as 0, 3 as 1 */
        for (unsigned i = 0; ; i++) { sym_check(i < 3000, "the shell does not become idle"); if (idle(envs[2])) break; }
        called = false;
        for (unsigned i = 0; ; i++) { sym_check(i < 3000, "the shell does not become idle"); if (what && !called && i == when) { api(3, what); called = true; } bool d = idle(envs[3]); if (d && (!what || called)) break; }
        for (unsigned i = 0; i < 2; i++) {
                sym_check(envs[i]->out_n == envs[i + 2]->out_n && memcmp(envs[i]->out, envs[i + 2]->out, envs[i]->out_n) == 0, "a shell's output depends on the other shell");
                sym_check(life[i].nev == life[i + 2].nev && memcmp(life[i].ev, life[i + 2].ev, life[i].nev) == 0, "a shell's callbacks depend on the other shell");
                if (life[i].nev > 2) sym_reach("callbacks compared");
        }
        sym_reach("done");
}
