/* C14: completion never overruns the line buffer: small buffers, any bytes (NUL and TAB
 * included, lines longer than the buffer), candidate names of any length up to L. */
#define OUTMAX 4096
#define RLINE 128
#include "ref.h"
#ifndef N
#define N 3
#endif
#ifndef L
#define L 5
#endif
#ifndef IN_SIZES
#define IN_SIZES { 2, 3, 4, 5, 6 }
#endif
static const uint8_t in_sizes[] = IN_SIZES;
#ifdef FITS
#define PLAINNAME(c) sym_assume((((uint8_t)(c) > 32) & ((uint8_t)(c) != 127)) & ((c) != 34) & ((c) != 92) & ((c) != 47))
#else
#define PLAINNAME(c) sym_assume(((c) != 0) & ((c) != 47))
#endif
static char nm[2][L + 1], sub[L + 3];
static fd_t g1[1], fr[2];
static struct ush_node_object n_g1, n_root, n_sub;
static uint8_t key[N + 4];
static void name(char *s) { size_t n = 1 + sym_choice(L, "name length"); sym_bytes(s, n); s[n] = 0; for (size_t i = 0; i < n; i++) PLAINNAME(s[i]); }
void harness(void)
{
        size_t in = in_sizes[sym_choice(sizeof(in_sizes), "input buffer size")];
        struct env *e = env_new(in, 64, 32, "h");
        for (int i = 0; i < 2; i++) name(nm[i]);
        g1[0].name = nm[0]; g1[0].exec = f_exec; fr[0].name = nm[1]; fr[0].exec = f_exec; fr[1].name = "q"; fr[1].exec = f_exec;
        fid_reg(g1, 1); fid_reg(fr, 2); e->desc->exec = f_hook;
        ush_init(e->sh, e->desc);
        ush_commands_add(e->sh, &n_g1, g1, 1);
        ush_node_mount(e->sh, "/", &n_root, fr, 2); ush_node_mount(e->sh, "/dirname", &n_sub, NULL, 0);
        env_feed(e, NULL, 0); env_idle(e);
        sym_bytes(key, N);
#ifdef FITS
        /* the line fits the buffer and is plain text: it must survive as a prefix */
        size_t n = sym_choice(N + 1, "typed length"); sym_assume(n + 2 <= in);
        for (size_t i = 0; i < n; i++) { uint8_t c = key[i]; sym_assume((c > 32) & (c < 127) & (c != '"') & (c != '\\') & (c != '/')); }
        key[n] = '\t'; env_type(e, key, n + 1);
        unsigned again = sym_choice(3, "more TABs"); for (unsigned i = 0; i < again; i++) env_types(e, "\t");
        ev.n = 0; env_types(e, "\r");
        if (n == 0 && ev.n == 0) { sym_reach("empty line stays empty"); }
        else {
                sym_check(ev.n > 7 && ev.b[0] == 'H' && ev.b[4] == 1, "the completed line is not executed as one word");
                const char *w = (const char*)&ev.b[7]; size_t l = strlen(w);
                sym_check(l + 2 <= in, "completion inserted beyond the capacity of the line");
                sym_check(l >= n && memcmp(w, key, n) == 0, "completion altered what was typed");
                if (l > n) { sym_reach("completed"); sym_check((strncmp(w, nm[0], l) == 0) | (strncmp(w, nm[1], l) == 0) | (strncmp(w, "q", l) == 0) | (strncmp(w, "dirname", l) == 0), "completed word is no name's beginning"); }
        }
#else
        for (size_t i = 0; i < N; i++) {
                env_type(e, &key[i], 1);
                sym_check(strnlen(e->in_buf, in) < in, "the pending line is not terminated");
        }
        for (int i = 0; i < 2; i++) { env_types(e, "\t"); sym_check(strnlen(e->in_buf, in) < in, "the pending line is not terminated after TAB"); }
#endif
        env_types(e, "\x03"); 
        if (in >= 3) {
                ev.n = 0; env_types(e, "q\r");
                sym_check(ev.n > 8 && ev.b[0] == 'H' && ev.b[4] == 1 && ev.b[7] == 'q' && ev.b[8] == 0, "the next command is not executed");
        }
        sym_reach("done");
}
