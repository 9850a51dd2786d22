/* C14 with names of up to 300 characters and buffers around the lengths of 8-bit counters:
 * what was typed stays, nothing is inserted beyond the capacity, a completed word is the
 * beginning of a candidate and as long as the candidates agree, editing goes on. */
#define OUTMAX 16384
#define RLINE 1024
#define IDLE_MAX 100000
#include "ref.h"
#ifndef SIZES
#define SIZES { 64, 128, 130, 255, 256, 257, 258, 259, 301, 302, 303, 304, 400, 600 }
#endif
#ifndef TYPED
#define TYPED { 1, 60, 125, 126, 127, 252, 253, 254, 255, 256, 299 }
#endif
#ifndef PRES
#define PRES { 0, 2, 130, 260 }
#endif
static const unsigned sizes[] = SIZES, lens[] = { 126, 253, 254, 255, 256, 257, 300 }, typed[] = TYPED, pres[] = PRES;
#define NARG(a) (sizeof(a) / sizeof(a[0]))
static char nm[2][302]; static fd_t g1[1], fr[2]; static struct ush_node_object n_g1, n_root; static uint8_t key[700];
void harness(void)
{
        size_t in = sizes[sym_choice(NARG(sizes), "input buffer size")], len = lens[sym_choice(NARG(lens), "name length")];
        size_t pre = pres[sym_choice(NARG(pres), "text before the word")], t = typed[sym_choice(NARG(typed), "typed characters")];
        if (t > len || pre + t + 2 > in) return;
        struct env *e = env_new(in, 64, 700, "h");
        for (size_t i = 0; i < len; i++) nm[0][i] = nm[1][i] = (char)('a' + (i + i / 26) % 26);
        bool two = sym_choice(2, "second candidate"); size_t differ = len;
        if (two) { differ = sym_choice(2, "where they differ") ? len - 1 : len - len / 3; sym_bytes(&nm[1][differ], 1); sym_assume((nm[1][differ] > 32) & (nm[1][differ] != nm[0][differ]) & (nm[1][differ] != '/') & (nm[1][differ] != 127)); }
        g1[0].name = nm[0]; g1[0].exec = f_exec; fr[0].name = two ? nm[1] : "q"; fr[0].exec = f_exec; fr[1].name = "q"; fr[1].exec = f_exec;
        fid_reg(g1, 1); fid_reg(fr, 2); e->desc->exec = f_hook; cb_shell = e->sh;
        ush_init(e->sh, e->desc); ush_commands_add(e->sh, &n_g1, g1, 1); ush_node_mount(e->sh, "/", &n_root, fr, 2);
        env_idle(e); env_clear(e);
        size_t n = 0; for (; n + 1 < pre; n++) key[n] = 'q'; if (pre) key[n++] = ' ';
        memcpy(key + n, nm[0], t); n += t;
        env_type(e, key, n); sym_check(e->out_n == n && memcmp(e->out, key, n) == 0, "echo of the line");
        unsigned tabs = 1 + 2 * sym_choice(2, "TABs"); for (unsigned i = 0; i < tabs; i++) { env_types(e, "\t"); sym_check(strnlen(e->in_buf, in) < in, "the pending line is not terminated"); }
        sym_check(memcmp(e->in_buf, key, n) == 0, "completion altered what was typed");
        size_t l = strlen(e->in_buf); sym_check(l + 2 <= in, "completion inserted beyond the capacity of the line");
        size_t common = t < differ ? differ : t;                  /* as long as the candidates agree */
        if (two && t > differ) common = len;
        sym_check(l - pre <= common && memcmp(e->in_buf + pre, nm[0], l - pre) == 0, "completed word is no name's beginning");
        if (pre + common + 2 <= in) { sym_check(l == pre + common, "a completion that fits is not inserted"); sym_reach("completed"); } else sym_reach("does not fit");
        /* editing goes on */
        env_clear(e); ev.n = 0; env_types(e, "\b\r");
        if (l > 1) { sym_check(ev.n > 7 && ev.b[0] == 'H', "the line is not executed after a completion"); sym_check(ev.b[4] == (pre ? (l - pre > 1 ? 2 : 1) : 1), "number of arguments"); }
        const char *w = (const char*)&ev.b[7]; if (pre) w += strlen(w) + 1;
        if (l > 1 && l - pre > 1) { sym_check(strlen(w) == l - pre - 1, "length of the executed word"); sym_check(memcmp(w, nm[0], l - pre - 1) == 0, "the executed word differs"); }
        ev.n = 0; env_types(e, "q 1\r"); sym_check(ev.n > 8 && ev.b[0] == 'H' && ev.b[4] == 2 && ev.b[7] == 'q', "the next command is not executed");
        sym_reach("done");
}
