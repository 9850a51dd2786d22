/* C01: no received bytes can corrupt memory.  Arbitrary bytes (TAB: see C14) after an
 * optional concrete prefix, every small pair of buffer sizes; the engine checks every
 * access of the library against the separately allocated objects and buffers. */
#define OUTMAX 16384
#define RLINE 700
#define RARGS 400
#include "world.h"
#ifndef N
#define N 4
#endif
#ifndef IN_SIZES
#define IN_SIZES { 2, 3, 4, 6 }
#endif
#ifndef OUT_SIZES
#define OUT_SIZES { 4, 64 }
#endif
static const uint16_t in_sizes[] = IN_SIZES, out_sizes[] = OUT_SIZES;
#ifdef PRES
static const char *const pres[] = PRES;
#endif
static uint8_t key[N + 4];
void harness(void)
{
        size_t in = in_sizes[sym_choice(sizeof(in_sizes) / 2, "input buffer size")], out = out_sizes[sym_choice(sizeof(out_sizes) / 2, "output buffer size")];
        struct env *e = env_new(in, out, 32, "h");
        world_files(); cb_shell = e->sh;
        e->desc->exec = f_hook;
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e); world_groups(e, r); world_tree(e, r);
        env_feed(e, NULL, 0); env_idle(e); env_clear(e);
#ifdef PRES
        const char *pre = pres[sym_choice(sizeof(pres) / sizeof(pres[0]), "prefix")];
        env_types(e, pre);
#endif
#ifdef FILL             /* fill the line to around its capacity with a pattern */
        static const char *const pat[] = { "a", "a ", "\"a\" ", "\\x41", "/", "../", "g ", "d/q ", "\"", "\\", "-\b~" }; static char t[700];
        const char *p = pat[sym_choice(sizeof(pat) / sizeof(pat[0]), "pattern")]; static const char *const cmds[] = { "", "cat ", "u ", "echo " };
        size_t n = in - 6 + sym_choice(10, "fill"), k = 0; const char *c = cmds[sym_choice(4, "command")]; for (; *c; c++) t[k++] = *c;
        for (size_t j = 0; k < n; j++) t[k++] = p[j % strlen(p)];
        env_type(e, t, k); env_clear(e);
#endif
        sym_bytes(key, N);
        for (size_t i = 0; i < N; i++) sym_assume(key[i] != 9);
#ifdef SUF
        env_type(e, key, N); env_clear(e); env_types(e, SUF);
#else
        env_type(e, key, N);
#endif
        env_clear(e);
        for (size_t i = 0; i < ev.n; i++) sym_log(ev.b[i]);
        if (ev.n > 0) sym_reach("executed");
        env_types(e, "\r\r");
        sym_reach("done");
}
