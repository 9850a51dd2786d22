/* C30: the same model holds in every build configuration. */
#define OUTMAX 1400
#include "world.h"
#ifndef N
#define N 1
#endif
static uint8_t in[64];
static const char *const lines[] = { "", "help", "help ", "ls", "ls d", "cd", "cd d", "pwd", "cat", "cat g ", "xxd", "xxd g", "echo", "echo a", "echo \\x41b > g", "/f 1", "d/p", "h", "u", "e\t", "h\t", "d/\t", "f\t", "\t", "ech\t\b", "p\t\t", "x\tx",
#ifdef MORE
        "zz", "cd zz", "cd \"\"", "ls zz", "ls a a", "cat zz", "cat f", "xxd zz", "xxd f", "echo a b c", "echo a > zz", "echo a > f", "help zz", "help q", "g", "f2", "u", "d/p", "xxd g x", "pwd x",
#endif
};
void harness(void)
{
        struct env *e = env_new(24, 64, 24, "h");
        struct ref *r = world(e, sym_choice(2, "execute hook"));
        sym_bytes(w_g_data, 4);
        size_t n;
        const char *s = lines[sym_choice(sizeof(lines) / sizeof(lines[0]), "line")]; n = strlen(s); memcpy(in, s, n);
        sym_bytes(in + n, N); for (unsigned i = 0; i < N; i++) sym_assume(in[n + i] != 0);
        n += N; in[n++] = '\r';
        both_keys(e, r, in, n); ref_agree(r, e, "line");
        both_types(e, r, "ls\r"); both_types(e, r, "help\r"); both_types(e, r, "pwd\r"); ref_agree(r, e, "following commands");
        both_types(e, r, "cd /d\r"); both_types(e, r, "q\r"); both_types(e, r, "f\tx\r"); both_types(e, r, "f x\r"); ref_agree(r, e, "files");
#ifdef MORE
        for (int s = 0; s < 13; s++) { struct fbeh b = { .act = A_STATUS, .status = s }; f_act(e->sh, &b); env_idle(e); ref_action(r, &b); ref_agree(r, e, "status text"); }
#endif
        if (REF_NBUILTIN == 0) sym_reach("no built-in"); else sym_reach("built-ins");
        sym_reach("done");
}
