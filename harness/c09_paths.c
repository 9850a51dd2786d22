/* C09: path normalisation is exact: the library function itself for arbitrary path text,
 * every working directory; and idempotent.  Also as seen through cd and pwd. */
#include "world.h"
#include "inc/ush_node.h"
#ifndef N
#define N 6
#endif
static const char *const cds[] = { "", "cd d\r", "cd d/e\r", "cd b\r" };
static char in[N + 2], copy[N + 2], got[64], want[128], again[64];
void harness(void)
{
        struct env *e = env_new(N + 10, 64, 64, "h");
        struct ref *r = world(e, false);
        both_types(e, r, cds[sym_choice(4, "working directory")]); ref_agree(r, e, "cd");
        size_t n = 1 + sym_choice(N, "length");
        sym_bytes(in, n); in[n] = 0;
        for (size_t i = 0; i < n; i++) sym_assume(in[i] != 0);
#ifdef TAIL
        for (size_t i = 0; i < n; i++) sym_assume((in[i] == '.') | (in[i] == '/') | (in[i] == 'd'));
#endif
        bool fits = ref_abs(r, in, want);
        sym_assume(!r->vague); sym_check(fits, "harness: path_max");
        memcpy(copy, in, n + 1);
        ush_node_get_absolute_path(e->sh, in, got);
        sym_check(memcmp(copy, in, n + 1) == 0, "the path given was modified");
        sym_check(strlen(got) == strlen(want), "normalised path differs (length)");
        sym_check(memcmp(got, want, strlen(want)) == 0, "normalised path differs");
        ush_node_get_absolute_path(e->sh, got, again);
        sym_check(strlen(got) == strlen(again), "normalising is not idempotent (length)");
        sym_check(memcmp(got, again, strlen(got)) == 0, "normalising is not idempotent");
        if (want[1] == 0) sym_reach("root");
        if (ref_dir(r, want) != NULL) sym_reach("a mounted directory");
        for (size_t i = 0; i < n; i++) sym_log(got[i]);
        sym_reach("done");
}
