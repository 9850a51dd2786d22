/* C12: the working directory is always a mounted directory; cd is exact; pwd, prompt, ls
 * and relative lookups agree; unmounting the current directory continues in the parent. */
#include "world.h"
#ifndef K
#define K 3
#endif
#ifndef N
#define N 2
#endif
static uint8_t arg[K][N + 2];
static struct ush_node_object n_x[K];
static void ops(struct env *e, struct ref *r, unsigned k)
{
        static const char *const dirs[] = { "/d", "/b", "/d/e", "/d/x", "/x" };
        unsigned o = sym_choice(3, "operation");
        if (o == 0) {
#ifdef ANY
                size_t n = sym_choice(N + 1, "length"); sym_bytes(arg[k], n);
                for (size_t i = 0; i < n; i++) { uint8_t c = arg[k][i]; sym_assume((c != 0) & (c != 3) & (c != 8) & (c != 9) & (c != 10) & (c != 13) & (c != 27) & (c != 127)); }
                arg[k][n] = '\r';
                both_types(e, r, "cd "); both_keys(e, r, arg[k], n + 1);
#else
                static const char *const cds[] = { "cd d\r", "cd e\r", "cd ..\r", "cd /d/e\r", "cd b\r", "cd x\r", "cd .\r", "cd /\r", "cd\r", "cd d e\r", "cd \"\"\r", "cd f\r", "cd ../d/./e\r", "cd d/\r" };
                both_types(e, r, cds[sym_choice(sizeof(cds) / sizeof(cds[0]), "cd")]);
#endif
        } else {
                const char *p = dirs[sym_choice(5, "directory")];
                struct rdir *d = ref_dir(r, p);
                if (o == 1) {
                        ush_status_t s = ush_node_unmount(e->sh, p);
                        bool kids = false; for (unsigned i = 0; i < r->ndir; i++) if (ref_child(p, r->dir[i].path)) kids = true;
                        sym_check((s == USH_STATUS_OK) == (d != NULL && !kids), "unmount status");
                        if (d != NULL && !kids) { if (strcmp(r->cwd, p) == 0) sym_reach("unmounted the working directory"); ref_unmount(r, p); }
                } else {
                        ush_status_t s = ush_node_mount(e->sh, p, &n_x[k], w_e, 1);
                        bool par = false; for (unsigned i = 0; i < r->ndir; i++) if (ref_child(r->dir[i].path, p)) par = true;
                        sym_check((s == USH_STATUS_OK) == (d == NULL && par), "mount status");
                        if (d == NULL && par) ref_mount(r, p, w_e, 1);
                }
        }
        ref_agree(r, e, "operation");
}
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        struct ref *r = world(e, false);
#ifdef PRE
        both_types(e, r, PRE); ref_agree(r, e, "prefix");
#endif
        for (unsigned k = 0; k < K; k++) {
                ops(e, r, k); if (r->vague) return;
                both_types(e, r, "pwd\r"); ref_agree(r, e, "pwd");
        }
        both_types(e, r, "ls\r"); ref_agree(r, e, "ls");
        both_types(e, r, "f\r"); ref_agree(r, e, "relative lookup");
        both_types(e, r, "cat q\r"); ref_agree(r, e, "relative file");
        sym_reach("done");
}
