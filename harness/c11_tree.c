/* C11: the tree is exactly the set of mounted paths, after any sequence of mounts and
 * unmounts with symbolic canonical paths; failing calls change nothing. */
#include "env.h"
#include "inc/ush_node.h"
#ifndef K
#define K 3
#endif
#ifndef P
#define P 4
#endif
#ifndef PM
#define PM (P + 4)
#endif
#define M (K + 1)
static char path[M + 1][P + 1];
static struct ush_node_object node[M], snap[M];
static const struct ush_file_descriptor files[6] = { { .name = "a" }, { .name = "b" }, { .name = "c" }, { .name = "d" }, { .name = "e" }, { .name = "f" } }; typedef char enough_names[M <= 6 ? 1 : -1];
static struct { const char *path; struct ush_node_object *n; const struct ush_file_descriptor *f; } have[M]; static unsigned nhave;
static int find(const char *p) { for (unsigned i = 0; i < nhave; i++) if (strcmp(have[i].path, p) == 0) return (int)i; return -1; }
static bool is_child(const char *a, const char *b) { size_t n = strlen(a); if (n == 1) n = 0; if (strncmp(a, b, n) != 0) return false; if (b[n] != '/' || b[n + 1] == 0) return false; return strchr(b + n + 1, '/') == NULL; }
static int parent(const char *p) { if (p[1] == 0) return -1; for (unsigned i = 0; i < nhave; i++) if (is_child(have[i].path, p)) return (int)i; return -1; }
static void any_path(char *s)
{
#ifdef POOL
        static const char *const pool[] = { "/", "/a", "/ab", "/a/b", "/a/b/c", "/b", "/b/a" };
        strcpy(s, pool[sym_choice(7, "path")]);
#else
        size_t n = 1 + sym_choice(P, "path length");
        sym_bytes(s, n); s[n] = 0; sym_assume(s[0] == '/');
        for (size_t i = 1; i < n; i++) sym_assume((s[i] != 0) & !((s[i] == '/') & (s[i - 1] == '/')));
        if (n > 1) sym_assume(s[n - 1] != '/');
        for (size_t i = 1; i < n; i++) if (i + 1 == n || true) {
                bool end1 = i + 1 == n ? true : s[i + 1] == '/', end2 = i + 2 > n ? false : (i + 2 == n ? true : s[i + 2] == '/');
                sym_assume(!((s[i - 1] == '/') & (s[i] == '.') & end1));
                if (i + 1 < n) sym_assume(!((s[i - 1] == '/') & (s[i] == '.') & (s[i + 1] == '.') & end2));
        }
#endif
}
static void agree(struct env *e, const char *q)
{
        for (unsigned i = 0; i < nhave; i++) {
                sym_check(ush_node_get_by_path(e->sh, have[i].path) == have[i].n, "a mounted directory is not found under its path");
                sym_check(have[i].n->path == have[i].path, "a mounted directory lost its path");
                sym_check(have[i].n->file_list == have[i].f && have[i].n->file_list_size == 1, "a mounted directory lost its files");
        }
        int i = find(q);
        sym_check(ush_node_get_by_path(e->sh, q) == (i < 0 ? NULL : have[i].n), "looking up a path gives the wrong directory");
}
void harness(void)
{
        struct env *e = env_new(16, 16, PM, "h");
        ush_init(e->sh, e->desc);
        for (unsigned i = 0; i < M; i++) memset(&node[i], 0x5A, sizeof(node[i]));
#ifdef ROOTED
        strcpy(path[0], "/"); sym_check(ush_node_mount(e->sh, path[0], &node[0], &files[0], 1) == USH_STATUS_OK, "mounting the root failed");
        have[0].path = path[0]; have[0].n = &node[0]; have[0].f = &files[0]; nhave = 1;
#define FIRST 1
#else
#define FIRST 0
#endif
        for (unsigned k = FIRST; k < FIRST + K; k++) {
                char *p = path[k]; any_path(p);
                int i = find(p), par = parent(p);
                unsigned op = sym_choice(2, "operation");
                memcpy(snap, node, sizeof(node));
                if (op == 0) {
                        int u = k;
#ifdef REUSE
                        /* reuse a node that is not mounted any more */
                        for (unsigned c = FIRST; c < k; c++) { bool used = false; for (unsigned h = 0; h < nhave; h++) if (have[h].n == &node[c]) used = true; if (!used) { u = (int)c; break; } }
#endif
                        ush_status_t s = ush_node_mount(e->sh, p, &node[u], &files[k], 1), want = USH_STATUS_OK;
                        if (i >= 0) want = USH_STATUS_ERROR_NODE_ALREADY_MOUNTED; else if (p[1] != 0 && par < 0) want = USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
                        sym_check(s == want, "mount returns the wrong status");
                        if (want != USH_STATUS_OK) { sym_check(memcmp(snap, node, sizeof(node)) == 0, "a failing mount changed a node"); sym_reach("mount refused"); }
                        else { have[nhave].path = p; have[nhave].n = &node[u]; have[nhave++].f = &files[k]; sym_check(par < 0 ? node[u].parent == NULL : node[u].parent == have[par].n, "wrong parent"); sym_reach("mounted"); }
                } else {
                        ush_status_t s = ush_node_unmount(e->sh, p), want = USH_STATUS_OK;
                        bool kids = false; for (unsigned h = 0; h < nhave; h++) if (is_child(p, have[h].path)) kids = true;
                        if (i < 0) want = USH_STATUS_ERROR_NODE_NOT_FOUND; else if (kids) want = USH_STATUS_ERROR_NODE_WITH_CHILDS;
                        sym_check(s == want, "unmount returns the wrong status");
                        if (want != USH_STATUS_OK) { sym_check(memcmp(snap, node, sizeof(node)) == 0, "a failing unmount changed a node"); sym_reach("unmount refused"); }
                        else { for (unsigned h = (unsigned)i; h + 1 < nhave; h++) have[h] = have[h + 1]; nhave--; sym_reach("unmounted"); if (p[1] == 0) sym_reach("root unmounted"); }
                }
                sym_log(nhave);
                agree(e, p);
        }
        char *q = path[FIRST + K]; any_path(q); agree(e, q);
        sym_reach("done");
}
