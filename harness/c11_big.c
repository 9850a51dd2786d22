/* C11 on larger trees: up to 26 directories with several siblings at every depth, mounted in
 * one of several orders; then any K mounts/unmounts of any of the paths, everything compared
 * after each: lookups of every path, children as seen by ls, failing calls change nothing. */
#define OUTMAX 4096
#define RDIRS 40
#define RLINE 160
#define RPATH 160
#include "ref.h"
#include "inc/ush_node.h"
#ifndef K
#define K 2
#endif
#define LONG "/a-rather-long-directory-name-"
static const char *const path[] = { "/", "/a", "/b", "/c", "/d", "/ab", "/a/a", "/a/b", "/a/c", "/a/d", "/c/a", "/c/b", "/c/c", "/a/b/a", "/a/b/b", "/a/b/c", "/a/b/c/d", "/a/b/c/d/e", LONG "1", LONG "2", LONG "1/x", LONG "2/x", "/a/aa", "/a/a/a",
        /* not mounted at first */ "/e", "/a/e", "/a/b/d", "/a/b/c/e", LONG "3", LONG "2/y", "/a/b/c/d/e/f", "/e/a", "/abc", "/c/b/a", LONG };
#define NP (sizeof(path) / sizeof(path[0]))
#define MOUNTED 24
static struct ush_node_object node[NP], snap[NP];
static fd_t file[NP];
static bool have[NP];
static bool child(unsigned a, unsigned b) { return ref_child(path[a], path[b]); }
static int parent(unsigned p) { for (unsigned i = 0; i < NP; i++) if (have[i] && child(i, p)) return (int)i; return -1; }
static void agree(struct env *e)
{
        for (unsigned i = 0; i < NP; i++) {
                struct ush_node_object *n = ush_node_get_by_path(e->sh, path[i]);
                sym_check(n == (have[i] ? &node[i] : NULL), "looking up a path gives the wrong directory");
                if (have[i]) sym_check(n->path == path[i] && n->file_list == &file[i] && n->file_list_size == 1, "a mounted directory lost its path or files");
        }
}
void harness(void)
{
        struct env *e = env_new(150, 64, 150, "h");
        ush_init(e->sh, e->desc); struct ref *r = ref_new(e);
        for (unsigned i = 0; i < NP; i++) { memset(&node[i], 0x5A, sizeof(node[i])); file[i].name = "f"; file[i].exec = f_exec; }
        unsigned order = sym_choice(4, "order");
        for (unsigned d = 0; d < MOUNTED; ) {            /* parents always first; siblings in different orders */
                unsigned best = NP, bk = ~0u;
                for (unsigned i = 0; i < MOUNTED; i++) if (!have[i] && (i == 0 || parent(i) >= 0)) { unsigned k = order == 0 ? i : order == 1 ? MOUNTED - i : order == 2 ? (i * 7) % 25 : (i * 11) % 25; if (k < bk) { bk = k; best = i; } }
                sym_check(ush_node_mount(e->sh, path[best], &node[best], &file[best], 1) == USH_STATUS_OK, "mounting fails");
                ref_mount(r, path[best], &file[best], 1); have[best] = true; d++;
        }
        r->cwd = "/"; env_feed(e, NULL, 0); env_idle(e); e->out_n = 0;
        agree(e);
        for (unsigned k = 0; k < K; k++) {
                unsigned p = sym_choice(NP, "path"), op = sym_choice(2, "operation"); ush_status_t s, want = USH_STATUS_OK;
                memcpy(snap, node, sizeof(node));
                if (op == 0) {
                        if (have[p]) want = USH_STATUS_ERROR_NODE_ALREADY_MOUNTED; else if (p != 0 && parent(p) < 0) want = USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
                        struct ush_node_object other; memset(&other, 0x77, sizeof(other)); struct ush_node_object keep = other;
                        s = ush_node_mount(e->sh, path[p], have[p] ? &other : &node[p], &file[p], 1);
                        if (want == USH_STATUS_OK) { have[p] = true; ref_mount(r, path[p], &file[p], 1); sym_reach("mounted"); }
                        else { sym_check(memcmp(&keep, &other, sizeof(keep)) == 0, "a failing mount changed the node given"); sym_reach("mount refused"); }
                } else {
                        if (!have[p]) want = USH_STATUS_ERROR_NODE_NOT_FOUND; else for (unsigned i = 0; i < NP; i++) if (have[i] && child(p, i)) want = USH_STATUS_ERROR_NODE_WITH_CHILDS;
                        s = ush_node_unmount(e->sh, path[p]);
                        if (want == USH_STATUS_OK) { have[p] = false; ref_unmount(r, path[p]); sym_reach("unmounted"); } else sym_reach("unmount refused");
                }
                sym_check(s == want, op ? "unmount returns the wrong status" : "mount returns the wrong status");
                if (want != USH_STATUS_OK) sym_check(memcmp(snap, node, sizeof(node)) == 0, "a failing call changed a node");
                sym_log(want);
                agree(e);
        }
#ifdef QUERY
        /* a path with any byte at any position names what it spells */
        static const char *const qs[] = { "/a/b/c/d", LONG "1/x", "/ab", "/c/a" };
        static char q[64]; const char *t = qs[sym_choice(4, "looked up")]; size_t n = strlen(t); memcpy(q, t, n);
        size_t at = 1 + sym_choice((unsigned)n, "position"); if (at < n) { sym_bytes(q + at, 1); sym_assume(q[at] != 0); }
        int want = -1; for (unsigned i = 0; i < NP; i++) if (have[i] && strcmp(path[i], q) == 0) want = (int)i;
        bool vague = false; for (size_t i = 0; i < n; i++) vague |= (q[i] == '/') & ((q[i + 1] == '/') | (q[i + 1] == 0));
        if (!vague) sym_check(ush_node_get_by_path(e->sh, q) == (want < 0 ? NULL : &node[want]), "looking up a path with one changed byte gives the wrong directory");
#endif
#ifdef LS
        static const char *const l[] = { "ls\r", "ls a\r", "ls a/b\r", "ls c\r", "ls a/b/c\r", "cd a\rls\ra\t\rf\r" };
        for (unsigned i = 0; i < 6; i++) { both_types(e, r, l[i]); ref_agree(r, e, "listing after the operations"); }
#endif
        sym_reach("done");
}
