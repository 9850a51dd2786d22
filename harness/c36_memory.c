/* C36: memory use is fixed.  In worlds with more than 256 of everything, or with working
 * buffers of tens of thousands of bytes: no call allocates, and the stack one call uses
 * (variables and 64 bytes per function call) stays below 3072 bytes and 24 path limits (the
 * normalisation of a path keeps two pointers per level). */
static void memory_mark(void); static void memory_check(void);
#define SERVICE_BEGIN memory_mark();
#define SERVICE_END memory_check();
#include "huge.h"
#ifndef IN
#define IN RLINE
#endif
#ifndef OUT
#define OUT 1200
#endif
#ifndef PMAX
#define PMAX 96
#endif
#ifndef BOUND
#define BOUND (3072 + 24 * PMAX)
#endif
static const char *const lines[] = { LINES };
static uint8_t key[RLINE * 2 + 64];
static void memory_mark(void) { sym_stack_mark(); }
static void memory_check(void) { sym_check(sym_stack_peak() <= BOUND, "stack use of a call grows with something else than the path limit"); }
#define CALL(x) do { memory_mark(); x; memory_check(); } while (0)
/* calls that are given a path, or walk the tree of nodes recursively */
#define CALLN(n, x) do { memory_mark(); x; sym_check(sym_stack_peak() <= BOUND + (n), "stack use of a call grows with something else than path and depth"); } while (0)
#ifdef DEEP
#define LEVELS (DEEP + 2)
#else
#define LEVELS 3
#endif
static size_t expand(const char *p, size_t n)
{
        while (*p) {
                if (*p == '%') { unsigned k = (unsigned)(p[1] - '0'); const char *s = k < 2 ? hl[k] : k < 4 ? hl[k] + 3 : hu_lc[k - 4].name; for (; *s; s++) key[n++] = (uint8_t)*s; p += 2; }
                else if (*p == '#') { unsigned k = (unsigned)((p[1] - '0') * 100 + (p[2] - '0') * 10 + (p[3] - '0')); const char *q = p + 4; p = strchr(q, '#'); while (k-- > 0) for (const char *t = q; t < p; t++) key[n++] = (uint8_t)*t; p++; }
                else key[n++] = (uint8_t)*p++;
        }
        return n;
}
static void line(struct env *e, const char *l)
{
        size_t n = expand(l, 0);
        for (size_t i = 0; i < n; i++) if (key[i] == '?') sym_bytes(key + i, 1);
        for (size_t i = 0; i < n; i++) sym_log(key[i]);
        env_type(e, key, n); e->out_n = 0;
}
void harness(void)
{
        struct env *e = env_new(IN, OUT, PMAX, "h");
        env_quiet = true;
        struct ref *r = huge(e, true); e->out_n = 0;
        sym_heap_seal(1);
        unsigned which = sym_choice(sizeof(lines) / sizeof(lines[0]) + 11, "line or call");
        struct ush_node_object *nd = NULL; char buf[8];
        switch (which) {
        case 0: CALL(ush_reset(e->sh)); break;
        case 1: CALL(ush_print(e->sh, htext)); break;
        case 2: CALL(ush_printf(e->sh, "%s %d %s", htext, (int)which, hl[0])); break;
        case 3: CALL(ush_print_no_newline(e->sh, htext)); memset(e->out_buf, 0x61, OUT - 1); e->out_buf[OUT - 1] = 0; CALL(ush_flush(e->sh)); break;
        case 4: CALL(ush_commands_remove(e->sh, &hn_g[0])); CALL(ush_commands_remove(e->sh, &hn_g[1])); CALL(ush_commands_add(e->sh, &hn_g[0], hu_cmd, NF)); break;
        case 5: CALL(ush_node_unmount(e->sh, hl[3])); CALL(ush_node_mount(e->sh, "/l/9", &hn_l4, hu_root, NF)); CALL(ush_node_unmount(e->sh, "/l/none")); CALL(ush_node_unmount(e->sh, "/n")); break;
        case 6: CALL(nd = ush_node_get_by_path(e->sh, hl[2])); sym_log(nd != NULL); CALLN(TEXT, ush_node_get_by_path(e->sh, htext)); break;
        case 7: CALL(ush_node_set_current_dir(e->sh, hl[2])); CALL(ush_file_find_by_name(e->sh, "x")); CALL(ush_node_get_parent_by_path(e->sh, hl[2])); break;
        case 8: CALLN(LEVELS * 512, ush_deinit(e->sh)); CALL(ush_init(e->sh, e->desc)); both_mount(e, r, "/", &hn_root, hu_root, NF + 1); break;
        case 9: CALL(ush_init(e->sh, e->desc)); both_mount(e, r, "/", &hn_root, hu_root, NF + 1); break;
        case 10: CALL(ush_print_status(e->sh, USH_STATUS_ERROR_FILE_NO_HELP)); break;
        default: line(e, lines[which - 11]); break;
        }
        env_type(e, NULL, 0); e->out_n = 0;
        line(e, "\r\3\rp?\r");
        sym_reach("done");
}
