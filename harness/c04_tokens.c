/* C04: every submitted line is split into arguments by the quoting rules.
 * N arbitrary characters (no NUL, no editing/control keys) + CR or LF, one shell. */
#include "env.h"
#ifndef N
#define N 5
#endif
static uint8_t line[N + 1];
static unsigned ran; static int got_argc; static char got[N + 2][N + 2]; static size_t got_len[N + 2]; static bool got_null;
static void on_exec(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[])
{
        (void)self; (void)file;
        ran++; got_argc = argc; got_null = argv[argc] == NULL;
        sym_log(0x1000 + argc);
        for (int i = 0; i < argc && i <= N; i++) { size_t k = 0; while (argv[i][k] != '\0' && k <= N) { got[i][k] = argv[i][k]; sym_log((uint8_t)argv[i][k]); k++; } got_len[i] = k; }
}
/* reference splitting, written from the documentation */
static int ref_argc; static char ref[N + 2][2 * N + 2]; static size_t ref_len[N + 2];
static void reference(const uint8_t *s, size_t n)
{
        size_t i = 0;
        for (;;) {
                while (i < n && s[i] == ' ') i++;
                if (i >= n) return;
                bool quoted = false; char *w = ref[ref_argc]; size_t l = 0;
                while (i < n && (quoted || s[i] != ' ')) {
                        if (s[i] == '"') { quoted = !quoted; i++; continue; }
                        if (s[i] == '\\') {
                                i++;
                                if (i >= n) break;                      /* nothing to escape */
                                if (s[i] == 'x') w[l++] = '\\';         /* kept for later decoding */
                        }
                        w[l++] = (char)s[i++];
                }
                ref_len[ref_argc++] = l;
        }
}
static const struct ush_file_descriptor root_files[] = { { .name = "f" } };
static struct ush_node_object root;
void harness(void)
{
        struct env *e = env_new(N + 8, 16, 2 * N + 8, "h");
        e->desc->exec = on_exec;
        ush_init(e->sh, e->desc);
        ush_node_mount(e->sh, "/", &root, root_files, 1);
        env_feed(e, NULL, 0); env_idle(e);
        size_t n = sym_choice(N + 1, "length");
        sym_bytes(line, n);
        for (size_t i = 0; i < n; i++) {
                uint8_t c = line[i];
                sym_assume((c != 0) & (c != 3) & (c != 8) & (c != 9) & (c != 10) & (c != 13) & (c != 27) & (c != 127));
        }
        line[n] = sym_choice(2, "terminator") ? '\n' : '\r';
        reference(line, n);
        env_type(e, line, n + 1);
        if (ref_argc == 0) { sym_check(ran == 0, "an empty line executed something"); sym_reach("empty"); return; }
        sym_check(ran == 1, "the line was not dispatched exactly once");
        sym_check(got_argc == ref_argc, "argument count differs from the quoting rules");
        sym_check(got_null, "argv[argc] is not NULL");
        for (int i = 0; i < ref_argc; i++) {
                sym_check(got_len[i] == ref_len[i], "argument length differs from the quoting rules");
                sym_check(memcmp(got[i], ref[i], ref_len[i]) == 0, "argument text differs from the quoting rules");
        }
        sym_reach("compared");
        if (ref_argc >= 3) sym_reach("three arguments");
        if (ref_len[0] == 0) sym_reach("empty argument");
}
