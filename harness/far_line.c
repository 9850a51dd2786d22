/* Lines far longer than 8- or 16-bit counters can hold: editing, echo, parsing, decoding and
 * completion of a line of about LEN characters.  Output is compared while it is produced. */
#define OUTMAX 512
#define IDLE_MAX 4000000
#include "env.h"
#ifndef LEN
#define LEN 66000
#endif
#ifndef PLACES
#define PLACES { 255, 256, 65535, 65536 }
#endif
#define EDIT 1          /* typed, rubbed out and typed again */
#define ARGS 2          /* LEN arguments */
#define RUBS 3          /* LEN backspaces and escape sequences on an empty line first */
#define ECHO 4          /* LEN decoded bytes written to a file */
#define TABS 5          /* a word of LEN characters completed by two more */
#define FILL 6          /* an input buffer filled to its last but one place */
static uint8_t key[LEN * 4 + 64], want[LEN * 6 + 64], text[LEN + 16];
static size_t nkey, nwant, pos;
static unsigned ran; static int argn; static bool a0ok; static const char *a1, *an; static char longname[LEN + 32]; static const uint8_t *sd; static size_t sn;
static void x_exec(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; ran++; argn = argc; a0ok = strcmp(argv[0], longname) == 0; a1 = argc > 1 ? argv[1] : NULL; an = argv[argc - 1]; }
static void x_set(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { (void)s; (void)f; ran++; sd = d; sn = n; }
static struct ush_file_descriptor files[] = { { .name = "x", .exec = x_exec }, { .name = "f", .set_data = x_set }, { .name = longname, .exec = x_exec } };
static struct ush_node_object root, grp;
static void k(uint8_t c) { key[nkey++] = c; }
static void ks(const char *s) { while (*s) k((uint8_t)*s++); }
static void w(const void *p, size_t n) { memcpy(want + nwant, p, n); nwant += n; }
static void ws(const char *s) { w(s, strlen(s)); }
static int on_write(struct env *e, char ch) { sym_check(pos < nwant, "more output than expected"); sym_check((uint8_t)ch == want[pos], "output byte differs"); pos++; e->out_n = 0; return 1; }
static void go(struct env *e) { pos = 0; env_feed(e, key, nkey); env_idle(e); sym_check(pos == nwant, "output ended early"); nkey = nwant = 0; }
static size_t place(void) { static const size_t at[] = PLACES; size_t a = at[sym_choice(sizeof(at) / sizeof(at[0]), "which byte is symbolic")]; return a < LEN ? a : LEN / 2; }
void harness(void)
{
        struct env *e = env_new(MODE == FILL ? LEN + 2 : LEN * 2 + 40, 64, 32, "h");
        ush_init(e->sh, e->desc);
        for (size_t i = 0; i < LEN; i++) text[i] = (uint8_t)('a' + (i + i / 26 + (i >> 8)) % 26);
        files[2].name = "zz";
#if MODE == TABS
        memcpy(longname, text, LEN); longname[LEN] = 'o'; longname[LEN + 1] = 'k'; longname[LEN + 2] = 0; files[2].name = longname;
#endif
        ush_commands_add(e->sh, &grp, files + 2, 1); ush_node_mount(e->sh, "/", &root, files, 2);
        env_feed(e, NULL, 0); env_idle(e); e->write_hook = on_write;
#if MODE == EDIT || MODE == FILL
        size_t n = MODE == FILL ? LEN - 2 : LEN, a = place(); if (a >= n) a = n - 1;
        sym_bytes(text + a, 1); sym_assume((text[a] > 32) & (text[a] < 127) & (text[a] != '"') & (text[a] != '\\'));
        ks("x "); for (size_t i = 0; i < n; i++) k(text[i]);
        w(key, nkey);
        /* rub out across the place and type it again */
        size_t back = sym_choice(3, "rubbed out"); back = back == 0 ? 0 : back == 1 ? 3 : n - a;
        for (size_t i = 0; i < back; i++) { k(i % 2 ? 8 : 127); ws("\b \b"); }
        for (size_t i = n - back; i < n; i++) { k(text[i]); w(&text[i], 1); }
        ks("\r"); ws("\r\n[h /]$ ");
        go(e);
        sym_check(ran == 1 && argn == 2, "the line is not executed as two words");
        sym_check(strlen(a1) == n, "the argument has another length");
        sym_check(memcmp(a1, text, n) == 0, "the argument differs from the typed characters");
#elif MODE == ARGS
        ks("x"); for (size_t i = 0; i < LEN; i++) { k(' '); k(text[i]); }
        uint8_t *last = &key[nkey - 1]; sym_bytes(last, 1); sym_assume((*last > 32) & (*last < 127) & (*last != '"') & (*last != '\\'));
        w(key, nkey); ks("\r"); ws("\r\n[h /]$ ");
        uint8_t l = *last; go(e);
        sym_check(ran == 1 && argn == LEN + 1, "number of arguments");
        sym_check((a1[0] == (char)text[0]) & (a1[1] == 0), "first argument"); sym_check((an[0] == (char)l) & (an[1] == 0), "last argument");
#elif MODE == RUBS
        uint8_t c; sym_bytes(&c, 1); sym_assume((c != 0) & (c != 27));
        for (size_t i = 0; i < LEN; i++) { if (i % 3) k(8); else { k(27); k('['); k(c); } }
        ks("x q\r"); ws("x q\r\n[h /]$ ");
        if ((c == 3) | (c == 8) | (c == 127) | (c == 9)) return;                        /* acted upon inside a sequence: C02 */
        go(e);
        sym_check(ran == 1 && argn == 2 && strcmp(a1, "q") == 0, "the line after many idle keys");
#elif MODE == ECHO
        size_t a = place(); uint8_t d[2]; sym_bytes(d, 2);
        for (int i = 0; i < 2; i++) sym_assume(((d[i] >= '0') & (d[i] <= '9')) | ((d[i] >= 'A') & (d[i] <= 'F')));
        ks("echo "); for (size_t i = 0; i < LEN; i++) if (i == a) { k('\\'); k('x'); k(d[0]); k(d[1]); } else k(text[i]);
        ks(" > f"); w(key, nkey); ks("\r"); ws("\r\n[h /]$ ");
        go(e);
        sym_check(ran == 1 && sn == LEN, "number of bytes written");
        uint8_t h0 = (uint8_t)(d[0] <= '9' ? d[0] - '0' : d[0] - 'A' + 10), h1 = (uint8_t)(d[1] <= '9' ? d[1] - '0' : d[1] - 'A' + 10);
        text[a] = (uint8_t)(h0 << 4 | h1);
        sym_check(memcmp(sd, text, LEN) == 0, "bytes written");
#elif MODE == TABS
        size_t a = place(); sym_bytes(text + a, 1); sym_assume((text[a] >= 'a') & (text[a] <= 'z'));
        bool same = text[a] == (uint8_t)longname[a];
        w(text, LEN); memcpy(key, text, LEN); nkey = LEN; ks("\t"); if (same) { ws("ok"); sym_reach("completed"); } else sym_reach("not completed");
        ks("\r"); if (same) ws("\r\n[h /]$ "); else ws("\r\nerror: syntax error\r\n[h /]$ ");
        go(e);
        sym_check(ran == same, "execution of the completed word");
        if (same) sym_check(a0ok, "completed word");
#endif
        ks("x 1 2\r"); ws("x 1 2\r\n[h /]$ "); ran = 0; go(e);
        sym_check(ran == 1 && argn == 3, "the next line");
        sym_reach("done");
}
