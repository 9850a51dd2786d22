/* C23 against the model: three shells with different files, groups and trees under the same
 * names; whole lines and single service calls alternate between them.  Each shell must behave
 * like its own model, so nothing kept from another shell (a cached lookup, path, candidate or
 * buffer) can stay unnoticed. */
#define ENVS 3
#define OUTMAX 2048
#define NS 3
#include "ref.h"
static fd_t cmd[NS][3], cmd2[NS][2], root[NS][4], sub[NS][2], deep[NS][1];
static struct ush_node_object g1[NS], g2[NS], nr[NS], nd[NS], ne[NS], nx[NS];
static uint8_t dat[NS][4];
static struct sb evs[NS];
static struct env *es[NS]; static struct ref *rs[NS];
static void turn(unsigned i) { ev = evs[i]; cb_shell = es[i]->sh; }
static void done(unsigned i) { evs[i] = ev; }
static bool call(unsigned i) { struct env *e = es[i]; turn(i); unsigned k = e->read_empty; env_service(e); done(i); return e->read_empty != k && e->feed_pos >= e->feed_len; }
static void agree(unsigned i) { turn(i); ref_agree(rs[i], es[i], "a shell differs from its model when others run beside it"); done(i); }
static void setup(unsigned i)
{
        static const char *const host[NS] = { "h", "two", "h3" };
        struct env *e = env_new(i == 1 ? 48 : i ? 40 : 32, i == 1 ? 96 : i ? 80 : 64, i == 1 ? 16 : i ? 28 : 24, host[i]); es[i] = e;
        /* the same names, in other places and with other callbacks */
        cmd[i][0].name = "k"; cmd[i][0].exec = i == 2 ? NULL : f_exec; cmd[i][0].help = i ? "k of B\r\n" : NULL; cmd[i][0].description = i == 1 ? "dB" : "dA";
        cmd[i][1].name = i ? "kb" : "ka"; cmd[i][1].exec = f_exec; cmd[i][2].name = "m"; cmd[i][2].help = i ? "mB" : "mA";
        cmd2[i][0].name = i == 1 ? "k" : "n"; cmd2[i][0].exec = f_exec; cmd2[i][1].name = "ls2"; cmd2[i][1].exec = f_exec;
        root[i][0].name = i == 1 ? "g" : "f"; root[i][1].name = i == 1 ? "f" : "g"; root[i][0].exec = i ? f_exec : NULL; root[i][0].get_data = f_get; root[i][1].get_data = i == 2 ? NULL : f_get; root[i][1].set_data = i ? f_set : NULL; root[i][1].exec = f_exec;
        root[i][2].name = "n"; root[i][2].help = "n"; root[i][3].name = i ? "fb" : "fa"; root[i][3].set_data = f_set;
        sub[i][0].name = "x"; sub[i][0].exec = i == 1 ? NULL : f_exec; sub[i][0].get_data = f_get; sub[i][1].name = i ? "y" : "f"; sub[i][1].exec = f_exec; deep[i][0].name = "x"; deep[i][0].exec = f_exec; deep[i][0].set_data = f_set;
        fid_reg(cmd[i], 3); fid_reg(cmd2[i], 2); fid_reg(root[i], 4); fid_reg(sub[i], 2); fid_reg(deep[i], 1);
        for (unsigned k = 0; k < 4; k++) dat[i][k] = (uint8_t)('0' + i * 4 + k);
        sym_bytes(&dat[i][1], 1);
        for (unsigned k = 0; k < 80; k++) { beh[i * 80 + 1 + k].data = dat[i] + k % 2; beh[i * 80 + 1 + k].n = 1 + (k + i) % 3; }
        { struct fbeh *b = &beh[fid(&cmd[i][1])]; b->act = i == 1 ? A_PRINT : i ? A_STATUS : A_PRINTF; b->text = i == 1 ? "BB" : "AA"; b->status = 3; }
        cb_shell = e->sh; ush_init(e->sh, e->desc);
        struct ref *r = rs[i] = ref_new(e);
        sym_check(ush_commands_add(e->sh, &g1[i], cmd[i], i == 0 ? 1 : 3) == USH_STATUS_OK, "add"); ref_grp_add(r, cmd[i], i == 0 ? 1 : 3, &g1[i]);
        if (i) { sym_check(ush_commands_add(e->sh, &g2[i], cmd2[i], 2) == USH_STATUS_OK, "add"); ref_grp_add(r, cmd2[i], 2, &g2[i]); }
        both_mount(e, r, "/", &nr[i], root[i], 4);
        both_mount(e, r, i == 1 ? "/e" : "/d", &nd[i], sub[i], 2); both_mount(e, r, i == 1 ? "/d" : "/e", &ne[i], deep[i], 1);
        both_mount(e, r, i == 1 ? "/e/d" : "/d/e", &nx[i], i ? deep[i] : NULL, i ? 1 : 0);
        ref_boot(r); env_feed(e, NULL, 0);
}
static const char *const la[] = { "k 1", "ka", "f a", "cat f g", "xxd g", "help", "help k", "help m", "ls", "ls d", "ls d/e", "cd d\rx\rpwd", "d/x q", "e/x", "k\t\t", "f\t\t", "d\t", "\t", "echo ab\\x41 > fa", "echo a\\x? > d/e/x", "n", "nn", "\"k\" \\\"a", "l\x1b[As d", "cd d/e\rcd ..\rx" };
static const char *const lb[] = { "k 1", "kb?", "f b", "cat g f", "xxd f", "help", "help k", "m", "ls", "ls e", "ls /e/d", "cd e\rx\rpwd", "e/x q", "d/x", "k\t\t", "g\t\t", "e\t", "\t", "echo ?b\\x42 > fb", "echo a > e/d/x", "n", "?", "cd d", "y\b\x7fk \"1 2\"", "cd e/d\rcd ../..\rpwd" };
#define NA (sizeof(la) / sizeof(la[0]))
#define NB (sizeof(lb) / sizeof(lb[0]))
static uint8_t line[NS][40]; static size_t len[NS];
static void put(unsigned i, const char *s) { len[i] = 0; for (; *s; s++) { uint8_t c = (uint8_t)*s; if (c == '?') { sym_bytes(&c, 1); sym_assume(c != 0); } line[i][len[i]++] = c; sym_log(c); } line[i][len[i]++] = '\r'; }
static void feed(unsigned i) { env_feed(es[i], line[i], len[i]); turn(i); ref_keys(rs[i], line[i], len[i]); done(i); }
void harness(void)
{
        for (unsigned i = 0; i < NS; i++) setup(i);
        for (unsigned i = 0; i < NS; i++) { bool d = false; for (unsigned k = 0; k < 2000 && !d; k++) d = call(i); sym_check(d, "not idle after the start"); agree(i); }
        put(0, la[sym_choice(NA, "line of shell 0")]); put(1, lb[sym_choice(NB, "line of shell 1")]);
        /* shell 2 runs one of the lines of both */
#ifdef WHOLE            /* whole lines one after the other, each shell twice */
        memcpy(line[2], line[1], sizeof(line[1])); len[2] = len[1];
        static const uint8_t seq[] = { 0, 1, 2, 0, 2, 1, 0 };
        for (unsigned s = 0; s < sizeof(seq); s++) {
                unsigned i = seq[s]; feed(i);
                bool d = false; for (unsigned k = 0; k < 4000 && !d; k++) d = call(i);
                sym_check(d, "the shell does not become idle"); agree(i);
        }
#else                   /* single calls alternate */
        memcpy(line[2], line[0], sizeof(line[0])); len[2] = len[0];
        static const uint8_t per[] = { 1, 2, 5 }; unsigned p = per[sym_choice(3, "period")], lead = sym_choice(3, "first shell"); bool d[NS] = { false, false, false };
        for (unsigned i = 0; i < NS; i++) feed(i);
        for (unsigned k = 0; !(d[0] & d[1] & d[2]); k++) { sym_check(k < 12000, "the shells do not become idle"); unsigned i = (k / p + lead) % NS; if (!d[i]) d[i] = call(i); }
        for (unsigned i = 0; i < NS; i++) agree(i);
#endif
        sym_reach("done");
}
