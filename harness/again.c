/* Long histories: one use of the shell repeated up to TIMES times, every repetition with the
 * same terminal bytes and callbacks as the second one (which is compared with the model), and
 * an arbitrary line afterwards.  For counters and reserves that never recover. */
#define OUTMAX 2048
#define IDLE_MAX 20000
#include "world.h"
#ifndef TIMES
#define TIMES { 300 }
#endif
#ifndef KINDS
#define KINDS { 0 }
#endif
#define NARG(a) (sizeof(a) / sizeof(a[0]))
static const char *const lines[] = {
        "\r", "zz\r", "u 1 \"2 3\"\r", "cd d\rcd ..\r", "ls\rhelp\r", "cat g d/q\r", "echo a\\x41 > g\r", "u\t\x03" "d/p\t\x03", "ab\x03", "\x1b[A\x1bOBu\x1b[3~\r",
        "xxd g\r", "help u\rhelp zz\r", "u\b\b\"x \\\\ \r", "abcdefghijklmnopqrstuvwxyz0123456789\x03", "f2\r/f\r/d/p\r", "echo hi\rpwd\r", "\b\b\b\x7f", "\t\t\x03", "echo a > h\rcat f\rcd f\r",
};
enum { A_MOUNT = 50, A_GROUP, A_UPRINT, A_UPRINTF, A_URESET, A_USTATUS, A_FAIL, A_SETCWD, A_OVER, A_IDLE, A_STALL, A_LIFE, A_CBOPS, A_UFLUSH };
static const unsigned times[] = TIMES, kinds[] = KINDS;
static struct env *e; static struct ref *r; static bool model;
static struct ush_node_object n_z; static char big[120];
static struct sb m_out, m_ev;
static unsigned stall; static int refuse(struct env *x, char c) { (void)x; (void)c; return ++stall % 3 == 0; }
static void T(const char *s) { if (model) both_types(e, r, s); else env_types(e, s); }
static void act(int a, const char *t, int st) { struct fbeh b = { .act = a, .text = t, .status = st }; f_act(e->sh, &b); env_idle(e); if (model) ref_action(r, &b); }
#define OK(x) sym_check((x) == USH_STATUS_OK, "call fails after a long history")
static void cb_real(struct ush_object *s) { OK(ush_node_mount(s, "/d/z", &n_z, w_e, 1)); OK(ush_node_unmount(s, "/d/z")); OK(ush_commands_remove(s, &n_g2)); OK(ush_commands_add(s, &n_g2, w_grp2, 2)); }
static void cb_model(struct ref *x) { ref_done(x); }
static void body(unsigned k)
{
        if (k < NARG(lines)) { T(lines[k]); return; }
        switch (k) {
        case A_MOUNT: OK(ush_node_mount(e->sh, "/d/z", &n_z, w_e, 1)); OK(ush_node_unmount(e->sh, "/d/z")); break;
        case A_GROUP: OK(ush_commands_remove(e->sh, &n_g2)); OK(ush_commands_add(e->sh, &n_g2, w_grp2, 2)); break;
        case A_UPRINT: act(A_PRINT, "t", 0); break;
        case A_UPRINTF: act(A_PRINTF, "t", 0); break;
        case A_URESET: act(A_RESET, NULL, 0); break;
        case A_USTATUS: act(A_STATUS, NULL, 4); break;
        case A_UFLUSH: act(A_FLUSH, "t", 0); break;
        case A_FAIL:
                sym_check(ush_node_mount(e->sh, "/d", &n_z, w_e, 1) == USH_STATUS_ERROR_NODE_ALREADY_MOUNTED, "second mount");
                sym_check(ush_node_mount(e->sh, "/q/d", &n_z, w_e, 1) != USH_STATUS_OK, "mount without a parent");
                sym_check(ush_node_unmount(e->sh, "/q") != USH_STATUS_OK, "unmount of nothing");
                sym_check(ush_commands_remove(e->sh, &n_z) != USH_STATUS_OK, "removal of nothing");
                sym_check(ush_node_set_current_dir(e->sh, "/q") != USH_STATUS_OK, "change to nothing");
                break;
        case A_SETCWD: OK(ush_node_set_current_dir(e->sh, "/d/e")); OK(ush_node_set_current_dir(e->sh, "/d")); OK(ush_node_set_current_dir(e->sh, "/")); break;
        case A_OVER: ush_printf(e->sh, "%s", big); env_idle(e); break;
        case A_IDLE: for (unsigned i = 0; i < 4; i++) { unsigned c = e->read_empty; sym_check(!env_service(e) && e->read_empty == c + 1, "idle shell does not poll its input"); } break;
        case A_STALL: e->write_hook = refuse; T("u\r"); e->write_hook = NULL; break;
        case A_LIFE: {
                static struct ush_object zero; ush_deinit(e->sh); sym_check(memcmp(e->sh, &zero, sizeof(zero)) == 0, "deinit leaves data in the shell object");
                ush_init(e->sh, e->desc); OK(ush_commands_add(e->sh, &n_g1, w_grp1, 2)); OK(ush_commands_add(e->sh, &n_g2, w_grp2, 2));
                OK(ush_node_mount(e->sh, "/", &n_root, w_root, 3)); OK(ush_node_mount(e->sh, "/d", &n_d, w_d, 3)); OK(ush_node_mount(e->sh, "/b", &n_b, NULL, 0)); OK(ush_node_mount(e->sh, "/d/e", &n_e, w_e, 1));
                env_idle(e); if (model) { static struct fbeh b = { .act = A_RESET }; ref_action(r, &b); }
                break; }
        case A_CBOPS: T("u\r"); break;
        }
}
void harness(void)
{
        e = env_new(28, 64, 28, "h"); r = world(e, true);
        memset(big, 'B', sizeof(big) - 1); ops_real = cb_real; ops_model = cb_model;
        unsigned k = kinds[sym_choice(NARG(kinds), "use")], n = times[sym_choice(NARG(times), "times")];
        if (k == A_CBOPS) beh[W_U2].act = A_OPS;
        model = true; body(k);
        if (k == A_OVER) env_clear(e);
        ref_agree(r, e, "first time");
        body(k); m_out.n = e->out_n; memcpy(m_out.b, e->out, e->out_n); m_ev = ev;
        if (k == A_OVER) env_clear(e);
        ref_agree(r, e, "second time");
        model = false; env_quiet = true;
        for (unsigned i = 2; i < n; i++) {
                body(k);
                sym_check(e->out_n == m_out.n && memcmp(e->out, m_out.b, m_out.n) == 0, "output after a long history");
                sym_check(ev.n == m_ev.n && memcmp(ev.b, m_ev.b, ev.n) == 0, "callbacks after a long history");
                env_clear(e); ev.n = 0;
        }
        env_quiet = false;
        static uint8_t key[16]; memcpy(key, "f a\rcd d\rq\t", 11); sym_bytes(key + 2, 1); sym_assume(key[2] != 0);
        static const char *const after[] = { "cat g\rls\r", "help\r", "u\tx\r", "echo ab > /d/e/r\r", "abcdefghijklmnopqrstuv\r", "xxd d/q\r" };
        if (sym_choice(2, "then")) { both_types(e, r, after[sym_choice(NARG(after), "line")]); }
        else { both_keys(e, r, key, 4); ref_agree(r, e, "any line after a long history"); both_keys(e, r, key + 4, 7); }
        ref_agree(r, e, "line after a long history");
        sym_reach("done");
}
