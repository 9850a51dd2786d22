/* C31: API calls made from inside callbacks.  A callback (command of a group, file of a
 * directory, setter; with SAFE also the general hook and a getter) makes up to OPS calls that
 * change the tree, the groups or the working directory and then prints or resets. */
#define OUTMAX 1200
#include "world.h"
#ifndef OPS
#define OPS 1
#endif
#ifndef FINS
#define FINS 8
#endif
static const fd_t w_new[] = { { .name = "nn", .exec = f_exec }, { .name = "f", .exec = f_exec, .help = "new" } };
static struct ush_node_object n_new[OPS];
static const char *const paths[] = { "/d/e", "/d", "/b", "/n", "/d/n", "/d/e/x", "/x/y", "/" };
#define NP 8
enum { O_MOUNT, O_UNMOUNT = NP, O_CD = 2 * NP, O_ADD = 3 * NP, O_DEL1, O_DEL2, O_DELNEW, O_NUM };
static unsigned op[OPS], fin; static bool want; static unsigned ran;
static char text[4]; static ush_status_t st[OPS];
static int m_st(struct ref *r, unsigned i)           /* apply operation i to the model, return the documented status */
{
        unsigned o = op[i]; const char *p = paths[o % NP];
        if (o < O_UNMOUNT) {
                if (ref_dir(r, p) != NULL) return 4;
                char par[8]; strcpy(par, p); char *s = strrchr(par, '/'); if (s == par) s[1] = 0; else *s = 0;
                if (ref_dir(r, par) == NULL) return 3;
                ref_mount(r, p, w_new, 2); return 0;
        }
        if (o < O_CD) {
                if (ref_dir(r, p) == NULL) return 1;
                for (unsigned k = 0; k < r->ndir; k++) if (ref_child(p, r->dir[k].path)) return 2;
                ref_unmount(r, p); return 0;
        }
        if (o < O_ADD) { struct rdir *d = ref_dir(r, p); if (d == NULL) return 1; r->cwd = d->path; return 0; }
        if (o == O_ADD) { ref_grp_add(r, w_new, 2, &n_new[i]); return 0; }
        if (o == O_DEL1) return ref_grp_del(r, &n_g1) ? 0 : 1;
        if (o == O_DEL2) return ref_grp_del(r, &n_g2) ? 0 : 1;
        return ref_grp_del(r, &n_new[0]) ? 0 : 1;
}
static void real(struct ush_object *s)
{
        if (!want) return;
        want = false; ran++;
        for (unsigned i = 0; i < OPS; i++) {
                unsigned o = op[i]; const char *p = paths[o % NP];
                if (o < O_UNMOUNT) st[i] = ush_node_mount(s, p, &n_new[i], w_new, 2);
                else if (o < O_CD) st[i] = ush_node_unmount(s, p);
                else if (o < O_ADD) st[i] = ush_node_set_current_dir(s, p);
                else if (o == O_ADD) st[i] = ush_commands_add(s, &n_new[i], w_new, 2);
                else st[i] = ush_commands_remove(s, o == O_DEL1 ? &n_g1 : o == O_DEL2 ? &n_g2 : &n_new[0]);
        }
        switch (fin) {
        case 1: ush_print(s, text); break;
        case 2: ush_print_no_newline(s, text); break;
        case 3: ush_print_status(s, USH_STATUS_ERROR_FILE_READ_ONLY); break;
        case 4: ush_printf(s, "%s", text); ush_printf(s, "<%s>", text); break;
        case 5: strcpy(s->desc->output_buffer, text); ush_flush(s); break;
        case 6: ush_reset(s); break;
        case 7: ush_print_status(s, USH_STATUS_OK); break;
        }
}
static bool m_want; static struct ref *mr;
static void model_ops(struct ref *r) { for (unsigned i = 0; i < OPS; i++) sym_check((int)st[i] == m_st(r, i), "status of the call"); }
static void model(struct ref *r)
{
        if (!m_want) { ref_done(r); return; }
        m_want = false; model_ops(r);
        switch (fin) {
        case 1: ref_text(r, text); break;
        case 3: ref_err(r, 12); break;
        case 7: ref_text(r, ref_status[0]); break;
        case 4: sb_s(&r->out, text); sb_s(&r->out, "<"); sb_s(&r->out, text); sb_s(&r->out, ">"); ref_done(r); break;
        case 2: case 5: sb_s(&r->out, text); ref_done(r); break;
        case 6: r->cwd = "/"; sb_s(&r->out, BANNER); ref_done(r); break;
        default: ref_done(r);
        }
}
static void hook(struct ush_object *s, fd_t const *f, int c, char *v[]) { f_hook(s, f, c, v); real(s); }
void harness(void)
{
        struct env *e = env_new(24, 64, 24, "h");
        struct ref *r = world(e, true); mr = r;
        fid_reg(w_new, 2); ops_real = real; ops_model = model;
        static const char *const cds[] = { "cd /\r", "cd /d\r", "cd /d/e\r" };
        both_types(e, r, cds[sym_choice(3, "working directory")]); ref_agree(r, e, "cd");
        for (unsigned i = 0; i < OPS; i++) { op[i] = sym_choice(O_NUM, "call"); if (op[i] == O_UNMOUNT + NP - 1) op[i] = O_MOUNT + NP - 1; }   /* the root stays */
#if FINS == 1
        fin = 2; sym_bytes(text, 1); sym_assume(text[0] != 0);
#else
        fin = sym_choice(FINS, "then");
#endif
#ifdef SAFE
        strcpy(text, "t");
#elif FINS > 1
        if ((fin != 0) & (fin != 3) & (fin < 6)) { size_t n = sym_choice(3, "text length"); sym_bytes(text, n); text[n] = 0; for (size_t i = 0; i < n; i++) sym_assume(text[i] != 0); }
#endif
        want = m_want = true;
#ifdef SAFE
        static const char *const lines[] = { "ls\r", "ls d\r", "help\r", "pwd\r", "f2\r", "d/f\r", "cat g d/q g d/q\r", "cat d/q\r", "xxd g\r", "xxd d/q\r", "zz\r", "cd d\r" };
        static uint8_t data[5] = { 1, 0, 'x', 0xFF, 'y' }; sym_bytes(data, 2); beh[W_G].data = data; beh[W_G].n = 5;
        unsigned k = sym_choice(18, "line");
        if (k < 12) e->desc->exec = hook; else { k -= 6; beh[sym_choice(2, "file") ? W_G : W_Q].act = A_OPS; }
        env_types(e, lines[k]); e->desc->exec = f_hook;
        sym_check(ran <= 1, "the callback ran more often than once"); ref_prompt(r); sym_check(e->out_n >= 3, "no output");
        sym_check(memcmp(e->out + e->out_n - 3, "]$ ", 3) == 0, "no prompt after the command");
        beh[W_G].act = beh[W_Q].act = A_NONE; beh[W_G].data = w_g_data; beh[W_G].n = 4;
        if (ran) { model_ops(r); sym_reach("called from a getter or the hook"); }
        env_clear(e); ev.n = 0; r->out.n = 0; r->ev.n = 0; want = m_want = false;
        both_types(e, r, "f2\r"); env_clear(e); ev.n = 0; r->out.n = 0; r->ev.n = 0; env_types(e, "cd /\r"); r->cwd = "/"; env_clear(e); ev.n = 0;
#else
        switch (sym_choice(4, "callback")) {
        case 0: { static const char *const how[] = { "u\r", "  u\r", "\"u\" \"a b\"   c\r", "zz\b\bu \\a\r" }; beh[W_U2].act = A_OPS; both_types(e, r, how[sym_choice(4, "typed as")]); break; }
        case 1: beh[W_P].act = A_OPS; both_types(e, r, "/d/p 1\r"); break;
        case 2: beh[W_R].act = A_OPS; both_types(e, r, sym_choice(2, "typed as") ? "echo \"x\\x41\"  > /d/e/r\r" : "echo x > /d/e/r\r"); break;
        case 3: beh[W_F].act = A_OPS; both_types(e, r, "/f\r"); break;
        }
        ref_agree(r, e, "command whose callback calls the API"); sym_check(ran == 1, "the callback ran once");
        if (st[0] == USH_STATUS_OK) sym_reach("successful call"); else sym_reach("failing call");
        both_types(e, r, "pwd\r"); ref_agree(r, e, "pwd afterwards");
#endif
        both_types(e, r, "ls\r"); ref_agree(r, e, "ls afterwards");
        both_types(e, r, "help\r"); ref_agree(r, e, "help afterwards");
        both_types(e, r, "u 1\r"); both_types(e, r, "nn\r"); both_types(e, r, "f\t\t\r"); ref_agree(r, e, "commands afterwards");
        both_types(e, r, "cd ..\r"); both_types(e, r, "ls /d\r"); both_types(e, r, "ls /d/e\r"); both_types(e, r, "/d/f\r"); both_types(e, r, "cat d/q /g\r"); ref_agree(r, e, "tree afterwards");
        sym_check(cb_bad == 0, "callback called with another shell");
        sym_reach("done");
}
