/* C34: commands with a process callback of their own (the documented extension point the
 * built-in commands use).  The callback does anything a process callback may do, in any order;
 * the shell has to call it with its own file, once per service call, only when what it wrote
 * before is out, without reading input meanwhile, and leave the shared fields alone. */
#define ENVS 2
#include "ref.h"
#include "inc/ush_internal.h"
#ifndef K
#define K 3
#endif
static struct env *e; static struct ref *r;
static struct ush_node_object n_r, n_g, n_d, n_1, n_2;
static void proc(struct ush_object *self, struct ush_file_descriptor const *file);
static void start(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[]);
static const fd_t cmds[] = { { .name = "p", .exec = start, .process = proc }, { .name = "o", .process = proc }, { .name = "z" } };
static const fd_t files[] = { { .name = "a" }, { .name = "fp", .exec = start, .process = proc, .get_data = f_get } };
static struct sb want;
static bool active; static const fd_t *cur; static ush_state_t state; static unsigned most = K, procs, actions, c_procs, ends; static unsigned reads0; static size_t idx_text;
static struct { struct ush_node_object *node, *child; size_t index, item, size; uint8_t *data; int stage; } sh0;
static const char *const texts[] = { "", "t", "two\r\n" };
static uint8_t some;
static void note(struct ush_object *s) { sh0.node = s->process_node; sh0.child = s->process_child_node; sh0.index = s->process_index; sh0.item = s->process_index_item; sh0.size = s->process_data_size; sh0.data = s->process_data; sh0.stage = s->process_stage; }
static void same(struct ush_object *s) { sym_check(sh0.node == s->process_node, "the shared node pointer changed between two process calls"); sym_check(sh0.child == s->process_child_node, "the shared child pointer changed between two process calls"); sym_check(sh0.index == s->process_index, "the shared index changed between two process calls"); sym_check(sh0.item == s->process_index_item, "the shared item index changed between two process calls"); sym_check(sh0.size == s->process_data_size, "the shared data size changed between two process calls"); sym_check(sh0.data == s->process_data, "the shared data pointer changed between two process calls"); sym_check(sh0.stage == s->process_stage, "the shared stage changed between two process calls"); }
static void set(struct ush_object *s)
{
        uint8_t v[4]; sym_bytes(v, 4);
        s->process_index = v[0]; s->process_index_item = (size_t)v[1] << 33 | v[1]; s->process_stage = -(int)v[2]; s->process_data_size = (size_t)v[3] << 17;
        s->process_node = s->process_node == &n_1 ? &n_2 : &n_1; s->process_child_node = s->process_child_node == &n_2 ? &n_1 : &n_2; s->process_data = s->process_data == &some ? NULL : &some;
        note(s);
}
static void begin(struct ush_object *self, const fd_t *f) { ush_process_start(self, f); cur = f; state = USH_STATE_PROCESS_START; if (f->process == NULL) { active = false; sb_s(&want, "\r\n"); ends++; } }
static void start(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[])
{
        (void)argc; (void)argv;
        sym_check(file->exec == start, "another file given to the callback");
        active = true; procs = 0; reads0 = e->reads; set(self);
        switch (most == 1 ? 0 : sym_choice(3, "file to process")) { case 0: begin(self, file); break; case 1: begin(self, &cmds[1]); break; case 2: begin(self, &cmds[2]); break; }
}
static void end(void) { active = false; ends++; }
static void proc(struct ush_object *self, struct ush_file_descriptor const *file)
{
        sym_check(self == e->sh && file == cur, "the process callback got another file");
        sym_check(active, "the process callback is called after its end");
        sym_check(c_procs++ == 0, "the process callback is called twice in one service call");
        sym_check(e->reads == reads0, "input is read while a command is in the processing state");
        sym_check(e->out_n == want.n && memcmp(e->out, want.b, want.n) == 0, "the process callback is called before its output is written");
        sym_check(self->state == state, "the process callback is called in another state");
        same(self); procs++;
        const char *t = texts[actions % 3]; static const uint8_t bin[3] = { 'b', 0, 0xFF };
        switch (actions >= most ? 5 : sym_choice(14, "action")) {
        case 0: break;                                                  /* wait */
        case 1: self->state = state = USH_STATE_PROCESS_SERVICE; break;
        case 2: self->state = state = USH_STATE_PROCESS_FINISH; break;
        case 3: ush_write_pointer(self, (char*)t, self->state); sb_s(&want, t); break;
        case 4: ush_write_pointer_bin(self, (uint8_t*)bin, 3, USH_STATE_PROCESS_FINISH); sb_b(&want, bin, 3); state = USH_STATE_PROCESS_FINISH; break;
        case 5: self->state = USH_STATE_RESET_PROMPT; end(); break;
        case 6: self->state = USH_STATE_RESET; sb_s(&want, "\r\n"); end(); break;
        case 7: ush_print(self, (char*)t); sb_s(&want, t); sb_s(&want, "\r\n"); end(); break;
        case 8: ush_printf(self, "<%s>", t); sb_s(&want, "<"); sb_s(&want, t); sb_s(&want, ">"); end(); break;
        case 9: ush_print_status(self, USH_STATUS_ERROR_FILE_READ_ONLY); sb_s(&want, "error: read only file\r\n"); end(); break;
        case 10: begin(self, cur == &cmds[1] ? &files[1] : &cmds[1]); break;    /* hands over to another one */
        case 11: strcpy(self->desc->output_buffer, "kept"); ush_write_pointer(self, self->desc->output_buffer, USH_STATE_PROCESS_SERVICE); state = USH_STATE_PROCESS_SERVICE; sb_s(&want, "kept"); break;
        case 12: { uint8_t *d; const fd_t *f = ush_file_find_by_name(self, "fp"); sym_check(f == &files[1], "lookup from a process callback"); (void)f->get_data(self, f, &d); sym_check(ush_node_mount(self, "/d", &n_d, NULL, 0) == USH_STATUS_OK && ush_node_unmount(self, "/d") == USH_STATUS_OK, "mount from a process callback"); break; }
        case 13: ush_write_pointer(self, "end\r\n", USH_STATE_RESET_PROMPT); sb_s(&want, "end\r\n"); end(); break;
        }
        actions++;
        if (active && (actions + ends) % 2) set(self);
}
static unsigned refused[2]; static int whook(struct env *q, char ch) { (void)ch; return q->writes - 1 != refused[0] && q->writes - 1 != refused[1] && q->writes - 1 != refused[1] + 1; }
static unsigned reset_at = ~0u;
static void run(const char *l)
{
        struct sb *w = &want; env_clear(e); w->n = 0; sb_s(w, l); sb_c(w, '\n'); actions = 0; unsigned e0 = ends;
        env_feed(e, l, strlen(l));
        bool d = false;
        unsigned at = reset_at;
        for (unsigned k = 0; k < 600 && !d; k++) { if (k == at) { ush_reset(e->sh); w->n = e->out_n; memcpy(w->b, e->out, w->n); sb_s(w, BANNER); if (active || ends == e0) ends = e0 + 1; active = false; e->feed_len = e->feed_pos; } unsigned em = e->read_empty; c_procs = 0; bool was = active, busy = env_service(e); if (was) sym_check(busy, "the service call reports idle while a command is in the processing state"); sym_check(e->c_writes + e->c_reads + c_procs <= 1, "more than one step in a service call"); d = e->read_empty != em && e->feed_pos >= e->feed_len; }
        sym_check(d && !active && ends == e0 + 1, "the shell does not come back");
        sb_prompt(w, "h", "/"); sym_check(e->out_n == w->n && memcmp(e->out, w->b, w->n) == 0, "the output is not what the process callback wrote and the prompt");
}
void harness(void)
{
        e = env_new(24, 64, 16, "h"); cb_shell = e->sh; ush_init(e->sh, e->desc); r = ref_new(e);
        fid_reg(cmds, 3); fid_reg(files, 2);
        sym_check(ush_commands_add(e->sh, &n_g, cmds, 3) == USH_STATUS_OK, "add"); sym_check(ush_node_mount(e->sh, "/", &n_r, files, 2) == USH_STATUS_OK, "mount");
        env_idle(e);
        e->write_hook = whook; refused[0] = refused[1] = ~0u - 2;
        unsigned w = sym_choice(NREF, "refused write"); if (w) { refused[0] = e->writes + w; refused[1] = e->writes + 2 * w + 1; }
#ifdef RESET    /* the shell is reset from outside after any number of service calls: no process call any more */
        reset_at = sym_choice(RESET, "reset");
#endif
        run(sym_choice(2, "kind") ? "fp\r" : "p 1\r"); reset_at = ~0u; most = 1; run("p\r");
#ifdef AFTER    /* nothing of it is left for the built-in commands: like a shell that never ran it */
        static struct ush_node_object f_r, f_g; static const char *const l[] = { "help\r", "ls\r", "cat fp\r", "xxd fp\r", "f\t", "\t", "help p\r", "pwd\r", "cd /\r", "echo a\r", "z\r", "\r" };
        struct env *g = env_new(24, 64, 16, "h"); ush_init(g->sh, g->desc); sym_check(ush_commands_add(g->sh, &f_g, cmds, 3) == USH_STATUS_OK, "add"); sym_check(ush_node_mount(g->sh, "/", &f_r, files, 2) == USH_STATUS_OK, "mount"); env_idle(g);
        const char *x = l[sym_choice(12, "line")];
        env_clear(e); env_clear(g); env_types(e, x); env_types(g, x);
        sym_check(e->out_n == g->out_n && memcmp(e->out, g->out, g->out_n) == 0, "a process callback leaves traces in a later line");
#endif
        sym_reach("done");
}
