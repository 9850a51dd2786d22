/* Reference model of the whole shell at the level a user sees: keys in, terminal bytes and
 * callback events out.  Written from the documentation, independent of the implementation's
 * states and buffers.  Harnesses run it beside the real shell and compare. */
#ifndef REF_H
#define REF_H
#include "env.h"
#ifndef RDIRS
#define RDIRS 8
#endif
#ifndef RLINE
#define RLINE 64
#endif
#ifndef RARGS
#define RARGS 12
#endif
#ifndef RPATH
#define RPATH 128       /* longest joined path the model can hold */
#endif
#ifndef RGRPS
#define RGRPS 8
#endif
#ifndef RCAND
#define RCAND 32        /* most completion candidates */
#endif
typedef struct ush_file_descriptor fd_t;
/* ---- events: what callbacks saw, in order ---- */
static struct sb ev;                       /* real */
#define FIDS 32
#ifndef NBEH
#define NBEH 257        /* file numbers used by a harness are below this */
#endif
static const fd_t *fid_base[FIDS]; static size_t fid_n[FIDS]; static unsigned fid_off[FIDS], fid_cnt;
static void fid_reg_at(const fd_t *f, size_t n, unsigned off) { fid_base[fid_cnt] = f; fid_n[fid_cnt] = n; fid_off[fid_cnt++] = off; }
static void fid_reg(const fd_t *f, size_t n) { fid_reg_at(f, n, fid_cnt * 16 + 1); }
static unsigned fid(const fd_t *f) { for (unsigned i = 0; i < fid_cnt; i++) if ((f >= fid_base[i]) & (f < fid_base[i] + fid_n[i])) return (unsigned)(fid_off[i] + (size_t)(f - fid_base[i])); return NBEH - 1; }
static void ev_num(struct sb *s, size_t v) { sb_c(s, (uint8_t)v); sb_c(s, (uint8_t)(v >> 8)); sb_c(s, (uint8_t)(v >> 16)); }
static void ev_exec(struct sb *s, char kind, unsigned id, int argc, char *const *argv)
{
        sb_c(s, kind); ev_num(s, id); ev_num(s, (size_t)argc);
        for (int i = 0; i < argc; i++) { sb_s(s, argv[i]); sb_c(s, 0); }
}
/* ---- files: what their callbacks do ---- */
enum { A_NONE, A_PRINT, A_NONL, A_STATUS, A_FLUSH, A_RESET, A_PRINTF, A_OPS };
struct fbeh { const uint8_t *data; size_t n; int act; const char *text; int status; };
static struct fbeh beh[NBEH];
static unsigned cb_calls, cb_bad;
struct ref; static void (*ops_real)(struct ush_object *); static void (*ops_model)(struct ref *);   /* A_OPS: what the callback does, in both */
static struct ush_object *cb_shell;          /* shell the callbacks must be called with (NULL: any) */
static void cb_enter(struct ush_object *self) { cb_calls++; if (cb_shell != NULL && self != cb_shell) cb_bad++; }
static void f_act(struct ush_object *self, struct fbeh *b)
{
        switch (b->act) {
        case A_PRINT: ush_print(self, (char*)b->text); break;
        case A_NONL: ush_print_no_newline(self, (char*)b->text); break;
        case A_STATUS: ush_print_status(self, (ush_status_t)b->status); break;
        case A_FLUSH: strcpy(self->desc->output_buffer, b->text); ush_flush(self); break;
        case A_PRINTF: ush_printf(self, "%s", b->text); break;
        case A_RESET: ush_reset(self); break;
        case A_OPS: ops_real(self); break;
        default: break;
        }
}
static void f_exec(struct ush_object *self, fd_t const *file, int argc, char *argv[])
{
        cb_enter(self); sym_check(argv[argc] == NULL, "argv[argc] is not NULL");
        ev_exec(&ev, 'X', fid(file), argc, argv); f_act(self, &beh[fid(file)]);
}
static void f_hook(struct ush_object *self, fd_t const *file, int argc, char *argv[])
{
        (void)self; (void)file; sym_check(argv[argc] == NULL, "argv[argc] is not NULL in the execute hook");
        ev_exec(&ev, 'H', 0, argc, argv);
}
static size_t f_get(struct ush_object *self, fd_t const *file, uint8_t **data)
{
        cb_enter(self); struct fbeh *b = &beh[fid(file)]; sb_c(&ev, 'G'); ev_num(&ev, fid(file)); if (b->data != NULL) *data = (uint8_t*)b->data; if (b->act == A_OPS) f_act(self, b); return b->n;
}
static void ev_set(struct sb *s, unsigned id, const uint8_t *d, size_t n) { sb_c(s, 'S'); ev_num(s, id); ev_num(s, n); sb_b(s, d, n); }
static void f_set(struct ush_object *self, fd_t const *file, uint8_t *data, size_t size) { cb_enter(self); ev_set(&ev, fid(file), data, size); f_act(self, &beh[fid(file)]); }

/* ---- the built-in commands this build is documented to have ---- */
static void m_help(struct ush_object *s, fd_t const *f, int c, char **v) { (void)s; (void)f; (void)c; (void)v; }
static void m_ls(struct ush_object *s, fd_t const *f, int c, char **v) { (void)s; (void)f; (void)c; (void)v; }
static void m_cd(struct ush_object *s, fd_t const *f, int c, char **v) { (void)s; (void)f; (void)c; (void)v; }
static void m_pwd(struct ush_object *s, fd_t const *f, int c, char **v) { (void)s; (void)f; (void)c; (void)v; }
static void m_cat(struct ush_object *s, fd_t const *f, int c, char **v) { (void)s; (void)f; (void)c; (void)v; }
static void m_xxd(struct ush_object *s, fd_t const *f, int c, char **v) { (void)s; (void)f; (void)c; (void)v; }
static void m_echo(struct ush_object *s, fd_t const *f, int c, char **v) { (void)s; (void)f; (void)c; (void)v; }
static const fd_t ref_builtin[] = {
#if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
#if USH_CONFIG_ENABLE_COMMAND_HELP == 1
        { .name = "help", .description = "list available commands", .help = "usage: help [file]\r\n", .exec = m_help },
#endif
#if USH_CONFIG_ENABLE_COMMAND_LS == 1
        { .name = "ls", .description = "list directory content", .help = "usage: ls [path]\r\n", .exec = m_ls },
#endif
#if USH_CONFIG_ENABLE_COMMAND_CD == 1
        { .name = "cd", .description = "change current directory", .help = "usage: cd <path>\r\n", .exec = m_cd },
#endif
#if USH_CONFIG_ENABLE_COMMAND_PWD == 1
        { .name = "pwd", .description = "print current directory", .help = "usage: pwd\r\n", .exec = m_pwd },
#endif
#if USH_CONFIG_ENABLE_COMMAND_CAT == 1
        { .name = "cat", .description = "print files content", .help = "usage: cat <files...>\r\n", .exec = m_cat },
#endif
#if USH_CONFIG_ENABLE_COMMAND_XXD == 1
        { .name = "xxd", .description = "dump file hex content", .help = "usage: xxd <file>\r\n", .exec = m_xxd },
#endif
#if USH_CONFIG_ENABLE_COMMAND_ECHO == 1
        { .name = "echo", .description = "print string to file", .help = "usage: echo <string> > <file>\r\n       echo [string]\r\n       * can be ascii-hex encoded string with \\xNN format.\r\n", .exec = m_echo },
#endif
#endif
        { .name = NULL },
};
#define REF_NBUILTIN (sizeof(ref_builtin) / sizeof(ref_builtin[0]) - 1)
#ifdef CFG_ALIGN
#define RALIGN CFG_ALIGN
#else
#define RALIGN 16
#endif
#ifdef CFG_COLUMNS
#define RCOLS CFG_COLUMNS
#else
#define RCOLS 8
#endif
#ifdef CFG_STATUS_TEXTS
static const char *const ref_status[] = { CFG_STATUS_TEXTS };
#else
static const char *const ref_status[] = { "ok", "error: directory not found", "error: nested directories exist", "error: cannot find parent node",
        "error: directory already mounted", "error: syntax error", "error: wrong arguments", "error: file not executable", "error: file not writable",
        "error: file not readable", "error: no help available", "error: file not found", "error: read only file" };
#endif
/* ---- the model ---- */
struct rdir { const char *path; const fd_t *files; size_t nfiles; };
struct ref {
        const char *host; size_t path_max, in_size;
        struct { const fd_t *files; size_t n; const void *tag; } grp[RGRPS]; unsigned ngrp;  /* newest first */
        struct rdir dir[RDIRS]; unsigned ndir;                                           /* newest last */
        const char *cwd; bool hook;
        bool full;      /* a completion did not fit: outcome left to C14 */
        bool vague;     /* a path with an empty component was used: not specified */
        struct env *env;
        char line[RLINE]; size_t n; int esc;
        struct sb out, ev;
        unsigned executed;
};
static void ref_grp_add(struct ref *r, const fd_t *f, size_t n, const void *tag) { for (unsigned i = r->ngrp; i > 0; i--) r->grp[i] = r->grp[i - 1]; r->grp[0].files = f; r->grp[0].n = n; r->grp[0].tag = tag; r->ngrp++; }
static bool ref_grp_del(struct ref *r, const void *tag) { for (unsigned i = 0; i < r->ngrp; i++) if (r->grp[i].tag == tag) { for (unsigned k = i; k + 1 < r->ngrp; k++) r->grp[k] = r->grp[k + 1]; r->ngrp--; return true; } return false; }
static struct ref *ref_new(struct env *e)
{
        struct ref *r = calloc(1, sizeof(*r));
        r->env = e; r->host = e->desc->hostname; r->path_max = e->desc->path_max_length; r->in_size = e->desc->input_buffer_size; r->hook = e->desc->exec != NULL;
        if (REF_NBUILTIN > 0) ref_grp_add(r, ref_builtin, REF_NBUILTIN, ref_builtin);
        return r;
}
static struct rdir *ref_dir(struct ref *r, const char *path) { for (unsigned i = 0; i < r->ndir; i++) if (strcmp(r->dir[i].path, path) == 0) return &r->dir[i]; return NULL; }
static void ref_mount(struct ref *r, const char *path, const fd_t *f, size_t n) { r->dir[r->ndir].path = path; r->dir[r->ndir].files = f; r->dir[r->ndir++].nfiles = n; if (path[1] == '\0') r->cwd = path; }
static void ref_leave(struct ref *r, const char *path)       /* the current directory goes away: continue in its parent */
{
        if (strcmp(r->cwd, path) != 0 || path[1] == 0) return;
        size_t n = strlen(path); while (n > 0 && path[n - 1] != '/') n--;
        if (n > 1) n--;
        for (unsigned i = 0; i < r->ndir; i++) if (strlen(r->dir[i].path) == n && strncmp(r->dir[i].path, path, n) == 0) r->cwd = r->dir[i].path;
}
static void ref_unmount(struct ref *r, const char *path) { ref_leave(r, path); for (unsigned i = 0; i < r->ndir; i++) if (strcmp(r->dir[i].path, path) == 0) { for (unsigned k = i; k + 1 < r->ndir; k++) r->dir[k] = r->dir[k + 1]; r->ndir--; return; } }
static const char *ref_last(const char *path) { if (path[1] == '\0') return path; const char *p = path; for (const char *q = path; *q; q++) if (*q == '/') p = q + 1; return p; }
/* is b a direct child path of a? (concrete strings) */
static bool ref_child(const char *a, const char *b) { size_t n = strlen(a); if (n == 1) n = 0; return strncmp(a, b, n) == 0 && b[n] == '/' && b[n + 1] != '\0' && strchr(b + n + 1, '/') == NULL; }
static void ref_prompt(struct ref *r) { sb_prompt(&r->out, r->host, ref_last(r->cwd)); }
static void ref_done(struct ref *r) { r->n = 0; r->line[0] = 0; r->esc = 0; ref_prompt(r); }
static void ref_text(struct ref *r, const char *t) { sb_s(&r->out, t); sb_s(&r->out, "\r\n"); ref_done(r); }
static void ref_err(struct ref *r, int st) { ref_text(r, ref_status[st]); }
/* absolute normalised path; false when cwd joined with the argument does not fit path_max */
static bool ref_abs(struct ref *r, const char *arg, char *out)
{
        char t[RPATH * 2]; size_t n = 0;
        if (arg[0] != '/') { for (const char *p = r->cwd; *p; p++) t[n++] = *p; if (n > 1) t[n++] = '/'; }
        for (const char *p = arg; *p; p++) t[n++] = *p;
        for (size_t k = 0; k + 2 < n; k++) if (t[k] == '/' && t[k + 1] == '/') r->vague = true;
        if (n > 1 && t[n - 1] == '/' && t[n - 2] == '/') r->vague = true;
        if (n + 1 > r->path_max) return false;
        size_t o = 0, i = 0;
        while (i < n) {
                while (i < n && t[i] == '/') i++;
                size_t b = i; while (i < n && t[i] != '/') i++;
                if (i == b || (i - b == 1 && t[b] == '.')) continue;
                if (i - b == 2 && t[b] == '.' && t[b + 1] == '.') { while (o > 0 && out[--o] != '/') {} continue; }
                out[o++] = '/'; for (size_t k = b; k < i; k++) out[o++] = t[k];
        }
        if (o == 0) out[o++] = '/';
        out[o] = 0; return true;
}
static const fd_t *ref_find(struct ref *r, const char *name)
{
        for (unsigned g = 0; g < r->ngrp; g++) for (size_t i = 0; i < r->grp[g].n; i++) if (strcmp(r->grp[g].files[i].name, name) == 0) return &r->grp[g].files[i];
        char p[RPATH]; if (!ref_abs(r, name, p)) return NULL;
        size_t cut = 0, n = 0; for (; p[n]; n++) if (p[n] == '/') cut = n;
        if (n == 1) return NULL;
        for (unsigned d = 0; d < r->ndir; d++) {
                const char *q = r->dir[d].path; size_t l = strlen(q); if (l == 1) l = 0;
                if (l != cut || memcmp(q, p, l) != 0) continue;
                for (size_t i = 0; i < r->dir[d].nfiles; i++) if (strcmp(r->dir[d].files[i].name, p + cut + 1) == 0) return &r->dir[d].files[i];
        }
        return NULL;
}
static int ref_hex(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'F') return c - 'A' + 10; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return 0; }
static size_t ref_decode(const char *s, uint8_t *o)
{
        size_t n = 0;
        for (size_t i = 0; s[i]; i++) {
                if (s[i] != '\\') { o[n++] = (uint8_t)s[i]; continue; }
                if (s[i + 1] == 0) break;
                if (s[i + 1] != 'x') { o[n++] = (uint8_t)s[++i]; continue; }
                if (s[i + 2] == 0 || s[i + 3] == 0) break;                                     /* incomplete \xHH */
                o[n++] = (uint8_t)(ref_hex(s[i + 2]) * 16 + ref_hex(s[i + 3])); i += 3;
        }
        return n;
}
static void ref_entry(struct ref *r, const fd_t *f)
{
        size_t l = strlen(f->name); sb_s(&r->out, f->name);
        if (f->description != NULL) { for (; l < RALIGN; l++) sb_c(&r->out, ' '); sb_s(&r->out, " " ST_YEL "- "); sb_s(&r->out, f->description); sb_s(&r->out, ST_RST); }
        sb_s(&r->out, "\r\n");
}
static void ref_hexn(struct sb *s, unsigned long v, int n) { for (int i = n - 1; i >= 0; i--) { unsigned d = (v >> (4 * i)) & 15; sb_c(s, (uint8_t)(d + (d < 10 ? '0' : 'A' - 10))); } }
static void ref_action(struct ref *r, struct fbeh *b)
{
        switch (b->act) {
        case A_PRINT: ref_text(r, b->text); break;
        case A_NONL: case A_FLUSH: case A_PRINTF: sb_s(&r->out, b->text); ref_done(r); break;
        case A_STATUS: ref_err(r, b->status); break;
        case A_RESET: r->cwd = "/"; sb_s(&r->out, BANNER); ref_done(r); break;
        case A_OPS: ops_model(r); break;
        default: ref_done(r); break;
        }
}
static void ref_run(struct ref *r, int argc, char **argv)
{
        if (argc == 0) { ref_done(r); return; }
        r->executed++;
        if (r->hook) ev_exec(&r->ev, 'H', 0, argc, argv);
        const fd_t *f = ref_find(r, argv[0]);
        if (f == NULL) { ref_err(r, 5); return; }
        if (f->exec == NULL) { ref_err(r, 7); return; }
        if (f->exec == m_pwd) { if (argc != 1) ref_err(r, 6); else ref_text(r, r->cwd); }
        else if (f->exec == m_cd) {
                char p[RPATH]; struct rdir *d;
                if (argc != 2) ref_err(r, 6);
                else if (argv[1][0] == 0 || !ref_abs(r, argv[1], p) || (d = ref_dir(r, p)) == NULL) ref_err(r, 1);
                else { r->cwd = d->path; ref_done(r); }
        } else if (f->exec == m_ls) {
                char p[RPATH]; struct rdir *d;
                if (argc > 2) { ref_err(r, 6); return; }
                if (argc == 1) d = ref_dir(r, r->cwd);
                else if (!ref_abs(r, argv[1], p) || (d = ref_dir(r, p)) == NULL) { ref_err(r, 1); return; }
                sb_s(&r->out, "d---- " ST_GRN "." ST_RST "\r\n"); if (d->path[1]) sb_s(&r->out, "d---- " ST_GRN ".." ST_RST "\r\n");
                for (unsigned i = r->ndir; i-- > 0; ) if (ref_child(d->path, r->dir[i].path)) { sb_s(&r->out, "d---- " ST_GRN); sb_s(&r->out, ref_last(r->dir[i].path)); sb_s(&r->out, "/" ST_RST "\r\n"); }
                for (size_t i = 0; i < d->nfiles; i++) {
                        const fd_t *x = &d->files[i];
                        sb_c(&r->out, '-'); sb_c(&r->out, x->get_data ? 'r' : '-'); sb_c(&r->out, x->set_data ? 'w' : '-'); sb_c(&r->out, x->exec ? 'x' : '-'); sb_c(&r->out, x->help ? 'h' : '-'); sb_c(&r->out, ' ');
                        ref_entry(r, x);
                }
                ref_done(r);
        } else if (f->exec == m_help) {
                if (argc == 1) { for (unsigned g = 0; g < r->ngrp; g++) for (size_t i = 0; i < r->grp[g].n; i++) ref_entry(r, &r->grp[g].files[i]); ref_done(r); return; }
                if (argc > 2) { ref_err(r, 6); return; }
                const fd_t *x = ref_find(r, argv[1]);
                if (x == NULL) ref_err(r, 11); else if (x->help == NULL) ref_err(r, 10); else { sb_s(&r->out, x->help); ref_done(r); }
        } else if (f->exec == m_cat) {
                const fd_t *x[RARGS];
                if (argc < 2) { ref_err(r, 6); return; }
                for (int i = 1; i < argc; i++) { x[i] = ref_find(r, argv[i]); if (x[i] == NULL) { ref_err(r, 11); return; } if (x[i]->get_data == NULL) { ref_err(r, 9); return; } }
                for (int i = 1; i < argc; i++) { sb_c(&r->ev, 'G'); ev_num(&r->ev, fid(x[i])); sb_b(&r->out, beh[fid(x[i])].data, beh[fid(x[i])].n); }
                ref_done(r);
        } else if (f->exec == m_xxd) {
                if (argc != 2) { ref_err(r, 6); return; }
                const fd_t *x = ref_find(r, argv[1]);
                if (x == NULL) { ref_err(r, 11); return; } if (x->get_data == NULL) { ref_err(r, 9); return; }
                sb_c(&r->ev, 'G'); ev_num(&r->ev, fid(x));
                const uint8_t *d = beh[fid(x)].data; size_t n = beh[fid(x)].n, o = 0;
                do {
                        ref_hexn(&r->out, o, 8); sb_s(&r->out, ": ");
                        for (size_t i = o; i < o + RCOLS; i++) if (i < n) { ref_hexn(&r->out, d[i], 2); sb_c(&r->out, ' '); } else sb_s(&r->out, "   ");
                        sb_c(&r->out, ' ');
                        for (size_t i = o; i < o + RCOLS; i++) sb_c(&r->out, i < n ? ((d[i] >= 32) & (d[i] < 127) ? d[i] : '.') : ' ');
                        sb_s(&r->out, "\r\n"); o += RCOLS;
                } while (o < n);
                ref_done(r);
        } else if (f->exec == m_echo) {
                uint8_t b[RLINE];
                if (argc == 1) { sb_s(&r->out, "\r\n"); ref_done(r); }
                else if (argc == 2) { size_t n = ref_decode(argv[1], b); for (size_t i = 0; (i < n) && b[i]; i++) sb_c(&r->out, b[i]); sb_s(&r->out, "\r\n"); ref_done(r); }
                else if (argc == 4 && strcmp(argv[2], ">") == 0) {
                        const fd_t *x = ref_find(r, argv[3]);
                        if (x == NULL) ref_err(r, 11); else if (x->set_data == NULL) ref_err(r, 8);
                        else { size_t n = ref_decode(argv[1], b); ev_set(&r->ev, fid(x), b, n); ref_action(r, &beh[fid(x)]); }
                } else ref_err(r, 6);
        } else { ev_exec(&r->ev, 'X', fid(f), argc, argv); ref_action(r, &beh[fid(f)]); }
}
/* split by the quoting rules (see C04) and run */
static void ref_submit(struct ref *r)
{
        static char buf[RLINE * 2 + 4]; char *argv[RARGS + 1]; int argc = 0; size_t o = 0, i = 0, n = r->n; const char *s = r->line;
        for (;;) {
                while (i < n && s[i] == ' ') i++;
                if (i >= n) break;
                bool q = false; sym_check(argc < RARGS, "harness: too many arguments"); argv[argc++] = &buf[o];
                while (i < n && (q || s[i] != ' ')) {
                        if (s[i] == '"') { q = !q; i++; continue; }
                        if (s[i] == '\\') { i++; if (i >= n) break; if (s[i] == 'x') buf[o++] = '\\'; }
                        buf[o++] = s[i++];
                }
                buf[o++] = 0;
        }
        argv[argc] = NULL;
        ref_run(r, argc, argv);
}
static void ref_tab(struct ref *r)
{
#if USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE == 1
        const char *cand[RCAND]; unsigned nc = 0; size_t w = 0; r->line[r->n] = 0;
        for (size_t i = 0; i < r->n; i++) if (r->line[i] == ' ') w = i + 1;
        const char *word = r->line + w; size_t wl = r->n - w;
#define CAND(nm) do { if (strncmp(nm, word, wl) == 0) cand[nc++] = (nm); } while (0)
        for (unsigned g = 0; g < r->ngrp; g++) for (size_t i = 0; i < r->grp[g].n; i++) CAND(r->grp[g].files[i].name);
        struct rdir *d = ref_dir(r, r->cwd);
        for (size_t i = 0; i < d->nfiles; i++) CAND(d->files[i].name);
        for (unsigned i = r->ndir; i-- > 0; ) if (ref_child(d->path, r->dir[i].path)) CAND(ref_last(r->dir[i].path));
        if (nc == 0) return;
        size_t l = strlen(cand[0]);
        for (unsigned i = 1; i < nc; i++) { size_t k = 0; while (k < l && cand[i][k] == cand[0][k]) k++; l = k; }
        if (l > wl) {
                if (l - wl > r->in_size - 1 - r->n) { r->full = true; return; }                /* does not fit: see C14 */
                for (size_t k = wl; k < l; k++) { r->line[r->n++] = cand[0][k]; sb_c(&r->out, (uint8_t)cand[0][k]); }
                return;
        }
        if (nc == 1) return;
        sb_s(&r->out, "\r\n"); for (unsigned i = 0; i < nc; i++) { sb_s(&r->out, cand[i]); sb_s(&r->out, "\r\n"); }
        ref_prompt(r); sb_b(&r->out, r->line, r->n);
#else
        (void)r;
#endif
}
static void ref_key(struct ref *r, uint8_t c)
{
        switch (c) {
        case 3: sb_s(&r->out, "^C\r\n"); ref_done(r); return;
        case 8: case 127: if (r->n > 0) { r->n--; sb_s(&r->out, "\b \b"); } return;
        case 9: ref_tab(r); return;
        case 27: r->esc = 1; return;
        }
        if (r->esc == 1) { r->esc = ((c == '[') | (c == 'O')) ? 2 : 0; return; }
        if (r->esc == 2) { r->esc = 0; return; }
        if (c == '\r' || c == '\n') { sb_s(&r->out, c == '\r' ? "\r\n" : "\n"); ref_submit(r); return; }
        r->line[r->n++] = (char)c; sb_c(&r->out, c);
}
static void ref_keys(struct ref *r, const void *p, size_t n) { for (size_t i = 0; i < n; i++) ref_key(r, ((const uint8_t*)p)[i]); }
static void ref_boot(struct ref *r) { r->cwd = "/"; sb_s(&r->out, BANNER); ref_done(r); }
/* compare everything that happened since the last comparison */
#define ref_agree(r, e, what) do { if ((r)->vague | (r)->full) { sym_reach("unspecified input"); return; } \
        sym_check((e)->out_n == (r)->out.n, what ": terminal output differs from the model (length)"); \
        sym_check(memcmp((e)->out, (r)->out.b, (r)->out.n) == 0, what ": terminal output differs from the model"); \
        sym_check(ev.n == (r)->ev.n, what ": callbacks differ from the model (count or size)"); \
        sym_check(memcmp(ev.b, (r)->ev.b, (r)->ev.n) == 0, what ": callbacks or their arguments differ from the model"); \
        (e)->out_n = 0; (r)->out.n = 0; ev.n = 0; (r)->ev.n = 0; } while (0)
static void both_keys(struct env *e, struct ref *r, const void *p, size_t n) { env_type(e, p, n); ref_keys(r, p, n); }
static void both_types(struct env *e, struct ref *r, const char *s) { both_keys(e, r, s, strlen(s)); }
static ush_status_t both_mount(struct env *e, struct ref *r, const char *path, struct ush_node_object *node, const fd_t *f, size_t n)
{
        ush_status_t s = ush_node_mount(e->sh, path, node, f, n); sym_check(s == USH_STATUS_OK, "mount failed"); ref_mount(r, path, f, n); return s;
}
__attribute__((unused)) static void *ref_unused_[] = { (void*)fid_reg, (void*)fid_reg_at, (void*)f_exec, (void*)f_hook, (void*)f_get, (void*)f_set, (void*)ref_new, (void*)ref_unmount, (void*)ref_grp_del, (void*)ref_boot, (void*)both_types, (void*)both_mount };
#endif
