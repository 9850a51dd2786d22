/* C25: ls, help and xxd for every output buffer size and every name length. */
#ifndef OUTMAX
#define OUTMAX 768
#endif
#define RPATH 700
#include "ref.h"
#ifndef MAXLEN
#define MAXLEN 40
#endif
static const uint16_t sizes[] = SIZES;
static char name[2][MAXLEN + 2], dirp[MAXLEN + 3]; static uint8_t data[9];
static fd_t files[2], cmds[2]; static struct ush_node_object m_root, m_dir, m_grp;
static size_t mk_name(char *s, const char *what)
{
        static const uint16_t lens[] = { LENS };
        size_t n = lens[sym_choice(sizeof(lens) / 2, what)];
        for (size_t i = 0; i < n; i++) s[i] = (char)('a' + i % 26);
        sym_bytes(s, 1); sym_assume((s[0] > 32) & (s[0] < 127) & (s[0] != '/') & (s[0] != '"') & (s[0] != '\\') & (s[0] != '.'));
        s[n] = 0; return n;
}
static size_t need_entry(const fd_t *f) { size_t l = strlen(f->name); if (f->description == NULL) return l + 1; return (l < 16 ? 16 : l) + 3 + strlen(ST_YEL) + 1; }
void harness(void)
{
        size_t size = sizes[sym_choice(sizeof(sizes) / 2, "output buffer size")];
        struct env *e = env_new(24, size, MAXLEN + 8, "h");
        unsigned what = sym_choice(3, "command");
        mk_name(name[0], "name length"); strcpy(name[1], "n");
        size_t need = 0; const char *line;
        files[0].name = "a"; files[1].name = "g"; cmds[0].name = "a"; cmds[1].name = "b"; dirp[0] = '/'; strcpy(dirp + 1, "d");
        unsigned form = sym_choice(2, "description");
        if (what == 0) {
                line = "ls\r"; files[0].name = name[0]; if (form) files[0].description = "D"; else files[0].exec = f_exec;
                if (sym_choice(2, "directory name")) strcpy(dirp + 1, name[0]);
        } else if (what == 1) { line = "help\r"; cmds[0].name = name[0]; if (form) cmds[0].description = "D"; }
        else { line = "xxd g\r"; files[1].get_data = f_get; }
        fid_reg(cmds, 2); fid_reg(files, 2);
        sym_bytes(data, 2); data[8] = 0x7f; beh[18].data = data; beh[18].n = sym_choice(10, "content length");
        if (what != 2 && beh[18].n != 0) return;
        if (what == 0) for (unsigned i = 0; i < 2; i++) { size_t x = need_entry(&files[i]); if (x > need) need = x; }
        if (what == 0 && need < 7) need = 7;
        if (what == 2) need = 26;
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e);
        ush_commands_add(e->sh, &m_grp, cmds, 2); ref_grp_add(r, cmds, 2, &m_grp);
        both_mount(e, r, "/", &m_root, files, 2); both_mount(e, r, dirp, &m_dir, NULL, 0);
        ref_boot(r); env_feed(e, NULL, 0); env_idle(e); ref_agree(r, e, "start-up");
        if (what == 1) for (unsigned g = 0; g < r->ngrp; g++) for (size_t i = 0; i < r->grp[g].n; i++) { size_t x = need_entry(&r->grp[g].files[i]); if (x > need) need = x; }
        both_types(e, r, line);
        if (size >= need) { ref_agree(r, e, "large enough buffer"); sym_reach(what == 0 ? "complete ls" : what == 1 ? "complete help" : "complete xxd"); }
        else {
                struct sb p = { .n = 0 }; sb_prompt(&p, "h", "/");
                sym_check(e->out_n <= r->out.n, "small buffer: output longer than the complete one");
                sym_check(e->out_n >= p.n && memcmp(e->out + e->out_n - p.n, p.b, p.n) == 0, "small buffer: no prompt at the end");
                sym_check((ev.n == r->ev.n) & (memcmp(ev.b, r->ev.b, ev.n) == 0), "callbacks");
                e->out_n = 0; r->out.n = 0; ev.n = 0; r->ev.n = 0; sym_reach("small");
        }
        both_types(e, r, "pwd\r"); ref_agree(r, e, "following command");
        sym_reach("done");
}
