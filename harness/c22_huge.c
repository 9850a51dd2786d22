/* C22 in the huge world: 300 siblings, 260 levels, 302 command groups. */
#define DIRS
#ifndef DEEP
#define DEEP 260
#endif
#define GROUPS
#include "huge.h"
#include "inc/ush_node.h"
static struct ush_node_object zn, snap_g[NF], snap_3[3]; static struct ush_object zo; static uint8_t key[2];
static bool zero(const struct ush_node_object *n) { return memcmp(n, &zn, sizeof(zn)) == 0; }
void harness(void)
{
        struct env *e = env_new(RLINE, 1200, 1400, "h");
        struct ref *r = huge(e, true);
        static const char *const lines[] = { "", "cd q/q/q\r", "ls n\r", "help\r", "s2\t", "cat big\r" };
        unsigned vary = sym_choice(3, "what varies"); unsigned k = vary ? 3 : sym_choice(sizeof(lines) / sizeof(lines[0]), "line"); env_feed(e, lines[k], strlen(lines[k]));
        for (unsigned i = 0, j = vary ? 40 : sym_choice(3, "service calls") * 150; i < j; i++) env_service(e);
        /* take away some nodes: they are the application's again */
        static const unsigned gone[] = { 0, 43, 255, 256, 299 }; struct ush_node_object *u = NULL, us;
        unsigned g = vary != 1 ? 4 : sym_choice(6, "unmounted before"); if (g < 5) { u = &hn_s[gone[g]]; sym_check(ush_node_unmount(e->sh, hsn[gone[g]]) == USH_STATUS_OK, "unmount"); memset(u, 0x99, sizeof(*u)); us = *u; }
        memcpy(snap_g, hn_grp, sizeof(hn_grp)); memcpy(snap_3, hn_g, sizeof(hn_g));
        ush_deinit(e->sh);
        sym_check(memcmp(e->sh, &zo, sizeof(zo)) == 0, "deinit leaves data in the shell object");
        for (unsigned i = 0; i < NF; i++) if (&hn_s[i] != u) sym_check(zero(&hn_s[i]), "deinit leaves one of 300 siblings uncleared");
        for (unsigned i = 0; i < DEEP; i++) sym_check(zero(&hn_deep[i]), "deinit leaves a deep node uncleared");
        sym_check(zero(&hn_root) & zero(&hn_n) & zero(&hn_l) & zero(&hn_l3) & zero(&hn_l4), "deinit leaves a node uncleared");
        if (u) sym_check(memcmp(u, &us, sizeof(us)) == 0, "deinit touches a node that is not mounted any more");
        sym_check(memcmp(snap_g, hn_grp, sizeof(hn_grp)) == 0 && memcmp(snap_3, hn_g, sizeof(hn_g)) == 0, "deinit touches a command group node");
        env_clear(e); ev.n = 0; env_feed(e, NULL, 0); env_count = 1;
        /* second life with the same nodes */
        r = huge_again(e);
        static const char *const then[] = { "ls n\r", "g299 a\r", "help g0?1\r", "n/s2?9/x\r", "cd n\rs29\t1/x\r", "cd q/q/q/q\r", "l/?\r" };
        const char *l = then[vary != 2 ? 3 : sym_choice(sizeof(then) / sizeof(then[0]), "second life")]; static uint8_t b[40]; size_t n = strlen(l);
        memcpy(b, l, n); for (size_t i = 0; i < n; i++) if (b[i] == '?') { sym_bytes(b + i, 1); sym_assume(b[i] != 0); }
        both_keys(e, r, b, n); both_types(e, r, "\rpwd\r"); ref_agree(r, e, "second life");
        sym_reach("done");
}
