/* C26: reset from outside in the large world: from every kind of directory, before, during and
 * after long lines; whatever was going on, the shell is at the root with a fresh prompt. */
#include "big.h"
static const char *const cds[] = { "", "cd p\r", "cd /p/temperature-sensor-a\r", "cd q\r", "cd q/q\r", "cd q/q/q\r", "cd q/q/q/q/q/q/q/q\r", "cd q/q/q/q/q/q/q/q/q/q/q/q\r", "cd many\r", "cd s1\r", "cd s1/s2\r", "cd ...\r" };
static const char *const lines[] = { "", "ls", "ls\r", "help\r", "cat blob\r", "xxd /blob\r", "echo abcdefghijklmnopqrstuvwxyz \"and more", "k0\t", "\t", "cd q\rcd q\rpw", "\x1b[", "ls q/q/q\r" };
static const unsigned short stops[] = { 0, 1, 2, 5, 17, 40, 100, 300, 65535 };
void harness(void)
{
        struct env *e = env_new(700, 600, 512, "h"); struct ref *r = big(e, true);
        const char *c = cds[sym_choice(sizeof(cds) / sizeof(cds[0]), "directory")]; both_types(e, r, c); ref_agree(r, e, "cd");
        const char *l = lines[sym_choice(sizeof(lines) / sizeof(lines[0]), "line")]; env_feed(e, l, strlen(l));
        unsigned k = stops[sym_choice(sizeof(stops) / sizeof(stops[0]), "service calls")], j = 0;
        for (; j < k; j++) { unsigned m = e->read_empty; env_service(e); if (e->read_empty != m && e->feed_pos >= e->feed_len) break; }
        ush_reset(e->sh);
        r->out.n = 0; r->ev.n = 0; ev.n = 0; env_clear(e); r->n = 0; r->esc = 0; big_boot(e, r);
        both_types(e, r, "pwd\r"); ref_agree(r, e, "pwd after reset");
        uint8_t b[3] = { 'f', 0, '\r' }; sym_bytes(b + 1, 1); sym_assume(b[1] != 0); both_keys(e, r, b, 3); ref_agree(r, e, "line after reset");
        both_types(e, r, "\x03" "cd q\rls\rcat ../blob\r"); ref_agree(r, e, "commands after reset");
        sym_reach("done");
}
