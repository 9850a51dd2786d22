/* C06 in the large world: every service call does bounded work and tells the truth, during
 * long listings, dumps, completions and command lines. */
#include "big.h"
static const char *const lines[] = { LINES };
static bool must_read; static uint8_t key[2048]; static unsigned steps;
static bool step(struct env *e)
{
        unsigned cb = cb_calls, empty = e->read_empty; size_t evn = ev.n;
        bool busy = env_service(e);
        sym_check(e->c_reads <= 1, "more than one read attempt in a service call");
        sym_check(e->c_writes <= 1, "more than one write attempt in a service call");
        sym_check(e->c_reads + e->c_writes <= 1, "read and write in one service call");
        sym_check(cb_calls - cb <= 1, "more than one file callback in a service call");
        if (e->c_reads == 1) sym_check(busy == (e->read_empty == empty), "wrong result after reading");
        if (e->c_writes == 1) sym_check(busy, "idle reported although output was pending");
        if (cb_calls != cb) sym_check(busy, "idle reported while a command is running");
        if (must_read) sym_check(e->c_reads == 1 && cb_calls == cb && ev.n == evn, "idle reported although the shell did not proceed to reading");
        must_read = !busy; steps++;
        return e->read_empty != empty && e->feed_pos >= e->feed_len;
}
static void run(struct env *e) { for (unsigned i = 0; i < 100000; i++) if (step(e)) return; sym_check(0, "shell does not become idle"); }
void harness(void)
{
        struct env *e = env_new(700, sym_choice(2, "output buffer size") ? 600 : 64, 512, "h");
        big_files(e->desc->output_buffer_size); e->desc->exec = f_hook; cb_shell = e->sh;
        ush_init(e->sh, e->desc); struct ref *r = ref_new(e);
        ush_commands_add(e->sh, &bn_g[0], b_cmd1, LADDERS); ush_commands_add(e->sh, &bn_g[1], b_cmd2, LADDERS); ush_commands_add(e->sh, &bn_g[2], b_cmd3, 14);
        big_mounts(e, r);
        env_feed(e, NULL, 0); run(e);
        const char *l = lines[sym_choice(sizeof(lines) / sizeof(lines[0]), "line")]; size_t n = strlen(l); memcpy(key, l, n);
        for (size_t i = 0; i < n; i++) if (key[i] == '?') sym_bytes(key + i, 1);
        sym_bytes(blob, 1);
        env_feed(e, key, n); run(e);
        /* service calls are proportional to the output: one per byte plus a bounded number per file, directory, character read */
        sym_check(steps <= 40 * (e->writes + n) + 6000, "too many service calls for the work done");
        sym_reach("done");
}
