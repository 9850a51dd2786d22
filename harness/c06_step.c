/* C06: one service call does bounded work and reports idle truthfully, in every state
 * reached by arbitrary bytes, the built-in commands and prints from outside. */
#define OUTMAX 4096
#include "world.h"
#ifndef N
#define N 2
#endif
#ifndef LINES
#define LINES { "" }
#endif
#ifndef KW
#define KW 1
#endif
static const char *const lines[] = LINES;
#define NL (sizeof(lines) / sizeof(lines[0]))
static unsigned kw; static bool on;
static int refuse(struct env *e, char c) { (void)e; (void)c; if (on & (kw < KW)) if (sym_choice(2, "refuse write")) { kw++; return 0; } return 1; }
static uint8_t key[N + 2];
static bool must_read;                       /* the previous call reported idle */
static bool step(struct env *e)
{
        unsigned cb = cb_calls, empty = e->read_empty;
        bool busy = env_service(e);
        sym_check(e->c_reads <= 1, "more than one read attempt in a service call");
        sym_check(e->c_writes <= 1, "more than one write attempt in a service call");
        sym_check(e->c_reads + e->c_writes <= 1, "read and write in one service call");
        sym_check(cb_calls - cb <= 1, "more than one file callback in a service call");
        if (e->c_reads == 1) sym_check(busy == (e->read_empty == empty), "wrong result after reading");
        if (e->c_writes == 1) sym_check(busy, "idle reported although output was pending");
        if (cb_calls != cb) sym_check(busy, "idle reported while a command is running");
        if (must_read) sym_check(e->c_reads == 1 && cb_calls == cb, "idle reported although the shell did not proceed to reading");
        if (!busy && e->c_reads == 0) sym_reach("idle before reading");
        must_read = !busy;
        sym_log(busy);
        return e->read_empty != empty && e->feed_pos >= e->feed_len;
}
static void run(struct env *e) { for (unsigned i = 0; i < 4000; i++) if (step(e)) return; sym_check(0, "shell does not become idle"); }
void harness(void)
{
        struct env *e = env_new(24, 64, 32, "h");
        world_files(); e->desc->exec = f_hook; cb_shell = e->sh;
        ush_init(e->sh, e->desc);
        struct ref *r = ref_new(e); world_groups(e, r); world_tree(e, r);
        e->write_hook = refuse;
        env_feed(e, NULL, 0); run(e);
        on = true;
        const char *l = lines[sym_choice(NL, "line")]; size_t n = strlen(l);
        env_feed(e, l, n); run(e);
        sym_bytes(key, N); key[N] = '\r';
        env_feed(e, key, N + 1); run(e);
        unsigned a = sym_choice(4, "call from outside");
        if (a == 1) { ush_print(e->sh, (char*)"t"); must_read = false; run(e); }
        if (a == 2) { ush_printf(e->sh, "%d", 42); must_read = false; run(e); }
        if (a == 3) { ush_reset(e->sh); must_read = false; run(e); }
        sym_reach("done");
}
