/* C22: the second life of a shell object has another descriptor: other buffers, sizes, host
 * name, path limit and hook.  The buffers and the descriptor of the first life are gone (freed:
 * any use of them is an error), so nothing learned from them may survive initialisation. */
#include "world.h"
static const struct { unsigned in, out, path; const char *host; int hook; } D[] = { { 24, 64, 32, "h", 1 }, { 48, 96, 20, "two", 0 }, { 16, 300, 44, "", 1 }, { 80, 64, 8, "four4", 0 } };
#define ND 4
static void take(struct env *e, unsigned d)
{
        e->desc = calloc(1, sizeof(*e->desc)); e->in_buf = malloc(D[d].in); e->out_buf = malloc(D[d].out);
        e->desc->io = &env_io; e->desc->input_buffer = e->in_buf; e->desc->input_buffer_size = D[d].in; e->desc->output_buffer = e->out_buf; e->desc->output_buffer_size = D[d].out;
        e->desc->path_max_length = D[d].path; e->desc->hostname = (char*)D[d].host; e->desc->exec = D[d].hook ? f_hook : NULL;
}
static struct ref *life(struct env *e)
{
        ush_init(e->sh, e->desc); struct ref *r = ref_new(e); world_groups(e, r); world_tree(e, r); world_boot(e, r); return r;
}
static void line(struct env *e, struct ref *r, const char *s) { both_types(e, r, s); ref_agree(r, e, "the second life differs from the model"); }
void harness(void)
{
        struct env *e = env_new(1, 1, 1, "x"); cb_shell = e->sh; world_files();
        unsigned a = sym_choice(ND, "first descriptor"), b = sym_choice(ND, "second descriptor");
        take(e, a); (void)life(e);
        struct ref dummy; (void)dummy;
        static const char *const first[] = { "", "cd d\r", "cd d\rcd e\r", "help\r", "ls /d\r", "u\t", "abcdefghijklmno", "0123456789012345678901234567890123456789\r", "echo abc > f\r", "cat f\r", "xxd f\r", "u 1 2 3\r" };
        const char *s = first[sym_choice(12, "line of the first life")]; env_feed(e, s, strlen(s));
        static const unsigned char cut[] = { 0, 3, 7, 12, 20, 255 };
        for (unsigned i = 0, k = cut[sym_choice(6, "service calls")]; i < k; i++) env_service(e);
        if (sym_choice(2, "deinit")) ush_deinit(e->sh);
        free(e->desc); free(e->in_buf); free(e->out_buf);
        env_clear(e); ev.n = 0; take(e, b);
        struct ref *r = life(e);
        switch (sym_choice(8, "line of the second life")) {
        case 0: line(e, r, "help\r"); break;
        case 1: line(e, r, "ls\r"); line(e, r, "u 1\r"); break;
        case 2: line(e, r, "cd d\r"); line(e, r, "cd e\r"); line(e, r, "cd ..\r"); break;
        case 3: line(e, r, "cd d/../d/./e\r"); line(e, r, "pwd\r"); break;   /* near and beyond the path limits */
        case 4: line(e, r, "u a b c d e f\r"); line(e, r, "d/r 1\r"); break;
        case 5: line(e, r, "u\t"); line(e, r, "\x03"); line(e, r, "f\r"); break;
        case 6: line(e, r, "0123456789012\x03"); line(e, r, "cat f\r"); break;
        case 7: { uint8_t c; sym_bytes(&c, 1); sym_assume(c != 0); char x[4] = { 'u', ' ', (char)c, '\r' }; env_feed(e, x, 4); env_idle(e); ref_keys(r, (uint8_t*)x, 4); ref_agree(r, e, "the second life differs from the model"); break; }
        }
        sym_reach("done");
}
