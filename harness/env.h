/* Environment shared by the harnesses: one or more shells with separately allocated
 * objects and buffers (so every overrun leaves its object), scripted/symbolic input,
 * recorded output. */
#ifndef ENV_H
#define ENV_H
#include "sym.h"
#include <microshell.h>
#ifndef OUTMAX
#define OUTMAX 1024
#endif
#ifndef ENVS
#define ENVS 1
#endif
struct env {
        struct ush_object *sh;
        struct ush_descriptor *desc;
        char *in_buf, *out_buf;
        const uint8_t *feed; size_t feed_len, feed_pos;
        uint8_t out[OUTMAX]; size_t out_n;
        unsigned calls, reads, read_empty, writes, write_refused;   /* totals */
        unsigned c_reads, c_writes;                                 /* within the current service call */
        int (*read_hook)(struct env *e);                            /* optional: 0 = pretend no input */
        int (*write_hook)(struct env *e, char ch);                  /* optional: 0 = refuse */
        void *user;
};
static bool env_quiet;                                           /* long repetitions: output is compared, not logged */
static struct env *envs[ENVS]; static unsigned env_count;
static struct env *env_of(struct ush_object *self) { for (unsigned i = 0; i < env_count; i++) if (envs[i]->sh == self) return envs[i]; return NULL; }
static int env_read(struct ush_object *self, char *ch)
{
        struct env *e = env_of(self);
        sym_check(e != NULL, "io.read called with a foreign shell object");
        e->reads++; e->c_reads++;
        if (e->feed_pos >= e->feed_len || (e->read_hook != NULL && e->read_hook(e) == 0)) { e->read_empty++; return 0; }
        *ch = (char)e->feed[e->feed_pos++];
        return 1;
}
static int env_write(struct ush_object *self, char ch)
{
        struct env *e = env_of(self);
        sym_check(e != NULL, "io.write called with a foreign shell object");
        e->writes++; e->c_writes++;
        if (e->write_hook != NULL && e->write_hook(e, ch) == 0) { e->write_refused++; return 0; }
        sym_check(e->out_n < OUTMAX, "unbounded output (harness output record full)");
        e->out[e->out_n++] = (uint8_t)ch;
        if (!env_quiet) sym_log((uint8_t)ch);
        return 1;
}
static const struct ush_io_interface env_io = { .read = env_read, .write = env_write };
/* allocate everything; contents of object and buffers are indeterminate */
static struct env *env_new(size_t in_size, size_t out_size, size_t path_max, const char *host)
{
        struct env *e = calloc(1, sizeof(*e));
        e->sh = malloc(sizeof(struct ush_object));
        e->desc = calloc(1, sizeof(struct ush_descriptor));
        e->in_buf = malloc(in_size); e->out_buf = malloc(out_size);
        e->desc->io = &env_io;
        e->desc->input_buffer = e->in_buf; e->desc->input_buffer_size = in_size;
        e->desc->output_buffer = e->out_buf; e->desc->output_buffer_size = out_size;
        e->desc->path_max_length = path_max;
        e->desc->hostname = (char*)host;
        envs[env_count++] = e;
        return e;
}
#ifndef SERVICE_BEGIN
#define SERVICE_BEGIN
#define SERVICE_END
#endif
static bool env_service(struct env *e) { e->c_reads = 0; e->c_writes = 0; e->calls++; SERVICE_BEGIN bool r = ush_service(e->sh); SERVICE_END return r; }
/* service until the shell has tried to read and found nothing */
static bool env_try_idle(struct env *e, unsigned max)
{
        while (max-- > 0) { unsigned k = e->read_empty; env_service(e); if (e->read_empty != k && e->feed_pos >= e->feed_len) return true; }
        return false;
}
#ifndef IDLE_MAX
#define IDLE_MAX 4000
#endif
static void env_idle(struct env *e) { bool ok = env_try_idle(e, IDLE_MAX); sym_check(ok, "shell does not become idle (no return to reading input)"); }
static void env_feed(struct env *e, const void *p, size_t n) { e->feed = p; e->feed_len = n; e->feed_pos = 0; }
static void env_type(struct env *e, const void *p, size_t n) { env_feed(e, p, n); env_idle(e); }
static void env_types(struct env *e, const char *s) { env_type(e, s, strlen(s)); }
static void env_clear(struct env *e) { e->out_n = 0; }

struct sb { uint8_t b[OUTMAX]; size_t n; };
static void sb_c(struct sb *s, uint8_t c) { s->b[s->n++] = c; }
static void sb_b(struct sb *s, const void *p, size_t n) { for (size_t i = 0; i < n; i++) s->b[s->n++] = ((const uint8_t*)p)[i]; }
static void sb_s(struct sb *s, const char *p) { sb_b(s, p, strlen(p)); }
#ifdef STYLES
#define ST_MAG "\x1B[35m"
#define ST_RST "\x1B[0m"
#define ST_GRN "\x1B[32m"
#define ST_YEL "\x1B[33m"
#else
#define ST_MAG ""
#define ST_RST ""
#define ST_GRN ""
#define ST_YEL ""
#endif
static void sb_prompt(struct sb *s, const char *host, const char *dir) { sb_s(s, ST_MAG "["); sb_s(s, host); sb_c(s, ' '); sb_s(s, dir); sb_s(s, "]$ " ST_RST); }
#define BANNER USH_NAME " " USH_VERSION "\r\n"
static bool out_is(struct env *e, const struct sb *x) { return e->out_n == x->n && memcmp(e->out, x->b, x->n) == 0; }
/* compare and clear the recorded output */
#define expect_out(e, x, msg) do { sym_check((e)->out_n == (x)->n, msg " (length)"); sym_check(memcmp((e)->out, (x)->b, (x)->n) == 0, msg); (e)->out_n = 0; } while (0)
#ifdef __GNUC__
__attribute__((unused)) static void *env_unused_[] = { (void*)env_new, (void*)env_types, (void*)env_clear, (void*)sb_prompt, (void*)out_is, (void*)env_idle };
#endif
#endif
