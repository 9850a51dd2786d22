/* C33: what the caller supplies to be read is never written.  Descriptor, I/O interface, host
 * name, file lists, names, texts, paths and getter data are read-only objects here, so that the
 * bounds and write check of every access decides the property; data with symbolic bytes is
 * compared with a copy after every service call. */
#define OUTMAX 4096
#include "world.h"
#ifndef K
#define K 2
#endif
#ifndef S
#define S 1
#endif
static const char *const lines[] = { LINES };
#define NL (sizeof(lines) / sizeof(lines[0]))
static uint8_t key[K][64];
static char in_buf[40], out_buf[64];
static const char chost[] = "ho";
static const struct ush_descriptor cdesc = { .io = &env_io, .input_buffer = in_buf, .input_buffer_size = sizeof(in_buf), .output_buffer = out_buf, .output_buffer_size = sizeof(out_buf), .path_max_length = 32, .hostname = (char*)chost, .exec = f_hook };
static uint8_t data[6], copy[6];
static char text[4], tcopy[4];
static const uint8_t rdata[] = { 'r', 0, '\\', 'x', 0x41, '"' };
static const fd_t w_new[] = { { .name = "nn", .exec = f_exec, .description = "new", .get_data = f_get }, { .name = "f", .exec = f_exec } };
static struct ush_node_object n_new[K];
static const fd_t *const lists[] = { w_root, w_d, w_e, NULL }; static const size_t sizes[] = { 3, 3, 1, 0 }; static const char *const npaths[] = { "/", "/d", "/d/e", "/b" };
static struct ush_node_object *const nodes[] = { &n_root, &n_d, &n_e, &n_b };
static void same(void)
{
        sym_check(memcmp(data, copy, 6) == 0, "data supplied by a getter was modified"); sym_check(memcmp(text, tcopy, 4) == 0, "a printed text was modified");
        for (unsigned i = 0; i < 4; i++) if (nodes[i]->path != NULL) sym_check((nodes[i]->file_list == lists[i]) & (nodes[i]->file_list_size == sizes[i]) & (nodes[i]->path == npaths[i]), "a mounted node was modified");
}
static void run(struct env *e) { for (unsigned i = 0; i < 6000; i++) { unsigned k = e->read_empty; env_service(e); same(); if (e->read_empty != k && e->feed_pos >= e->feed_len) return; } sym_check(0, "shell does not become idle"); }
void harness(void)
{
        struct env *e = env_new(4, 4, 4, chost);
        e->desc = (struct ush_descriptor *)&cdesc;
        world_files(); cb_shell = e->sh;
        memcpy(data, rdata, 6); sym_bytes(data, S); memcpy(copy, data, 6); beh[W_G].data = data; beh[W_G].n = 6; beh[W_Q].data = rdata; beh[W_Q].n = sizeof(rdata);
        strcpy(text, "ab"); sym_bytes(text, S / 2); memcpy(tcopy, text, 4); beh[W_P].text = text; beh[W_U2].text = text;
        ush_init(e->sh, e->desc);
        ush_commands_add(e->sh, &n_g1, w_grp1, 2); ush_commands_add(e->sh, &n_g2, w_grp2, 2);
        for (unsigned i = 0; i < 4; i++) { static const unsigned o[] = { 0, 1, 3, 2 }; sym_check(ush_node_mount(e->sh, npaths[o[i]], nodes[o[i]], lists[o[i]], sizes[o[i]]) == USH_STATUS_OK, "mount"); }
        env_feed(e, NULL, 0); run(e);
        for (unsigned k = 0; k < K; k++) {
                unsigned c = sym_choice(NL + 8, "line or call");
                switch (c - NL) {
                case 0: ush_print(e->sh, text); run(e); continue;
                case 1: ush_print_no_newline(e->sh, text); run(e); continue;
                case 2: ush_printf(e->sh, "%s %s %d", text, chost, 5); run(e); continue;
                case 3: ush_node_mount(e->sh, "/d/n", &n_new[k], w_new, 2); continue;
                case 4: ush_node_unmount(e->sh, "/d/e"); continue;
                case 5: ush_commands_add(e->sh, &n_new[k], w_new, 2); continue;
                case 6: ush_commands_remove(e->sh, &n_g1); continue;
                case 7: ush_reset(e->sh); run(e); continue;
                default: break;
                }
                const char *l = lines[c]; size_t n = 0;
                for (; l[n]; n++) { key[k][n] = (uint8_t)l[n]; if (l[n] == '?') sym_bytes(&key[k][n], 1); }
                env_feed(e, key[k], n); run(e);
        }
        sym_reach("done");
}
