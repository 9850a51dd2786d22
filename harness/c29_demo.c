/* C29: the Linux demo's files store what is written and nothing else changes. */
#define OUTMAX 2048
#include "sym.h"
#include <microshell.h>
#include "shell.h"
#include <time.h>
#ifndef K
#define K 1
#endif
static time_t now = 1000; static unsigned seed = 7;
time_t demo_time(time_t *t) { (void)t; return now; }
int demo_rand(void) { seed = seed * 1103 + 12345; return (int)(seed & 0x7fffffff); }
void demo_srand(unsigned s) { (void)s; seed = 7; }
static uint8_t feed[300]; static size_t feed_n, feed_pos; static uint8_t out[OUTMAX]; static size_t out_n; static unsigned empty;
static int io_read(struct ush_object *s, char *c) { (void)s; if (feed_pos >= feed_n) { empty++; return 0; } *c = (char)feed[feed_pos++]; return 1; }
static int io_write(struct ush_object *s, char c) { (void)s; sym_check(out_n < OUTMAX, "unbounded output"); out[out_n++] = (uint8_t)c; sym_log((uint8_t)c); return 1; }
const struct ush_io_interface g_ush_io_interface = { .read = io_read, .write = io_write };
static void run(void) { for (unsigned i = 0; i < 6000; i++) { unsigned k = empty; shell_service(); if (empty != k) return; } sym_check(0, "the demo does not become idle"); }
static void put(const char *s) { while (*s) feed[feed_n++] = (uint8_t)*s++; }
static void clr(void) { feed_n = feed_pos = 0; out_n = 0; }
/* expected contents */
static uint8_t m_ram[256], m_ee[32], m_rom[1024]; static char m_host[17] = "host";
static uint8_t want[OUTMAX]; static size_t want_n;
static void w_b(const void *p, size_t n) { for (size_t i = 0; i < n; i++) want[want_n++] = ((const uint8_t*)p)[i]; }
static void w_s(const char *s) { w_b(s, strlen(s)); }
static void w_prompt(void) { w_s("["); w_s(m_host); w_s(" /]$ "); }
static void same(const char *msg) { (void)msg; sym_check(out_n == want_n, "demo output (length)"); sym_check(memcmp(out, want, want_n) == 0, "demo output"); }
static void cat(const char *file, const void *p, size_t n) { clr(); want_n = 0; put("cat "); put(file); put("\r"); run(); w_b(feed, feed_n - 1); w_s("\r\n"); w_b(p, n); w_prompt(); same(file); }
static const char *const cfg = "# system configuration\r\nfreq = 16MHz\r\nram = 4kB\r\n";
static const char *const readme = "Welcome to MicroShell DEMO implementation!\r\nYou will see how most common features work.\r\nEnjoy!\r\n";
static void all(void)
{
        cat("/dev/mem/ram", m_ram, 256); cat("/dev/mem/eeprom", m_ee, 32); cat("/etc/hostname", m_host, strlen(m_host));
        cat("/etc/config", cfg, strlen(cfg)); cat("/readme.txt", readme, strlen(readme)); cat("/dev/null", "", 0);
        cat("/dev/mem/rom", m_rom, 1024);
}
struct target { const char *path; int kind; };
static const struct target targets[] = { { "/dev/mem/ram", 1 }, { "/dev/mem/eeprom", 2 }, { "/etc/hostname", 3 }, { "/dev/null", 4 }, { "/dev/mem/rom", 0 }, { "/etc/config", 0 }, { "/readme.txt", 0 }, { "/dev/random", 0 }, { "/bin/print", 0 }, { "/dev/bus/spi", 0 } };
static char text[256];
static void write_one(void)
{
        static const uint8_t lens[] = { LENS };
        const struct target *t = &targets[OVER ? 1 : sym_choice(K == 1 ? 10 : 5, "file")]; size_t n = lens[sym_choice(sizeof(lens), "size")];
        if (t->kind == 0 && n > 2) return;
        if (!OVER && t->kind == 2 && n > 32) return;
        clr(); want_n = 0;
        for (size_t i = 0; i < n; i++) text[i] = (char)('A' + i % 60);
        text[0] = 0;
        unsigned hex = n <= 4 && K == 1 ? sym_choice(2, "coded") : 0;
        if (n) { sym_bytes(text, 1); if (K == 1 && !hex) sym_bytes(text + n - 1, 1); if (hex && n > 1) { text[0] = 0; sym_bytes(text + n - 1, 1); } for (size_t i = 0; i < n; i += n > 1 ? n - 1 : 1) if (!hex) sym_assume((text[i] > 32 || text[i] < 0) & (text[i] != 127) & (text[i] != '"') & (text[i] != '\\')); }
        for (size_t i = 1; i + 1 < n; i++) if ((text[i] == '\\') | (text[i] == '"')) text[i] = 'q';
        text[n] = 0;
        put("echo "); if (n == 0) put("\"\"");
        if (!hex) put(text); else for (size_t i = 0; i < n; i++) { uint8_t c = (uint8_t)text[i], a = c >> 4, b = c & 15; put("\\x"); feed[feed_n++] = a + '0' + 7 * (a > 9); feed[feed_n++] = b + '0' + 39 * (b > 9); }
        put(" > "); put(t->path); put("\r"); run();
        w_b(feed, feed_n - 1); w_s("\r\n");
        switch (t->kind) {
        case 1: memcpy(m_ram, text, n); break;
        case 2: memcpy(m_ee, text, n < 32 ? n : 32); break;
        case 3: { size_t k = n < 16 ? n : 16; memcpy(m_host, text, k); m_host[k] = 0; break; }
        case 0: w_s(strcmp(t->path, "") == 0 ? "" : "error: file not writable\r\n"); break;
        }
        w_prompt(); same("write"); sym_reach(t->kind ? "written" : "refused");
}
void harness(void)
{
        demo_srand(0); for (unsigned i = 0; i < 1024; i++) m_rom[i] = (uint8_t)demo_rand(); memset(m_ee, 0xFF, 32);
        shell_init(); clr(); run();
        w_s(USH_NAME " " USH_VERSION "\r\n"); w_prompt(); same("start");
        for (unsigned i = 0; i < K; i++) write_one();
        all();
        clr(); put("cat /dev/random\r"); run(); sym_check(out_n == 17 + 4 + strlen(m_host) + 6, "random");
        clr(); now += 61; want_n = 0; put("/bin/uptime\r"); run(); w_b(feed, feed_n - 1); w_s("\r\ntime: 61s\r\n"); w_prompt(); same("uptime");
        clr(); want_n = 0; put("/bin/print ab\r"); run(); w_b(feed, feed_n - 1); w_s("\r\nab\r\n"); w_prompt(); same("print");
        clr(); want_n = 0; put("reset\r"); run(); w_s("reset\r\n" USH_NAME " " USH_VERSION "\r\n"); w_prompt(); same("reset");
        sym_reach("done");
}
