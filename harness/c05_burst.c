/* C05 with long stalls: from any point (grid STRIDE) of the output on, B writes in a row are
 * refused, or every P-th write is refused for the whole output, or reads are delayed B times;
 * in the large world.  Output and events equal the model's. */
#ifdef FAR
#define IDLE_MAX 500000
#endif
#include "big.h"
#ifndef STRIDE
#define STRIDE 7
#endif
#ifndef STARTS
#define STARTS 40
#endif
#ifdef FAR              /* stalls longer than any 8- or 16-bit counter: of the output, or before a typed byte */
static const unsigned bursts[] = { 1030, 66000 };
#define NBURST 2
#else
static const unsigned bursts[] = { 1, 2, 3, 7, 33, 129, 260, 0 /* periodic */ };
#define NBURST 8
#endif
static const char *const lines[] = { LINES };
static unsigned start, burst, period, w, rd, dl; static bool on, used;
static int refuse(struct env *e, char c)
{
        (void)e; (void)c; if (!on) return 1;
        unsigned k = w++;
        if (period) { if (k % period == period - 1) { used = true; return 0; } return 1; }
        if (k >= start && k < start + burst) { used = true; return 0; }
        return 1;
}
static int delay(struct env *e) { (void)e; if (!on || dl == 0) return 1; return rd++ % (dl + 1) == dl; }
void harness(void)
{
        struct env *e = env_new(700, 600, 512, "h");
        struct ref *r = big(e, true);
        e->write_hook = refuse; e->read_hook = delay;
        const char *l = lines[sym_choice(sizeof(lines) / sizeof(lines[0]), "line")];
        burst = bursts[sym_choice(NBURST, "burst")];
        if (burst == 0) { static const unsigned ps[] = { 2, 3, 5, 16 }; unsigned i = sym_choice(4, "period"); period = ps[i]; dl = i; }
        else start = STRIDE * sym_choice(STARTS, "start");
        sym_bytes(blob, 1); sym_bytes(blob + 299, 1);
#ifdef FAR
        if (sym_choice(2, "stalled side")) { size_t half = sym_choice(4, "bytes before the silence"); both_keys(e, r, l, half); l += half; for (unsigned i = 0; i < burst; i++) sym_check(!env_service(e), "busy without input"); ref_agree(r, e, "silence"); start = ~0u; used = true; }
#endif
        on = true; both_types(e, r, l); on = false;
        if (used) sym_reach("refused");
        if (burst >= 129 && used) sym_reach("long stall");
        ref_agree(r, e, "command under back-pressure");
        both_types(e, r, "k08 a\r"); ref_agree(r, e, "following command");
        sym_reach("done");
}
