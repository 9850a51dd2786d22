/* The large world (big.h): a line from LINES in which
 *   '?'  is any byte but NUL (several allowed; all others concrete),
 *   with ANYPOS: in addition one byte at any position (grid STEP) is replaced by any byte,
 * typed from one of CDS, and everything is compared with the model; then a probe line.
 * ROOM: the line may be longer than the input buffer; only safety and liveness are checked. */
#include "big.h"
#ifndef CDS
#define CDS { "" }
#endif
#ifndef IN
#define IN 700
#endif
#ifndef OUTS
#define OUTS { 600 }
#endif
#ifndef PMAX
#define PMAX 512
#endif
#ifndef STEP
#define STEP 1
#endif
#ifndef AFTER
#define AFTER ""
#endif
static const char *const cds[] = CDS;
static const char *const lines[] = { LINES };
static const size_t outs[] = OUTS;
static uint8_t key[2048];
void harness(void)
{
        struct env *e = env_new(IN, outs[sizeof(outs) / sizeof(outs[0]) == 1 ? 0 : sym_choice(sizeof(outs) / sizeof(outs[0]), "output buffer size")], PMAX, "h");
        struct ref *r = big(e, true);
        both_types(e, r, cds[sizeof(cds) / sizeof(cds[0]) == 1 ? 0 : sym_choice(sizeof(cds) / sizeof(cds[0]), "working directory")]); ref_agree(r, e, "cd");
        const char *l = lines[sym_choice(sizeof(lines) / sizeof(lines[0]), "line")]; size_t n = 0, plain = 0;
        /* %<digit><letter>: rung number letter-'a' of the ladder (1: last character changed), #<3 digits><char>: repeat */
        for (const char *p = l; *p; ) {
                if (*p == '%') { const char *s = names[(p[1] - '0') * LADDERS + (p[2] - 'a')]; for (; *s; s++) key[n++] = (uint8_t)*s; p += 3; }
                else if (*p == '#') { unsigned k = (unsigned)((p[1] - '0') * 100 + (p[2] - '0') * 10 + (p[3] - '0')); const char *q = p + 4; p = strchr(q, '#'); while (k-- > 0) for (const char *t = q; t < p; t++) key[n++] = (uint8_t)*t; p++; }
                else key[n++] = (uint8_t)*p++;
        }
        for (size_t i = 0; i < n; i++) if (key[i] == '?') { sym_bytes(key + i, 1); sym_assume(key[i] != 0); } else plain++;
#ifdef ANYPOS
        size_t step = STEP; while ((n + step - 1) / step > 250) step++;
        size_t at = step * sym_choice((unsigned)((n + step - 1) / step), "changed position"); sym_bytes(key + at, 1); sym_assume(key[at] != 0);
#endif
#ifdef DATA
        static const unsigned at_[] = { DATA };
        unsigned a = at_[sym_choice(sizeof(at_) / sizeof(at_[0]), "symbolic data byte")]; sym_bytes(&blob[a], 1);
#endif
        for (size_t i = 0; i < n; i++) sym_log(key[i]);
#ifdef ROOM
        env_type(e, key, n); env_types(e, "\x03"); e->out_n = 0; ev.n = 0; r->out.n = r->ev.n = 0; r->n = 0; r->esc = 0;
        env_types(e, "\r"); e->out_n = 0; ev.n = 0;
        env_types(e, "k09\r"); ev_exec(&r->ev, 'H', 0, 1, (char *[]){ "k09", NULL }); ev_exec(&r->ev, 'X', B_C3 + 9, 1, (char *[]){ "k09", NULL });
        sym_check(ev.n == r->ev.n, "the next command is not executed (callbacks)"); sym_check(memcmp(ev.b, r->ev.b, ev.n) == 0, "the next command is not executed as typed");
        sym_reach("done"); return;
#endif
        both_keys(e, r, key, n); ref_agree(r, e, "line");
        both_types(e, r, AFTER "\r"); ref_agree(r, e, "execution");
        both_types(e, r, "pwd\r"); ref_agree(r, e, "pwd");
        sym_reach("done");
}
