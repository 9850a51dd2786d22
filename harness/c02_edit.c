/* C02/C03: any key sequence (no TAB in C02) edits the pending line as documented; what is
 * executed and what the terminal shows agree with the model; the next line works too. */
#include "world.h"
#ifndef N
#define N 4
#endif
#ifndef IN
#define IN 24
#endif
/* VT100: only what an echoing line needs */
static char scr[64]; static size_t col, width, start;
static void vt(const uint8_t *p, size_t n)
{
        for (size_t i = 0; i < n; i++) {
                uint8_t c = p[i];
                if (c == '\b') { if (col > 0) col--; } else if (c == '\r') col = 0; else if (c == '\n') { width = 0; col = 0; }
                else { sym_check(col < sizeof(scr), "harness: screen"); scr[col++] = (char)c; if (col > width) width = col; }
        }
}
static void visible(struct ref *r)
{
        while (width > start && scr[width - 1] == ' ' && width > start + r->n) width--;      /* erased cells */
        sym_check(width == start + r->n, "visible line and pending line differ in length");
        sym_check(memcmp(scr + start, r->line, r->n) == 0, "visible line differs from the pending line");
        sym_check(col == start + r->n, "cursor is not at the end of the pending line");
}
static uint8_t key[N + 4];
void harness(void)
{
        struct env *e = env_new(IN, 64, 32, "h");
        struct ref *r = world(e, true);
        (void)vt; (void)visible;
#ifdef SCREEN
        { struct sb p = { .n = 0 }; sb_prompt(&p, "h", "/"); start = p.n; vt(p.b, p.n); }
#endif
#ifdef PRE
        both_types(e, r, PRE); vt(e->out, e->out_n); ref_agree(r, e, "prefix");
#endif
        size_t n = N;
        sym_bytes(key, n);
        for (size_t i = 0; i < n; i++) {
                uint8_t c = key[i];
                sym_assume(c != 0);
#if defined(EDITKEYS)
                sym_assume((c == 8) | (c == 127) | (c == 27) | (c == '[') | (c == 'O') | ((c >= 'a') & (c <= 'z') & (c != 'x')));
#elif defined(SCREEN)
                sym_assume((c == 8) | (c == 127) | (c == 27) | (c == 9) | ((c >= ' ') & (c < 127)));
#elif defined(PLAIN)
                sym_assume((c != 3) & (c != 8) & (c != 9) & (c != 27) & (c != 127) & (c != 10) & (c != 13) & (c != ' ') & (c != '"') & (c != '\\') & (c != '/') & (c != '.'));
#else
                sym_assume(c != 9);
#endif
#ifdef SCREEN
                env_type(e, &c, 1); ref_key(r, c);
                vt(e->out, e->out_n); visible(r);
                ref_agree(r, e, "key");
                if (r->n >= 3) sym_reach("three characters pending");
#else
                ref_key(r, c);
                if (r->n > IN - 2) return;                                                    /* longer than the buffer: C01 */
#endif
        }
#ifndef SCREEN
        env_type(e, key, n); ref_agree(r, e, "keys");
        if (r->n == 2) sym_reach("two characters pending");
        if (r->esc) sym_reach("inside an escape sequence");
        if (r->executed) sym_reach("executed within");
#endif
        uint8_t end[2]; sym_bytes(end, 1); sym_assume((end[0] == '\r') | (end[0] == '\n') | (end[0] == 3)); end[1] = end[0];
        both_keys(e, r, end, r->esc ? 2 : 1); ref_agree(r, e, "end of line");
        sym_check(r->n == 0, "harness: line not finished");
        both_types(e, r, "u 1\r"); ref_agree(r, e, "following command");
        sym_reach("done");
}
