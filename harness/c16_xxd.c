/* C16: xxd dumps every byte in the documented layout: any length up to LEN, S symbolic
 * bytes anywhere in it (the others fixed), and the dump read back gives the bytes. */
#include "world.h"
#ifndef LEN
#define LEN 17
#endif
#ifndef COLS
#define COLS 8
#endif
#ifndef S
#define S 4
#endif
static uint8_t data[LEN + 1];
static unsigned hexv(uint8_t c) { return c - '0' - (c >= 'A') * 7u; }
void harness(void)
{
        struct env *e = env_new(32, 64, 32, "h");
        struct ref *r = world(e, false);
#ifdef FILL      /* rows that are filled with one or two arbitrary bytes */
        static const unsigned lens[] = FILL; size_t n = lens[sym_choice(sizeof(lens) / sizeof(lens[0]), "length")]; uint8_t v[2]; sym_bytes(v, 2);
        size_t rows_ = (n + COLS - 1) / COLS, from = sym_choice((unsigned)rows_, "first filled row"), many = sym_choice(4, "filled rows"), kind = sym_choice(3, "second byte"); if (many == 3) many = rows_;
        for (size_t i = 0; i < n; i++) { size_t q = i / COLS; data[i] = (uint8_t)(i * 37 + 5); if (q >= from && q <= from + many) data[i] = kind == 0 ? v[0] : kind == 1 ? v[(q - from) & 1] : v[i == n - 1]; }
        beh[W_G].data = data; beh[W_G].n = n;
#else
        size_t n = sym_choice(LEN + 1, "length");
        for (size_t i = 0; i < n; i++) data[i] = (uint8_t)(i * 37 + 5);
        size_t w = n > S ? sym_choice((unsigned)(n - S + 1), "position") : 0, k = n < S ? n : S;
        sym_bytes(data + w, k);
        beh[W_G].data = data; beh[W_G].n = n;
#endif
#ifdef ARGS
        static const char *const cmd[] = { "xxd\r", "xxd g g\r", "xxd zz\r", "xxd f\r", "xxd d\r", "xxd d/q\r", "xxd /g\r", "xxd \"\"\r", "xxd w\r" };
        both_types(e, r, cmd[sym_choice(9, "command")]); ref_agree(r, e, "xxd arguments");
#else
        both_types(e, r, "xxd g\r");
        /* independent of the model: read the bytes back from the hex columns of the dump */
        size_t line = 8 + 2 + 3 * COLS + 1 + COLS + 2, rows = n == 0 ? 1 : (n + COLS - 1) / COLS;
        sym_check(e->out_n == 7 + rows * line + 7, "size of the dump");
        for (size_t i = 0; i < n; i++) { const uint8_t *p = e->out + 7 + (i / COLS) * line + 10 + (i % COLS) * 3; sym_check((uint8_t)(hexv(p[0]) * 16 + hexv(p[1])) == data[i], "byte not reconstructible from the dump"); }
        ref_agree(r, e, "xxd");
        if (n > COLS) sym_reach("several lines");
#endif
        sym_reach("done");
}
