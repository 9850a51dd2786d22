/* C35: the string helpers for applications do what their documentation says, for every string,
 * with buffers of exactly the needed size, and leave their inputs alone. */
#include "sym.h"
#include <microshell.h>
#include "inc/ush_utils.h"
#ifndef L
#define L 6
#endif
static uint8_t a[L + 1], b[L + 1];
static char *exact(const uint8_t *p, size_t n) { char *q = malloc(n + 1); memcpy(q, p, n); q[n] = 0; return q; }
static size_t text(uint8_t *p, size_t max) { size_t n = sym_choice((unsigned)max + 1, "length"); sym_bytes(p, n); for (size_t i = 0; i < n; i++) sym_assume(p[i] != 0); return n; }
static unsigned nib(uint8_t c) { unsigned v = 0; if (c >= '0') if (c <= '9') v = c - '0'; if (c >= 'a') if (c <= 'f') v = c - 'a' + 10u; if (c >= 'A') if (c <= 'F') v = c - 'A' + 10u; return v; }
static size_t decode(const uint8_t *p, size_t n, uint8_t *o)            /* documented format, without limit */
{
        size_t k = 0;
        for (size_t i = 0; i < n; ) {
                if (p[i] != '\\') { o[k++] = p[i++]; continue; }
                if (i + 1 >= n) break;
                if (p[i + 1] != 'x') { o[k++] = p[i + 1]; i += 2; continue; }
                if (i + 3 >= n) break;
                o[k++] = (uint8_t)(nib(p[i + 2]) * 16 + nib(p[i + 3])); i += 4;
        }
        return k;
}
void harness(void)
{
        switch (sym_choice(6, "helper")) {
        case 0: {
                size_t n = text(a, L); uint8_t o[L + 1]; size_t k = decode(a, n, o);
                unsigned way = sym_choice(L + 3, "room");            /* the last: decoded in place, as echo does */
                if (way < L + 2) {
                        char *in = exact(a, n); uint8_t *out = malloc(way ? way : 1); size_t r = ush_utils_decode_ascii(in, way ? out : out + 1, way);
                        size_t want = k < way ? k : way; sym_check(r == want, "decode: number of bytes"); sym_check(memcmp(out, o, want) == 0, "decode: bytes"); sym_check(memcmp(in, a, n) == 0 && in[n] == 0, "decode: the input changed"); sym_reach("decoded");
                } else {
                        char *in = exact(a, n); size_t r = ush_utils_decode_ascii(in, (uint8_t*)in, n);
                        sym_check(r == k, "decode in place: number of bytes"); sym_check(memcmp(in, o, k) == 0, "decode in place: bytes"); sym_reach("decoded in place");
                }
                break; }
        case 1: {
                size_t n = text(a, 4), m = text(b, 4); char *in = exact(a, n), *pre = exact(b, m); bool same = m <= n; for (size_t i = 0; i < m && i < n; i++) if (a[i] != b[i]) same = false;
                sym_check(ush_utils_startswith(in, pre) == same, "startswith"); sym_check(memcmp(in, a, n) == 0 && memcmp(pre, b, m) == 0, "startswith: an argument changed"); sym_reach("prefix"); break; }
        case 2: {
                size_t n = text(a, L), k = 0; for (size_t i = 0; i < n; i++) if (a[i] == ' ') k = i + 1;
                char *in = exact(a, n); sym_check(ush_utils_get_last_arg(in) == in + k, "last argument"); sym_check(memcmp(in, a, n) == 0, "last argument: the input changed"); sym_reach("last argument"); break; }
        case 3: { uint8_t c; sym_bytes(&c, 1); bool p = true; if (c < 0x20) p = false; if (c > 0x7E) p = false; sym_check(ush_utils_is_printable(c) == p, "printable"); sym_reach("printable"); break; }
        case 4: {
                size_t n = text(a, 4), m = text(b, 3); sym_assume(n > 0); if (n > 1) sym_assume(a[n - 1] != (uint8_t)0x2F); bool root = false; if (n == 1) if (a[0] == '/') root = true;
                char *in = exact(a, n), *name = exact(b, m); size_t len = n + m + (root ? 0 : 1); char *out = malloc(len + 1), w[12]; memcpy(w, a, n); size_t j = n; if (!root) w[j++] = '/'; memcpy(w + j, b, m); w[len] = 0;
                ush_utils_join_path(in, name, out); sym_check(memcmp(out, w, len + 1) == 0, "join"); sym_check(memcmp(in, a, n) == 0 && memcmp(name, b, m) == 0, "join: an argument changed"); sym_reach("joined"); break; }
        case 5: {       /* last part and parent of relative and absolute paths */
                size_t n = 1 + text(a + 1, L - 1); sym_bytes(a, 1); sym_assume(a[0] != 0); size_t k = 0, last = n; for (size_t i = 0; i < n; i++) if (a[i] == '/') { last = i; k = i + 1; }
                if (n > 1) sym_assume(a[n - 1] != '/');
                char *in = exact(a, n); size_t at = n == 1 ? 0 : k; sym_check(ush_utils_path_last(in) == in + at, "last part"); sym_check(memcmp(in, a, n) == 0, "last part: the input changed");
                if (n > 1 && last < n) { for (size_t i = 0; i + 1 < n; i++) if (a[i] == '/') sym_assume(a[i + 1] != '/'); ush_utils_path_upper(in); size_t u = last == 0 ? 1 : last; sym_check(memcmp(in, a, u) == 0 && in[u] == 0, "parent"); sym_reach("parent"); }
                break; }
        }
        sym_reach("done");
}
