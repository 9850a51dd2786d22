/* C28: path helpers agree with one another for every canonical absolute path. */
#include "sym.h"
#include <microshell.h>
#include "inc/ush_utils.h"
#ifndef N
#define N 6
#endif
static uint8_t sym[N + 1];
static char *exact(const char *s, size_t n) { char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void harness(void)
{
#ifdef LONG             /* M components of W characters, one byte of the whole arbitrary */
        static const uint16_t ws[] = { 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300 }; static const uint16_t ms[] = { 1, 2, 3, 5, 17, 33, 100, 128, 255, 256, 257, 300 };
        size_t cw = ws[sym_choice(sizeof(ws) / 2, "component length")], m = ms[sym_choice(sizeof(ms) / 2, "components")], n = m * (cw + 1);
        if (n > N) return;
        for (size_t i = 0; i < n; i++) sym[i] = (uint8_t)(i % (cw + 1) == 0 ? '/' : 'a' + i % 26);
        static const uint16_t at[] = { 1, 2, 16, 33, 64, 129, 254, 255, 256, 511, 1300 }; size_t a = at[sym_choice(11, "position")]; if (a >= n) a = n - 1;
        sym_bytes(sym + a, 1);
#else
        size_t n = 1 + sym_choice(N, "length");
        sym_bytes(sym, n);
#endif
#ifdef ALPHA
        for (size_t i = 0; i < n; i++) { bool ok = false; for (const char *a = ALPHA; *a; a++) ok |= sym[i] == (uint8_t)*a; sym_assume(ok); }
#endif
        sym_assume(sym[0] == '/');
        for (size_t i = 1; i < n; i++) { sym_assume(sym[i] != 0); sym_assume(!((sym[i] == '/') & (sym[i - 1] == '/'))); }
        if (n > 1) sym_assume(sym[n - 1] != '/');
        char *path = exact((char*)sym, n); char *keep = exact((char*)sym, n);
        /* oracle: components */
        size_t comp = 0, last = 0; size_t end[N + 2]; end[0] = 1;
        for (size_t i = 1; i < n; i++) if (sym[i] == '/') { end[++comp] = i; last = i; }
        if (n > 1) end[++comp] = n;
        sym_check(ush_utils_get_path_levels_count(path) == comp, "number of levels");
        sym_reach(comp == 0 ? "root" : comp == 1 ? "one level" : "several levels");
        char *l = ush_utils_path_last(path);
        sym_check(l == (n == 1 ? path : path + last + 1), "last component");
        /* every level, written into a buffer of exactly the needed size */
        char *prev = NULL; size_t prevn = 0;
        for (size_t k = 0; k <= comp; k++) {
                size_t need = end[k]; char *o = malloc(need + 1); memset(o, 'Z', need + 1);
                ush_utils_get_path_level(k, path, o);
                sym_check(strlen(o) == need, "length of a level prefix");
                sym_check(memcmp(o, sym, need) == 0, "level prefix");
                sym_check(ush_utils_get_path_levels_count(o) == k, "levels of a level prefix");
                if (prev) sym_check(memcmp(prev, o, prevn) == 0, "a level is not a prefix of the next");
                if (k == comp) sym_check(memcmp(o, path, n + 1) == 0, "the last level is not the path");
                prev = o; prevn = need;
        }
        /* more levels than exist: the whole path, nothing further read or written */
        { char *o = malloc(n + 1); ush_utils_get_path_level(comp + 1 + sym_choice(2, "extra levels"), path, o); sym_check(memcmp(o, path, n + 1) == 0, "level beyond the last"); }
        sym_check(memcmp(path, keep, n + 1) == 0, "a helper changed its input");
        if (n > 1) {
                char *up = exact((char*)sym, n); ush_utils_path_upper(up);
                size_t pn = comp == 1 ? 1 : last;
                sym_check(strlen(up) == pn, "length of the parent"); sym_check(memcmp(up, sym, pn) == 0, "parent");
                char *ps = exact(up, pn), *ln = exact((char*)sym + last + 1, n - last - 1);
                char *j = malloc(n + 1); memset(j, 'Z', n + 1);
                ush_utils_join_path(ps, ln, j);
                sym_check(memcmp(j, path, n + 1) == 0, "joining parent and last component does not give the path");
                sym_check(memcmp(ps, sym, pn) == 0, "join changed its input");
                char *lv = malloc(n + 1); ush_utils_get_path_level(comp - 1, path, lv);
                sym_check(strcmp(lv, up) == 0, "the parent is not the previous level");
                bool st = true; sym_check(ush_utils_startswith(path, up) == st, "the parent is not a prefix");
                /* nothing to collapse unless a component is . or .. */
                bool dots = false; for (size_t k = 1; k <= comp; k++) { size_t b = k == 1 ? 1 : end[k - 1] + 1, m = end[k] - b; if (m == 1) dots |= sym[b] == '.'; if (m == 2) dots |= (sym[b] == '.') & (sym[b + 1] == '.'); }
                if (!dots) { char *cin = exact((char*)sym, n), *co = malloc(n + 1); ush_utils_get_collapse_path(cin, co); sym_check(memcmp(co, path, n + 1) == 0, "collapsing changed a canonical path"); sym_reach("canonical"); }
        } else { char *up = exact("/", 1); ush_utils_path_upper(up); sym_check(up[0] == 0, "parent of the root"); }
        sym_reach("done");
}
