/* C library used by the symbolic runs only (native runs use the real one). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include "libc_ctype.h"
typedef unsigned long ulong_t;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i]) != 0) i++; return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i]) != 0) i++; return d + i; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
int sym_is_symbolic(unsigned long);
/* without a fork per character when only the searched character is symbolic */
static int plain(const char *s) { for (;; s++) { if (sym_is_symbolic((unsigned char)*s)) return 0; if (!*s) return 1; } }
#define SELECT(r, s, c) do { unsigned long q_ = -(unsigned long)(*(s) == (char)(c)); (r) = ((r) & ~q_) | ((unsigned long)(s) & q_); } while (0)
char *strchr(const char *s, int c)
{
        if (sym_is_symbolic((unsigned char)c) && plain(s)) { const char *e = s; unsigned long r = 0; while (*e) e++; for (; e >= s; e--) SELECT(r, e, c); return (char*)r; }
        for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; if (n && n <= 64 && sym_is_symbolic((unsigned char)c)) { unsigned long r = 0; for (size_t i = n; i-- > 0;) SELECT(r, (const char*)s + i, c); return (void*)r; } for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
int strncmp(const char*, const char*, size_t);
int memcmp(const void*, const void*, size_t);
void *memcpy(void*, const void*, size_t);
void *malloc(size_t);
void *memset(void*, int, size_t);
void *calloc(size_t a, size_t b) { void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *o, size_t n) { void *p = malloc(n); if (p && o) memcpy(p, o, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char*)h; for (; *h; h++) if (strncmp(h, n, l) == 0) return (char*)h; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
static char *tok; char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); return p ? memcpy(p, s, n) : 0; }
const unsigned short **__ctype_b_loc(void) { static const unsigned short *p = ctab + 128; return &p; }
static int ct(int c) { return (c >= -128 && c < 256) ? ctab[c + 128] : 0; }
int isupper(int c) { return ct(c) & (1 << 8); } int islower(int c) { return ct(c) & (1 << 9); } int isalpha(int c) { return ct(c) & (1 << 10); }
int isdigit(int c) { return (unsigned)c - '0' < 10; } int isxdigit(int c) { return ct(c) & (1 << 12); } int isspace(int c) { return ct(c) & (1 << 13); }
int isprint(int c) { return (unsigned)c - 0x20 < 0x5f; } int isgraph(int c) { return (unsigned)c - 0x21 < 0x5e; } int isblank(int c) { return c == ' ' || c == '\t'; }
int iscntrl(int c) { return (unsigned)c < 0x20 || c == 0x7f; } int ispunct(int c) { return ct(c) & (1 << 2); } int isalnum(int c) { return ct(c) & (1 << 3); }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; } int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
ulong_t strtoul(const char *s, char **e, int base)
{
        const char *p = s; bool neg = false; ulong_t v = 0; while (isspace((unsigned char)*p)) p++;
        if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
        if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
        const char *st = p;
        for (;; p++) { int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10; else break; if (d >= base) break; v = v * base + d; }
        if (e) *e = (char*)(p == st ? s : p);
        return neg ? -v : v;
}
long strtol(const char *s, char **e, int b) { return (long)strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long)strtoul(s, e, b); }
ulong_t __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtoul(s, 0, 10); }
long atol(const char *s) { return (long)strtoul(s, 0, 10); }
/* console output of the host program: ignored */
struct FILE_; struct FILE_ *stdin, *stdout, *stderr;
int printf(const char *f, ...) { (void)f; return 0; }
int fprintf(struct FILE_ *o, const char *f, ...) { (void)o; (void)f; return 0; }
int puts(const char *s) { (void)s; return 0; }
int putchar(int c) { return c; }
int fputs(const char *s, struct FILE_ *o) { (void)s; (void)o; return 0; }
int fputc(int c, struct FILE_ *o) { (void)o; return c; }
int fflush(struct FILE_ *o) { (void)o; return 0; }

struct out { char *p; size_t n, max; bool bounded; };
static void put(struct out *o, char c) { if (!o->bounded || o->n + 1 < o->max) o->p[o->n] = c; o->n++; }
static void pad(struct out *o, char c, int n) { while (n-- > 0) put(o, c); }
static char digit(unsigned d, bool up) { int x = (int)d; return (char)('0' + x + (((9 - x) >> 31) & (up ? 7 : 39))); }
static int fmt(struct out *o, const char *f, va_list ap)
{
        for (; *f; f++) {
                if (*f != '%') { put(o, *f); continue; }
                bool left = false, plus = false, space = false, alt = false, zero = false; int width = 0, prec = -1, len = 0;
                for (f++;; f++) { if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else if (*f == '0') zero = true; else break; }
                if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
                if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
                for (;; f++) { if (*f == 'l') len++; else if (*f == 'h') len--; else if (*f == 'z' || *f == 'j' || *f == 't') len = 1; else break; }
                switch (*f) {
                case '%': put(o, '%'); break;
                case 'c': { if (len >= 1) { unsigned wc = va_arg(ap, unsigned); if (wc >= 128) return -1; if (!left) pad(o, ' ', width - 1); put(o, (char)wc); if (left) pad(o, ' ', width - 1); break; } char c = (char)va_arg(ap, int); if (!left) pad(o, ' ', width - 1); put(o, c); if (left) pad(o, ' ', width - 1); break; }
                case 's': {
                        const char *s = va_arg(ap, const char*); if (!s) s = "(null)"; size_t n = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s);
                        if (!left) pad(o, ' ', width - (int)n);
                        for (size_t i = 0; i < n; i++) put(o, s[i]);
                        if (left) pad(o, ' ', width - (int)n);
                        break;
                }
                case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
                        char tmp[72]; int n = 0; ulong_t v; char sign = 0; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; bool up = *f == 'X';
                        if (*f == 'p') { v = (ulong_t)va_arg(ap, void*); alt = true; }
                        else if (*f == 'd' || *f == 'i') {
                                long s = len >= 1 ? va_arg(ap, long) : len == 0 ? va_arg(ap, int) : len == -1 ? (short)va_arg(ap, int) : (signed char)va_arg(ap, int);
                                if (s < 0) { sign = '-'; v = (ulong_t)0 - (ulong_t)s; } else { v = (ulong_t)s; if (plus) sign = '+'; else if (space) sign = ' '; }
                        } else v = len >= 1 ? va_arg(ap, ulong_t) : len == 0 ? va_arg(ap, unsigned) : len == -1 ? (unsigned short)va_arg(ap, unsigned) : (unsigned char)va_arg(ap, unsigned);
                        if (base == 16 && prec < 0 && zero && !left && !alt && width > 0 && width < 16 && (v >> (4 * width)) == 0) {
                                for (int i = width - 1; i >= 0; i--) put(o, digit((unsigned)(v >> (4 * i)) & 15, up)); /* fixed width: no case split */
                                break;
                        }
                        bool nz = v != 0;
                        if (v == 0 && prec != 0) tmp[n++] = '0';
                        if (base == 10) { if (v <= 0xffffffffu) { unsigned w = (unsigned)v; while (w) { tmp[n++] = digit(w % 10, false); w /= 10; } } else while (v) { tmp[n++] = digit((unsigned)(v % 10), false); v /= 10; } }
                        else if (base == 16) while (v) { tmp[n++] = digit((unsigned)v & 15, up); v >>= 4; }
                        else while (v) { tmp[n++] = digit((unsigned)v & 7, false); v >>= 3; }
                        int pre = (sign ? 1 : 0) + ((alt && base == 16 && nz) ? 2 : 0); int zeros = prec > n ? prec - n : 0;
                        if (alt && base == 8 && zeros == 0 && (n == 0 || tmp[n - 1] != '0')) zeros = 1;
                        if (prec < 0 && zero && !left && width > n + pre) zeros = width - n - pre;
                        if (!left) pad(o, ' ', width - n - pre - zeros);
                        if (sign) put(o, sign);
                        if (alt && base == 16 && nz) { put(o, '0'); put(o, up ? 'X' : 'x'); }
                        pad(o, '0', zeros); for (int i = n - 1; i >= 0; i--) put(o, tmp[i]);
                        if (left) pad(o, ' ', width - n - pre - zeros);
                        break;
                }
                default: return -2;
                }
        }
        return 0;
}
void sym_unsupported_format(void);
int vsnprintf(char *p, size_t max, const char *f, va_list ap)
{
        struct out o = {p, 0, max, true};
        int r = fmt(&o, f, ap);
        if (r == -2) sym_unsupported_format();
        if (max > 0) p[o.n < max ? o.n : max - 1] = 0;
        return r < 0 ? r : (int)o.n; /* -1: wide character not representable in the C locale (EILSEQ) */
}
int vsprintf(char *p, const char *f, va_list ap) { struct out o = {p, 0, 0, false}; int r = fmt(&o, f, ap); if (r == -2) sym_unsupported_format(); p[o.n] = 0; return r < 0 ? r : (int)o.n; }
int snprintf(char *p, size_t max, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(p, max, f, ap); va_end(ap); return r; }
int sprintf(char *p, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(p, f, ap); va_end(ap); return r; }
