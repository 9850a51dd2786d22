/* Native runtime: feeds recorded inputs, used for replay and trace validation. */
#include "sym.h"
#include <signal.h>
#include <unistd.h>
#include <stdarg.h>
static unsigned char in[65536]; static size_t n_in, p_in;
static uint64_t logv[1 << 20]; static size_t n_log;
static void dump(void)
{
        const char *f = getenv("SYM_LOG");
        if (f == NULL) return;
        FILE *o = fopen(f, "w");
        if (o == NULL) return;
        for (size_t i = 0; i < n_log; i++) fprintf(o, "%llu\n", (unsigned long long)logv[i]);
        fclose(o);
}
static uint8_t next(void) { return p_in < n_in ? in[p_in++] : 0; }
void sym_bytes_(void *p, size_t n, const char *name) { (void)name; for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = next(); }
unsigned sym_choice_(unsigned n, const char *name) { (void)name; unsigned v = next(); return v < n ? v : 0; }
void sym_assume(int c) { if (!c) { printf("SYM: assumption violated by the given inputs\n"); fflush(stdout); dump(); _exit(77); } }
void sym_check_(int c, const char *msg) { if (!c) { printf("SYM: CHECK FAILED: %s\n", msg); fflush(stdout); dump(); _exit(99); } }
void sym_reach(const char *l) { (void)l; }
void sym_log(uint64_t v) { if (n_log < sizeof(logv) / sizeof(logv[0])) logv[n_log++] = v; }
void ush_sym_assert_failed(const char *f, int l) { printf("SYM: INTERNAL ASSERTION FAILED: %s:%d\n", f, l); fflush(stdout); dump(); _exit(97); }
/* stack use: the region below the caller is painted; AddressSanitizer moves variables away, so it is not measured there */
#define PAINT (160 * 1024 / 8)
static uint64_t *top;
#if !__has_feature(address_sanitizer)
__attribute__((noinline, no_sanitize("memory", "undefined"))) void sym_stack_mark(void) { top = (uint64_t *)((uintptr_t)__builtin_frame_address(0) & ~(uintptr_t)15) - 64; for (volatile uint64_t *p = top; p > top - PAINT; p--) *p = 0xA5A5A5A5A5A5A5A5u; }
__attribute__((noinline, no_sanitize("memory", "undefined"))) uint64_t sym_stack_peak(void) { volatile uint64_t *p = top - PAINT + 1; while (p < top && *p == 0xA5A5A5A5A5A5A5A5u) p++; return (uint64_t)(top - (uint64_t *)p) * 8; }
#else
void sym_stack_mark(void) { }
uint64_t sym_stack_peak(void) { return 0; }
#endif
static int sealed;
void sym_heap_seal(int on) { sealed = on; }
static void alloc_check(void) { if (sealed) { printf("SYM: CHECK FAILED: dynamic allocation\n"); fflush(stdout); dump(); _exit(99); } }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) { alloc_check(); return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { alloc_check(); return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { alloc_check(); return __real_realloc(p, n); }
char *__wrap_strdup(const char *p) { alloc_check(); return __real_strdup(p); }
char *__wrap_strndup(const char *p, size_t n) { alloc_check(); return __real_strndup(p, n); }
static void hang(int s) { (void)s; static const char m[] = "SYM: HANG (time limit)\n"; if (write(1, m, sizeof(m) - 1)) {} _exit(98); }
int main(int argc, char **argv)
{
        if (argc > 1) {
                FILE *f = fopen(argv[1], "r"); int v;
                if (f == NULL) { printf("cannot open %s\n", argv[1]); return 2; }
                while (n_in < sizeof(in) && fscanf(f, "%d", &v) == 1) in[n_in++] = (unsigned char)v;
                fclose(f);
        }
        signal(SIGALRM, hang); alarm(20);
        harness(); sealed = 0;
        dump();
        printf("SYM: harness finished\n");
        return 0;
}
