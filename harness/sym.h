/* Interface between harnesses and the two ways of running them:
 * symbolically (engine/ushsym) and natively (replay of concrete inputs). */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
void sym_bytes_(void *p, size_t n, const char *name);     /* n arbitrary bytes */
unsigned sym_choice_(unsigned n, const char *name);       /* arbitrary value in [0,n), forked */
void sym_assume(int cond);
void sym_check_(int cond, const char *msg);               /* the assertion */
void sym_reach(const char *label);                        /* reachability witness */
void sym_log(uint64_t v);                                 /* observation, compared with the native run */
void sym_stack_mark(void);                                /* stack use is counted from here */
uint64_t sym_stack_peak(void);                            /* most bytes of stack used since the mark */
void sym_heap_seal(int on);                               /* from here on an allocation is a violation */
#define sym_bytes(p, n) sym_bytes_((p), (n), #p)
#define sym_choice(n, name) sym_choice_((n), (name))
#define sym_check(c, msg) sym_check_((c) ? 1 : 0, msg)
static inline uint8_t sym_u8_(const char *n) { uint8_t x; sym_bytes_(&x, 1, n); return x; }
#define sym_u8(name) sym_u8_(name)
void harness(void);
#endif
