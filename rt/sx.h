/* Harness interface.  The same harness runs under the symbolic executor (symx) and natively (replay). */
#ifndef SX_H
#define SX_H
#include <stddef.h>
void sx_sym(void* p, size_t n, const char* name);          /* n arbitrary bytes */
int sx_choose(int n, const char* name);                    /* one of 0..n-1, each explored on its own paths */
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_fail(const char* msg);
void sx_reach(const char* label);                          /* vacuity witness */
void sx_observe(const char* name, int v);                  /* compared between the encoding and the native run */
void sx_observe_bytes(const char* name, const void* p, size_t n);
void sx_touch(const void* p, size_t n);                    /* all n bytes must be readable and initialised */
void sx_no_leaks(const char* what);                        /* no live heap blocks */
int sx_live(void);                                         /* number of live heap blocks */
int sx_same(const void* a, const void* b, size_t n);       /* are n bytes equal? (one expression, no forks) */
int sx_param(const char* name, int dflt);
int sx_concrete(int v);                                    /* split into the feasible values */
void sx_threads(void (*a)(void), void (*b)(void));          /* both, in any interleaving that the bounds allow; returns when both are done */
int sx_native(void);                                       /* 1 when running natively */

/* files, by name.  symbolically and in fault runs: the model of fs.c; natively: real files in a scratch directory */
void fs_put(const char* name, const void* data, int n);
int fs_size(const char* name);                             /* -1: no such file */
const unsigned char* fs_data(const char* name);
int fs_open_handles(void);
int fs_count(void);                                        /* files that exist (without temporary ones) */
/* faults (model only) */
void fs_fault_at(int op);                                  /* the op-th fallible stdio call from now on fails (0: the first); -1: none */
void fs_full_at(int write);                                /* this and every later write fails (no space left) */
int fs_faulted(void);                                      /* has it failed? */
int fs_destructive_before_fault(void);                     /* was a named file already opened for overwriting (or written to) when it failed? */
int fs_ops(void);
void fs_protect(const char* name);                         /* file can be opened for reading only */
#endif
