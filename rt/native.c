/* Native counterpart of the harness interface: replays one input byte stream. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "sx.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define HAS_MSAN 1
#endif
#endif
static unsigned char* in; static long inN, inPos; static long live; static int handles; static FILE* obs;
static void finish(int rc) { fflush(obs); _exit(rc); }
void sx_sym(void* p, size_t n, const char* name) { (void)name; for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = inPos < inN ? in[inPos++] : 0; }
int sx_choose(int n, const char* name) { (void)name; int v = inPos < inN ? in[inPos++] : 0; if (v >= n) { fprintf(obs, "SX-ASSUME choose\n"); finish(77); } return v; }
void sx_assume(int c) { if (!c) { fprintf(obs, "SX-ASSUME\n"); finish(77); } }
void sx_assert(int c, const char* m) { if (!c) { fprintf(obs, "SX-ASSERT %s\n", m); finish(3); } }
void sx_fail(const char* m) { fprintf(obs, "SX-ASSERT %s\n", m); finish(3); }
void sx_reach(const char* l) { fprintf(obs, "SX-REACH %s\n", l); }
void sx_observe(const char* n, int v) { fprintf(obs, "SX-OBS %s %d\n", n, v); fflush(obs); }
void sx_observe_bytes(const char* n, const void* p, size_t k) { fprintf(obs, "SX-OBS %s ", n); for (size_t i = 0; i < k; i++) fprintf(obs, "%02x", ((const unsigned char*)p)[i]); fprintf(obs, "\n"); fflush(obs); }
void sx_touch(const void* p, size_t n) { volatile unsigned char x; for (size_t i = 0; i < n; i++) x = ((const volatile unsigned char*)p)[i]; (void)x;
#ifdef HAS_MSAN
    __msan_check_mem_is_initialized(p, n);
#endif
}
int sx_same(const void* a, const void* b, size_t n) { sx_touch(a, n); sx_touch(b, n); return n == 0 || memcmp(a, b, n) == 0; }
int sx_live(void) { return (int)live; }
void sx_no_leaks(const char* w) { if (live) { fprintf(obs, "SX-LEAK %s: %ld live blocks\n", w, live); finish(3); } }
int sx_param(const char* n, int d) { char b[64]; snprintf(b, 64, "SX_P_%s", n); const char* v = getenv(b); return v ? atoi(v) : d; }
int sx_concrete(int v) { return v; }
int sx_native(void) { return 1; }
int sx_errno;
/* two threads, one of which runs at a time; the other takes over at the blocks of the library that SX_SCHED tells (the first number: who is first) */
static int running = -1, threads; static unsigned blocks, sched[16], nsched, nextSwitch; static char over[2]; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv_ = PTHREAD_COND_INITIALIZER; static void (*fns[2])(void);
static void handOver(int me) { pthread_mutex_lock(&mu); running = 1 - me; pthread_cond_broadcast(&cv_); while (running != me) pthread_cond_wait(&cv_, &mu); pthread_mutex_unlock(&mu); }
static void* body(void* p) { int me = (int)(long)p; pthread_mutex_lock(&mu); while (running != me) pthread_cond_wait(&cv_, &mu); pthread_mutex_unlock(&mu); fns[me](); pthread_mutex_lock(&mu); over[me] = 1; running = over[1 - me] ? 2 : 1 - me; pthread_cond_broadcast(&cv_); pthread_mutex_unlock(&mu); return NULL; }
void __sanitizer_cov_trace_pc_guard_init(unsigned* a, unsigned* b) { (void)a; (void)b; }
static void point(void) { if (!threads) return; blocks++; if (nextSwitch < nsched && blocks == sched[nextSwitch]) { nextSwitch++; if (!over[1 - running]) handOver(running); } }
void __sanitizer_cov_trace_pc_guard(unsigned* g) { (void)g; point(); }
void sx_threads(void (*a)(void), void (*b)(void))
{
    const char* e = getenv("SX_SCHED"); static int parsed; if (!parsed++ && e) { char* p = (char*)e; while (*p && nsched < 16) { sched[nsched++] = strtoul(p, &p, 10); if (*p == ',') p++; } }
    threads = 1; fns[0] = a; fns[1] = b; over[0] = over[1] = 0; pthread_t t[2]; running = -1; for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, body, (void*)i);
    pthread_mutex_lock(&mu); running = nextSwitch < nsched ? (int)sched[nextSwitch++] : 0; pthread_cond_broadcast(&cv_); pthread_mutex_unlock(&mu); for (int i = 0; i < 2; i++) pthread_join(t[i], NULL); threads = 0;
}
/* allocation accounting */
void* rt_malloc(size_t n) { void* p = malloc(n); if (p) live++; return p; }
void* rt_calloc(size_t a, size_t b) { void* p = calloc(a, b); if (p) live++; return p; }
void* rt_realloc(void* q, size_t n) { void* p = realloc(q, n); if (!q && p) live++; return p; }
void rt_free(void* p) { if (p) live--; free(p); }
char* rt_strdup(const char* s) { char* p = strdup(s); if (p) live++; return p; }
char* rt_strndup(const char* s, size_t n) { char* p = strndup(s, n); if (p) live++; return p; }
void* rt_reallocarray(void* q, size_t a, size_t b) { void* p = reallocarray(q, a, b); if (!q && p) live++; return p; }
void* rt_aligned_alloc(size_t a, size_t n) { void* p = aligned_alloc(a, n); if (p) live++; return p; }
int rt_posix_memalign(void** p, size_t a, size_t n) { int r = posix_memalign(p, a, n); if (!r) live++; return r; }
int rt_asprintf(char** s, const char* f, ...) { va_list v; va_start(v, f); int n = vasprintf(s, f, v); va_end(v); if (n >= 0) live++; return n; }
int rt_vasprintf(char** s, const char* f, va_list v) { int n = vasprintf(s, f, v); if (n >= 0) live++; return n; }
void rt_exit(int c) { (void)c; fprintf(obs, "SX-ABORT the library calls exit()\n"); finish(3); }
#ifndef FS_MODEL
FILE* rt_fopen(const char* a, const char* b) { point(); FILE* f = fopen(a, b); if (f) handles++; return f; }
FILE* rt_tmpfile(void) { FILE* f = tmpfile(); if (f) handles++; return f; }
#ifdef HAS_MSAN
size_t rt_fwrite(const void* p, size_t a, size_t b, FILE* f) { __msan_check_mem_is_initialized(p, a * b); return fwrite(p, a, b, f); }
static int pc_(int c, FILE* f) { unsigned char x = (unsigned char)c; __msan_check_mem_is_initialized(&x, 1); return fputc(c, f); }
#else
size_t rt_fwrite(const void* p, size_t a, size_t b, FILE* f) { return fwrite(p, a, b, f); }
static int pc_(int c, FILE* f) { return fputc(c, f); }
#endif
int rt_putc(int c, FILE* f) { return pc_(c, f); }
int rt_fputc(int c, FILE* f) { return pc_(c, f); }
int rt_open(const char* n, int fl, ...) { point(); va_list v; va_start(v, fl); int m = fl & O_CREAT ? va_arg(v, int) : 0; va_end(v); int d = open(n, fl, m); if (d >= 0) handles++; return d; }
int rt_creat(const char* n, mode_t m) { point(); int d = creat(n, m); if (d >= 0) handles++; return d; }
int rt_mkstemp(char* t) { point(); int d = mkstemp(t); if (d >= 0) handles++; return d; }
int rt_remove(const char* n) { point(); return remove(n); }
int rt_unlink(const char* n) { point(); return unlink(n); }
int rt_rename(const char* a, const char* b) { point(); return rename(a, b); }
FILE* rt_freopen(const char* a, const char* b, FILE* f) { point(); return freopen(a, b, f); }
int rt_close(int d) { point(); handles--; return close(d); }
ssize_t rt_write(int d, const void* p, size_t n) {
#ifdef HAS_MSAN
    __msan_check_mem_is_initialized(p, n);
#endif
    return write(d, p, n);
}
int rt_fclose(FILE* f) { point(); handles--; return fclose(f); }
void fs_put(const char* name, const void* d, int n) { for (const char* q = name; (q = strchr(q, '/')) != NULL; q++) { char dir[4096]; snprintf(dir, sizeof dir, "%.*s", (int)(q - name), name); mkdir(dir, 0777); } FILE* f = fopen(name, "wb"); if (!f || (int)fwrite(d, 1, n, f) != n || fclose(f)) { perror("fs_put"); _exit(9); } }
int fs_size(const char* name) { FILE* f = fopen(name, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); int n = ftell(f); fclose(f); return n; }
const unsigned char* fs_data(const char* name) { static unsigned char* b[16]; static int k; int n = fs_size(name); if (n < 0) return NULL; k = (k + 1) % 16; free(b[k]); b[k] = malloc(n + 1); FILE* f = fopen(name, "rb"); if (fread(b[k], 1, n, f) != (size_t)n) _exit(9); fclose(f);
    unsigned char* r = b[k]; return r; }
int fs_open_handles(void) { return handles; }
int fs_count(void) { int n = 0; DIR* d = opendir("."); struct dirent* e; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; closedir(d); return n; }
void fs_fault_at(int k) { (void)k; } void fs_full_at(int k) { (void)k; } int fs_faulted(void) { return 0; } int fs_destructive_before_fault(void) { return 0; } int fs_ops(void) { return 0; } void fs_protect(const char* n) { (void)n; }
#endif
int main(int argc, char** argv) {
    obs = fdopen(dup(1), "w"); if (argc < 3) return 9;
    FILE* f = fopen(argv[2], "rb"); if (!f) return 9; fseek(f, 0, SEEK_END); inN = ftell(f); rewind(f); in = malloc(inN + 1); if (fread(in, 1, inN, f) != (size_t)inN) return 9; fclose(f);
    void (*e)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]); if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 9; }
    e(); fprintf(obs, "SX-DONE\n"); finish(0);
}
