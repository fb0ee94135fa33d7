/* The models of libc against libc itself: every value observed here is compared between the symbolic executor and a native run. */
#define _GNU_SOURCE
#include <ctype.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "sx.h"
static void ob(const char* s) { sx_observe_bytes("s", s, strlen(s) + 1); }
static char* fmt(const char* f, ...) { va_list v, w; va_start(v, f); va_copy(w, v); char b[99]; int n = vsnprintf(b, 4, f, v); char* r; if (vasprintf(&r, f, w) != n) sx_fail("vasprintf"); va_end(v); va_end(w); return r; }
static int sum(int n, ...) { va_list v; va_start(v, n); long r = 0; while (n--) { r = r * 10 + va_arg(v, int); r += va_arg(v, long); } va_end(v); return r; }
static int cmpc(const void* a, const void* b) { return *(const unsigned char*)a - *(const unsigned char*)b; }
void rt_strings(void) {
    char b[200], c[40]; unsigned char x[4]; sx_sym(x, 4, "x"); char* e;
    sx_observe("n", snprintf(b, 8, "%s-%03d", "abcdef", 7)); ob(b); snprintf(b, 200, "%5d|%-5d|%x|%X|%lu|%c|%%|%.2s|%*s|%zu", -3, 4, 255, 255, 123456789012ul, 'q', "xyz", 6, "ab", (size_t)9); ob(b);
    snprintf(b, 200, "%c%c", x[0], x[1]); sx_observe_bytes("c", b, 2); sprintf(b, "%02x%02x", x[2] & 15, 3); ob(b);
    char* m = fmt("%s=%d %c %lx", "name", -12, 'x', 1ul << 40); ob(m); free(m); sx_observe("sum", sum(3, x[0], 5l, 2, (long)x[1], -1, -7l));
    sx_observe("atoi", atoi(" -42z")); sx_observe("tol", (int)strtol("0x1fz", &e, 0)); ob(e); sx_observe("l", (int)strlcpy(b, "hello world", 6)); ob(b);
    for (int i = 0; i < 4; i++) { sx_observe("alpha", !!isalpha(x[i])); sx_observe("up", toupper(x[i])); sx_observe("lo", tolower(x[i])); sx_observe("sp", !!isspace(x[i]) + 2 * !!isprint(x[i]) + 4 * !!isxdigit(x[i]) + 8 * !!ispunct(x[i])); }
    strcpy(c, "a,b;;c"); char* st; for (char* t = strtok_r(c, ",;", &st); t; t = strtok_r(NULL, ",;", &st)) ob(t);
    char q[] = "kazbm"; qsort(q, 5, 1, cmpc); ob(q); char k = 'k'; sx_observe("bs", (int)((char*)bsearch(&k, q, 5, 1, cmpc) - q)); ob(strcasestr("fooBAR", "bar")); ob(memrchr("abcabc", 'b', 6));
    ob(strrchr("a.b.c", '.')); sx_observe("cspn", (int)strcspn("abc;d", ";,")); memset(b, 'z', 10); strncpy(b, "ab", 5); sx_observe_bytes("np", b, 8); sx_observe("cmp", strcasecmp("PnG", "png") + 2 * (strncasecmp("JPx", "jpy", 2) != 0)); ob(stpcpy(b, "xyz") - 1);
    sx_reach("done");
}
void rt_files(void) {
    unsigned char d[8], r[20]; sx_sym(d, 8, "d"); fs_put("f", d, 8); struct stat st; sx_observe("st", stat("f", &st)); sx_observe("sz", (int)st.st_size); sx_observe("reg", S_ISREG(st.st_mode)); sx_observe("none", stat("g", &st));
    int fd = open("f", O_RDWR); sx_observe("o", fd >= 0); sx_observe("r", (int)read(fd, r, 3)); sx_observe_bytes("d", r, 3); sx_observe("p", (int)lseek(fd, 0, SEEK_CUR)); sx_observe("w", (int)write(fd, "XY", 2)); sx_observe("p", (int)lseek(fd, -1, SEEK_END)); sx_observe("r", (int)read(fd, r, 9)); sx_observe_bytes("d", r, 1);
    fstat(fd, &st); sx_observe("sz", (int)st.st_size); sx_observe("pr", (int)pread(fd, r, 4, 2)); sx_observe_bytes("d", r, 4); ftruncate(fd, 5); close(fd); sx_observe("sz", fs_size("f"));
    char t[] = "tmpXXXXXX"; fd = mkstemp(t); FILE* f = fdopen(fd, "w+b"); fpos_t pos; fputs("hello", f); fgetpos(f, &pos); fputc('!', f); fsetpos(f, &pos); sx_observe("c", fgetc(f)); sx_observe("e", fgetc(f)); sx_observe("eof", !!feof(f)); fclose(f); sx_observe("sz", fs_size(t)); sx_observe("mv", rename(t, "f")); sx_observe("sz", fs_size("f")); sx_observe_bytes("d", fs_data("f"), 6); sx_observe("cnt", fs_count()); sx_observe("h", fs_open_handles());
    f = fopen("f", "r+b"); fseek(f, 2, SEEK_SET); fputc('L', f); fseek(f, 10, SEEK_SET); fputc('z', f); fclose(f); sx_observe_bytes("d", fs_data("f"), 11); f = fopen("f", "ab"); fputc('A', f); sx_observe("fp", fprintf(f, "<%d:%s>", 42, "txt")); fprintf(stderr, "nothing %p\n", (void*)f); sx_observe("tell", (int)ftell(f)); fclose(f); sx_observe("sz", fs_size("f")); sx_observe("rm", remove("f")); sx_observe("rm", remove("f")); sx_observe("cnt", fs_count()); sx_reach("done");
}
/* floating point (of concrete values), atomics, bit counting */
#include <stdatomic.h>
static double factor = 1.5; static const float fl[] = { 0.5f, 2.25f }; static atomic_int counter; static struct { double d; int i; } pair = { 2.5, 3 };
void rt_arith(void) {
    unsigned char x[2]; sx_sym(x, 2, "x"); int n = sx_choose(5, "n") - 2;
    sx_observe("grow", (int)(n * factor + 0.5)); sx_observe("f", (int)((fl[1] * n - fl[0]) * 100)); sx_observe("cmp", (n / 2.0 < 1.0) + 2 * (n == 1.0) + 4 * (n * 0.5 >= factor)); sx_observe("p", (int)(pair.d * pair.i)); sx_observe("neg", (int)-(double)n); unsigned u = (unsigned)(x[0] & 7); sx_observe("u", (unsigned)(u * 1.25f));
    sx_observe("ceil", (int)__builtin_ceil(n / 3.0) + 10 * (int)__builtin_floor(n / 3.0)); sx_observe("fabs", (int)(__builtin_fabs((double)n) * 10));
    sx_observe("add", atomic_fetch_add(&counter, 3)); sx_observe("now", counter++); sx_observe("or", atomic_fetch_or(&counter, 8)); int e = 1; sx_observe("cas", atomic_compare_exchange_strong(&counter, &e, 9)); sx_observe("e", e); sx_observe("cas", atomic_compare_exchange_strong(&counter, &e, x[1])); sx_observe("now", atomic_load(&counter)); atomic_thread_fence(memory_order_seq_cst);
    sx_observe("pop", __builtin_popcount(x[1])); sx_observe("clz", __builtin_clz(u | 1)); sx_observe("ctz", __builtin_ctz(u | 16)); sx_reach("done");
}
