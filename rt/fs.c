/* Model of the part of stdio (and a few POSIX file calls) that the library can use: files are byte arrays, streams are
 * unbuffered.  Used by the symbolic executor for everything, and natively only to replay fault schedules. */
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "sx.h"
#define NFILES 5
#define NHANDLES 8
#define CAP 2300000
static unsigned char d0[CAP], d1[CAP], d2[CAP], d3[CAP], d4[CAP];
static unsigned char* dat(int f) { return f == 0 ? d0 : f == 1 ? d1 : f == 2 ? d2 : f == 3 ? d3 : d4; }
static struct { int exists, temp, size, prot, links; char name[1200]; } F[NFILES];
static struct { int used, file, rd, wr, app, eof, err, pushed, pc, wrote, flushed; long pos; } H[NHANDLES];
static int fault = -1, op, faulted, destr, destr_fault;
extern int sx_errno;

static int find(const char* name) { for (int i = 0; i < NFILES; i++) if (F[i].exists && !F[i].temp && strcmp(F[i].name, name) == 0) return i; return -1; }
static int create(const char* name) {
    for (int i = 0; i < NFILES; i++) if (!F[i].exists && !F[i].links) { F[i].exists = 1; F[i].size = 0; F[i].temp = name == NULL; F[i].prot = 0; if (name) { size_t n = strlen(name); sx_assert(n < sizeof F[i].name, "model: file name too long"); memcpy(F[i].name, name, n + 1); } return i; }
    sx_fail("model: too many files"); return -1;
}
static int full = -1, wop;
static int boom(void) { int f = op == fault; op++; if (f) { faulted = 1; destr_fault = destr; sx_errno = 5; } return f; }
void fs_put(const char* name, const void* data, int n) { int f = find(name); if (f < 0) f = create(name); memcpy(dat(f), data, n); F[f].size = n; }
int fs_size(const char* name) { int f = find(name); return f < 0 ? -1 : F[f].size; }
const unsigned char* fs_data(const char* name) { int f = find(name); return f < 0 ? NULL : dat(f); }
int fs_open_handles(void) { int n = 0; for (int i = 0; i < NHANDLES; i++) n += H[i].used; return n; }
int fs_count(void) { int n = 0; for (int i = 0; i < NFILES; i++) n += F[i].exists && !F[i].temp; return n; }
static int wboom(void) { int f = full >= 0 && wop >= full; wop++; if (f) { op++; if (!faulted) { faulted = 1; destr_fault = destr; } sx_errno = 28; return 1; } return boom(); }
void fs_full_at(int k) { fs_fault_at(-1); full = k; wop = 0; }
void fs_fault_at(int k) { full = -1; fault = k; op = 0; faulted = 0; destr = 0; destr_fault = 0; }
int fs_faulted(void) { return faulted; }
int fs_destructive_before_fault(void) { return destr_fault; }
int fs_ops(void) { return op; }
void fs_protect(const char* name) { int f = find(name); if (f >= 0) F[f].prot = 1; }

static int isstd(FILE* fp) { return fp == stderr || fp == stdout; }
static int hix(FILE* fp) {
    unsigned long d = (unsigned long)fp - (unsigned long)H; int i = (int)(d / sizeof H[0]);
    if (d >= sizeof H || d % sizeof H[0]) { sx_fail("bad stream passed to stdio"); return -1; }
    if (!H[i].used) sx_fail("use of a closed stream");
    return i;
}
static FILE* handle(int f, int rd, int wr, int app) {
    for (int i = 0; i < NHANDLES; i++) if (!H[i].used) { H[i].used = 1; H[i].file = f; H[i].rd = rd; H[i].wr = wr; H[i].app = app; H[i].eof = H[i].err = H[i].pushed = H[i].wrote = H[i].flushed = 0; H[i].pos = 0; F[f].links++; return (FILE*)&H[i]; }
    sx_fail("model: too many open streams"); return NULL;
}
FILE* sxm_fopen(const char* name, const char* mode) {
    int plus = 0; char m = mode[0]; for (const char* c = mode; *c; c++) if (*c == '+') plus = 1;
    if (name == NULL) { sx_fail("fopen of a null name"); return NULL; }
    if (boom()) return NULL;
    int f = find(name);
    if (m == 'r') { if (f < 0) { sx_errno = 2; return NULL; } if (plus && F[f].prot) { sx_errno = 13; return NULL; } return handle(f, 1, plus, 0); }
    if (f >= 0 && F[f].prot) { sx_errno = 13; return NULL; }
    if (m == 'w') { if (f < 0) f = create(name); else { F[f].size = 0; } destr = 1; return handle(f, plus, 1, 0); }
    if (m == 'a') { if (f < 0) f = create(name); return handle(f, plus, 1, 1); }
    sx_errno = 22; return NULL;
}
FILE* sxm_tmpfile(void) { if (boom()) return NULL; return handle(create(NULL), 1, 1, 0); }
int sxm_fclose(FILE* fp) { int h = hix(fp); int f = H[h].file; int b = H[h].wr ? boom() : 0; H[h].used = 0; F[f].links--; if (F[f].temp && !F[f].links) F[f].exists = 0; return b ? EOF : 0; }
static int get1(int h) {
    if (!H[h].rd) { H[h].err = 1; return EOF; }
    if (H[h].pushed) { H[h].pushed = 0; return H[h].pc; }
    if (boom()) { H[h].err = 1; return EOF; }
    int f = H[h].file; if (H[h].pos >= F[f].size) { H[h].eof = 1; return EOF; }
    return dat(f)[H[h].pos++];
}
static void gap(int f, long pos) { if (pos > F[f].size) { memset(dat(f) + F[f].size, 0, pos - F[f].size); F[f].size = pos; } }
static int put1(int h, int c) {
    if (!H[h].wr) { H[h].err = 1; return EOF; }
    H[h].wrote = 1; H[h].flushed = 0; if (wboom()) { H[h].err = 1; return EOF; }
    int f = H[h].file; unsigned char b = (unsigned char)c; sx_touch(&b, 1); if (!F[f].temp) destr = 1;
    if (H[h].app) H[h].pos = F[f].size;
    if (H[h].pos >= CAP) { sx_fail("model: file too long"); return EOF; }
    gap(f, H[h].pos); dat(f)[H[h].pos++] = b; if (H[h].pos > F[f].size) F[f].size = H[h].pos; return b;
}
int sxm_getc(FILE* fp) { return get1(hix(fp)); }
int sxm_fgetc(FILE* fp) { return get1(hix(fp)); }
int sxm__IO_getc(FILE* fp) { return get1(hix(fp)); }
int sxm_getc_unlocked(FILE* fp) { return get1(hix(fp)); }
int sxm_putc(int c, FILE* fp) { if (isstd(fp)) return c; return put1(hix(fp), c); }
int sxm_fputc(int c, FILE* fp) { if (isstd(fp)) return c; return put1(hix(fp), c); }
int sxm__IO_putc(int c, FILE* fp) { return put1(hix(fp), c); }
int sxm_putc_unlocked(int c, FILE* fp) { return put1(hix(fp), c); }
int sxm_ungetc(int c, FILE* fp) { int h = hix(fp); if (c == EOF || H[h].pushed) return EOF; H[h].pushed = 1; H[h].pc = (unsigned char)c; H[h].eof = 0; return c; }
size_t sxm_fread(void* p, size_t size, size_t n, FILE* fp) {
    int h = hix(fp); if (size == 0 || n == 0) return 0;
    if (!H[h].rd) { H[h].err = 1; return 0; }
    if (boom()) { H[h].err = 1; return 0; }
    int f = H[h].file; size_t done = 0, left = H[h].pos < F[f].size ? F[f].size - H[h].pos : 0, want = size * n; char* o = p;
    if (H[h].pushed && want) { o[0] = H[h].pc; H[h].pushed = 0; done = 1; want--; }
    if (want > left) { want = left; H[h].eof = 1; }
    memcpy(o + done, dat(f) + H[h].pos, want); H[h].pos += want; want += done;
    return size == 1 ? want : want / size;
}
size_t sxm_fwrite(const void* p, size_t size, size_t n, FILE* fp) {
    if (isstd(fp)) return n;
    int h = hix(fp); if (size == 0 || n == 0) return 0;
    if (!H[h].wr) { H[h].err = 1; return 0; }
    H[h].wrote = 1; H[h].flushed = 0; if (wboom()) { H[h].err = 1; return 0; }
    int f = H[h].file; size_t k = size * n; sx_touch(p, k); if (!F[f].temp) destr = 1;
    if (H[h].app) H[h].pos = F[f].size;
    if (k > CAP || H[h].pos + k > CAP) { sx_fail("model: file too long"); return 0; }
    gap(f, H[h].pos); memcpy(dat(f) + H[h].pos, p, k); H[h].pos += k; if (H[h].pos > F[f].size) F[f].size = H[h].pos; return n;
}
int sxm_fputs(const char* s, FILE* fp) { if (isstd(fp)) return 1; return sxm_fwrite(s, 1, strlen(s), fp) == strlen(s) ? 1 : EOF; }
int sxm_vfprintf(FILE* fp, const char* f, va_list v) { if (isstd(fp)) return 0; char b[4096]; int n = vsnprintf(b, sizeof b, f, v); sx_assert(n < (int)sizeof b, "model: long formatted output"); return (int)sxm_fwrite(b, 1, n, fp) == n ? n : -1; }
int sxm_fprintf(FILE* fp, const char* f, ...) { if (isstd(fp)) return 0; va_list v; va_start(v, f); int n = sxm_vfprintf(fp, f, v); va_end(v); return n; }
char* sxm_fgets(char* b, int n, FILE* fp) { int h = hix(fp), i = 0; while (i < n - 1) { int c = get1(h); if (c == EOF) break; b[i++] = c; if (c == '\n') break; } if (!i) return NULL; b[i] = 0; return b; }
// what has been written and flushed is safe: moving about in it does not fail
int sxm_fseek(FILE* fp, long off, int wh) {
    int h = hix(fp); if (!H[h].flushed && boom()) return -1; H[h].flushed = H[h].wrote; long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? H[h].pos - H[h].pushed : F[H[h].file].size;
    if (base + off < 0) { sx_errno = 22; return -1; } H[h].pos = base + off; H[h].eof = 0; H[h].pushed = 0; return 0;
}
int sxm_fseeko(FILE* fp, long off, int wh) { return sxm_fseek(fp, off, wh); }
long sxm_ftell(FILE* fp) { int h = hix(fp); return H[h].pos - H[h].pushed; }
long sxm_ftello(FILE* fp) { return sxm_ftell(fp); }
void sxm_rewind(FILE* fp) { int h = hix(fp); sxm_fseek(fp, 0, SEEK_SET); H[h].err = 0; }
int sxm_feof(FILE* fp) { return H[hix(fp)].eof; }
int sxm_ferror(FILE* fp) { return H[hix(fp)].err; }
void sxm_clearerr(FILE* fp) { int h = hix(fp); H[h].eof = H[h].err = 0; }
int sxm_fflush(FILE* fp) { if (fp == NULL || isstd(fp)) return 0; int h = hix(fp); if (H[h].wr && boom()) { H[h].err = 1; return EOF; } H[h].flushed = H[h].wrote; return 0; }
int sxm_fileno(FILE* fp) { return 100 + hix(fp); }
int sxm_fsync(int fd) { (void)fd; return 0; }
static int trunc_(int f, long n) { if (F[f].prot) { sx_errno = 13; return -1; } if (boom()) return -1; if (!F[f].temp) destr = 1; gap(f, n); F[f].size = n; return 0; }
int sxm_ftruncate(int fd, long n) { if (fd < 100 || fd >= 100 + NHANDLES || !H[fd - 100].used) return -1; return trunc_(H[fd - 100].file, n); }
int sxm_truncate(const char* name, long n) { int f = find(name); if (f < 0) { sx_errno = 2; return -1; } return trunc_(f, n); }
int sxm_access(const char* name, int m) { int f = find(name); if (f < 0 || ((m & 2) && F[f].prot)) { sx_errno = f < 0 ? 2 : 13; return -1; } return 0; }
int sxm_remove(const char* name) { int f = find(name); if (f < 0) { sx_errno = 2; return -1; } if (boom()) return -1; destr = 1; if (F[f].links) F[f].temp = 1; else F[f].exists = 0; return 0; }
int sxm_unlink(const char* name) { return sxm_remove(name); }
int sxm_rename(const char* a, const char* b) {
    int f = find(a); if (f < 0) { sx_errno = 2; return -1; } if (boom()) return -1; int g = find(b); destr = 1;
    if (g >= 0 && g != f) { if (F[g].links) F[g].temp = 1; else F[g].exists = 0; }
    size_t n = strlen(b); sx_assert(n < sizeof F[f].name, "model: file name too long"); memcpy(F[f].name, b, n + 1); return 0;
}
/* file descriptors share the table of streams */
static int fdh(int fd) { if (fd < 100 || fd >= 100 + NHANDLES || !H[fd - 100].used) { sx_errno = 9; return -1; } return fd - 100; }
int sxm_open(const char* name, int fl, ...) {
    if (boom()) return -1; int f = find(name), acc = fl & O_ACCMODE, wr = acc != O_RDONLY;
    if (f < 0 && !(fl & O_CREAT)) { sx_errno = 2; return -1; } if (f >= 0 && (fl & O_CREAT) && (fl & O_EXCL)) { sx_errno = 17; return -1; }
    if (f >= 0 && wr && F[f].prot) { sx_errno = 13; return -1; }
    if (f < 0) f = create(name); else if (fl & O_TRUNC) { F[f].size = 0; destr = 1; }
    FILE* h = handle(f, acc != O_WRONLY, wr, !!(fl & O_APPEND)); return 100 + hix(h);
}
int sxm_open64(const char* name, int fl, ...) { return sxm_open(name, fl); }
int sxm_creat(const char* name, unsigned m) { (void)m; return sxm_open(name, O_WRONLY | O_CREAT | O_TRUNC); }
int sxm_mkstemp(char* t) {
    size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { sx_errno = 22; return -1; } static int k; char* x = t + n - 6; int v = ++k; for (int i = 0; i < 6; i++) { x[i] = 'a' + v % 26; v /= 26; }
    return sxm_open(t, O_RDWR | O_CREAT | O_EXCL);
}
long sxm_read(int fd, void* p, size_t n) { int h = fdh(fd); if (h < 0) return -1; H[h].err = 0; n = sxm_fread(p, 1, n, (FILE*)&H[h]); if (H[h].err) return -1; return n; }
long sxm_write(int fd, const void* p, size_t n) { int h = fdh(fd); if (h < 0) return -1; H[h].err = 0; n = sxm_fwrite(p, 1, n, (FILE*)&H[h]); if (H[h].err) return -1; H[h].flushed = 1; return n; }
long sxm_lseek(int fd, long o, int wh) { int h = fdh(fd); if (h < 0) return -1; if (sxm_fseek((FILE*)&H[h], o, wh)) return -1; return H[h].pos; }
long sxm_pread(int fd, void* p, size_t n, long o) { int h = fdh(fd); if (h < 0) return -1; long q = H[h].pos; H[h].pos = o; long r = sxm_read(fd, p, n); H[h].pos = q; return r; }
long sxm_pwrite(int fd, const void* p, size_t n, long o) { int h = fdh(fd); if (h < 0) return -1; long q = H[h].pos; H[h].pos = o; long r = sxm_write(fd, p, n); H[h].pos = q; return r; }
int sxm_close(int fd) { int h = fdh(fd); if (h < 0) return -1; return sxm_fclose((FILE*)&H[h]); }
FILE* sxm_fdopen(int fd, const char* m) { (void)m; int h = fdh(fd); return h < 0 ? NULL : (FILE*)&H[h]; }
static int stat_(int f, struct stat* st) { memset(st, 0, sizeof *st); st->st_size = F[f].size; st->st_mode = S_IFREG | (F[f].prot ? 0444 : 0644); st->st_nlink = 1; st->st_blksize = 4096; return 0; }
int sxm_stat(const char* name, struct stat* st) { int f = find(name); if (f < 0) { sx_errno = 2; return -1; } return stat_(f, st); }
int sxm_lstat(const char* name, struct stat* st) { return sxm_stat(name, st); }
int sxm_fstat(int fd, struct stat* st) { int h = fdh(fd); return h < 0 ? -1 : stat_(H[h].file, st); }
int sxm_chmod(const char* name, unsigned m) { (void)m; return find(name) < 0 ? -1 : 0; }
int sxm_fchmod(int fd, unsigned m) { (void)m; return fdh(fd) < 0 ? -1 : 0; }
int sxm_fchown(int fd, unsigned u, unsigned g) { (void)u; (void)g; return fdh(fd) < 0 ? -1 : 0; }
FILE* sxm_fopen64(const char* n, const char* m) { return sxm_fopen(n, m); }
FILE* sxm_tmpfile64(void) { return sxm_tmpfile(); }
FILE* sxm_freopen(const char* n, const char* m, FILE* fp) { if (isstd(fp)) return fp; sxm_fclose(fp); return sxm_fopen(n, m); }
int sxm_fseeko64(FILE* fp, long off, int wh) { return sxm_fseek(fp, off, wh); }
long sxm_ftello64(FILE* fp) { return sxm_ftell(fp); }
int sxm_fgetpos(FILE* fp, fpos_t* p) { long v = sxm_ftell(fp); memset(p, 0, sizeof *p); memcpy(p, &v, sizeof v); return 0; }
int sxm_fsetpos(FILE* fp, const fpos_t* p) { long v; memcpy(&v, p, sizeof v); return sxm_fseek(fp, v, SEEK_SET); }
int sxm_feof_unlocked(FILE* fp) { return sxm_feof(fp); }
int sxm_ferror_unlocked(FILE* fp) { return sxm_ferror(fp); }
size_t sxm_fread_unlocked(void* p, size_t a, size_t b, FILE* fp) { return sxm_fread(p, a, b, fp); }
size_t sxm_fwrite_unlocked(const void* p, size_t a, size_t b, FILE* fp) { return sxm_fwrite(p, a, b, fp); }
int sxm_fgetc_unlocked(FILE* fp) { return sxm_getc(fp); }
int sxm_fputc_unlocked(int c, FILE* fp) { return sxm_fputc(c, fp); }
void sxm_flockfile(FILE* fp) { (void)fp; }
void sxm_funlockfile(FILE* fp) { (void)fp; }
int sxm_getw(FILE* fp) { int v; return sxm_fread(&v, sizeof v, 1, fp) == 1 ? v : EOF; }
