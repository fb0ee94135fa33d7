/* C14: the string utilities, for every content */
#include "ref.h"
#define HAS_BOM(b) ((((b)[0] == 0xFF) & ((b)[1] == 0xFE)) | (((b)[0] == 0xFE) & ((b)[1] == 0xFF)))
/* any bytes, followed by terminators, in a buffer that ends right after the string when it can */
void c14_strlen(void)
{
    int n = lens(sx_param("N", 8)); u8 b[64]; sx_sym(b, n, "string"); int bom = n >= 2 ? HAS_BOM(b) : 0, want; 
    if (bom) { sx_reach("utf-16"); if (n & 1) b[n++] = 0; want = n; b[n] = b[n + 1] = 0; for (int i = n - 2; i >= 0; i -= 2) if (sx_concrete((b[i] | b[i + 1]) == 0)) want = i; }
    else { sx_reach("iso"); want = n; b[n] = 0; for (int i = n - 1; i >= 0; i--) if (sx_concrete(b[i] == 0)) want = i; }
    int w = bom ? 2 : 1; char* h = malloc(want + w); memcpy(h, b, want + w);
    int l = ID3v2_strlen(h), t = ID3v2_strlent(h); sx_observe("strlen", l); sx_assert(l == want, "length"); sx_assert(t == want + w, "length with the terminator"); sx_assert(sx_same(h, b, want + w), "the string is not changed"); free(h);
}
static void unicode(const u8* b, int n)
{
    char* h = malloc(n + 1); memcpy(h, b, n); h[n] = 0; char* r = ID3v2_to_unicode(h); sx_assert(r != NULL, "a string"); sx_assert(sx_same(h, b, n) && h[n] == 0, "the input is not changed");
    u8* want = take(2 * n + 4); want[0] = 0xFF; want[1] = 0xFE; for (int i = 0; i < n; i++) { want[2 + 2 * i] = b[i]; want[3 + 2 * i] = 0; } want[2 * n + 2] = want[2 * n + 3] = 0;
    sx_assert(sx_same(r, want, 2 * n + 4), "utf-16 of the string"); sx_assert(ID3v2_strlen(r) == 2 * n + 2 && ID3v2_strlent(r) == 2 * n + 4, "its length"); sx_assert(r != h, "a new string");
    sx_assert(ID3v2_to_unicode(r) == r, "converting again changes nothing"); sx_assert(sx_same(r, want, 2 * n + 4), "converting again changes nothing"); free(h); sx_touch(r, 2 * n + 4); free(r); sx_reach("done");
}
void c14_unicode(void)
{
    int n = lens(sx_param("N", 8)); STR s = iso(n, "string"); unicode(s.p, n);
}
void c14_reuse(void)     /* the same memory holds one string and then another */
{
    static char same[64]; for (int i = 0; i < 2; i++) {
        int k = sx_choose(3, "encoding"), n = sx_choose(2, "long") * 14 + sx_choose(4, "length"); STR s = n > 3 ? longstr(k, n, "string") : str(k, n, "string"); memcpy(same, s.p, s.n);
        sx_assert(ID3v2_strlen(same) == s.n - (k ? 2 : 1), "length"); sx_assert(ID3v2_strlent(same) == s.n, "length with the terminator");
        char* r = ID3v2_to_unicode(same); if (k) sx_assert(r == same, "the same string"); else { sx_assert(r != same, "a new string"); sx_assert(ID3v2_strlen(r) == 2 * n + 2, "its length"); for (int j = 0; j < n; j++) sx_assert((r[2 + 2 * j] == same[j]) & (r[3 + 2 * j] == 0), "utf-16 of the string"); free(r); } sx_assert(sx_same(same, s.p, s.n), "the input is not changed");
    } sx_reach("done");
}
void c14_long(void)
{
    static const int L[] = { 20, 63, 64, 126, 127, 128, 129, 255, 256, 257, 511, 512, 600 }; int n = L[sx_choose(13, "length")], k = sx_choose(3, "encoding"); STR s = longstr(k, n, "string"); char* h = malloc(s.n); memcpy(h, s.p, s.n);
    sx_assert(ID3v2_strlen(h) == s.n - (k ? 2 : 1), "length"); sx_assert(ID3v2_strlent(h) == s.n, "length with the terminator"); free(h); if (k == 0) unicode(s.p, n); else sx_reach("utf-16");
}
void c14_lengths(void)   /* lengths of very long strings */
{
    static const int L[] = { 1000, 4096, 16383, 32767, 32768, 40000, 65535, 65536, 66000 }; int n = L[sx_choose(9, "length")], k = sx_choose(2, "encoding"); STR s = longstr(k, n, "string"); sx_assert(ID3v2_strlen((char*)s.p) == s.n - (k ? 2 : 1), "length"); sx_assert(ID3v2_strlent((char*)s.p) == s.n, "length with the terminator"); sx_reach("done");
}
void c14_boms(void)      /* already utf-16: handed back as it is */
{
    int n = sx_choose(4, "length"), be = sx_choose(2, "big endian"); STR s = utf16(n, be, "string"); u8* c = take(s.n); memcpy(c, s.p, s.n); sx_assert(ID3v2_to_unicode((char*)s.p) == (char*)s.p, "the same string"); sx_assert(sx_same(c, s.p, s.n), "unchanged"); sx_reach("done");
}
