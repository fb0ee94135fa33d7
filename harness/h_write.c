/* C05..C09, C20: writing */
#define POOL 600000
#include "ref.h"
static u8 tagbuf[110000];
/* ---- what a file holds before: returns the length of the part that writing replaces */
enum { PLAIN, V3, V4, V4FOOT, V3EXT, V4EXT, V3PAD, V22, CUT, NPRE };
static int pre(u8* o, int kind)
{
    RL l; l.n = 0; if (kind == PLAIN) return 0;
    if (kind == V22) { memcpy(o, "ID3\2\0\0\0\0\0\4abcd", 14); return 0; }              /* not a tag for this library: audio */
    STR s = iso(2, "old title"); rl_add(&l, rf_text("TIT2", 0, s));
    int ver = kind == V4 || kind == V4FOOT || kind == V4EXT ? 4 : 3;
    return enc_tag(o, ver, 0, 0, &l, kind == V3EXT ? 10 : kind == V4EXT ? 6 : 0, kind == V3PAD ? 3000 : kind == V4FOOT ? 0 : 5, kind == V4FOOT);
}
/* a file of that kind followed by audio; returns the offset of the audio */
static int put_file(int kind, const u8* audio, int an)
{
    int o = pre(tagbuf, kind), n = o; if (kind == V22) { n = 14; memcpy(tagbuf + n, audio, an); fs_put("f", tagbuf, n + an); return 0; }
    if (kind == CUT) { tagbuf[9] += 20; fs_put("f", tagbuf, o); return o; }
    if (an) memcpy(tagbuf + o, audio, an); fs_put("f", tagbuf, o + an); return o;
}
static int audio_of(int kind, const u8* audio, int an, u8* out)     /* what must be after the tag */
{
    if (kind == CUT) return 0; if (kind == V22) { memcpy(out, "ID3\2\0\0\0\0\0\4abcd", 14); memcpy(out + 14, audio, an); return 14 + an; } memcpy(out, audio, an); return an;
}
/* ---- tags made through the interface */
static ID3v2_Tag* fresh(int ver)
{
    pad_of_new(); if (ver == 3) return ID3v2_Tag_new_empty(); pad_expected = 0;
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer("ID3\4\0\0\0\0\0\0", 10); sx_assert(t != NULL, "an empty v2.4 tag"); return t;
}
static void some_frame(ID3v2_Tag* t, RL* l, int len)
{
    int kind = sx_choose(4, "kind"), sk = sx_choose(3, "strings"); u8 fl[2]; sx_sym(fl, 2, "flags"); u8 lang[3]; u8 zero[2] = { 0, 0 };
    if (kind == 0) { STR s = str(sk, len, "text"); do_set_text(t, l, "TIT2", fl, sk != 0, s); }
    if (kind == 1) { sx_sym(lang, 3, "language"); STR d = str(sk, len / 2, "description"), c = str(sk, len, "comment"); do_comm(t, l, sx_choose(2, "add"), fl, sk != 0, lang, d, c); }
    if (kind == 2) { STR m = iso(len, "mime"), d = str(sk, len / 2, "description"); u8 ty, *p = take(len + 1); sx_sym(&ty, 1, "picture type"); sx_sym(p, len + 1, "picture"); do_apic(t, l, sx_choose(2, "add"), fl, sk != 0, m, ty, d, p, len + 1); }
    if (kind == 3) { STR s = str(sk, len, "field"); set_field(t, 1 + sk, (char*)s.p); rl_set(l, with_flags(rf_text(FIELD[1 + sk], sk != 0, s), zero)); }
}
/* reads the file back, judged by mode 5: what a reader sees, 6: the bytes */
static void judge(int mode, int ver, const RL* l, const char* file)
{
    if (mode == 5) { ID3v2_Tag* r = ID3v2_read_tag(file); sx_assert(r != NULL, "the file has a tag"); check_tag(r, l); sx_assert(r->header->major_version == ver, "version"); ID3v2_Tag_free(r); }
    else { check_written(fs_data(file), fs_size(file), ver, l); }
    sx_reach("done");
}
void w_new(void)   /* FRAMES frames set or added to an empty tag */
{
    int mode = sx_param("MODE", 5), k = sx_param("FRAMES", 1), len = sx_param("LEN", 2), ver = 3 + sx_choose(2, "version"); RL l; l.n = 0; ID3v2_Tag* t = fresh(ver);
    for (int i = 0; i < k; i++) some_frame(t, &l, k == 1 ? lens(len) : len);
    u8 au[2]; sx_sym(au, 2, "audio"); put_file(PLAIN, au, 2); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); judge(mode, ver, &l, "f");
}
void w_empty(void)  /* no frames at all, over any earlier content */
{
    int mode = sx_param("MODE", 5), ver = 3 + sx_choose(2, "version"), kind = sx_choose(NPRE, "before"); RL l; l.n = 0; ID3v2_Tag* t = fresh(ver); u8 au[2] = { 1, 2 };
    if (sx_choose(2, "emptied")) { ID3v2_Tag_set_title(t, "x"); ID3v2_Tag_delete_title(t); }
    put_file(kind, au, 2); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); judge(mode, ver, &l, "f");
}
/* the tag of another file (any kinds of frames, tag flags, extended header, padding), written */
static RF raw_frame(int kind, int sk, int n)
{
    u8 fl[2]; sx_sym(fl, 2, "frame flags"); u8 lang[3]; char id[4]; u8 ty, *p; RF f;
    switch (kind) {
        case 0: { id[0] = 'T'; sx_sym(id + 1, 3, "text frame id"); STR s = str(sk, n, "text"); f = rf_text(id, sk != 0, s); break; }
        case 1: { sx_sym(lang, 3, "language"); STR d = str(sk, n / 2, "description"), c = str(sk, n, "comment"); f = rf_comm(sk != 0, lang, d, c); break; }
        case 2: { sx_sym(&ty, 1, "picture type"); p = take(n + 1); sx_sym(p, n + 1, "picture"); STR m = iso(n, "mime"), d = str(sk, n / 2, "description"); f = rf_apic(sk != 0, m, ty, d, p, n + 1); break; }
        default: other_id(id); p = take(n + 1); sx_sym(p, n + 1, "data"); f = rf_other(id, p, n + 1);
    }
    return with_flags(f, fl);
}
void w_copy(void)
{
    int mode = sx_param("MODE", 5), k = sx_param("FRAMES", 2), len = sx_param("LEN", 2), ver = 3 + sx_choose(2, "version"); RL l; l.n = 0; u8 tf, minor; sx_sym(&tf, 1, "tag flags"); sx_sym(&minor, 1, "minor version");
    for (int i = 0; i < k; i++) { int kind = sx_choose(4, "kind"); rl_add(&l, raw_frame(kind, kind == 3 ? 0 : sx_choose(3, "strings"), k == 1 ? lens(len) : len)); }
    static const int PAD[] = { 0, 1, 10, 2100 }; int pad = PAD[k == 1 ? sx_choose(4, "padding") : 2 * sx_choose(2, "padding")], ext = sx_choose(2, "extended header") ? (ver == 3 ? 10 : 7) : 0, foot = ver == 4 && pad == 0 ? sx_choose(2, "footer") : 0;
    int n = enc_tag(tagbuf, ver, minor, tf, &l, ext, pad, foot); u8 fl = tagbuf[5];
    pad_expected = pad; ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*)tagbuf, n); sx_assert(t != NULL, "tag"); u8 au[2]; sx_sym(au, 2, "audio"); fs_put("f", au, 2); ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
    const u8* d = fs_data("f"); sx_assert(fs_size("f") >= 10, "something is written");
    if (mode == 6) { sx_assert(d[4] == minor, "minor version is kept"); sx_assert(d[5] == (fl & ~0x40 & ~(ver == 4 ? 0x10 : 0)), "flags are kept"); }
    judge(mode, ver, &l, "f");
}
/* tags that had an extended header of any size */
void w_ext(void)
{
    int mode = sx_param("MODE", 5), ver = 3 + sx_choose(2, "version"), ext = big_ext(ver), what = sx_choose(3, "what"); RL l; l.n = 0; rl_add(&l, rf_text("TALB", 0, iso(2, "text"))); rl_add(&l, rf_other("PRIV", lit("pq").p, 2)); u8 minor, tf; sx_sym(&minor, 1, "minor version"); sx_sym(&tf, 1, "tag flags");
    int pad = pad_expected = sx_choose(2, "padding") * 10, foot = ver == 4 && !pad ? sx_choose(2, "footer") : 0, n = enc_tag(tagbuf, ver, minor, tf, &l, ext, pad, foot); u8 fl = tagbuf[5]; u8* au = take(3); sx_sym(au, 3, "audio"); memcpy(tagbuf + n, au, 3); fs_put("f", tagbuf, n + 3);
    if (mode == 8) { ID3v2_delete_tag("f"); sx_assert(fs_size("f") == 3 && sx_same(fs_data("f"), au, 3), "what remains is the audio"); sx_reach("done"); return; }
    ID3v2_Tag* t = ID3v2_read_tag("f"); check_tag(t, &l); if (what == 1) { ID3v2_Tag_set_title(t, "x"); rl_set(&l, rf_text("TIT2", 0, lit("x"))); } if (what == 2) { ID3v2_Tag_delete_album(t); rl_del(&l, 0); }
    ID3v2_write_tag("f", t); check_tag(t, &l); const u8* d = fs_data("f"); if (mode != 7) { sx_assert(d[4] == minor, "minor version is kept"); sx_assert(d[5] == (fl & ~0x40 & ~(ver == 4 ? 0x10 : 0)), "flags are kept"); }
    int k = check_written(d, fs_size("f"), ver, &l); sx_assert(fs_size("f") == k + 3 && sx_same(d + k, au, 3), "the audio is preserved"); if (mode == 20) { u8* b = take(k); memcpy(b, d, k); ID3v2_write_tag("f", t); sx_assert(fs_size("f") == k + 3 && sx_same(fs_data("f"), b, k), "written again, nothing changes"); } ID3v2_Tag_free(t); sx_reach("done"); 
}
/* sizes around the boundaries of the size encodings */
void w_sizes(void)
{
    static const int L[] = { 126, 127, 128, 129, 200, 255, 256, 257, 384, 512, 1024, 2048, 4096, 8192, 16373, 16374, 16383, 16384, 16385, 32768 };
    int mode = sx_param("MODE", 5), from = sx_param("FROM", 0), m = sx_param("COUNT", 20), n = L[from + sx_choose(m, "size")], ver = 3 + sx_choose(2, "version"), kind = sx_choose(9, "kind"); RL l; l.n = 0; u8 lang[3] = { 'x', 'y', 'z' }, fl[2] = { 0, 0 }; ID3v2_Tag* t;
    if (kind != 3) t = fresh(ver);
    if (kind == 0) { STR s = longstr(0, n - 2, "text"); set_field(t, 4, (char*)s.p); rl_add(&l, rf_text("TCON", 0, s)); }
    if (kind == 1) do_comm(t, &l, 0, fl, 0, lang, iso(1, "description"), longstr(0, n - 7, "comment"));
    if (kind == 2) { STR s = longstr(0, n - 7, "picture"); do_apic(t, &l, 1, fl, 0, iso(2, "mime"), 3, iso(0, "description"), s.p, n - 6); }
    if (kind == 3) { STR s = longstr(0, n - 1, "data"); rl_add(&l, rf_other("GEOB", s.p, n)); int k = enc_tag(tagbuf, ver, 0, 0, &l, 0, pad_expected = 0, 0); t = ID3v2_read_tag_from_buffer((char*)tagbuf, k); }
    if (kind == 4) do_comm(t, &l, 0, fl, 0, lang, longstr(0, n - 7, "description"), iso(1, "comment"));
    if (kind == 5) do_apic(t, &l, 0, fl, 0, longstr(0, n - 7, "mime"), 3, iso(0, ""), lang, 3); if (kind == 6) do_apic(t, &l, 0, fl, 0, iso(2, "mime"), 3, longstr(0, n - 9, "description"), lang, 3);
    if (kind == 7) do_set_text(t, &l, "TCON", fl, 1, longstr(1 + n % 2, (n - 5) / 2, "text")); if (kind == 8) do_comm(t, &l, 1, fl, 1, lang, longstr(1, (n - 14) / 2, "description"), utf16(1, 0, "comment"));
    sx_assert(kind > 4 || l.f[0].n == n, "model: size"); STR e = iso(1, "title"); ID3v2_Tag_set_title(t, (char*)e.p); rl_add(&l, rf_text("TIT2", 0, e));
    fs_put("f", "zz", 2); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); sx_assert(sx_same(fs_data("f") + fs_size("f") - 2, "zz", 2), "audio follows"); judge(mode, ver, &l, "f");
}
/* a picture of more than 2^21 bytes */
void w_huge(void)
{
    int mode = sx_param("MODE", 5), ver = sx_param("VER", 3), n = 2097152; static u8 pic[2097152 + 2]; memset(pic, 7, n); sx_sym(pic, 1, "picture"); sx_sym(pic + n - 1, 1, "picture");
    ID3v2_Tag* t = fresh(ver); ID3v2_Tag_set_album_cover(t, "image/png", n, (char*)pic); ID3v2_Tag_set_title(t, "x"); fs_put("f", "zz", 2); ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
    const u8* d = fs_data("f"); int k = fs_size("f");
    if (mode == 6) {
        unsigned fs = 1 + 10 + 1 + 4 + n; DT x = decode(d, k); sx_assert(x.n == 2 && x.f[0].n == (int)fs && sx_same(x.f[0].id, "APIC", 4), "written: the picture frame"); 
        sx_assert(sx_same(x.f[0].b, "\1image/png\0\3\xFF\xFE\0\0", 16) & sx_same(x.f[0].b + 16, pic, n), "written: the picture"); sx_assert(sx_same(x.f[1].id, "TIT2", 4), "written: the title"); sx_assert(k == x.i.total + 2 && sx_same(d + x.i.total, "zz", 2), "written: audio");
    } else { ID3v2_Tag* r = ID3v2_read_tag("f"); sx_assert(r != NULL, "tag"); ID3v2_ApicFrame* a = ID3v2_Tag_get_album_cover_frame(r); sx_assert(a != NULL && a->data->picture_size == n && sx_same(a->data->data, pic, n), "picture"); sx_assert(ID3v2_Tag_get_title_frame(r) != NULL && ID3v2_Tag_get_title_frame(r)->data->text[0] == 'x', "title"); ID3v2_Tag_free(r); }
    sx_reach("done");
}

/* ---------------------------------------------------------------- C07: audio */
static ID3v2_Tag* new_tag_of(int what)   /* 0: empty, 1: small, 2: with a symbolic text, 3: v2.4, 4: larger than most tags it replaces, 5: from a tag with much padding */
{
    ID3v2_Tag* t = what == 3 ? fresh(4) : ID3v2_Tag_new_empty(); u8 lang[3] = { 'e', 'n', 'g' };
    if (what == 5) { RL l; l.n = 0; rl_add(&l, rf_text("TALB", 0, lit("album"))); static u8 b[4000]; int k = enc_tag(b, 3, 0, 0, &l, 0, 2500, 0); ID3v2_Tag_free(t); t = ID3v2_read_tag_from_buffer((char*)b, k); }
    if (what == 1 || what == 3) ID3v2_Tag_set_artist(t, "abc");
    if (what == 2) { STR s = iso(3, "text"); ID3v2_Tag_set_title(t, (char*)s.p); ID3v2_Tag_set_comment(t, (char*)lang, (char*)s.p); }
    if (what == 4) { STR s = longstr(0, 3500, "text"); ID3v2_Tag_set_title(t, (char*)s.p); }
    return t;
}
static void check_audio(int kind, const u8* au, int an)
{
    int n = fs_size("f"); const u8* d = fs_data("f"); sx_assert(n >= 10 && sx_same(d, "ID3", 3), "the file begins with the tag");
    u8* want = take(an + 20); int wn = audio_of(kind, au, an, want); int total = 10 + sx_concrete((int)rss(d + 6));
    sx_assert(n == total + wn, "what follows the tag has the length of the audio"); sx_assert(sx_same(d + total, want, wn), "what follows the tag is the audio");
}
void c07_short(void)
{
    int kind = sx_choose(NPRE, "before"), what = sx_choose(6, "tag"), an = sx_choose(sx_param("LEN", 4) + 1, "audio length"); u8 au[64]; sx_sym(au, an, "audio"); if (kind == PLAIN || kind == CUT) { int id = an >= 3 && ((au[0] == 'I') & (au[1] == 'D') & (au[2] == '3')); sx_assume(!id); }
    ID3v2_Tag* t = new_tag_of(what); put_file(kind, au, an); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); check_audio(kind, au, an); sx_assert(fs_count() == 1, "no other files are left"); sx_reach("done");
}
static const int AL[] = { 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 70001 };
#define NAL 25
static u8* long_audio(int n) { u8* a = take(n); for (int i = 0; i < n; i++) a[i] = (u8)(i * 7 + i / 251); sx_sym(a, 2, "audio"); sx_sym(a + n / 2, 1, "audio"); sx_sym(a + n - 2, 2, "audio"); a[n / 3] = 0xFF; a[n / 3 + 1] = 0xFB; a[n / 4] = 0; a[n / 4 + 1] = 0x1A; return a; }
void c07_long(void)
{
    int an = AL[sx_param("FROM", 0) + sx_choose(sx_param("COUNT", NAL), "audio length")], kind = sx_choose(3, "before"); kind = kind == 0 ? PLAIN : kind == 1 ? V3 : V4FOOT; u8* au = long_audio(an);
    if (kind == PLAIN) sx_assume(au[0] != 'I');
    ID3v2_Tag* t = new_tag_of(1); put_file(kind, au, an); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); check_audio(kind, au, an); sx_reach("done");
}
/* mebibytes of audio, also such that the file has exactly a round size; written to, and the tag deleted again */
void c07_huge(void)
{
    static u8 big[2200400]; static const int N[] = { 1048575, 1048577, 1050000, 2097152, 2200000 }, R[] = { 4096, 8192, 16384, 32768, 65536, 131072, 1048576 }; int round = sx_param("ROUND", 0), del = sx_param("DELETE", 0), kind = sx_choose(2, "before") ? V3 : PLAIN; ID3v2_Tag* t = new_tag_of(1); RL l; l.n = 0; rl_add(&l, rf_text("TIT2", 0, lit("ab"))); int o = kind == V3 ? enc_tag(big, 3, 0, 0, &l, 0, 5, 0) : 0, an = N[sx_param("SIZE", 0)];
    if (round) { fs_put("f", "zz", 2); ID3v2_write_tag("f", t); an = R[sx_choose(sx_param("COUNT", 7), "size")] - (del ? o : fs_size("f") - 2); if (an < 1) an += R[1]; }
    u8* a = big + o; for (int i = 0; i < an; i++) a[i] = (u8)(i * 7 + i / 251); sx_sym(a, 2, "audio"); sx_sym(a + an / 2, 1, "audio"); sx_sym(a + an - 2, 2, "audio"); if (kind == PLAIN) sx_assume(a[0] != 'I'); fs_put("f", big, o + an); if (del) ID3v2_delete_tag("f"); else ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
    const u8* d = fs_data("f"); int total = del ? 0 : 10 + sx_concrete((int)rss(d + 6)); sx_assert(del || sx_same(d, "ID3", 3), "the file begins with the tag"); sx_assert(fs_size("f") == total + an, "what follows the tag has the length of the audio"); sx_assert(sx_same(d + total, a, an), "what follows the tag is the audio"); sx_assert(fs_count() == 1, "no other files are left"); sx_reach("done");
}
/* the old and the new tag of many sizes */
void c07_tagsizes(void)
{
    static const int L[] = { 1, 100, 118, 128, 240, 256, 1000, 2000, 2048, 4096, 5000, 16374, 16384, 20000, 33000, 70000 }; int m = sx_param("SIZES", 16), a = L[sx_choose(m, "old size")], b = L[sx_choose(m, "new size")]; u8 au[3]; sx_sym(au, 3, "audio");
    RL l; l.n = 0; rl_add(&l, rf_text("TCON", 0, longstr(0, a, "old text"))); int o = enc_tag(tagbuf, 3, 0, 0, &l, 0, 0, 0); memcpy(tagbuf + o, au, 3); fs_put("f", tagbuf, o + 3);
    ID3v2_Tag* t = ID3v2_read_tag("f"); STR s = longstr(0, b, "new text"); ID3v2_Tag_set_genre(t, (char*)s.p); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); check_audio(PLAIN, au, 3); sx_reach("done");
}

/* ---------------------------------------------------------------- C08: deleting the tag of a file */
static void check_deleted(int kind, const u8* au, int an)
{
    u8* want = take(an + 20); int wn = audio_of(kind, au, an, want); sx_assert(fs_size("f") == wn, "the length of what remains is that of the audio"); sx_assert(sx_same(fs_data("f"), want, wn), "what remains is the audio");
}
void c08_short(void)
{
    int kind = sx_choose(NPRE, "before"), an = sx_choose(sx_param("LEN", 6) + 1, "audio length"); u8 au[64]; sx_sym(au, an, "audio"); put_file(kind, au, an); ID3v2_delete_tag("f"); check_deleted(kind, au, an);
    sx_assert(fs_count() == 1, "no other files are left"); sx_assert(fs_open_handles() == 0, "files are closed"); ID3v2_delete_tag("missing"); sx_assert(fs_size("missing") == -1, "no file is created"); if (kind == V22 || kind == PLAIN) sx_reach("untagged"); else sx_reach("tagged");
}
/* any file at all: what is not a supported tag stays as it is */
void c08_any(void)
{
    int n = sx_choose(sx_param("N", 14) + 1, "length"); u8* b = take(n); sx_sym(b, n, "file"); fs_put("f", b, n); ID3v2_delete_tag("f");
    int ok = n >= 10 && ((b[0] == 'I') & (b[1] == 'D') & (b[2] == '3') & ((b[3] == 3) | (b[3] == 4)));
    if (!ok) { sx_assert(fs_size("f") == n && sx_same(fs_data("f"), b, n), "a file without a tag stays as it is"); sx_reach("untagged"); return; }
    if ((b[6] | b[7] | b[8] | b[9]) & 0x80) return;
    unsigned total = 10 + ((unsigned)b[6] << 21 | (unsigned)b[7] << 14 | (unsigned)b[8] << 7 | b[9]) + ((b[3] == 4) & ((b[5] & 0x10) != 0) ? 10 : 0); int left = total >= (unsigned)n ? 0 : n - (int)total; left = sx_concrete(left);
    sx_assert(fs_size("f") == left, "length of what remains"); sx_assert(sx_same(fs_data("f"), b + n - left, left), "what remains is the audio"); sx_reach("tagged");
}
void c08_long(void)
{
    int an = AL[sx_param("FROM", 0) + sx_choose(sx_param("COUNT", NAL), "audio length")], kind = sx_choose(3, "before"); kind = kind == 0 ? V3PAD : kind == 1 ? V3 : V4FOOT; u8* au = long_audio(an);
    put_file(kind, au, an); ID3v2_delete_tag("f"); check_deleted(kind, au, an); sx_reach("done");
}
void c08_sizes(void)
{
    static const int L[] = { 1, 100, 116, 117, 118, 127, 128, 244, 256, 1000, 2048, 4096, 16372, 16384, 20000, 32768, 65520, 65536, 100000 }; int a = L[sx_choose(19, "size")], ver = 3 + sx_choose(2, "version"), foot = ver == 4 ? sx_choose(2, "footer") : 0; u8 au[3]; sx_sym(au, 3, "audio");
    RL l; l.n = 0; rl_add(&l, rf_text("TCON", 0, longstr(0, a, "text"))); int o = enc_tag(tagbuf, ver, 0, 0, &l, 0, 0, foot); memcpy(tagbuf + o, au, 3); fs_put("f", tagbuf, o + 3); ID3v2_delete_tag("f"); check_deleted(PLAIN, au, 3); sx_reach("done");
}
/* audio of which every byte is symbolic, also as long as the trailers that files may have (128, 227, 355 bytes, or what begins with a header) and beginning with what may be another tag */
void c08_tail(void)
{
    static const int L[] = { 10, 22, 32, 64, 127, 128, 129, 138, 160, 227, 256, 355, 400, 1000 }; static const int KIND[] = { PLAIN, V3, V3PAD, V4FOOT, V22 }; int del = sx_param("DELETE", 0), an = L[sx_choose(sx_param("COUNT", 12), "audio length")], kind = KIND[sx_choose(5, "before")], first = del ? sx_choose(2, "written to first") : 1;
    u8* au = take(an); sx_sym(au, an, "audio"); if (kind == PLAIN) { int id = (au[0] == 'I') & (au[1] == 'D') & (au[2] == '3'); sx_assume(!id); } put_file(kind, au, an);
    if (first) { ID3v2_Tag* t = new_tag_of(1 + 2 * sx_choose(2, "version")); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); if (!del) check_audio(kind, au, an); } if (del) { ID3v2_delete_tag("f"); check_deleted(kind, au, an); } sx_assert(fs_count() == 1, "no other files are left"); sx_reach("done");
}
/* write, then delete: the original audio again */
void c08_written(void)
{
    int kind = sx_choose(NPRE, "before"), what = sx_choose(6, "tag"); u8 au[3]; sx_sym(au, 3, "audio"); if (kind == PLAIN) sx_assume(au[0] != 'I'); ID3v2_Tag* t = new_tag_of(what); put_file(kind, au, 3); ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
    ID3v2_delete_tag("f"); check_deleted(kind, au, 3); sx_reach("done");
}

/* ---------------------------------------------------------------- C09: read, edit one frame, write: everything else is preserved */
void c09_edit(void)
{
    int k = sx_param("FRAMES", 2), len = sx_param("LEN", 2), ver = 3 + sx_choose(2, "version"); RL l; l.n = 0; u8 tf, fl[2] = { 0, 0 }, zero[2] = { 0, 0 }, lang[3];
    for (int i = 0; i < k; i++) { int kind = sx_choose(4, "kind"); rl_add(&l, raw_frame(kind, kind == 3 ? 0 : sx_choose(3, "strings"), k == 1 ? lens(len) : len)); if (kind == 0) { /* fixed ids, so that edits meet them */ memcpy(l.f[l.n - 1].id, i == 0 ? "TPE1" : "TXXX", 4); } }
    sx_sym(&tf, 1, "tag flags"); int pad = pad_expected = sx_choose(2, "padding") * 30, ext = sx_choose(2, "extended header") * 10, n = enc_tag(tagbuf, ver, 0, tf, &l, ext, pad, 0); u8* au = take(3); sx_sym(au, 3, "audio"); memcpy(tagbuf + n, au, 3); fs_put("f", tagbuf, n + 3);
    ID3v2_Tag* t = ID3v2_read_tag("f"); sx_assert(t != NULL, "tag");
    switch (sx_choose(7, "edit")) {
        case 0: { STR s = iso(3, "new"); ID3v2_Tag_set_artist(t, (char*)s.p); rl_set(&l, with_flags(rf_text("TPE1", 0, s), zero)); break; }
        case 1: { STR s = utf16(2, 0, "new"); ID3v2_Tag_set_title(t, (char*)s.p); rl_set(&l, with_flags(rf_text("TIT2", 1, s), zero)); break; }
        case 2: { sx_sym(lang, 3, "language"); STR c = iso(4, "new"); ID3v2_Tag_set_comment(t, (char*)lang, (char*)c.p); STR d = iso(0, ""); rl_set(&l, with_flags(rf_comm(0, lang, d, c), zero)); break; }
        case 3: { u8* p = take(5); sx_sym(p, 5, "new"); ID3v2_Tag_set_album_cover(t, "image/png", 5, (char*)p); rl_set(&l, with_flags(rf_apic(1, lit("image/png"), 3, utf16(0, 0, ""), p, 5), zero)); break; }
        case 4: { ID3v2_Tag_delete_artist(t); int i = rl_find(&l, "TPE1"); if (i >= 0) rl_del(&l, i); break; }
        case 5: { ID3v2_Tag_delete_comment(t); int i = rl_find(&l, "COMM"); if (i >= 0) rl_del(&l, i); break; }
        default: { sx_sym(fl, 2, "flags"); STR s = iso(1, "new"); do_set_text(t, &l, "TXXX", fl, 0, s); break; }
    }
    ID3v2_write_tag("f", t); ID3v2_Tag_free(t); int total = check_written(fs_data("f"), fs_size("f"), ver, &l); sx_assert(fs_size("f") == total + 3 && sx_same(fs_data("f") + total, au, 3), "the audio is preserved"); sx_reach("done");
}
/* text frames of arbitrary bytes survive as they are */
void c09_rawtext(void)
{
    int ver = 3 + sx_choose(2, "version"), n = lens(sx_param("LEN", 4)); RL l; l.n = 0; u8* b = take(1 + n + 4); sx_sym(b, 1 + n, "body"); memset(b + 1 + n, 0, 4); RF f = rf(TEXT, "TXXX"); f.asis = 1; f.b = b; f.n = 1 + n; f.enc = b[0]; f.s1 = b + 1; f.n1 = n; f.flags[0] = 0x40; rl_add(&l, f); rl_add(&l, rf_other("PCNT", (const u8*)"\1\2\3\4", 4));
    int k = enc_tag(tagbuf, ver, 0, 0, &l, 0, 0, 0); fs_put("f", tagbuf, k); ID3v2_Tag* t = ID3v2_read_tag("f"); ID3v2_Tag_set_title(t, "a"); rl_add(&l, rf_text("TIT2", 0, lit("a"))); ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
    DT x = decode(fs_data("f"), fs_size("f")); sx_assert(x.n == 3, "number of frames"); sx_assert(x.f[0].n >= 1 + n && x.f[0].n <= 1 + n + 4, "size of the text frame"); sx_assert(sx_same(x.f[0].b, b, 1 + n), "bytes of the text frame"); sx_assert(zeros(x.f[0].b + 1 + n, x.f[0].n - 1 - n), "only terminators are added"); sx_assert(sx_same(x.f[0].flags, f.flags, 2), "flags");
    check_written_frame(&x.f[1], &l.f[1]); check_written_frame(&x.f[2], &l.f[2]); sx_reach("done");
}

/* ... and are read back as the same bytes */
void w_rawtext(void)
{
    int mode = sx_param("MODE", 5), ver = 3 + sx_choose(2, "version"), n = lens(sx_param("LEN", 4)), many = sx_choose(2, "strings"); RL l; l.n = 0; u8* b = take(1 + n + 20); sx_sym(b, 1 + n, "body"); 
    if (many) { memcpy(b + 1 + n, "\0value\0other", 12); n += 12; }   /* several strings in one frame */
    memset(b + 1 + n, 0, 4); RF f = rf(TEXT, many ? "TIPL" : "TXXX"); f.asis = 2; f.b = b; f.n = 1 + n; f.enc = b[0]; f.s1 = b + 1; f.n1 = n; rl_add(&l, f); rl_add(&l, rf_other("PCNT", (const u8*)"\1\2\3\4", 4));
    int k = enc_tag(tagbuf, ver, 0, 0, &l, 0, 0, 0); ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*)tagbuf, k); fs_put("f", "zz", 2); ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
    if (mode == 5) { t = ID3v2_read_tag("f"); sx_assert(t != NULL, "the file has a tag"); check_frame(t->frames->frame, &l.f[0]); sx_assert(t->frames->next != NULL && t->frames->next->frame != NULL, "the other frame"); check_frame(t->frames->next->frame, &l.f[1]); ID3v2_Tag_free(t); }
    else { DT x = decode(fs_data("f"), fs_size("f")); sx_assert(x.n == 2 && x.f[0].n >= 1 + n && x.f[0].n <= 1 + n + 4 && sx_same(x.f[0].b, b, 1 + n) && zeros(x.f[0].b + 1 + n, x.f[0].n - 1 - n), "written: the text"); check_written_frame(&x.f[1], &l.f[1]); }
    sx_reach("done");
}
/* ---------------------------------------------------------------- C20: writing again changes nothing */
static u8* snap; static int snapn;
static void snapshot(void) { snapn = fs_size("f"); snap = take(snapn); memcpy(snap, fs_data("f"), snapn); }
static void unchanged(const char* what) { sx_assert(fs_size("f") == snapn, what); sx_assert(sx_same(fs_data("f"), snap, snapn), what); }
void c20_again(void)
{
    int ver = 3 + sx_choose(2, "version"), how = sx_choose(3, "origin"), len = sx_param("LEN", 2); RL l; l.n = 0; ID3v2_Tag* t; u8 au[2]; sx_sym(au, 2, "audio"); int kind = sx_choose(NPRE, "before"); 
    if (kind == PLAIN) sx_assume(au[0] != 'I');
    if (how == 0) { t = fresh(ver); for (int i = 0; i < sx_param("FRAMES", 1); i++) some_frame(t, &l, len); }
    else { int ki = sx_choose(4, "kind"); rl_add(&l, raw_frame(ki, ki == 3 ? 0 : sx_choose(3, "strings"), len)); rl_add(&l, rf_text("TALB", 0, lit("q"))); u8 tf; sx_sym(&tf, 1, "tag flags"); static const int PAD[] = { 0, 12, 2047, 3000 }; int n = enc_tag(tagbuf, ver, 0, tf, &l, how == 2 ? 10 : 0, PAD[sx_choose(ki == 0 && len < 2 ? 4 : 2, "padding")], 0); t = ID3v2_read_tag_from_buffer((char*)tagbuf, n); }
    put_file(kind, au, 2); ID3v2_write_tag("f", t); snapshot();
    ID3v2_write_tag("f", t); unchanged("writing the tag again changes the file"); check_tag(t, &l); ID3v2_Tag_free(t);
    t = ID3v2_read_tag("f"); ID3v2_write_tag("f", t); unchanged("writing the tag just read changes the file"); ID3v2_write_tag("f", t); unchanged("writing the tag just read twice changes the file"); ID3v2_Tag_free(t); sx_reach("done");
}
/* ---------------------------------------------------------------- C13: nothing is left behind by the file operations */
void c13_files(void)
{
    int kind = sx_choose(NPRE, "before"), what = sx_choose(5, "what"); u8 au[2]; sx_sym(au, 2, "audio"); put_file(kind, au, 2); ID3v2_Tag* t; ID3v2_TagHeader* h;
    switch (what) {
        case 0: t = new_tag_of(sx_choose(6, "tag")); ID3v2_write_tag("f", t); sx_assert(fs_open_handles() == 0, "files are closed after writing"); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); break;
        case 1: ID3v2_delete_tag("f"); break;
        case 2: h = ID3v2_read_tag_header("f"); if (h) { sx_touch(h, 6); } ID3v2_TagHeader_free(h); break;
        case 3: t = ID3v2_read_tag("f"); if (t) { ID3v2_write_tag("f", t); ID3v2_Tag_free(t); } break;
        default: t = new_tag_of(1); ID3v2_write_tag("missing", t); ID3v2_Tag_free(t); ID3v2_delete_tag("missing"); sx_assert(ID3v2_read_tag("missing") == NULL && ID3v2_read_tag_header("missing") == NULL, "no tag"); break;
    }
    sx_assert(fs_open_handles() == 0, "files are closed"); sx_assert(fs_count() == 1, "no other files are left"); sx_no_leaks("a file operation"); sx_reach("done");
}
/* ---------------------------------------------------------------- C05..C08, C20: a frame, all frames, the tag, or the tag with its header exactly as long as a round number, or by one more or less */
void w_round(void)
{
    static const int R[] = { 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072 }; int mode = sx_param("MODE", 5), r = R[sx_param("FROM", 0) + sx_choose(sx_param("COUNT", 9), "round size")], what = sx_choose(4, "what"), ver = 3 + sx_choose(2, "version"), comm = sx_choose(2, "comment"); r += sx_choose(3, "more") - 1;
    RL l; l.n = 0; ID3v2_Tag* t = fresh(ver); STR e = iso(1, "title"); ID3v2_Tag_set_title(t, (char*)e.p); rl_add(&l, rf_text("TIT2", 0, e)); int over = 2 + (comm ? 4 : 0), before = frames_len(&l);
    if (what >= 1) over += 10; if (what >= 2) over += before; if (what >= 3) over += 10; int n = r - over; sx_assume(n > 0); STR s = longstr(0, n, "text"); u8 fl[2] = { 0, 0 }; if (comm) do_comm(t, &l, 0, fl, 0, (const u8*)"eng", iso(0, ""), s); else { set_field(t, 4, (char*)s.p); rl_add(&l, rf_text("TCON", 0, s)); }
    u8 au[2]; sx_sym(au, 2, "audio"); sx_assume(au[0] != 'I'); put_file(PLAIN, au, 2); ID3v2_write_tag("f", t); if (mode <= 6) judge(mode, ver, &l, "f"); else sx_reach("done"); if (mode == 7) check_audio(PLAIN, au, 2); if (mode == 8) { ID3v2_delete_tag("f"); check_deleted(PLAIN, au, 2); }
    if (mode == 20) { snapshot(); ID3v2_write_tag("f", t); unchanged("writing the tag again changes the file"); check_tag(t, &l); ID3v2_Tag* u = ID3v2_read_tag("f"); ID3v2_write_tag("f", u); unchanged("writing the tag just read changes the file"); ID3v2_Tag_free(u); } ID3v2_Tag_free(t);
}
/* a tag made for a header that was read from elsewhere (or none) */
void w_header(void)
{
    int mode = sx_param("MODE", 5), ver = 3, from = sx_choose(3, "header"); RL l; l.n = 0; ID3v2_TagHeader* h = NULL; u8 minor = 0, tf = 0;
    if (from) { RL o; o.n = 0; ver = 3 + sx_choose(2, "version"); sx_sym(&minor, 1, "minor version"); sx_sym(&tf, 1, "tag flags"); rl_add(&o, rf_text("TPE1", 0, iso(2, "artist"))); int n = enc_tag(tagbuf, ver, minor, tf, &o, sx_choose(2, "extended header") * 10, 7, 0); tf = tagbuf[5]; if (from == 1) h = ID3v2_read_tag_header_from_buffer((char*)tagbuf); else { fs_put("g", tagbuf, n); h = ID3v2_read_tag_header("g"); } sx_assert(h != NULL, "a header"); }
    ID3v2_Tag* t = ID3v2_Tag_new(h, sx_choose(2, "padding") * 100); sx_assert(t != NULL, "a tag"); check_tag(t, &l); for (int k = sx_choose(3, "frames"); k > 0; k--) some_frame(t, &l, 1);
    u8 au[2]; sx_sym(au, 2, "audio"); fs_put("f", au, 2); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); const u8* d = fs_data("f"); if (mode == 6) { sx_assert(fs_size("f") >= 10 && d[4] == minor, "minor version is kept"); sx_assert(d[5] == (tf & ~0x40 & ~(ver == 4 ? 0x10 : 0)), "flags are kept"); } judge(mode, ver, &l, "f");
}
/* a tag replaced by one that is as long, or a few bytes longer or shorter, of any kind; the frames of both of many sizes */
void c07_fit(void)
{
    static const int KIND[] = { V3, V4, V4FOOT, V3EXT, V4EXT }; int kind = KIND[sx_choose(5, "before")], ver = kind == V3 || kind == V3EXT ? 3 : 4, what = 1 + sx_choose(5, "tag"), d = sx_choose(41, "difference") - 20, an = sx_choose(2, "audio length") * 29 + 1; ID3v2_Tag* t = new_tag_of(what); u8 au[32]; sx_sym(au, an, "audio");
    fs_put("f", "zz", 2); ID3v2_write_tag("f", t); int want = fs_size("f") - 2 + d; RL l; l.n = 0; int n = want - 10 - 15 - 12 - 10 - (kind == V4FOOT ? 10 : 0); if (n > 1 && sx_choose(2, "full")) rl_add(&l, rf_text("TCON", 0, longstr(0, n, "old text"))); if (want >= 45) rl_add(&l, rf_text("TIT2", 0, lit("old")));
    int pad = want - 10 - frames_len(&l) - (kind == V3EXT ? 10 : kind == V4EXT ? 6 : 0) - (kind == V4FOOT ? 10 : 0); sx_assume(pad >= 0); int o = enc_tag(tagbuf, ver, 0, 0, &l, kind == V3EXT ? 10 : kind == V4EXT ? 6 : 0, pad, kind == V4FOOT); sx_assert(o == want, "model: size"); memcpy(tagbuf + o, au, an); fs_put("f", tagbuf, o + an);
    ID3v2_write_tag("f", t); check_audio(V3, au, an); ID3v2_Tag* r = ID3v2_read_tag("f"); sx_assert(r != NULL && r->frames != NULL, "the new tag is read"); sx_assert(ID3v2_Tag_get_frame(r, "TCON") == NULL, "nothing of the old tag is left"); ID3v2_Tag_free(r);
    ID3v2_delete_tag("f"); check_deleted(V3, au, an); ID3v2_Tag_free(t); sx_reach("done");
}
