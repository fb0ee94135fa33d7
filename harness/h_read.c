/* C02, C03, C04: reading */
#define POOL 500000
#include "ref.h"
#include "walk.h"

/* ---------------------------------------------------------------- C03: the tag header, for every 10 (or 14) bytes */
static void check_header(const ID3v2_TagHeader* h, const u8* b)
{
    int ok = (b[0] == 'I') & (b[1] == 'D') & (b[2] == '3') & ((b[3] == 3) | (b[3] == 4));
    if (h == NULL) { sx_assert(!ok, "a valid header is accepted"); sx_reach("rejected"); return; }
    sx_assert(ok, "only headers of the supported versions are accepted");
    sx_assert(sx_same(h->identifier, "ID3", 3), "identifier");
    sx_assert((u8)h->major_version == b[3], "major version"); sx_assert((u8)h->minor_version == b[4], "minor version"); sx_assert((u8)h->flags == b[5], "flags");
    /* for bytes below 0x80, which is what a synchsafe integer is made of */
    unsigned want = (unsigned)b[6] << 21 | (unsigned)b[7] << 14 | (unsigned)b[8] << 7 | (unsigned)b[9];
    sx_assert((((b[6] | b[7] | b[8] | b[9]) & 0x80) != 0) | (h->tag_size == want), "tag size");
    if (b[3] == 4) sx_reach("v2.4"); else sx_reach("v2.3");
}
void c03_buffer(void)
{
    u8 b[10]; sx_sym(b, 10, "header");
    char* c = malloc(10); memcpy(c, b, 10);
    ID3v2_TagHeader* h = ID3v2_read_tag_header_from_buffer(c);
    free(c); check_header(h, b); if (h) sx_observe("size", h->tag_size);
    ID3v2_TagHeader_free(h);
}
void c03_file(void)
{
    int n = sx_param("N", 10); u8 b[32]; sx_sym(b, n, "file"); fs_put("f", b, n);
    ID3v2_TagHeader* h = ID3v2_read_tag_header("f");
    if (n < 10) { sx_assert(h == NULL, "a file shorter than a header has no tag"); sx_reach("short"); } else check_header(h, b);
    ID3v2_TagHeader_free(h);
    sx_assert(ID3v2_read_tag_header("missing") == NULL, "a missing file has no tag");
    sx_assert(fs_size("f") == n && sx_same(fs_data("f"), b, n), "reading leaves the file alone");
}
/* the header of a whole tag, with the size of the extended header */
void c03_tag(void)
{
    int ver = 3 + sx_choose(2, "version"), ext = big_ext(ver); u8 minor, fl; sx_sym(&minor, 1, "minor"); sx_sym(&fl, 1, "flags");
    RL l; l.n = 0; rl_add(&l, rf_text("TIT2", 0, iso(2, "text")));
    u8* buf = take(128 + ext); int n = enc_tag(buf, ver, minor, fl, &l, ext, 0, 0);
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*)buf, n);
    check_tag(t, &l);
    sx_assert((u8)t->header->major_version == ver && (u8)t->header->minor_version == minor && (u8)t->header->flags == buf[5], "versions and flags");
    sx_assert(t->header->extended_header_size == (unsigned)(ver == 4 ? ext : ext - 4), "size of the extended header"); sx_reach("done");
    ID3v2_Tag_free(t);
}

/* one header read after another, in any way: what was read before makes no difference */
void c03_two(void)
{
    static const int EXT[] = { 0, 10, 16 };
    for (int i = 0; i < 2; i++) {
        int ver = 3 + sx_choose(2, "version"), ext = EXT[sx_choose(3, "extended header")], how = sx_choose(4, "way"); u8 minor, fl; sx_sym(&minor, 1, "minor"); sx_sym(&fl, 1, "flags");
        RL l; l.n = 0; rl_add(&l, rf_text("TIT2", 0, iso(2, "text")));
        u8 buf[128]; int n = enc_tag(buf, ver, minor, fl, &l, ext, 20 - ext, 0); char* c = malloc(n); memcpy(c, buf, n); if (how & 1) fs_put("f", buf, n);
        if (how < 2) { ID3v2_TagHeader* h = how ? ID3v2_read_tag_header("f") : ID3v2_read_tag_header_from_buffer(c); sx_assert(h != NULL, "header"); check_header(h, buf); ID3v2_TagHeader_free(h); }
        else {
            ID3v2_Tag* t = how == 3 ? ID3v2_read_tag("f") : ID3v2_read_tag_from_buffer(c, n); sx_assert(t != NULL, "tag"); check_tag(t, &l);
            sx_assert((u8)t->header->major_version == ver && (u8)t->header->minor_version == minor && (u8)t->header->flags == buf[5], "versions and flags");
            sx_assert(t->header->extended_header_size == (unsigned)(ext == 0 || ver == 4 ? ext : ext - 4), "size of the extended header"); ID3v2_Tag_free(t);
        }
        free(c);
    }
    sx_reach("done");
}

/* ---------------------------------------------------------------- C02: files */
static void file_vs_buffer(const u8* b, int n)
{
    fs_put("f", b, n);
    ID3v2_Tag* x = ID3v2_read_tag("f");
    char* c = malloc(n ? n : 1); memcpy(c, b, n); ID3v2_Tag* y = ID3v2_read_tag_from_buffer(c, n); free(c);
    sx_assert((x == NULL) == (y == NULL), "a file has a tag exactly when its bytes have");
    if (x) { same_frames(x, y); ID3v2_Tag_free(x); ID3v2_Tag_free(y); } else sx_reach("no tag");
    int ok = n >= 10 && ((b[0] == 'I') & (b[1] == 'D') & (b[2] == '3') & ((b[3] == 3) | (b[3] == 4)));
    sx_assert(ok == (x != NULL), "there is a tag exactly when the file begins with a supported header");
    sx_assert(fs_size("f") == n && sx_same(fs_data("f"), b, n), "reading leaves the file alone"); sx_assert(fs_open_handles() == 0, "files are closed");
}
void c02_any(void)
{
    int n = sx_param("N", 16), lead = sx_param("LEAD", 0), ver = sx_param("VER", 0); u8* b = take(n); sx_sym(b, n, "file");
    if (lead) sx_assume((b[0] == 'I') & (b[1] == 'D') & (b[2] == '3')); if (ver) sx_assume(b[3] == ver);
    file_vs_buffer(b, n);
    sx_assert(ID3v2_read_tag("missing") == NULL, "a missing file has no tag"); sx_assert(fs_size("missing") == -1, "reading creates no file");
}
/* a well-formed tag, in a file that goes on after it, or is cut anywhere */
void c02_cut(void)
{
    int ver = 3 + sx_choose(2, "version"), kind = sx_choose(4, "kind"), fl = sx_choose(2, "footer");
    RL l; l.n = 0; u8 lang[3] = { 'e', 'n', 'g' }, pic[3]; sx_sym(pic, 3, "data");
    if (kind == 0) rl_add(&l, rf_text("TALB", 0, iso(3, "text"))); if (kind == 1) rl_add(&l, rf_comm(0, lang, iso(1, "description"), iso(2, "comment")));
    if (kind == 2) rl_add(&l, rf_apic(0, iso(1, "mime"), 3, iso(1, "description"), pic, 3)); if (kind == 3) rl_add(&l, rf_other("PRIV", pic, 3));
    rl_add(&l, rf_text("TIT2", 1, utf16(1, 0, "text")));
    u8 buf[160]; int n = enc_tag(buf, ver, 0, 0, &l, 0, 12, ver == 4 && fl); sx_sym(buf + n, 4, "audio");
    int cut = sx_choose(n + 5, "cut"); sx_reach(cut < n ? "cut" : "whole");
    file_vs_buffer(buf, cut);
}
static void parse_and_check(const u8* buf, int n, const RL* l);
/* a frame, all frames, the tag or the tag with its header exactly as long as a round number, or by one more or less */
void r_round(void)
{
    static const int R[] = { 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072 }; int mode = sx_param("MODE", 4), r = R[sx_param("FROM", 0) + sx_choose(sx_param("COUNT", 11), "round size")], what = sx_choose(5, "what"), ver = 3 + sx_choose(2, "version"), first = sx_choose(2, "first"), pad = sx_choose(2, "padding") * 15, raw = sx_choose(2, "kind"); r += sx_choose(3, "more") - 1; static u8 buf[140000];
    RL l; l.n = 0; RF x = rf_text("TIT2", 0, iso(1, "text")); int over = raw ? 0 : 2; if (what >= 1) over += 10; if (what >= 2) over += 10 + x.n; if (what >= 3) over += pad; if (what >= 4) over += 10; int n = r - over; sx_assume(n > 1); STR s = longstr(0, n, "text"); if (!first) rl_add(&l, x); rl_add(&l, raw ? rf_other("GEOB", s.p, n) : rf_text("TALB", 0, s)); if (first) rl_add(&l, x);
    int k = enc_tag(buf, ver, 0, 0, &l, 0, pad, 0); if (mode == 4) parse_and_check(buf, k, &l); else { int after = sx_choose(2, "audio") * 3; sx_sym(buf + k, after, "audio"); fs_put("f", buf, k + after); ID3v2_Tag* t = ID3v2_read_tag("f"); check_tag(t, &l); sx_assert(t->header->tag_size == (unsigned)k - 10, "tag size"); ID3v2_Tag_free(t); sx_reach("done"); }
}
/* big tags in files */
void c02_big(void)
{
    static const int L[] = { 100, 127, 128, 255, 256, 512, 1000, 1024, 2048, 4095, 4096, 4097, 8192, 16000, 16384, 32768, 65519, 65520, 65535, 65536, 70000, 131072, 180000 };
    int ver = 3 + sx_choose(2, "version"), n = L[sx_choose(23, "length")]; static u8 buf[190000];
    RL l; l.n = 0; rl_add(&l, rf_text("TALB", 0, longstr(0, n, "text"))); rl_add(&l, rf_text("TIT2", 0, iso(1, "text")));
    int k = enc_tag(buf, ver, 0, 0, &l, 0, 5, 0); sx_sym(buf + k, 3, "audio"); fs_put("f", buf, k + 3);
    ID3v2_Tag* t = ID3v2_read_tag("f"); check_tag(t, &l); ID3v2_Tag_free(t); sx_reach("done");
}

/* ---------------------------------------------------------------- C04: well-formed tags are read faithfully */
static RF any_frame(int kind, int sk, int n)
{
    u8 fl[2]; sx_sym(fl, 2, "frame flags"); RF f; u8 lang[3]; char id[4]; u8* p;
    int e = sk == 0 ? 0 : 1;
    switch (kind) {
        case 0: id[0] = 'T'; sx_sym(id + 1, 3, "text frame id"); f = rf_text(id, sk == 3 ? 3 : e, str(sk == 3 ? 0 : sk, n, "text")); break;
        case 1: sx_sym(lang, 3, "language"); f = rf_comm(sk == 3 ? 3 : e, lang, str(sk == 3 ? 0 : sk, n / 2, "description"), str(sk == 3 ? 0 : sk, n, "comment")); break;
        case 2: { u8 t; sx_sym(&t, 1, "picture type"); p = take(n + 1); sx_sym(p, n + 1, "picture"); f = rf_apic(sk == 3 ? 3 : e, iso(n, "mime type"), t, str(sk == 3 ? 0 : sk, n / 2, "description"), p, n + 1); break; }
        default: other_id(id); p = take(n + 1); sx_sym(p, n + 1, "data"); f = rf_other(id, p, n + 1);
    }
    return with_flags(f, fl);
}
static void parse_and_check(const u8* buf, int n, const RL* l)
{
    char* c = malloc(n); memcpy(c, buf, n); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(c, n); memset(c, 0x55, n); free(c);
    check_tag(t, l); sx_reach("done"); ID3v2_Tag_free(t);
}
/* FRAMES frames of any kinds, with the tag followed by other bytes */
void c04_frames(void)
{
    int k = sx_param("FRAMES", 1), len = sx_param("LEN", 2), ver = 3 + sx_choose(2, "version"); RL l; l.n = 0;
    for (int i = 0; i < k; i++) { int kind = sx_choose(4, "kind"), sk = kind == 3 ? 0 : sx_choose(4, "strings"); rl_add(&l, any_frame(kind, sk, k == 1 ? lens(len) : len)); }
    static const int PAD[] = { 0, 1, 9, 10, 11, 25 }; int pad = PAD[sx_choose(k == 1 ? 6 : 2, "padding")], after = sx_choose(2, "audio") * 24;
    u8 tf; sx_sym(&tf, 1, "tag flags"); u8* buf = take(600); int n = enc_tag(buf, ver, 0, tf, &l, 0, pad, 0);
    sx_sym(buf + n, after, "audio"); parse_and_check(buf, n + after, &l);
}
/* one tag read after another, the first one kept or not: equal in part or not */
void c04_two(void)
{
    RL l[2]; ID3v2_Tag* t[2]; int how = sx_choose(2, "file"), keep = sx_choose(2, "kept"); for (int i = 0; i < 2; i++) {
        int ver = 3 + sx_choose(2, "version"), kind = sx_choose(4, "kind"), sk = kind == 3 ? 0 : sx_choose(2, "strings"); l[i].n = 0; rl_add(&l[i], any_frame(kind, sk, sx_param("LEN", 2))); u8 tf; sx_sym(&tf, 1, "tag flags"); u8* buf = take(600); int n = enc_tag(buf, ver, 0, tf, &l[i], 0, 3, 0);
        if (how) { fs_put("f", buf, n); t[i] = ID3v2_read_tag("f"); } else { char* c = malloc(n); memcpy(c, buf, n); t[i] = ID3v2_read_tag_from_buffer(c, n); free(c); } sx_assert(t[i] != NULL, "tag"); check_tag(t[i], &l[i]); if (!i && !keep) ID3v2_Tag_free(t[0]);
    }
    if (keep) { check_tag(t[0], &l[0]); ID3v2_Tag_free(t[0]); } check_tag(t[1], &l[1]); ID3v2_Tag_free(t[1]); sx_no_leaks("tags read one after another"); sx_reach("done");
}
/* extended headers and footers */
void c04_ext(void)
{
    int ver = 3 + sx_choose(2, "version"), ext = ver == 3 ? 6 + 4 * sx_choose(4, "extended header") : 6 + sx_choose(12, "extended header"); RL l; l.n = 0;
    int kind = sx_choose(4, "kind"); rl_add(&l, any_frame(kind, 0, 2)); rl_add(&l, any_frame(0, 1, 1));
    int pad = sx_choose(2, "padding") * 10, foot = ver == 4 ? sx_choose(2, "footer") : 0; u8* buf = take(600); int n = enc_tag(buf, ver, 0, 0, &l, ext, pad, foot); if (foot) sx_reach("footer");
    parse_and_check(buf, n, &l);
}
/* large extended headers, in tags of bytes and of files */
void r_ext(void)
{
    int mode = sx_param("MODE", 4), ver = 3 + sx_choose(2, "version"), ext = big_ext(ver); RL l; l.n = 0; rl_add(&l, any_frame(mode == 4 ? sx_choose(4, "kind") : 0, 0, 2)); rl_add(&l, any_frame(0, 1, 1));
    int pad = sx_choose(2, "padding") * 10, foot = ver == 4 && !pad ? sx_choose(2, "footer") : 0; u8* buf = take(20600); int n = enc_tag(buf, ver, 0, 0, &l, ext, pad, foot); if (mode == 4) { parse_and_check(buf, n, &l); return; }
    sx_sym(buf + n, 3, "audio"); fs_put("f", buf, n + 3); ID3v2_Tag* t = ID3v2_read_tag("f"); check_tag(t, &l); ID3v2_Tag_free(t); sx_reach("done");
}
/* text frames of arbitrary content: any encoding byte, several strings, no terminator */
void c04_rawtext(void)
{
    int ver = 3 + sx_choose(2, "version"), n = lens(sx_param("LEN", 4)), more = sx_choose(2, "more"); char id[5] = "TPE1"; RL l; l.n = 0;
    u8* b = take(1 + n + 4); sx_sym(b, 1 + n, "body"); b[1 + n] = b[2 + n] = b[3 + n] = b[4 + n] = 0; RF f = rf(TEXT, id); f.asis = 1; f.b = b; f.n = 1 + n; f.enc = b[0]; f.s1 = b + 1; f.n1 = n; rl_add(&l, f);
    if (more) rl_add(&l, rf_other("PCNT", (const u8*)"\1\2\3\4", 4));
    u8* buf = take(200); int k = enc_tag(buf, ver, 0, 0, &l, 0, 0, 0); ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*)buf, k); sx_assert(t != NULL && t->frames->frame != NULL, "the frame is read");
    /* the text is complete and can be used as a string */
    ID3v2_TextFrame* x = ID3v2_Tag_get_artist_frame(t); sx_assert(x != NULL && (u8)x->data->encoding == b[0], "encoding"); int m = sx_concrete(x->data->size);
    sx_assert(m >= n && m <= n + 4, "text size"); sx_assert(sx_same(x->data->text, b + 1, n), "text bytes"); sx_assert(zeros((u8*)x->data->text + n, m - n), "only terminators after the text");
    sx_touch(x->data->text, ID3v2_strlent(x->data->text)); if (more) { sx_assert(t->frames->next != NULL && t->frames->next->frame != NULL, "the next frame is read"); check_frame(t->frames->next->frame, &l.f[1]); } sx_reach("done"); ID3v2_Tag_free(t);
}
/* comments and pictures whose last string has no terminator */
void c04_unterminated(void)
{
    int ver = 3 + sx_choose(2, "version"), n = sx_choose(3, "length"), sk = sx_choose(3, "strings"), more = sx_choose(2, "more"); RL l; l.n = 0; u8 lang[3]; sx_sym(lang, 3, "language");
    RF f = rf_comm(sk != 0, lang, str(sk, 1, "description"), str(sk, n, "comment")); f.n -= sk ? 2 : 1; rl_add(&l, f); if (more) rl_add(&l, rf_text("TIT2", 0, iso(1, "text")));
    u8* buf = take(300); int k = enc_tag(buf, ver, 0, 0, &l, 0, 0, 0); ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*)buf, k); ID3v2_CommentFrame* c = ID3v2_Tag_get_comment_frame(t); sx_assert(c != NULL, "the comment is read");
    check_str(c->data->short_description, l.f[0].s1, l.f[0].n1, "description"); check_str(c->data->comment, l.f[0].s2, l.f[0].n2, "comment"); sx_assert(sx_same(c->data->language, lang, 3), "language");
    if (more) { sx_assert(t->frames->next != NULL, "next frame"); check_frame(t->frames->next->frame, &l.f[1]); } sx_reach("done"); ID3v2_Tag_free(t);
}
/* sizes around the boundaries of the size encodings */
void c04_sizes(void)
{
    static const int L[] = { 126, 127, 128, 129, 200, 254, 255, 256, 257, 383, 384, 511, 512, 1024, 4096, 16382, 16383, 16384, 16385, 32767, 32768 };
    int ver = 3 + sx_choose(2, "version"), n = L[sx_choose(21, "size")], kind = sx_choose(9, "kind"); RL l; l.n = 0; static u8 buf[70000]; u8 lang[3] = { 'x', 'y', 'z' };
    STR s; if (kind == 0) rl_add(&l, rf_text("TCON", 0, longstr(0, n - 2, "text")));
    if (kind == 1) rl_add(&l, rf_comm(0, lang, iso(1, "description"), longstr(0, n - 7, "comment")));
    if (kind == 2) { s = longstr(0, n - 7, "picture"); rl_add(&l, rf_apic(0, iso(2, "mime"), 3, iso(0, "description"), s.p, n - 6)); l.f[0].n3 = n - 6; }
    if (kind == 3) { s = longstr(0, n - 1, "data"); rl_add(&l, rf_other("GEOB", s.p, n)); }
    if (kind == 4) rl_add(&l, rf_comm(0, lang, longstr(0, n - 7, "description"), iso(1, "comment")));
    if (kind == 5) rl_add(&l, rf_apic(0, longstr(0, n - 7, "mime"), 3, iso(0, ""), lang, 3)); if (kind == 6) rl_add(&l, rf_apic(0, iso(2, "mime"), 3, longstr(0, n - 9, "description"), lang, 3));
    if (kind == 7) rl_add(&l, rf_text("TCON", 1, longstr(1 + n % 2, (n - 5) / 2, "text"))); if (kind == 8) rl_add(&l, rf_comm(1, lang, longstr(1, (n - 14) / 2, "description"), utf16(1, 0, "comment")));
    sx_assert(kind > 4 || l.f[0].n == n, "model: size"); rl_add(&l, rf_text("TIT2", 0, iso(1, "text"))); int k = enc_tag(buf, ver, 0, 0, &l, 0, 3, 0); parse_and_check(buf, k, &l);
}
/* a huge picture, as in real files */
static u8 huge[2200100];
void c04_huge(void)
{
    int ver = 3 + sx_choose(2, "version"), n = 2097152 + sx_choose(2, "size"); u8* o = huge; int body = 10 + n + 12; memset(huge, 7, sizeof huge);
    o = put(o, "ID3", 3); *o++ = ver; *o++ = 0; *o++ = 0; ss32(o, body); o += 4; o = put(o, "APIC", 4); if (ver == 4) ss32(o, n); else be32(o, n); o += 4; *o++ = 0; *o++ = 0; u8* b = o;
    o = put(o, "\0i/j\0\3\0", 7); sx_sym(o, 1, "picture"); u8* pic = o; o = b + n; sx_sym(o - 1, 1, "picture");
    o = put(o, "TIT2", 4); if (ver == 4) ss32(o, 2); else be32(o, 2); o += 4; *o++ = 0; *o++ = 0; *o++ = 0; *o++ = 'x'; int total = (int)(o - huge);
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*)huge, total); sx_assert(t != NULL, "tag"); ID3v2_ApicFrame* a = ID3v2_Tag_get_album_cover_frame(t); sx_assert(a != NULL, "picture");
    sx_assert(a->data->picture_size == n - 7, "picture size"); sx_assert(sx_same(a->data->data, pic, n - 7), "picture data"); sx_assert(ID3v2_Tag_get_title_frame(t) != NULL && ID3v2_Tag_get_title_frame(t)->data->text[0] == 'x', "the frame after it"); sx_reach("done"); ID3v2_Tag_free(t);
}
/* comments and pictures in utf-16be without a bom (encoding 2 of ID3v2.4), read and written again */
void c04_nobom(void)
{
    int pic = sx_choose(2, "picture"); u8 *d = take(4), *c = take(4); sx_sym(d, 2, "description"); sx_sym(c, 2, "comment"); d[2] = d[3] = c[2] = c[3] = 0; sx_assume((d[0] | d[1]) != 0); sx_assume((c[0] | c[1]) != 0); STR sd = { d, 4 }, sc = { c, 4 }; RL l; l.n = 0;
    if (pic) rl_add(&l, rf_apic(2, lit("i/j"), 3, sd, c, 4)); else rl_add(&l, rf_comm(2, (const u8*)"eng", sd, sc)); u8 buf[64]; int n = enc_tag(buf, 4, 0, 0, &l, 0, 0, 0);
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer((char*)buf, n); sx_assert(t != NULL, "tag"); fs_put("f", "zz", 2); ID3v2_write_tag("f", t);
    if (pic) { ID3v2_ApicFrame* a = ID3v2_Tag_get_album_cover_frame(t); sx_assert(a != NULL, "picture"); sx_assert(sx_concrete(a->data->picture_size) == 4 && sx_same(a->data->data, c, 4), "a picture with a utf-16be description is complete"); } ID3v2_Tag_free(t);
    const u8* o = fs_data("f"); int same = fs_size("f") >= n && sx_concrete((int)rss(o + 14)) == l.f[0].n && sx_concrete(sx_same(o + 20, l.f[0].b, l.f[0].n)); if (same) sx_reach("kept"); if (pic) sx_assert(same, "a utf-16be picture description survives reading and writing"); else sx_assert(same, "a utf-16be comment survives reading and writing");
}
