/* The reference side of the harnesses, written from the ID3v2.3/2.4 documents and independent of the library:
 * a tag is a version, tag flags and a list of frames (id, flags, body bytes); an encoder, a strict decoder of written
 * bytes, and comparisons with what the library hands out through its public structures. */
#ifndef REF_H
#define REF_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include "id3v2lib.h"
#include "sx.h"
typedef unsigned char u8;

/* ---- memory of the harness itself (never from the heap, so that heap accounting is only about the library) */
#ifndef POOL
#define POOL 220000
#endif
static u8 pool[POOL];
static int pool_used;
static u8* take(int n) { sx_assert(pool_used + n <= POOL, "model: harness pool exhausted"); u8* p = pool + pool_used; pool_used += n; return p; }

enum { TEXT, COMM, APIC, OTHER };
typedef struct {
    int kind; u8 id[4], flags[2];
    int n; u8* b;                                   /* the body as stored in a file */
    u8 enc; u8 lang[3], ptype; int asis;            /* asis: text body is arbitrary bytes */
    u8 *s1, *s2, *s3; int n1, n2, n3;               /* text: s1.  comm: s1 = description, s2 = comment.  apic: s1 = mime, s2 = description, s3 = picture */
} RF;
#ifndef MAXF
#define MAXF 12
#endif
typedef struct { RF f[MAXF]; int n; } RL;
typedef struct { u8 *p; int n; } STR;               /* n counts the terminator */

/* ---- strings */
/* a length from 0 to len, or with EXACT just len: long strings of which every character is symbolic */
static int lens(int len) { return sx_param("EXACT", 0) ? len : sx_choose(len + 1, "length"); }
static int wide(u8 enc) { return enc == 1 || enc == 2; }
/* a single-byte string of len characters, none of them zero, that does not look like an utf-16 bom */
static STR iso(int len, const char* name)
{
    if (len) len += sx_param("LONG", 0);
    STR s = { take(len + 1), len + 1 };
    sx_sym(s.p, len, name); s.p[len] = 0;
    for (int i = 0; i < len; i++) sx_assume(s.p[i] != 0);
    if (len >= 2) sx_assume(!((s.p[0] == 0xFF) & (s.p[1] == 0xFE)) & !((s.p[0] == 0xFE) & (s.p[1] == 0xFF)));
    return s;
}
/* utf-16 with a bom (kind 0: little endian, 1: big endian), len code units, none of them zero */
static STR utf16(int len, int be, const char* name)
{
    if (len) len += sx_param("LONG", 0);
    STR s = { take(2 * len + 4), 2 * len + 4 };
    s.p[0] = be ? 0xFE : 0xFF; s.p[1] = be ? 0xFF : 0xFE;
    sx_sym(s.p + 2, 2 * len, name); s.p[2 * len + 2] = s.p[2 * len + 3] = 0;
    for (int i = 0; i < len; i++) sx_assume((s.p[2 + 2 * i] | s.p[3 + 2 * i]) != 0);
    return s;
}
/* kind: 0 iso, 1 utf-16le, 2 utf-16be */
static STR str(int kind, int len, const char* name) { return kind == 0 ? iso(len, name) : utf16(len, kind == 2, name); }
static STR lit(const char* c) { STR s = { take((int)strlen(c) + 1), (int)strlen(c) + 1 }; memcpy(s.p, c, s.n); return s; }
/* a string of n characters with symbolic first and last ones and concrete ones between */
static STR longstr(int kind, int len, const char* name)
{
    int w = kind ? 2 : 1, h = kind ? 2 : 0, n = h + w * len + w; STR s = { take(n), n };
    if (kind) { s.p[0] = kind == 2 ? 0xFE : 0xFF; s.p[1] = kind == 2 ? 0xFF : 0xFE; }
    for (int i = h; i < n - w; i++) s.p[i] = (u8)(1 + i % 250);
    for (int i = n - w; i < n; i++) s.p[i] = 0;
    if (len > 1) { sx_sym(s.p + h, 1, name); sx_assume((s.p[h] != 0) & (s.p[h] < 0xFE)); sx_sym(s.p + n - 2 * w, 1, name); sx_assume(s.p[n - 2 * w] != 0); }
    return s;
}

/* ---- frames */
static RF rf(int kind, const char* id) { RF f; memset(&f, 0, sizeof f); f.kind = kind; memcpy(f.id, id, 4); return f; }
static u8* put(u8* p, const void* d, int n) { memcpy(p, d, n); return p + n; }
static RF rf_text(const char* id, u8 enc, STR s)
{
    RF f = rf(TEXT, id); f.enc = enc; f.s1 = s.p; f.n1 = s.n; f.n = 1 + s.n; u8* p = f.b = take(f.n); *p++ = enc; put(p, s.p, s.n); return f;
}
static RF rf_comm(u8 enc, const u8* lang, STR d, STR c)
{
    RF f = rf(COMM, "COMM"); f.enc = enc; memcpy(f.lang, lang, 3); f.s1 = d.p; f.n1 = d.n; f.s2 = c.p; f.n2 = c.n;
    f.n = 4 + d.n + c.n; u8* p = f.b = take(f.n); *p++ = enc; p = put(p, lang, 3); p = put(p, d.p, d.n); put(p, c.p, c.n); return f;
}
static RF rf_apic(u8 enc, STR mime, u8 type, STR d, const u8* pic, int pn)
{
    RF f = rf(APIC, "APIC"); f.enc = enc; f.ptype = type; f.s1 = mime.p; f.n1 = mime.n; f.s2 = d.p; f.n2 = d.n; f.s3 = (u8*)pic; f.n3 = pn;
    f.n = 2 + mime.n + d.n + pn; u8* p = f.b = take(f.n); *p++ = enc; p = put(p, mime.p, mime.n); *p++ = type; p = put(p, d.p, d.n); put(p, pic, pn); return f;
}
static void other_id(char* id)                      /* any id of a frame that is not text, comment or picture */
{
    sx_sym(id, 4, "frame id"); sx_assume((id[0] != 0) & (id[0] != 'T')); sx_assume(!((id[0] == 'C') & (id[1] == 'O') & (id[2] == 'M') & (id[3] == 'M')) & !((id[0] == 'A') & (id[1] == 'P') & (id[2] == 'I') & (id[3] == 'C')));
}
static RF rf_other(const char* id, const u8* b, int n) { RF f = rf(OTHER, id); f.n = n; f.b = (u8*)b; return f; }
static RF with_flags(RF f, const u8* fl) { memcpy(f.flags, fl, 2); return f; }

/* ---- encoding */
static void be32(u8* p, unsigned v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static void ss32(u8* p, unsigned v) { p[0] = (v >> 21) & 127; p[1] = (v >> 14) & 127; p[2] = (v >> 7) & 127; p[3] = v & 127; }
static unsigned rbe(const u8* p) { return (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static unsigned rss(const u8* p) { return (unsigned)(p[0] & 127) << 21 | (p[1] & 127) << 14 | (p[2] & 127) << 7 | (p[3] & 127); }
static u8* enc_frame(u8* o, const RF* f, int ver) { o = put(o, f->id, 4); if (ver == 4) ss32(o, f->n); else be32(o, f->n); o = put(o + 4, f->flags, 2); return put(o, f->b, f->n); }
static int frames_len(const RL* l) { int n = 0; for (int i = 0; i < l->n; i++) n += 10 + l->f[i].n; return n; }
/* sizes of extended headers, all of them: 6, 10, 14.. */
static int big_ext(int ver)
{
    static const int E[] = { 6, 10, 126, 127, 128, 129, 130, 131, 132, 133, 200, 255, 256, 260, 300, 500, 1000, 2052, 16383, 16384, 16388, 20000 }; int e = E[sx_choose(sx_param("EXTS", 22), "size of the extended header")]; (void)ver; return e;
}
/* the tag of the frames, with an extended header of ext bytes (0: none; of any content) and pad bytes of padding; returns its length */
static int enc_tag(u8* out, int ver, int minor, int flags, const RL* l, int ext, int pad, int footer)
{
    int body = ext + frames_len(l) + pad; u8* o = out;
    o = put(o, "ID3", 3); *o++ = ver; *o++ = minor; *o++ = (flags & ~0x50) | (ext ? 0x40 : 0) | (footer ? 0x10 : flags & (ver == 4 ? 0 : 0x10)); ss32(o, body); o += 4;
    if (ext) { if (ver == 4) ss32(o, ext); else be32(o, ext - 4); sx_sym(o + 4, ext - 4, "extended header"); o += ext; }
    for (int i = 0; i < l->n; i++) o = enc_frame(o, &l->f[i], ver);
    memset(o, 0, pad); o += pad;
    if (footer) { o = put(o, "3DI", 3); *o++ = ver; *o++ = minor; *o++ = out[5]; ss32(o, body); o += 4; }
    return (int)(o - out);
}

/* ---- what the library hands out against the reference */
static int zeros(const u8* p, int n) { u8 a = 0; for (int i = 0; i < n; i++) a |= p[i]; return a == 0; }
/* same string: equal up to and including the terminator */
static void check_str(const char* got, const u8* want, int n, const char* what) { sx_assert(got != NULL, what); sx_assert(sx_same(got, want, n), what); }
static void check_frame(const ID3v2_Frame* f, const RF* r)
{
    sx_assert(f != NULL && f->header != NULL, "the frame is there");
    sx_assert(sx_same(f->header->id, r->id, 4), "frame id");
    sx_assert(sx_same(f->header->flags, r->flags, 2), "frame flags");
    if (r->kind == TEXT) {
        const ID3v2_TextFrameData* d = ((const ID3v2_TextFrame*)f)->data;
        int w = wide(r->enc) ? 2 : 1;
        sx_assert((u8)d->encoding == r->enc, "text encoding");
        int n = sx_concrete(d->size);
        sx_assert(n >= r->n1, "text is complete");
        check_str(d->text, r->s1, r->n1, "text bytes");
        if (r->asis) { sx_assert(n <= r->n1 + 2 * w * r->asis, "text size"); sx_assert(zeros((const u8*)d->text + r->n1, n - r->n1), "only terminators after the text"); }
        else { sx_assert(n == r->n1, "text size"); sx_assert(f->header->size == r->n, "frame size"); }
    } else if (r->kind == COMM) {
        const ID3v2_CommentFrameData* d = ((const ID3v2_CommentFrame*)f)->data;
        sx_assert((u8)d->encoding == r->enc, "comment encoding"); sx_assert(sx_same(d->language, r->lang, 3), "comment language");
        check_str(d->short_description, r->s1, r->n1, "comment description"); check_str(d->comment, r->s2, r->n2, "comment text");
        sx_assert(d->size == r->n2, "comment size"); sx_assert(f->header->size == r->n, "frame size");
    } else if (r->kind == APIC) {
        const ID3v2_ApicFrameData* d = ((const ID3v2_ApicFrame*)f)->data;
        sx_assert((u8)d->encoding == r->enc, "picture encoding"); sx_assert((u8)d->picture_type == r->ptype, "picture type");
        check_str(d->mime_type, r->s1, r->n1, "mime type"); check_str(d->description, r->s2, r->n2, "picture description");
        sx_assert(d->picture_size == r->n3, "picture size"); if (r->n3) check_str(d->data, r->s3, r->n3, "picture data"); sx_assert(f->header->size == r->n, "frame size");
    } else {
        sx_assert(f->header->size == r->n, "frame size"); if (r->n) check_str(f->data, r->b, r->n, "frame data");
    }
}
static void check_frames(const ID3v2_FrameList* l, const RL* r)
{
    for (int i = 0; i < r->n; i++) {
        sx_assert(l != NULL && l->frame != NULL, "a frame is missing"); check_frame(l->frame, &r->f[i]); l = l->next;
    }
    sx_assert(l == NULL || l->frame == NULL, "a frame too many");
}
static void check_tag(ID3v2_Tag* t, const RL* r) { sx_assert(t != NULL, "there is a tag"); check_frames(t->frames, r); }

/* ---- strict decoder of written bytes */
typedef struct { int ver, minor, flags, size, pad, total, badpad; } INFO;
typedef struct { const u8* id; const u8* flags; const u8* b; int n; } DF;
typedef struct { DF f[MAXF]; int n; INFO i; } DT;
static DT decode(const u8* d, int n)
{
    DT t; memset(&t, 0, sizeof t);
    sx_assert(d != NULL && n >= 10, "written: too short for a tag");
    sx_assert(sx_same(d, "ID3", 3), "written: identifier"); t.i.ver = sx_concrete(d[3]); t.i.minor = d[4]; t.i.flags = d[5];
    sx_assert(t.i.ver == 3 || t.i.ver == 4, "written: version"); 
    sx_assert(((d[6] | d[7] | d[8] | d[9]) & 0x80) == 0, "written: tag size is not synchsafe");
    t.i.size = sx_concrete((int)rss(d + 6)); t.i.total = t.i.size + 10; sx_assert(t.i.total <= n, "written: tag is longer than the file");
    sx_assert((d[5] & 0x40) == 0, "written: announces an extended header that is not there");
    if (t.i.ver == 4) sx_assert((d[5] & 0x10) == 0, "written: announces a footer that is not there");
    int o = 10;
    while (t.i.total - o >= 10 && sx_concrete(d[o] != 0)) {
        sx_assert(t.n < MAXF, "written: too many frames");
        if (t.i.ver == 4) sx_assert(((d[o + 4] | d[o + 5] | d[o + 6] | d[o + 7]) & 0x80) == 0, "written: frame size is not synchsafe");
        unsigned s = (unsigned)sx_concrete((int)(t.i.ver == 4 ? rss(d + o + 4) : rbe(d + o + 4)));
        sx_assert(s <= (unsigned)(t.i.total - o - 10), "written: frame does not fit in the tag");
        DF f = { d + o, d + o + 8, d + o + 10, (int)s }; t.f[t.n++] = f; o += 10 + s;
    }
    t.i.pad = t.i.total - o; sx_assert(zeros(d + o, t.i.pad), "written: padding is not zero");
    return t;
}
static void check_written_frame(const DF* d, const RF* r)
{
    sx_assert(sx_same(d->id, r->id, 4), "written: frame id"); sx_assert(sx_same(d->flags, r->flags, 2), "written: frame flags");
    if (r->kind == TEXT || r->kind == COMM) {        /* the terminator of the last string is optional in a file */
        int m = d->n < r->n ? d->n : r->n, slack = wide(r->enc) ? 2 : 1; if (r->asis) slack *= 2;
        sx_assert(d->n >= r->n - slack && d->n <= r->n + slack, "written: frame size");
        sx_assert(sx_same(d->b, r->b, m), "written: frame bytes");
        sx_assert(zeros(d->b + m, d->n - m) & zeros(r->b + m, r->n - m), "written: end of the frame");
    } else { sx_assert(d->n == r->n, "written: frame size"); sx_assert(sx_same(d->b, r->b, r->n), "written: frame bytes"); }
}
static int pad_expected;                            /* with PAD: as much padding as the tag had when it was made or read */
static int check_written(const u8* d, int n, int ver, const RL* r)   /* returns the length of the tag */
{
    DT t = decode(d, n); sx_assert(t.i.ver == ver, "written: major version"); sx_assert(t.n == r->n, "written: number of frames");
    for (int i = 0; i < r->n; i++) check_written_frame(&t.f[i], &r->f[i]);
    if (sx_param("PAD", 0)) sx_assert(t.i.pad == pad_expected, "written: amount of padding");
    return t.i.total;
}

static void pad_of_new(void) { pad_expected = 0; if (!sx_param("PAD", 0)) return; ID3v2_Tag* t = ID3v2_Tag_new_empty(); fs_put("n", "zz", 2); ID3v2_write_tag("n", t); ID3v2_Tag_free(t); DT w = decode(fs_data("n"), fs_size("n")); pad_expected = w.i.pad; remove("n"); }

/* ---- reference list operations */
static int rl_find(const RL* l, const char* id) { for (int i = 0; i < l->n; i++) if (memcmp(l->f[i].id, id, 4) == 0) return i; return -1; }
static void rl_add(RL* l, RF f) { sx_assert(l->n < MAXF, "model: too many frames"); l->f[l->n++] = f; }
static void rl_set(RL* l, RF f) { int i = rl_find(l, (const char*)f.id); if (i < 0) rl_add(l, f); else l->f[i] = f; }
static void rl_del(RL* l, int i) { for (; i + 1 < l->n; i++) l->f[i] = l->f[i + 1]; l->n--; }
static int rl_nth(const RL* l, const char* id, int k) { for (int i = 0; i < l->n; i++) if (memcmp(l->f[i].id, id, 4) == 0 && k-- == 0) return i; return -1; }

/* ---- the named fields */
#define NFIELDS 9
static const char* const FIELD[NFIELDS] = { "TIT2", "TPE1", "TALB", "TPE2", "TCON", "TRCK", "TYER", "TPOS", "TCOM" };
static void set_field(ID3v2_Tag* t, int k, const char* s)
{
    switch (k) {
        case 0: ID3v2_Tag_set_title(t, s); break; case 1: ID3v2_Tag_set_artist(t, s); break; case 2: ID3v2_Tag_set_album(t, s); break;
        case 3: ID3v2_Tag_set_album_artist(t, s); break; case 4: ID3v2_Tag_set_genre(t, s); break; case 5: ID3v2_Tag_set_track(t, s); break;
        case 6: ID3v2_Tag_set_year(t, s); break; case 7: ID3v2_Tag_set_disc_number(t, s); break; default: ID3v2_Tag_set_composer(t, s); break;
    }
}
static ID3v2_TextFrame* get_field(ID3v2_Tag* t, int k)
{
    switch (k) {
        case 0: return ID3v2_Tag_get_title_frame(t); case 1: return ID3v2_Tag_get_artist_frame(t); case 2: return ID3v2_Tag_get_album_frame(t);
        case 3: return ID3v2_Tag_get_album_artist_frame(t); case 4: return ID3v2_Tag_get_genre_frame(t); case 5: return ID3v2_Tag_get_track_frame(t);
        case 6: return ID3v2_Tag_get_year_frame(t); case 7: return ID3v2_Tag_get_disc_number_frame(t); default: return ID3v2_Tag_get_composer_frame(t);
    }
}
static void delete_field(ID3v2_Tag* t, int k)
{
    switch (k) {
        case 0: ID3v2_Tag_delete_title(t); break; case 1: ID3v2_Tag_delete_artist(t); break; case 2: ID3v2_Tag_delete_album(t); break;
        case 3: ID3v2_Tag_delete_album_artist(t); break; case 4: ID3v2_Tag_delete_genre(t); break; case 5: ID3v2_Tag_delete_track(t); break;
        case 6: ID3v2_Tag_delete_year(t); break; case 7: ID3v2_Tag_delete_disc_number(t); break; default: ID3v2_Tag_delete_composer(t); break;
    }
}
/* setting frames through the library and in the reference alike */
static u8 enc_of(STR s) { return s.n >= 4 && ((s.p[0] == 0xFF && s.p[1] == 0xFE) || (s.p[0] == 0xFE && s.p[1] == 0xFF)); }
static void do_set_text(ID3v2_Tag* t, RL* l, const char* id, const u8* flags, u8 enc, STR s)
{
    ID3v2_TextFrameInput in = { id, (const char*)flags, (const char*)s.p }; ID3v2_Tag_set_text_frame(t, &in); rl_set(l, with_flags(rf_text(id, enc, s), flags));
}
static void do_comm(ID3v2_Tag* t, RL* l, int add, const u8* flags, u8 enc, const u8* lang, STR d, STR c)
{
    ID3v2_CommentFrameInput in = { (const char*)flags, (const char*)lang, (const char*)d.p, (const char*)c.p }; RF f = with_flags(rf_comm(enc, lang, d, c), flags);
    if (add) { ID3v2_Tag_add_comment_frame(t, &in); rl_add(l, f); } else { ID3v2_Tag_set_comment_frame(t, &in); rl_set(l, f); }
}
static void do_apic(ID3v2_Tag* t, RL* l, int add, const u8* flags, u8 enc, STR mime, u8 type, STR d, const u8* pic, int pn)
{
    ID3v2_ApicFrameInput in = { (const char*)flags, (const char*)mime.p, (const char*)d.p, (char)type, pn, (const char*)pic }; RF f = with_flags(rf_apic(enc, mime, type, d, pic, pn), flags);
    if (add) { ID3v2_Tag_add_apic_frame(t, &in); rl_add(l, f); } else { ID3v2_Tag_set_apic_frame(t, &in); rl_set(l, f); }
}
#endif
