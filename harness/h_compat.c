/* C16, C17 (and C13): the interface of earlier versions */
#define POOL 1000000
#include "ref.h"
#include "walk.h"
#include "id3v2lib.compat.h"
static u8 tagbuf[200000];
static const u8 ENG[3] = { 'e', 'n', 'g' };
static const char* const NAME[11] = { "TIT2", "TPE1", "TALB", "TPE2", "TCON", "TRCK", "TYER", "TPOS", "TCOM", "COMM", "APIC" };
static ID3v2_frame* cget(ID3v2_tag* t, int k)
{
    switch (k) {
        case 0: return tag_get_title(t); case 1: return tag_get_artist(t); case 2: return tag_get_album(t); case 3: return tag_get_album_artist(t); case 4: return tag_get_genre(t); case 5: return tag_get_track(t);
        case 6: return tag_get_year(t); case 7: return tag_get_disc_number(t); case 8: return tag_get_composer(t); case 9: return tag_get_comment(t); default: return tag_get_album_cover(t);
    }
}
static void cset(ID3v2_tag* t, int k, char* s, char enc)
{
    switch (k) {
        case 0: tag_set_title(s, enc, t); break; case 1: tag_set_artist(s, enc, t); break; case 2: tag_set_album(s, enc, t); break; case 3: tag_set_album_artist(s, enc, t); break; case 4: tag_set_genre(s, enc, t); break; case 5: tag_set_track(s, enc, t); break;
        case 6: tag_set_year(s, enc, t); break; case 7: tag_set_disc_number(s, enc, t); break; case 8: tag_set_composer(s, enc, t); break; default: tag_set_comment(s, enc, t); break;
    }
}
/* the content a frame of the list is parsed into */
static void check_content(ID3v2_frame* f, const RF* r)
{
    if (r->kind == TEXT) {
        ID3v2_frame_text_content* c = parse_text_frame_content(f); sx_assert(c != NULL && (u8)c->encoding == r->enc, "parsed text: encoding");
        sx_assert(c->size >= r->n1 && c->size <= r->n1 + 2 * (wide(r->enc) + 1), "parsed text: size"); sx_assert(r->asis || c->size == r->n1, "parsed text: size"); check_str((u8*)c->data, r->s1, r->n1, "parsed text"); sx_touch(c->data, c->size); free(c->data); free(c);
    } else if (r->kind == COMM) {
        ID3v2_frame_comment_content* c = parse_comment_frame_content(f); sx_assert(c != NULL && c->text != NULL, "parsed comment"); sx_assert((u8)c->text->encoding == r->enc, "parsed comment: encoding"); sx_assert(sx_same(c->language, r->lang, 3), "parsed comment: language");
        check_str((u8*)c->short_description, r->s1, r->n1, "parsed comment: description"); sx_assert(c->text->size == r->n2, "parsed comment: size"); check_str((u8*)c->text->data, r->s2, r->n2, "parsed comment"); free(c->text); free(c);
    } else if (r->kind == APIC) {
        ID3v2_frame_apic_content* c = parse_apic_frame_content(f); sx_assert(c != NULL && (u8)c->encoding == r->enc, "parsed picture: encoding"); sx_assert((u8)c->picture_type == r->ptype, "parsed picture: type"); check_str((u8*)c->mime_type, r->s1, r->n1, "parsed picture: mime type");
        check_str((u8*)c->description, r->s2, r->n2, "parsed picture: description"); sx_assert(c->picture_size == r->n3, "parsed picture: size"); if (r->n3) check_str((u8*)c->data, r->s3, r->n3, "parsed picture"); free(c);
    }
}
/* a frame of the list: header fields, the bytes of its body, and what they are parsed into */
static void check_cframe(ID3v2_frame* f, const RF* r)
{
    sx_assert(f != NULL, "a frame"); sx_assert(sx_same(f->frame_id, r->id, 4), "frame id"); sx_assert(sx_same(f->flags, r->flags, 2), "frame flags"); int n = sx_concrete(f->size);
    if (r->asis) { sx_assert(n >= r->n && n <= r->n + 4, "frame size"); sx_assert(sx_same(f->data, r->b, r->n), "frame data"); sx_assert(zeros((u8*)f->data + r->n, n - r->n), "only terminators after the text"); }
    else { sx_assert(n == r->n, "frame size"); sx_assert(n == 0 || sx_same(f->data, r->b, n), "frame data"); }
    check_content(f, r);
}
/* the whole of the interface against the list */
static void check_compat(ID3v2_tag* t, const RL* l)
{
    sx_assert(t != NULL && t->frames != NULL, "there is a tag"); int i = 0; for (ID3v2_frame_list* p = t->frames; p != NULL && p->frame != NULL; p = p->next, i++) { sx_assert(i < l->n, "a frame too many"); check_cframe(p->frame, &l->f[i]); } sx_assert(i == l->n, "a frame is missing");
    for (int k = 0; k < 11; k++) { int j = rl_find(l, NAME[k]); ID3v2_frame* f = cget(t, k); sx_assert((f == NULL) == (j < 0), "a frame is found exactly when there is one"); if (f) { sx_assert(sx_same(f->frame_id, l->f[j].id, 4), "the frame with that id"); sx_assert(f->size == l->f[j].n || l->f[j].asis, "the first frame with that id"); if (!l->f[j].asis) sx_assert(sx_same(f->data, l->f[j].b, l->f[j].n), "the first frame with that id"); } }
    check_tag(t->tag, l);
}
static void check_chead(const ID3v2_tag* t, const u8* b, int size) { const ID3v2_header* h = t->tag_header; sx_assert(sx_same(h->tag, "ID3", 3), "identifier"); sx_assert((u8)h->major_version == b[3] && (u8)h->minor_version == b[4] && (u8)h->flags == b[5], "versions and flags"); sx_assert(h->tag_size == size, "tag size"); }
static RF raw(int kind, int sk, int n, int i)
{
    u8 fl[2]; sx_sym(fl, 2, "frame flags"); u8 lang[3], ty, *p; char id[4]; RF f;
    switch (kind) {
        case 0: { STR s = str(sk, n, "text"); f = rf_text(i ? "TPE1" : NAME[sx_choose(9, "field")], sk != 0, s); break; }
        case 1: { sx_sym(lang, 3, "language"); STR d = str(sk, n / 2, "description"), c = str(sk, n, "comment"); f = rf_comm(sk != 0, lang, d, c); break; }
        case 2: { sx_sym(&ty, 1, "picture type"); p = take(n + 1); sx_sym(p, n + 1, "picture"); STR m = iso(n, "mime"), d = str(sk, n / 2, "description"); f = rf_apic(sk != 0, m, ty, d, p, n + 1); break; }
        case 3: p = take(n + 1); sx_sym(p, n + 1, "data"); other_id(id); f = rf_other(id, p, n + 1); break;
        default: { p = take(n + 1); sx_sym(p, n + 1, "body"); sx_assume((p[0] == 0) | (p[0] == 3)); sx_assume(n == 0 || p[n] != 0); if (n >= 2) sx_assume(p[1] < 0xFE); f = rf_text("TXXX", 0, lit("")); f.enc = p[0]; f.b = p; f.n = n + 1; f.s1 = p + 1; f.n1 = n; f.asis = 1; }
    }
    return with_flags(f, fl);
}
/* ---------------------------------------------------------------- C16 */
void c16_view(void)
{
    int k = sx_param("FRAMES", 1), len = sx_param("LEN", 2), ver = 3 + sx_choose(2, "version"); RL l; l.n = 0; u8 tf, minor; sx_sym(&tf, 1, "tag flags"); sx_sym(&minor, 1, "minor version");
    for (int i = 0; i < k; i++) { int kind = sx_choose(5, "kind"); rl_add(&l, raw(kind, kind >= 3 ? 0 : sx_choose(3, "strings"), len, i)); }
    int ext = (int[]){ 0, ver == 3 ? 10 : 6, 300 }[sx_choose(k == 1 ? 3 : 2, "extended header")], pad = 11 * sx_choose(2, "padding"), n = enc_tag(tagbuf, ver, minor, tf, &l, ext, pad, 0); ID3v2_tag* t;
    if (sx_choose(2, "file")) { u8 au[2]; sx_sym(au, 2, "audio"); memcpy(tagbuf + n, au, 2); fs_put("f", tagbuf, n + 2); t = load_tag("f"); sx_assert(fs_size("f") == n + 2 && sx_same(fs_data("f"), tagbuf, n + 2), "loading leaves the file alone"); sx_assert(fs_open_handles() == 0, "files are closed"); }
    else { char* c = malloc(n); memcpy(c, tagbuf, n); t = load_tag_with_buffer(c, n); free(c); }
    check_compat(t, &l); int plain = ext == 0; for (int i = 0; i < k; i++) plain &= !l.f[i].asis; check_chead(t, tagbuf, plain ? (int)rss(tagbuf + 6) : t->tag->header->tag_size); free_tag(t); sx_no_leaks("a tag loaded and freed"); sx_reach("done");
}
void c16_two(void)    /* one tag after another, the first one kept or not */
{
    RL l[2]; ID3v2_tag* t[2]; int how = sx_param("FILE", 0), keep = sx_choose(2, "kept"), first = sx_choose(6, "kind"); for (int i = 0; i < 2; i++) {
        int ver = 3 + sx_choose(2, "version"), k = i ? (first + sx_choose(2, "another kind")) % 6 : first, ext = 10 * (i ^ how); l[i].n = 0; if (k < 5) rl_add(&l[i], raw(k, k >= 3 ? 0 : sx_choose(2, "strings"), sx_param("LEN", 2), 0)); u8 tf; sx_sym(&tf, 1, "tag flags"); int n = enc_tag(tagbuf, ver, 0, tf, &l[i], ext, 14 - ext, 0);
        if (how) { fs_put("f", tagbuf, n); t[i] = load_tag("f"); } else { char* c = malloc(n); memcpy(c, tagbuf, n); t[i] = load_tag_with_buffer(c, n); free(c); } sx_assert(t[i] != NULL, "tag"); check_compat(t[i], &l[i]); if (!i && !keep) free_tag(t[0]);
    }
    if (keep) { check_compat(t[0], &l[0]); free_tag(t[0]); } check_compat(t[1], &l[1]); free_tag(t[1]); sx_no_leaks("tags loaded one after another"); sx_reach("done");
}
void c16_any(void)    /* any bytes: the same frames as through the other interface, and all of it may be read */
{
    int n = sx_param("N", 16), lead = sx_param("LEAD", 0), file = sx_param("FILE", 0); u8* b = take(n); sx_sym(b, n, "bytes"); if (lead) sx_assume((b[0] == 'I') & (b[1] == 'D') & (b[2] == '3'));
    char* c = malloc(n ? n : 1); memcpy(c, b, n); ID3v2_Tag* u = ID3v2_read_tag_from_buffer(c, n); ID3v2_tag* t; if (file) { fs_put("f", b, n); t = load_tag("f"); } else t = load_tag_with_buffer(c, n); free(c);
    sx_assert((t == NULL) == (u == NULL), "there is a tag exactly when there is one for the other interface"); if (!t) { sx_reach("no tag"); sx_no_leaks("rejected bytes"); return; }
    sx_touch(t->tag_header, 6); sx_assert(t->tag_header->tag_size == u->header->tag_size, "tag size"); int k = 0; ID3v2_FrameList* q = u->frames;
    for (ID3v2_frame_list* p = t->frames; p != NULL && p->frame != NULL; p = p->next, k++) {
        ID3v2_frame* f = p->frame; sx_assert(q != NULL && q->frame != NULL, "a frame too many"); sx_assert(sx_same(f->frame_id, q->frame->header->id, 4) & sx_same(f->flags, q->frame->header->flags, 2), "frame header"); sx_assert(f->size == q->frame->header->size && f->size >= 0, "frame size"); sx_touch(f->data, f->size); q = q->next;
    }
    sx_assert(q == NULL || q->frame == NULL, "a frame is missing"); if (k == 0) sx_reach("no frames"); else if (k == 1) sx_reach("one frame"); else sx_reach("frames"); walk_tag(t->tag); free_tag(t); ID3v2_Tag_free(u); sx_no_leaks("a tag loaded and freed");
}
void c16_none(void)   /* what is not there */
{
    sx_assert(load_tag("missing") == NULL, "a missing file has no tag"); u8 b[12]; sx_sym(b, 12, "file"); sx_assume(!((b[0] == 'I') & (b[1] == 'D') & (b[2] == '3') & ((b[3] == 3) | (b[3] == 4)))); fs_put("f", b, 12); sx_assert(load_tag("f") == NULL, "a file without a tag"); free_frame(NULL); sx_assert(fs_open_handles() == 0 && fs_count() == 1, "files are closed"); sx_no_leaks("no tag");
    ID3v2_tag* t = new_tag(); RL l; l.n = 0; check_compat(t, &l); check_chead(t, (const u8*)"ID3\3\0\0", 0); free_tag(t); sx_no_leaks("a new tag"); sx_reach("done");
}
void c16_big(void)    /* long frames */
{
    static const int L[] = { 126, 127, 128, 254, 255, 256, 1022, 1024, 4086, 4094, 4096, 16374, 16382, 16384, 33000, 65519, 65534, 65536, 100000 }; int kind = sx_choose(5, "kind"), ver = 3 + sx_choose(2, "version"), n = L[sx_choose(19, "size")]; RL l; l.n = 0; STR s = longstr(kind == 4, kind == 4 ? n / 2 : n, "content"); rl_add(&l, rf_text("TPE1", 0, iso(1, "artist")));
    if (kind == 0 || kind == 4) rl_add(&l, rf_text("TCON", kind == 4, s)); if (kind == 1) rl_add(&l, rf_comm(0, ENG, iso(1, "description"), s)); if (kind == 2) rl_add(&l, rf_apic(0, lit("i/j"), 3, iso(1, "description"), s.p, n)); if (kind == 3) rl_add(&l, rf_other("PRIV", s.p, n)); rl_add(&l, rf_text("TIT2", 0, iso(1, "title")));
    int k = enc_tag(tagbuf, ver, 0, 0, &l, 0, 3, 0); ID3v2_tag* t; if (sx_choose(2, "file")) { fs_put("f", tagbuf, k); t = load_tag("f"); } else t = load_tag_with_buffer((char*)tagbuf, k); check_compat(t, &l); check_chead(t, tagbuf, k - 10); free_tag(t); sx_no_leaks("a tag loaded and freed"); sx_reach("done");
}
/* ---------------------------------------------------------------- C17 */
static ID3v2_tag* cbase(int kind, RL* l)   /* 0: new, 1: loaded v2.3, 2: loaded v2.4 with several of some */
{
    l->n = 0; pad_of_new(); if (kind == 0) return new_tag(); pad_expected = kind == 1 ? 12 : 0;
    rl_add(l, rf_text("TPE1", 0, iso(1, "artist"))); rl_add(l, rf_comm(0, (const u8*)"deu", iso(1, "description"), iso(1, "comment"))); rl_add(l, rf_other("PRIV", (const u8*)"abc", 3)); u8* p = take(2); sx_sym(p, 2, "picture"); rl_add(l, rf_apic(0, lit("image/png"), 4, iso(1, "description"), p, 2));
    if (kind == 2) { rl_add(l, rf_comm(1, ENG, utf16(1, 0, "description"), utf16(0, 0, "comment"))); rl_add(l, rf_text("TCOM", 1, utf16(1, 1, "composer"))); rl_add(l, rf_text("TPE1", 0, iso(1, "artist"))); rl_add(l, rf_apic(0, lit("image/jpeg"), 4, iso(1, "description"), p, 1)); }
    int n = enc_tag(tagbuf, kind == 2 ? 4 : 3, 0, 0, l, 0, kind == 1 ? 12 : 0, 0); return load_tag_with_buffer((char*)tagbuf, n);
}
static RF cover(const char* mime, const u8* p, int n) { return rf_apic(1, lit(mime), 3, utf16(0, 0, ""), p, n); }
static void one_set(ID3v2_tag* t, RL* l, int len, int few)
{
    static const int FEW[] = { 0, 1, 8, 9, 10 }; int k = few ? FEW[sx_choose(5, "field")] : sx_choose(11, "field"); if (k < 10) {
        int sk = sx_choose(few ? 2 : 3, "string"); STR s = str(sk, len, "text"), empty = sk ? utf16(0, 0, "") : iso(0, ""); char e; sx_sym(&e, 1, "encoding"); static char own[64]; char* h = sx_param("REUSE", 0) ? own : malloc(s.n); memcpy(h, s.p, s.n); cset(t, k, h, e); memset(h, 1, s.n); if (h != own) free(h);
        rl_set(l, k < 9 ? rf_text(NAME[k], sk != 0, s) : rf_comm(sk != 0, ENG, empty, s));
    } else { int n = len + 1; u8* p = take(n); sx_sym(p, n, "picture"); char* h = malloc(n); memcpy(h, p, n); char m[] = "image/png"; tag_set_album_cover_from_bytes(h, m, n, t); memset(h, 1, n); memset(m, 'x', 9); free(h); rl_set(l, cover("image/png", p, n)); }
}
static void persist(ID3v2_tag* t, int ver, const RL* l)   /* written, it is what both interfaces load; removed, the audio is left */
{
    u8 au[3]; sx_sym(au, 3, "audio"); sx_assume(au[0] != 'I'); fs_put("f", au, 3); set_tag("f", t); check_compat(t, l); free_tag(t); int k = check_written(fs_data("f"), fs_size("f"), ver, l); sx_assert(fs_size("f") == k + 3 && sx_same(fs_data("f") + k, au, 3), "the audio follows the tag");
    ID3v2_tag* r = load_tag("f"); check_compat(r, l); free_tag(r); ID3v2_Tag* n = ID3v2_read_tag("f"); check_tag(n, l); ID3v2_Tag_free(n); remove_tag("f"); sx_assert(fs_size("f") == 3 && sx_same(fs_data("f"), au, 3), "removing the tag leaves the audio"); sx_assert(load_tag("f") == NULL, "no tag any more"); sx_assert(fs_open_handles() == 0 && fs_count() == 1, "files are closed"); sx_no_leaks("tags of a file");
}
void c17_set(void)
{
    int b = sx_choose(3, "tag"), m = sx_param("SETS", 1), len = sx_param("LEN", 2); RL l; ID3v2_tag* t = cbase(b, &l); for (int i = 0; i < m; i++) { one_set(t, &l, m == 1 ? lens(len) : len, m > 1); check_compat(t, &l); } persist(t, b == 2 ? 4 : 3, &l); sx_reach("done");
}
void c17_same(void)    /* a content replaced by another of equal length, and by much longer or shorter ones */
{
    static const int L[] = { 1, 126, 128, 255, 300, 33000, 70000 }; int k = sx_choose(3, "field") + 8, same = sx_choose(2, "same"), b = sx_choose(2, "tag") * 2, m = sx_param("SIZES", 6), n1 = L[same ? 0 : sx_choose(m, "size")], n2 = L[same ? 1 : sx_choose(m, "new size")]; RL l; ID3v2_tag* t = cbase(b, &l);
    for (int i = 0; i < 2; i++) {
        int sk = same ? sx_choose(3, "string") : 0, n = i ? n2 : n1; STR s = same ? sk ? utf16(1, sk == 2, "text") : iso(5, "text") : longstr(0, n, "text"), e = sk ? utf16(0, 0, "") : iso(0, ""); if (k < 10) { char enc; sx_sym(&enc, 1, "encoding"); cset(t, k, (char*)s.p, enc); rl_set(&l, k < 9 ? rf_text(NAME[k], sk != 0, s) : rf_comm(sk != 0, ENG, e, s)); } else { n = same ? 6 : n; tag_set_album_cover_from_bytes((char*)s.p, i ? "i/j" : "a/b", n, t); rl_set(&l, cover(i ? "i/j" : "a/b", s.p, n)); } check_compat(t, &l);
    }
    persist(t, b == 2 ? 4 : 3, &l); sx_reach("done");
}
void c17_cover(void)   /* from a file: by its extension; a file that is not there leaves the tag as it is */
{
    static const char* const FN[] = { "c.png", "c.jpg", "c.jpeg", "cover", "a.png.jpg", "a.b.png", "png", ".png", "c.PNG", "c.pngx", "missing.png" }; static const u8 PNG[] = { 1, 0, 0, 0, 0, 1, 0, 1, 2, 0 };   /* 2: either will do */
    int b = sx_choose(3, "tag"), f = sx_choose(11, "name"), n = sx_choose(5, "length"); RL l; ID3v2_tag* t = cbase(b, &l); u8* p = take(n + 1); sx_sym(p, n, "picture");
    if (f < 10) fs_put(FN[f], p, n); tag_set_album_cover(FN[f], t); sx_assert(fs_open_handles() == 0, "files are closed");
    if (f < 10) { int png = PNG[f]; if (png == 2) { ID3v2_frame* c = tag_get_album_cover(t); png = c && sx_concrete(c->data[7] == 'p'); } rl_set(&l, cover(png ? "image/png" : "image/jpeg", p, n)); sx_assert(fs_size(FN[f]) == n && sx_same(fs_data(FN[f]), p, n), "the picture file is not changed"); sx_reach("set"); } else sx_reach("missing");
    check_compat(t, &l); free_tag(t); sx_no_leaks("album cover");
}
void c17_bigcover(void)
{
    static const int L[] = { 127, 128, 4095, 4096, 4097, 16384, 65535, 65536 }; int n = L[sx_choose(8, "size")]; STR s = longstr(0, n, "picture"); s.p[n / 2] = 0; s.p[n / 3] = 0xFF; s.p[n / 3 + 1] = 0x1A; fs_put("c.jpg", s.p, n); RL l; ID3v2_tag* t = cbase(0, &l); tag_set_album_cover("c.jpg", t); rl_set(&l, cover("image/jpeg", s.p, n)); check_compat(t, &l); fs_put("f", "zz", 2); set_tag("f", t); free_tag(t); t = load_tag("f"); check_compat(t, &l); free_tag(t); sx_no_leaks("album cover"); sx_reach("done");
}
/* C15: faults while a picture is read from a file */
void c17_coverfault(void)
{
    RL l; ID3v2_tag* t = cbase(1, &l); u8* p = take(3); sx_sym(p, 3, "picture"); fs_put("c.png", p, 3); fs_fault_at(sx_choose(sx_param("K", 8), "operation")); tag_set_album_cover("c.png", t); int f = fs_faulted(); fs_fault_at(-1); sx_assert(fs_open_handles() == 0, "files are closed");
    if (f) { ID3v2_frame* c = tag_get_album_cover(t); sx_assert(c != NULL, "a cover"); if (sx_concrete(c->data[0] == 0)) sx_reach("not set"); else { rl_set(&l, cover("image/png", p, 3)); sx_reach("set all the same"); } } else { rl_set(&l, cover("image/png", p, 3)); sx_reach("set"); }
    check_compat(t, &l); free_tag(t); sx_no_leaks("album cover");
}
void c17_loadfault(void)
{
    RL l; ID3v2_tag* t = cbase(1, &l); fs_put("f", "zz", 2); set_tag("f", t); free_tag(t); fs_fault_at(sx_choose(sx_param("K", 8), "operation")); t = load_tag("f"); int f = fs_faulted(); fs_fault_at(-1); sx_assert(fs_open_handles() == 0, "files are closed"); if (t == NULL) { sx_assert(f, "a tag"); sx_reach("not loaded"); } else { if (!f) check_compat(t, &l); walk_tag(t->tag); free_tag(t); sx_reach("loaded"); } sx_no_leaks("loading a tag");
}
/* ---------------------------------------------------------------- files of any name (C02, C06, C07, C08, C16, C17) */
static char* file_name(void)
{
    static const char* const N[] = { "song.mp3", "song", "./song.mp3", "d/song.mp3", "d/e/..f/so ng.mp3", "song.mp3.mp3", "a b%s%n%d.mp3", "-", "--help", ".hidden", "..x", "song.tmp", "tmp", "~", "a:b*c?.mp3", "\303\274.mp3", "f\\g\"h'i" };
    static const int L[] = { 1, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 99, 100, 127, 128, 129, 199, 200, 253, 254, 255 }, P[] = { 256, 257, 259, 260, 261, 300, 511, 512, 513, 1000, 1023, 1024, 1025 };
    static char b[1200]; int how = sx_choose(4, "kind of name"), i, n;
    if (how == 0) { strcpy(b, N[sx_choose(17, "name")]); }
    else if (how == 1) { n = L[sx_choose(23, "length of the name")]; for (i = 0; i < n; i++) b[i] = 'a' + i % 23; b[n] = 0; if (n > 9) memcpy(b + n - 4, ".mp3", 4); }
    else if (how == 2) { n = P[sx_choose(13, "length of the path")]; for (i = 0; i < n; i++) b[i] = i % 50 == 49 && i < n - 1 ? '/' : 'a' + i % 23; b[n] = 0; }
    else { n = sx_param("NAME", 4); sx_sym(b, n, "name"); for (i = 0; i < n; i++) { u8 c = b[i]; sx_assume((c > 31) & (c != '/') & (c != '.')); } b[n] = 0; }
    return b;
}
void f_names(void)
{
    int op = sx_param("OP", 0), ver = 3 + sx_choose(2, "version"); char* name = file_name(); int ln = strlen(name); static char near[1300]; RL l; l.n = 0; STR s = iso(2, "text"); rl_add(&l, rf_text("TIT2", 0, s)); rl_add(&l, rf_comm(0, (const u8*)"eng", lit("d"), lit("comment")));
    static const char* const EXT[] = { "~", ".tmp", ".bak", "1" }; int other = sx_choose(6, "other file"); strcpy(near, name); if (other < 4 && ln <= 250) strcat(near, EXT[other]); else if (ln > 1 && name[ln - 2] != '/') near[ln - 1] = 0; else strcpy(near, "t"); if (other == 5) strcpy(near, "other"); sx_assume(strcmp(near, ".") != 0 && strcmp(near, "..") != 0);
    int k = enc_tag(tagbuf, ver, 0, 0, &l, 0, pad_expected = 7, 0); u8 au[3]; sx_sym(au, 3, "audio"); sx_assume(au[0] != 'I'); memcpy(tagbuf + k, au, 3); fs_put(name, tagbuf, k + 3); fs_put(near, "ID3 other", 9);
    char* given = (char*)take(ln + 1); memcpy(given, name, ln + 1); int left = k + 3;
    switch (op) {
        case 0: { ID3v2_Tag* t = ID3v2_read_tag(given); check_tag(t, &l); ID3v2_Tag_free(t); ID3v2_TagHeader* h = ID3v2_read_tag_header(given); sx_assert(h != NULL && h->major_version == ver && h->tag_size == (unsigned)k - 10, "the header of the tag"); free(h); break; }
        case 1: { ID3v2_Tag* t = ID3v2_read_tag(given); check_tag(t, &l); ID3v2_Tag_set_album(t, "x"); rl_set(&l, rf_text("TALB", 0, lit("x"))); ID3v2_write_tag(given, t); check_tag(t, &l); ID3v2_Tag_free(t); k = check_written(fs_data(name), fs_size(name), ver, &l); left = k + 3; break; }
        case 2: ID3v2_delete_tag(given); k = 0; left = 3; break;
        case 3: { ID3v2_tag* t = load_tag(given); check_compat(t, &l); tag_set_artist("abc", 0, t); rl_set(&l, rf_text("TPE1", 0, lit("abc"))); set_tag(given, t); free_tag(t); k = check_written(fs_data(name), fs_size(name), ver, &l); t = load_tag(given); check_compat(t, &l); free_tag(t); left = k + 3; break; }
        case 4: remove_tag(given); k = 0; left = 3; break;
    }
    if (op == 0) sx_assert(sx_same(fs_data(name), tagbuf, k), "reading leaves the file"); sx_assert(fs_size(name) == left && sx_same(fs_data(name) + k, au, 3), "the audio is left"); sx_assert(fs_size(near) == 9 && sx_same(fs_data(near), "ID3 other", 9), "the other file is left"); if (name[0] != '.' && near[0] != '.' && !strchr(name, '/')) sx_assert(fs_count() == 2, "no files are made"); sx_assert(sx_same(given, name, ln + 1), "the name is left"); sx_no_leaks("all freed"); sx_reach("done");
}
void f_covers(void)     /* an album cover from a file of any name */
{
    char* name = file_name(); int ln = strlen(name), png = ln > 4 && sx_choose(2, "png"); if (png) memcpy(name + ln - 4, ".png", 4); RL l; ID3v2_tag* t = cbase(1, &l); u8* p = take(3); sx_sym(p, 3, "picture"); fs_put(name, p, 3); char* given = (char*)take(ln + 1); memcpy(given, name, ln + 1);
    tag_set_album_cover(given, t); rl_set(&l, cover(png ? "image/png" : "image/jpeg", p, 3)); check_compat(t, &l); sx_assert(fs_size(name) == 3 && sx_same(fs_data(name), p, 3), "the picture file is not changed"); sx_assert(fs_open_handles() == 0, "files are closed"); sx_assert(sx_same(given, name, ln + 1), "the name is left"); free_tag(t); sx_no_leaks("album cover"); sx_reach("done");
}
