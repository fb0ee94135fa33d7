/* C04, C05, C06, C10, C11, C12, C13, C16, C17, C18, C20: tags of many frames */
#define POOL 400000
#define MAXF 320
#include "ref.h"
#include "id3v2lib.compat.h"
static u8 tagbuf[40000];
static const u8 ZERO[2] = { 0, 0 };
static RL l;
static void id_of(char* id, int i) { id[0] = 'T'; id[1] = 'A' + i / 100; id[2] = '0' + i / 10 % 10; id[3] = '0' + i % 10; id[4] = 0; }
/* the i-th of many frames: one of each kind in turn, all different */
static RF nth(int i)
{
    char id[5]; u8 lang[3] = { 'e', 'n', 'a' + i % 26 }, fl[2] = { i, i / 7 }; u8* p = take(3); p[0] = i; p[1] = i >> 8; p[2] = 'p'; char d[2] = { 'A' + i % 26, 0 }; if (i % 10 == 0) sx_sym(p + 2, 1, "data"); id_of(id, i); 
    switch (i % 4) { case 0: return with_flags(rf_text(id, 0, lit(id)), fl); case 1: return with_flags(rf_comm(0, lang, lit(d), lit(i % 3 ? "comment" : "x")), fl); case 2: return with_flags(rf_apic(0, lit("i/j"), i % 21, lit(d), p, 3), fl); default: return with_flags(rf_other("PRIV", p, 3), fl); }
}
static void api_add(ID3v2_Tag* t, RL* x, int i)
{
    RF f = nth(i); if (f.kind == OTHER) f = nth(i + 1); STR a = { f.s1, f.n1 }, b = { f.s2, f.n2 };
    if (f.kind == TEXT) do_set_text(t, x, (char[5]){ f.id[0], f.id[1], f.id[2], f.id[3], 0 }, f.flags, 0, a); else if (f.kind == COMM) do_comm(t, x, 1, f.flags, 0, f.lang, a, b); else do_apic(t, x, 1, f.flags, 0, a, f.ptype, b, f.s3, f.n3);
}
static int counts(void) { static const int N[] = { 12, 33, 70, 130, 258 }; return N[sx_param("FROM", 0) + sx_choose(sx_param("COUNT", 4), "frames")]; }
static int encoded(int n, int ver) { l.n = 0; for (int i = 0; i < n; i++) rl_add(&l, nth(i)); return enc_tag(tagbuf, ver, 0, 0, &l, 0, pad_expected = sx_choose(2, "padding") * 15, 0); }
static ID3v2_Tag* make(int how, int n, int ver)     /* 0: from bytes, 1: from a file, 2: frame by frame */
{
    if (how < 2) { int k = encoded(n, ver); if (how == 0) return ID3v2_read_tag_from_buffer((char*)tagbuf, k); fs_put("f", tagbuf, k); return ID3v2_read_tag("f"); }
    pad_of_new(); if (ver == 4) pad_expected = 0; l.n = 0; ID3v2_Tag* t = ver == 3 ? ID3v2_Tag_new_empty() : ID3v2_read_tag_from_buffer("ID3\4\0\0\0\0\0\0", 10); for (int i = 0; i < n; i++) api_add(t, &l, i); return t;
}
static void find_some(ID3v2_Tag* t)
{
    static const char* const IDS[] = { "COMM", "APIC", "PRIV", "TA00", "TA04", "TA12", "TB28", "TB32", "TC56", "TIT2" };
    for (int k = 0; k < 10; k++) {
        int i = rl_find(&l, IDS[k]); ID3v2_Frame* f = ID3v2_Tag_get_frame(t, IDS[k]); sx_assert((f == NULL) == (i < 0), "a frame is found exactly when there is one"); if (f) check_frame(f, &l.f[i]); ID3v2_FrameList* s = k == 0 ? ID3v2_Tag_get_comment_frames(t) : k == 1 ? ID3v2_Tag_get_apic_frames(t) : ID3v2_Tag_get_frames(t, IDS[k]), *q = s;
        for (int j = 0; j < l.n; j++) if (memcmp(l.f[j].id, IDS[k], 4) == 0) { sx_assert(q != NULL && q->frame != NULL, "a frame is missing"); check_frame(q->frame, &l.f[j]); q = q->next; } sx_assert(q == NULL || q->frame == NULL, "a frame too many"); ID3v2_FrameList_unlink(s);
    }
}
static void file_of(ID3v2_Tag* t, int ver, int again)
{
    u8 au[2]; sx_sym(au, 2, "audio"); sx_assume(au[0] != 'I'); fs_put("f", au, 2); ID3v2_write_tag("f", t); int k = check_written(fs_data("f"), fs_size("f"), ver, &l); sx_assert(fs_size("f") == k + 2 && sx_same(fs_data("f") + k, au, 2), "the audio follows the tag"); if (!again) return;
    ID3v2_Tag* r = ID3v2_read_tag("f"); check_tag(r, &l); ID3v2_write_tag("f", r); ID3v2_Tag_free(r); sx_assert(check_written(fs_data("f"), fs_size("f"), ver, &l) == k && fs_size("f") == k + 2, "written again");
}
void m_read(void) { int n = counts(), ver = 3 + sx_choose(2, "version"); ID3v2_Tag* t = make(sx_choose(2, "file"), n, ver); check_tag(t, &l); find_some(t); ID3v2_Tag_free(t); sx_no_leaks("a tag read and freed"); sx_reach("done"); }
void m_write(void) { int n = counts(), ver = 3 + sx_choose(2, "version"); ID3v2_Tag* t = make(sx_choose(2, "made by adding") * 2, n, ver); check_tag(t, &l); file_of(t, ver, 1); check_tag(t, &l); ID3v2_Tag_free(t); sx_no_leaks("a tag written and freed"); sx_reach("done"); }
void m_edit(void)
{
    int n = counts(), ver = 3 + sx_choose(2, "version"); ID3v2_Tag* t = make(sx_choose(2, "made by adding") * 2, n, ver); find_some(t); int comms = 0, pics = 0, j; for (int i = 0; i < l.n; i++) { comms += l.f[i].kind == COMM; pics += l.f[i].kind == APIC; } char id[5]; STR s = iso(3, "text"); u8* p = take(2); sx_sym(p, 2, "picture");
    switch (sx_choose(10, "edit")) {
        case 0: ID3v2_Tag_delete_comment_frame(t, comms - 1); rl_del(&l, rl_nth(&l, "COMM", comms - 1)); break;
        case 1: ID3v2_Tag_delete_apic_frame(t, pics - 1); rl_del(&l, rl_nth(&l, "APIC", pics - 1)); break;
        case 2: ID3v2_Tag_delete_comment_frame(t, comms / 2); rl_del(&l, rl_nth(&l, "COMM", comms / 2)); break;
        case 3: ID3v2_Tag_delete_comment_frame(t, comms); ID3v2_Tag_delete_apic_frame(t, pics); ID3v2_Tag_delete_frame(t, "XXXX"); break;
        case 4: ID3v2_Tag_set_title(t, (char*)s.p); rl_set(&l, rf_text("TIT2", 0, s)); break;
        case 5: for (j = l.n - 1; j >= 0 && l.f[j].kind != TEXT; j--); memcpy(id, l.f[j].id, 4); id[4] = 0; do_set_text(t, &l, id, ZERO, 0, s); break;
        case 6: for (j = l.n - 1; j >= 0 && l.f[j].kind != TEXT; j--); memcpy(id, l.f[j].id, 4); id[4] = 0; ID3v2_Tag_delete_frame(t, id); rl_del(&l, j); break;
        case 7: do_comm(t, &l, 1, ZERO, 0, (const u8*)"xyz", iso(1, "description"), s); do_apic(t, &l, 1, ZERO, 0, lit("i/j"), 3, iso(1, "description"), p, 2); break;
        case 8: while (comms) { ID3v2_Tag_delete_comment(t); rl_del(&l, rl_find(&l, "COMM")); comms--; } sx_assert(ID3v2_Tag_get_comment_frame(t) == NULL, "no comments any more"); break;
        default: while (pics) { ID3v2_Tag_delete_apic_frame(t, pics - 1); pics--; rl_del(&l, rl_nth(&l, "APIC", pics)); } do_comm(t, &l, 0, ZERO, 0, (const u8*)"xyz", iso(1, "description"), s); break;
    }
    check_tag(t, &l); find_some(t); file_of(t, ver, 1); ID3v2_Tag_free(t); sx_no_leaks("a tag edited and freed"); sx_reach("done");
}
void m_compat(void)     /* the same through the old interface */
{
    int n = counts(), ver = 3 + sx_choose(2, "version"), k = encoded(n, ver), edit = sx_choose(3, "edit"); ID3v2_tag* t; if (sx_choose(2, "file")) { fs_put("f", tagbuf, k); t = load_tag("f"); } else t = load_tag_with_buffer((char*)tagbuf, k); sx_assert(t != NULL, "tag"); u8* p = take(2); sx_sym(p, 2, "content"); sx_assume((p[0] != 0) & (p[0] < 0xFE)); p[1] = 0; STR s = { p, 2 };
    if (edit == 1) { tag_set_title((char*)p, 0, t); rl_set(&l, rf_text("TIT2", 0, s)); } if (edit == 2) { tag_set_comment((char*)p, 0, t); rl_set(&l, rf_comm(0, (const u8*)"eng", lit(""), s)); }
    int i = 0; for (ID3v2_frame_list* q = t->frames; q != NULL && q->frame != NULL; q = q->next, i++) { sx_assert(i < l.n, "a frame too many"); const RF* r = &l.f[i]; sx_assert(sx_same(q->frame->frame_id, r->id, 4) & sx_same(q->frame->flags, r->flags, 2), "frame header"); sx_assert(q->frame->size == r->n, "frame size"); sx_assert(sx_same(q->frame->data, r->b, r->n), "frame data"); } sx_assert(i == l.n, "a frame is missing");
    ID3v2_frame* c = tag_get_comment(t); i = rl_find(&l, "COMM"); sx_assert(c != NULL && sx_same(c->data, l.f[i].b, l.f[i].n), "the first comment"); check_tag(t->tag, &l); fs_put("f", "zz", 2); set_tag("f", t); free_tag(t); check_written(fs_data("f"), fs_size("f"), ver, &l); sx_no_leaks("a tag loaded and freed"); sx_reach("done");
}
/* one thing done hundreds of times over, on a small tag */
void m_repeat(void)
{
    int times = 255 + sx_choose(4, "times"), ver = 3 + sx_choose(2, "version"), what = sx_choose(sx_param("WHATS", 8), "what"); pad_of_new(); l.n = 0; if (ver == 4) pad_expected = 0; ID3v2_Tag* t = ver == 3 ? ID3v2_Tag_new_empty() : ID3v2_read_tag_from_buffer("ID3\4\0\0\0\0\0\0", 10);
    for (int i = 0; i < 3; i++) api_add(t, &l, i); u8* p = take(2); sx_sym(p, 2, "content"); STR s = iso(2, "text"); if (what == 3) fs_put("f", "zz", 2);
    for (int i = 0; i < times; i++) {
        char d[3] = { 'a' + i % 26, 'a' + i / 26, 0 }; STR v = i == times - 1 ? s : lit(d);
        switch (what) {
            case 0: do_set_text(t, &l, "TIT2", ZERO, 0, v); break;
            case 1: do_comm(t, &l, 1, ZERO, 0, (const u8*)"xyz", lit(d), v); if (i < times - 1) { ID3v2_Tag_delete_comment_frame(t, i % 2); rl_del(&l, rl_nth(&l, "COMM", i % 2)); } break;
            case 2: do_apic(t, &l, 1, ZERO, 0, lit("i/j"), i % 21, lit(d), p, 2); if (i < times - 1) { ID3v2_Tag_delete_apic_frame(t, i % 2); rl_del(&l, rl_nth(&l, "APIC", i % 2)); } break;
            case 3: ID3v2_write_tag("f", t); break;
            case 4: { int k = enc_tag(tagbuf, ver, 0, 0, &l, 0, 0, 0); ID3v2_Tag* r = ID3v2_read_tag_from_buffer((char*)tagbuf, k); sx_assert(r != NULL, "read"); ID3v2_Tag_free(r); break; }
            case 5: { ID3v2_FrameList* q = ID3v2_Tag_get_comment_frames(t); sx_assert(q != NULL && q->frame != NULL, "comments"); ID3v2_FrameList_unlink(q); break; }
            case 6: ID3v2_Tag_set_artist(t, (char*)v.p); rl_set(&l, rf_text("TPE1", 0, v)); if (i < times - 1) { ID3v2_Tag_delete_artist(t); rl_del(&l, rl_find(&l, "TPE1")); } break;
            default: do_comm(t, &l, 0, ZERO, 0, (const u8*)"xyz", lit(d), v); break;
        }
    }
    if (what == 3) sx_assert(fs_size("f") == check_written(fs_data("f"), fs_size("f"), ver, &l) + 2, "written again and again"); check_tag(t, &l); find_some(t); file_of(t, ver, 1); ID3v2_Tag_free(t); sx_no_leaks("a tag changed and freed"); sx_reach("done");
}
/* many tags alive at once, each with its own content; given back in another order */
void m_alive(void)
{
    static const int N[] = { 3, 9, 17, 33, 65, 130, 258 }; int n = N[sx_choose(sx_param("COUNT", 7), "tags")], how = sx_choose(4, "made"), order = sx_choose(3, "order"); static ID3v2_Tag* t[260]; static u8* p[260];
    for (int i = 0; i < n; i++) {
        p[i] = take(5); p[i][0] = 'a' + i % 26; p[i][1] = 'a' + i / 26; p[i][2] = '!'; p[i][3] = 0; if (i % 16 == 0 || i == n - 1) { sx_sym(p[i] + 2, 1, "text"); sx_assume(p[i][2] != 0); } STR s = { p[i], 4 }; l.n = 0; rl_add(&l, rf_text("TIT2", 0, s));
        if (how == 0) { t[i] = ID3v2_Tag_new_empty(); ID3v2_Tag_set_title(t[i], (char*)p[i]); }
        else { int k = enc_tag(tagbuf, 3 + i % 2, 0, 0, &l, 0, i % 3, 0); if (how == 1) t[i] = ID3v2_read_tag_from_buffer((char*)tagbuf, k); else { fs_put("f", tagbuf, k); t[i] = ID3v2_read_tag("f"); } if (how == 3) { ID3v2_Tag_set_artist(t[i], "x"); ID3v2_Tag_delete_artist(t[i]); } }
    }
    for (int i = 0; i < n; i++) { STR s = { p[i], 4 }; l.n = 0; rl_add(&l, rf_text("TIT2", 0, s)); pad_expected = how ? i % 3 : 0; if (how == 0) pad_of_new(); check_tag(t[i], &l); sx_assert(t[i]->header->major_version == (how ? 3 + i % 2 : 3), "version"); }
    for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 1) % n; if (order == 2 && n % 7 == 0) k = i; ID3v2_Tag_free(t[k]); t[k] = NULL; if (i % 50 == 0) for (int j = 0; j < n; j++) if (t[j]) { sx_assert(sx_same(ID3v2_Tag_get_title_frame(t[j])->data->text, p[j], 4), "another tag is left as it is"); } }
    sx_no_leaks("tags freed"); sx_reach("done");
}
/* one thing done hundreds of times over through the old interface */
void m_repeatc(void)
{
    int times = 255 + sx_choose(4, "times"), what = sx_choose(7, "what"); l.n = 0; for (int i = 0; i < 3; i++) rl_add(&l, nth(i)); int k = enc_tag(tagbuf, 3 + sx_choose(2, "version"), 0, 0, &l, 0, pad_expected = 4, 0), ver = tagbuf[3]; fs_put("f", tagbuf, k); ID3v2_tag* t = load_tag("f"); sx_assert(t != NULL, "tag"); STR s = iso(2, "text");
    for (int i = 0; i < times; i++) {
        char d[3] = { 'a' + i % 26, 'a' + i / 26, 0 }; STR v = i == times - 1 ? s : lit(d);
        switch (what) {
            case 0: tag_set_title((char*)v.p, 0, t); rl_set(&l, rf_text("TIT2", 0, v)); break;
            case 1: tag_set_comment((char*)v.p, 0, t); rl_set(&l, rf_comm(0, (const u8*)"eng", lit(""), v)); break;
            case 2: { ID3v2_frame* f = tag_get_comment(t); sx_assert(f != NULL && sx_same(f->data, l.f[1].b, l.f[1].n), "the comment"); ID3v2_frame_comment_content* c = parse_comment_frame_content(f); sx_assert(c != NULL, "content"); free(c->text); free(c); break; }
            case 3: tag_set_album_cover_from_bytes((char*)v.p, "i/j", 2, t); rl_set(&l, rf_apic(1, lit("i/j"), 3, utf16(0, 0, ""), v.p, 2)); break;
            case 4: set_tag("f", t); break;
            case 5: { ID3v2_tag* r = load_tag("f"); sx_assert(r != NULL, "tag"); free_tag(r); break; }
            default: { ID3v2_tag* r = load_tag_with_buffer((char*)tagbuf, k); sx_assert(r != NULL, "tag"); free_tag(r); break; }
        }
    }
    check_tag(t->tag, &l); fs_put("f", "zz", 2); set_tag("f", t); free_tag(t); int m = check_written(fs_data("f"), fs_size("f"), ver, &l); sx_assert(fs_size("f") == m + 2, "the audio follows"); sx_no_leaks("a tag changed and freed"); sx_reach("done");
}
