/* C10, C11, C12, C18, C19: frames in memory */
#include "ref.h"
static u8 tagbuf[4000];
static const u8 ZERO[2] = { 0, 0 };
static const u8 ENG[3] = { 'e', 'n', 'g' };
/* a tag to start from.  0: new, 1: empty v2.4, 2: read from bytes with one of each kind, 3: with several of each kind */
static ID3v2_Tag* base(int kind, RL* l)
{
    l->n = 0; if (kind == 0) { pad_of_new(); return ID3v2_Tag_new_empty(); } pad_expected = kind == 2 ? 12 : 0;
    if (kind >= 2) { rl_add(l, rf_text("TPE1", 0, iso(1, "artist"))); rl_add(l, rf_comm(0, ENG, iso(1, "description"), iso(1, "comment"))); rl_add(l, rf_other("PRIV", (const u8*)"abc", 3)); u8* p = take(2); sx_sym(p, 2, "picture"); rl_add(l, rf_apic(0, lit("image/png"), 3, iso(0, ""), p, 2)); }
    if (kind == 3) { rl_add(l, rf_comm(1, (const u8*)"deu", utf16(1, 0, "description"), utf16(0, 0, "comment"))); rl_add(l, rf_text("TPE1", 1, utf16(1, 1, "artist"))); u8* p = take(1); sx_sym(p, 1, "picture"); rl_add(l, rf_apic(0, lit("image/jpeg"), 4, iso(1, "description"), p, 1)); rl_add(l, rf_other("PRIV", (const u8*)"d", 1)); }
    int n = enc_tag(tagbuf, kind == 1 || kind == 3 ? 4 : 3, 0, 0, l, 0, kind == 2 ? 12 : 0, 0); return ID3v2_read_tag_from_buffer((char*)tagbuf, n);
}
/* every way of looking at the tag agrees with the list */
static void check_getters(ID3v2_Tag* t, const RL* l)
{
    check_tag(t, l);
    for (int k = 0; k < NFIELDS; k++) { int i = rl_find(l, FIELD[k]); ID3v2_TextFrame* f = get_field(t, k); sx_assert((f == NULL) == (i < 0), "a getter finds a frame exactly when there is one"); if (f) { check_frame((ID3v2_Frame*)f, &l->f[i]); } }
    static const char* const IDS[] = { "COMM", "APIC", "TPE1", "TIT2", "PRIV", "XXXX" };
    for (int k = 0; k < 6; k++) {
        int i = rl_find(l, IDS[k]); ID3v2_Frame* f = ID3v2_Tag_get_frame(t, IDS[k]); sx_assert((f == NULL) == (i < 0), "a frame is found exactly when there is one"); if (f) check_frame(f, &l->f[i]);
        ID3v2_FrameList* s = k == 0 ? ID3v2_Tag_get_comment_frames(t) : k == 1 ? ID3v2_Tag_get_apic_frames(t) : ID3v2_Tag_get_frames(t, IDS[k]); RL m; m.n = 0; for (int j = 0; j < l->n; j++) if (memcmp(l->f[j].id, IDS[k], 4) == 0) rl_add(&m, l->f[j]);
        check_frames(s, &m); if (s && s->frame) sx_assert(s->frame == f, "the first frame is the same one"); ID3v2_FrameList_unlink(s);
    }
    int i = rl_find(l, "COMM"); ID3v2_CommentFrame* c = ID3v2_Tag_get_comment_frame(t); sx_assert((c == NULL) == (i < 0), "comment"); if (c) check_frame((ID3v2_Frame*)c, &l->f[i]);
    i = rl_find(l, "APIC"); ID3v2_ApicFrame* a = ID3v2_Tag_get_album_cover_frame(t); sx_assert((a == NULL) == (i < 0), "album cover"); if (a) check_frame((ID3v2_Frame*)a, &l->f[i]);
}
/* ---------------------------------------------------------------- C10 */
void c10_fields(void)
{
    RL l; ID3v2_Tag* t = base(sx_choose(4, "tag"), &l); int k = sx_choose(NFIELDS, "field"), sk = sx_choose(3, "string"); STR s = str(sk, lens(sx_param("LEN", 3)), "text");
    set_field(t, k, (char*)s.p); rl_set(&l, rf_text(FIELD[k], sk != 0, s)); check_getters(t, &l);
    STR s2 = str(sx_choose(2, "string"), 2, "other text"); int k2 = sx_choose(2, "same field") ? k : (k + 1) % NFIELDS; set_field(t, k2, (char*)s2.p); rl_set(&l, rf_text(FIELD[k2], enc_of(s2), s2)); check_getters(t, &l); sx_reach("done"); ID3v2_Tag_free(t);
}
void c10_allfields(void)
{
    RL l; l.n = 0; ID3v2_Tag* t = ID3v2_Tag_new_empty(); for (int k = 0; k < NFIELDS; k++) { STR s = iso(1 + k % 2, "text"); set_field(t, k, (char*)s.p); rl_set(&l, rf_text(FIELD[k], 0, s)); } check_getters(t, &l); sx_reach("done"); ID3v2_Tag_free(t);
}
void c10_text(void)    /* any text frame, any flags */
{
    RL l; ID3v2_Tag* t = base(sx_choose(4, "tag"), &l); char id[5]; u8 fl[2]; id[0] = 'T'; id[4] = 0; sx_sym(id + 1, 3, "id"); for (int i = 1; i < 4; i++) sx_assume(id[i] != 0); sx_sym(fl, 2, "flags"); int sk = sx_choose(3, "string"); do_set_text(t, &l, id, fl, sk != 0, str(sk, 2, "text"));
    check_tag(t, &l); ID3v2_Frame* f = ID3v2_Tag_get_frame(t, id); int i = rl_find(&l, id); sx_assert(f != NULL && i >= 0, "the frame is found"); check_frame(f, &l.f[i]); sx_reach("done"); ID3v2_Tag_free(t);
}
void c10_comments(void)
{
    RL l; ID3v2_Tag* t = base(sx_choose(4, "tag"), &l); for (int i = 0; i < 2; i++) {
        int how = sx_choose(3, "how"), sk = sx_choose(3, "string"); u8 lang[3], fl[2]; sx_sym(lang, 3, "language"); STR c = str(sk, sx_choose(2, "length") * 2, "comment");
        if (how == 2) { ID3v2_Tag_set_comment(t, (char*)lang, (char*)c.p); STR d = sk ? utf16(0, 0, "") : iso(0, ""); rl_set(&l, rf_comm(sk != 0, lang, d, c)); } else { sx_sym(fl, 2, "flags"); do_comm(t, &l, how, fl, sk != 0, lang, str(sk, 1, "description"), c); }
        check_getters(t, &l); } sx_reach("done"); ID3v2_Tag_free(t);
}
void c10_pictures(void)
{
    RL l; ID3v2_Tag* t = base(sx_choose(4, "tag"), &l); for (int i = 0; i < 2; i++) {
        int how = sx_choose(3, "how"), sk = sx_choose(3, "string"), n = sx_choose(2, "length") * 3; u8 ty, fl[2], *p = take(n); sx_sym(p, n, "picture"); STR m = iso(2, "mime type");
        if (how == 2) { ID3v2_Tag_set_album_cover(t, (char*)m.p, n, (char*)p); rl_set(&l, rf_apic(1, m, 3, utf16(0, 0, ""), p, n)); } else { sx_sym(fl, 2, "flags"); sx_sym(&ty, 1, "picture type"); do_apic(t, &l, how, fl, sk != 0, m, ty, str(sk, 1, "description"), p, n); }
        check_getters(t, &l); } sx_reach("done"); ID3v2_Tag_free(t);
}
void c10_null(void)
{
    sx_assert(ID3v2_Tag_get_frame(NULL, "TIT2") == NULL && ID3v2_Tag_get_frames(NULL, "TIT2") == NULL && ID3v2_Tag_get_comment_frames(NULL) == NULL && ID3v2_Tag_get_apic_frames(NULL) == NULL && ID3v2_Tag_get_comment_frame(NULL) == NULL && ID3v2_Tag_get_album_cover_frame(NULL) == NULL, "no tag, no frames");
    for (int k = 0; k < NFIELDS; k++) sx_assert(get_field(NULL, k) == NULL, "no tag, no frames"); RL l; l.n = 0; ID3v2_Tag* t = ID3v2_Tag_new_empty(); check_getters(t, &l); sx_reach("done"); ID3v2_Tag_free(t);
}
/* ---------------------------------------------------------------- C11 */
/* a list of frames of few kinds, so that there are duplicates; made by adding, or by reading */
static ID3v2_Tag* mixed(int n, RL* l, int how)
{
    pad_of_new(); if (how) pad_expected = 0; l->n = 0; ID3v2_Tag* t = how ? NULL : ID3v2_Tag_new_empty();
    for (int i = 0; i < n; i++) {
        int k = sx_choose(4, "kind"); u8* p = take(1); sx_sym(p, 1, "picture");
        if (how) { if (k == 0) rl_add(l, rf_text(i % 2 ? "TPE1" : "TIT2", 0, iso(1, "text"))); else if (k == 1) rl_add(l, rf_comm(0, ENG, iso(1, "description"), iso(1, "comment"))); else if (k == 2) rl_add(l, rf_apic(0, lit("i/j"), i, iso(0, ""), p, 1)); else rl_add(l, rf_other("UFID", p, 1)); }
        else { if (k == 0) do_set_text(t, l, "TIT2", ZERO, 0, iso(1, "text")); else if (k == 1) do_comm(t, l, 1, ZERO, 0, ENG, iso(1, "description"), iso(1, "comment")); else if (k == 2) do_apic(t, l, 1, ZERO, 0, lit("i/j"), i, iso(0, ""), p, 1); else do_set_text(t, l, "TPE1", ZERO, 0, iso(1, "text")); }
    }
    if (how) { int k = enc_tag(tagbuf, 3, 0, 0, l, 0, 0, 0); t = ID3v2_read_tag_from_buffer((char*)tagbuf, k); sx_assert(t != NULL, "tag"); }
    return t;
}
static void del_id(ID3v2_Tag* t, RL* l, const char* id) { ID3v2_Tag_delete_frame(t, id); int i = rl_find(l, id); if (i >= 0) rl_del(l, i); }
static void del_nth(ID3v2_Tag* t, RL* l, int apic, int k) { if (apic) ID3v2_Tag_delete_apic_frame(t, k); else ID3v2_Tag_delete_comment_frame(t, k); int i = k < 0 ? -1 : rl_nth(l, apic ? "APIC" : "COMM", k); if (i >= 0) rl_del(l, i); }
static void final_write(ID3v2_Tag* t, int ver, const RL* l) { fs_put("f", "zz", 2); ID3v2_write_tag("f", t); int total = check_written(fs_data("f"), fs_size("f"), ver, l); sx_assert(fs_size("f") == total + 2 && sx_same(fs_data("f") + total, "zz", 2), "the audio follows the tag"); }
void c11_delete(void)
{
    RL l; int how = sx_choose(2, "made by reading"); ID3v2_Tag* t = mixed(sx_param("FRAMES", 3), &l, how);
    for (int i = 0; i < sx_param("DELETES", 2); i++) {
        int d = sx_choose(9, "delete"); switch (d) {
            case 0: del_id(t, &l, "TIT2"); break; case 1: ID3v2_Tag_delete_artist(t); { int j = rl_find(&l, "TPE1"); if (j >= 0) rl_del(&l, j); } break;
            case 2: ID3v2_Tag_delete_comment(t); { int j = rl_find(&l, "COMM"); if (j >= 0) rl_del(&l, j); } break; case 3: ID3v2_Tag_delete_album_cover(t); { int j = rl_find(&l, "APIC"); if (j >= 0) rl_del(&l, j); } break;
            case 4: del_nth(t, &l, 0, sx_choose(5, "index") - 1); break; case 5: del_nth(t, &l, 1, sx_choose(5, "index") - 1); break; case 6: del_id(t, &l, "UFID"); break; case 7: del_id(t, &l, "COMM"); break; default: del_id(t, &l, "TXXX"); break;
        }
        check_tag(t, &l); if (l.n == 0) sx_reach("all gone"); 
    }
    if (sx_choose(2, "add again")) { do_comm(t, &l, 1, ZERO, 0, ENG, iso(0, ""), iso(1, "comment")); do_set_text(t, &l, "TIT2", ZERO, 0, iso(1, "text")); check_tag(t, &l); }
    final_write(t, 3, &l); ID3v2_Tag_free(t); sx_reach("done");
}
void c11_fields(void)  /* every named delete, with and without the frame, removes that frame only */
{
    RL l; l.n = 0; ID3v2_Tag* t = ID3v2_Tag_new_empty(); int all = sx_choose(2, "present"), skip = sx_choose(NFIELDS, "field"); for (int k = 0; k < NFIELDS; k++) if (all || k != skip) do_set_text(t, &l, FIELD[k], ZERO, 0, iso(1, "text"));
    delete_field(t, skip); int i = rl_find(&l, FIELD[skip]); if (i >= 0) rl_del(&l, i); check_getters(t, &l); sx_assert(get_field(t, skip) == NULL, "the field is gone"); delete_field(t, skip); check_getters(t, &l); final_write(t, 3, &l); ID3v2_Tag_free(t); sx_reach("done");
}
void c11_dups(void)    /* deleting by id removes the first of several */
{
    RL l; ID3v2_Tag* t = base(3, &l); static const char* const IDS[] = { "COMM", "APIC", "TPE1", "PRIV" }; const char* id = IDS[sx_choose(4, "id")]; for (int i = 0; i < 3; i++) { del_id(t, &l, id); check_getters(t, &l); } final_write(t, 4, &l); ID3v2_Tag_free(t); sx_reach("done");
}
void c11_index(void)   /* any index at all */
{
    RL l; ID3v2_Tag* t = base(3, &l); int k; sx_sym(&k, sizeof k, "index"); int apic = sx_choose(2, "pictures"); int was = l.n;
    if (apic) ID3v2_Tag_delete_apic_frame(t, k); else ID3v2_Tag_delete_comment_frame(t, k); const char* id = apic ? "APIC" : "COMM"; if (k == 0) rl_del(&l, rl_nth(&l, id, 0)); else if (k == 1) rl_del(&l, rl_nth(&l, id, 1)); check_getters(t, &l); if (l.n == was) sx_reach("no such index"); else sx_reach("deleted"); ID3v2_Tag_free(t);
}
/* ---------------------------------------------------------------- C12: histories */
#define NOPS 14
static ID3v2_Tag* step(ID3v2_Tag* t, RL* l, int op, int ver)
{
    u8* p; switch (op) {
        case 0: { STR s = iso(1, "text"); ID3v2_Tag_set_title(t, (char*)s.p); rl_set(l, rf_text("TIT2", 0, s)); break; }
        case 1: do_set_text(t, l, "TPE1", ZERO, 1, utf16(1, 0, "text")); break;
        case 2: do_comm(t, l, 1, ZERO, 0, ENG, iso(1, "description"), iso(1, "comment")); break;
        case 3: do_comm(t, l, 0, ZERO, 1, ENG, utf16(0, 0, "description"), utf16(1, 0, "comment")); break;
        case 4: p = take(2); sx_sym(p, 2, "picture"); do_apic(t, l, 1, ZERO, 0, lit("i/p"), 3, iso(1, "description"), p, 2); break;
        case 5: p = take(1); sx_sym(p, 1, "picture"); do_apic(t, l, 0, ZERO, 0, lit("i/j"), 4, iso(0, ""), p, 1); break;
        case 6: ID3v2_Tag_delete_title(t); { int i = rl_find(l, "TIT2"); if (i >= 0) rl_del(l, i); } break;
        case 7: del_id(t, l, "TPE1"); break; case 8: del_nth(t, l, 0, 0); break; case 9: del_nth(t, l, 0, 1); break; case 10: del_nth(t, l, 1, 0); break; case 11: del_nth(t, l, 1, 1); break;
        case 12: fs_put("f", "zz", 2); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); t = ID3v2_read_tag("f"); sx_assert(t != NULL, "the tag is read back"); break;
        default: fs_put("f", "zz", 2); ID3v2_write_tag("f", t); break;
    }
    return t;
}
void c12_history(void)
{
    int b = sx_param("BASE", 0), ops = sx_param("OPS", 3); RL l; ID3v2_Tag* t = base(b, &l); int ver = b == 1 || b == 3 ? 4 : 3;
    for (int i = 0; i < ops; i++) { t = step(t, &l, sx_choose(NOPS, "operation"), ver); check_tag(t, &l); }
    final_write(t, ver, &l); ID3v2_Tag_free(t); sx_reach("done");
}
/* ---------------------------------------------------------------- C18: the tag owns what it holds */
void c18_inputs(void)
{
    int n = sx_choose(3, "length"), sk = sx_choose(3, "string"), what = sx_choose(6, "what"); RL l; l.n = 0; ID3v2_Tag* t = ID3v2_Tag_new_empty(); STR s = str(sk, n, "text"), d = str(sk, 1, "description"), m = iso(2, "mime type"); u8 pic[2], lang[3], fl[2]; sx_sym(pic, 2, "picture"); sx_sym(lang, 3, "language"); sx_sym(fl, 2, "flags");
    /* each argument in a block of its own, exactly as long as it has to be, that goes away after the call */
    char *hs = malloc(s.n), *hd = malloc(d.n), *hm = malloc(m.n), *hp = malloc(2), *hl = malloc(3), *hf = malloc(2), *hi = malloc(5); memcpy(hs, s.p, s.n); memcpy(hd, d.p, d.n); memcpy(hm, m.p, m.n); memcpy(hp, pic, 2); memcpy(hl, lang, 3); memcpy(hf, fl, 2); strcpy(hi, "TOPE");
    if (what == 0) { set_field(t, 2, hs); rl_add(&l, rf_text("TALB", sk != 0, s)); }
    if (what == 1) { ID3v2_TextFrameInput in = { hi, hf, hs }; ID3v2_Tag_set_text_frame(t, &in); rl_add(&l, with_flags(rf_text("TOPE", sk != 0, s), fl)); }
    if (what == 2 || what == 3) { ID3v2_CommentFrameInput in = { hf, hl, hd, hs }; if (what == 2) ID3v2_Tag_set_comment_frame(t, &in); else ID3v2_Tag_add_comment_frame(t, &in); rl_add(&l, with_flags(rf_comm(sk != 0, lang, d, s), fl)); }
    if (what == 4 || what == 5) { ID3v2_ApicFrameInput in = { hf, hm, hd, 3, 2, hp }; if (what == 4) ID3v2_Tag_set_apic_frame(t, &in); else ID3v2_Tag_add_apic_frame(t, &in); rl_add(&l, with_flags(rf_apic(sk != 0, m, 3, d, pic, 2), fl)); }
    sx_assert(sx_same(hs, s.p, s.n) & sx_same(hd, d.p, d.n) & sx_same(hm, m.p, m.n) & sx_same(hp, pic, 2) & sx_same(hl, lang, 3) & sx_same(hf, fl, 2) & sx_same(hi, "TOPE", 5), "the arguments are not changed");
    memset(hs, 1, s.n); memset(hd, 1, d.n); memset(hm, 1, m.n); memset(hp, 1, 2); memset(hl, 1, 3); memset(hf, 1, 2); memset(hi, 1, 5); check_tag(t, &l); free(hs); free(hd); free(hm); free(hp); free(hl); free(hf); free(hi); check_tag(t, &l);
    final_write(t, 3, &l); ID3v2_Tag_free(t); sx_reach("done");
}
/* one set of buffers for all calls: what they held before has no influence on what is set next */
void c18_reuse(void)
{
    static char text[128], desc[128], mime[64], pic[8], lang[4], fl[2]; RL l; ID3v2_Tag* t = base(2 * sx_choose(2, "tag"), &l); for (int i = 0; i < 2; i++) {
        int what = sx_choose(5, "what"), sk = sx_choose(3, "string"), n = sx_choose(2, "length") * (i ? 3 : 2); STR s = str(sk, n, "text"), d = str(sk, 1, "description"), m = iso(2, "mime type"); memcpy(text, s.p, s.n); memcpy(desc, d.p, d.n); memcpy(mime, m.p, m.n); sx_sym(pic, 4, "picture"); sx_sym(lang, 3, "language"); sx_sym(fl, 2, "flags"); u8* p = take(4); memcpy(p, pic, 4); u8 f2[2], l2[3]; memcpy(f2, fl, 2); memcpy(l2, lang, 3);
        if (what == 0) { set_field(t, i, text); rl_set(&l, rf_text(FIELD[i], sk != 0, s)); }
        if (what == 1) { ID3v2_Tag_set_comment(t, lang, text); rl_set(&l, rf_comm(sk != 0, l2, sk ? utf16(0, 0, "") : iso(0, ""), s)); }
        if (what == 2) { ID3v2_CommentFrameInput in = { fl, lang, desc, text }; ID3v2_Tag_add_comment_frame(t, &in); rl_add(&l, with_flags(rf_comm(sk != 0, l2, d, s), f2)); }
        if (what == 3) { ID3v2_ApicFrameInput in = { fl, mime, desc, 3 + i, 2 + 2 * i, pic }; ID3v2_Tag_set_apic_frame(t, &in); rl_set(&l, with_flags(rf_apic(sk != 0, m, 3 + i, d, p, 2 + 2 * i), f2)); }
        if (what == 4) { ID3v2_TextFrameInput in = { i ? "TOPE" : "TPE1", fl, text }; ID3v2_Tag_set_text_frame(t, &in); rl_set(&l, with_flags(rf_text(i ? "TOPE" : "TPE1", sk != 0, s), f2)); }
    }
    memset(text, 0x78, 128); memset(desc, 0x78, 128); memset(mime, 0x78, 64); check_getters(t, &l); final_write(t, 3, &l); ID3v2_Tag_free(t); sx_reach("done");
}
void c18_own(void)     /* frames set from what the tag itself (or another tag) hands out */
{
    RL l; ID3v2_Tag* t = base(2 + sx_choose(2, "tag"), &l); RL l2; ID3v2_Tag* u = sx_choose(2, "from another tag") ? base(3, &l2) : NULL; if (!u) l2 = l; ID3v2_Tag* from = u ? u : t; int what = sx_choose(6, "what");
    ID3v2_TextFrame* a = ID3v2_Tag_get_artist_frame(from); ID3v2_CommentFrame* c = ID3v2_Tag_get_comment_frame(from); ID3v2_ApicFrame* p = ID3v2_Tag_get_album_cover_frame(from); RF ra = l2.f[rl_find(&l2, "TPE1")], rc = l2.f[rl_find(&l2, "COMM")], rp = l2.f[rl_find(&l2, "APIC")];
    switch (what) {
        case 0: ID3v2_Tag_set_artist(t, a->data->text); rl_set(&l, with_flags(ra, ZERO)); break;
        case 1: ID3v2_Tag_set_title(t, a->data->text); memcpy(ra.id, "TIT2", 4); rl_set(&l, with_flags(ra, ZERO)); ra.b = NULL; break;
        case 2: { ID3v2_CommentFrameInput in = { c->header->flags, c->data->language, c->data->short_description, c->data->comment }; ID3v2_Tag_set_comment_frame(t, &in); rl_set(&l, rc); break; }
        case 3: { ID3v2_ApicFrameInput in = { p->header->flags, p->data->mime_type, p->data->description, p->data->picture_type, p->data->picture_size, p->data->data }; ID3v2_Tag_set_apic_frame(t, &in); rl_set(&l, rp); break; }
        case 4: { ID3v2_TextFrameInput in = { a->header->id, a->header->flags, a->data->text }; ID3v2_Tag_set_text_frame(t, &in); rl_set(&l, ra); break; }
        default: { ID3v2_CommentFrameInput in = { c->header->flags, c->data->language, c->data->short_description, c->data->comment }; ID3v2_Tag_add_comment_frame(t, &in); rl_add(&l, rc); break; }
    }
    check_tag(t, &l); if (u) { check_tag(u, &l2); ID3v2_Tag_free(u); check_tag(t, &l); } ID3v2_Tag_free(t); sx_reach("done");
}
void c18_buffer(void)  /* the buffer that a tag was read from, and the file */
{
    RL l; l.n = 0; rl_add(&l, rf_text("TALB", 0, iso(2, "album"))); rl_add(&l, rf_comm(0, ENG, iso(1, "description"), iso(1, "comment"))); u8* p = take(2); sx_sym(p, 2, "picture"); rl_add(&l, rf_apic(0, lit("i/j"), 3, iso(0, ""), p, 2)); rl_add(&l, rf_other("PRIV", p, 2)); int n = enc_tag(tagbuf, 3 + sx_choose(2, "version"), 0, 0, &l, 0, 5, 0), file = sx_choose(2, "file"); ID3v2_Tag* t;
    if (file) { fs_put("f", tagbuf, n); t = ID3v2_read_tag("f"); fs_put("f", "nothing", 7); } else { char* h = malloc(n); memcpy(h, tagbuf, n); t = ID3v2_read_tag_from_buffer(h, n); sx_assert(sx_same(h, tagbuf, n), "the buffer is not changed"); memset(h, 0xAA, n); free(h); }
    check_tag(t, &l); final_write(t, tagbuf[3], &l); ID3v2_Tag_free(t); sx_reach("done");
}
/* ---------------------------------------------------------------- C19: tags are independent */
void c19_two(void)
{
    RL a, b; int bk = sx_choose(2, "tag") * 3; ID3v2_Tag* t = base(bk, &a); ID3v2_Tag* u = base(2, &b); int n = sx_param("OPS", 2);
    for (int i = 0; i < n; i++) { int op = sx_choose(NOPS, "operation"); int first = sx_choose(2, "on the first"); if (first) t = step(t, &a, op, bk == 3 ? 4 : 3); else u = step(u, &b, op, 3); check_tag(t, &a); check_tag(u, &b); }
    if (sx_choose(2, "order")) { ID3v2_Tag_free(t); check_tag(u, &b); final_write(u, 3, &b); ID3v2_Tag_free(u); } else { ID3v2_Tag_free(u); check_tag(t, &a); final_write(t, bk == 3 ? 4 : 3, &a); ID3v2_Tag_free(t); } sx_reach("done");
}
void c19_samebuffer(void)  /* one buffer, or one file, that holds one tag and then another */
{
    static char same[400]; RL l[2]; ID3v2_Tag* t[2]; ID3v2_TagHeader* h[2]; int how = sx_choose(2, "file"); for (int i = 0; i < 2; i++) {
        RL* r = &l[i]; r->n = 0; int k = sx_choose(3, "frames"), ver = 3 + sx_choose(2, "version"); if (k > 0) rl_add(r, rf_text("TIT2", 0, iso(2, "title"))); if (k > 1) { rl_add(r, rf_comm(1, ENG, utf16(1, 0, "description"), utf16(1, 0, "comment"))); u8* p = take(2); sx_sym(p, 2, "picture"); rl_add(r, rf_apic(0, iso(1, "mime"), 3, iso(1, "description"), p, 2)); }
        int n = enc_tag((u8*)same, ver, i, 0, r, 0, 20 - 10 * k, 0); if (how) { fs_put("f", same, n); h[i] = ID3v2_read_tag_header("f"); t[i] = ID3v2_read_tag("f"); } else { h[i] = ID3v2_read_tag_header_from_buffer(same); t[i] = ID3v2_read_tag_from_buffer(same, n); }
        sx_assert(h[i] != NULL && t[i] != NULL && h[i]->major_version == ver && t[i]->header->major_version == ver && h[i]->minor_version == i && h[i]->tag_size == (unsigned)n - 10, "tag header"); check_tag(t[i], r); }
    memset(same, 0, sizeof same); check_tag(t[0], &l[0]); ID3v2_Tag_free(t[0]); ID3v2_TagHeader_free(h[0]); check_tag(t[1], &l[1]); sx_assert(h[1]->minor_version == 1, "tag header"); ID3v2_Tag_free(t[1]); ID3v2_TagHeader_free(h[1]); sx_no_leaks("tags read and freed"); sx_reach("done");
}
void c19_twofiles(void)    /* files, and tags read from them, do not influence each other */
{
    RL a, b; ID3v2_Tag* t = base(2, &a); ID3v2_Tag* u = base(3, &b); u8 x[2], y[3]; sx_sym(x, 2, "audio"); sx_sym(y, 3, "other audio"); sx_assume((x[0] != 'I') & (y[0] != 'I')); fs_put("f", x, 2); fs_put("g", y, 3);
    ID3v2_write_tag("f", t); ID3v2_write_tag("g", u); sx_assert(fs_count() == 2, "no other files"); check_tag(t, &a); check_tag(u, &b); int k = check_written(fs_data("f"), fs_size("f"), 3, &a); sx_assert(fs_size("f") == k + 2 && sx_same(fs_data("f") + k, x, 2), "audio of the first"); k = check_written(fs_data("g"), fs_size("g"), 4, &b); sx_assert(fs_size("g") == k + 3 && sx_same(fs_data("g") + k, y, 3), "audio of the second");
    ID3v2_Tag *r = ID3v2_read_tag("f"), *s = ID3v2_read_tag("g"), *r2 = ID3v2_read_tag("f"); check_tag(r, &a); check_tag(s, &b); check_tag(r2, &a);
    ID3v2_Tag_set_artist(r, "changed"); ID3v2_Tag_delete_comment(s); check_tag(r2, &a); check_tag(t, &a); ID3v2_delete_tag("g"); sx_assert(fs_size("g") == 3 && sx_same(fs_data("g"), y, 3), "audio of the second"); ID3v2_Tag* r3 = ID3v2_read_tag("f"); check_tag(r3, &a); sx_assert(ID3v2_read_tag("g") == NULL, "no tag any more");
    ID3v2_Tag_free(t); ID3v2_Tag_free(u); ID3v2_Tag_free(r); ID3v2_Tag_free(s); check_tag(r2, &a); ID3v2_Tag_free(r2); ID3v2_Tag_free(r3); sx_reach("done");
}
/* ---------------------------------------------------------------- C13: nothing is left behind */
void c13_history(void)
{
    int b = sx_param("BASE", 0), ops = sx_param("OPS", 2); RL l; ID3v2_Tag* t = base(b, &l); int ver = b == 1 || b == 3 ? 4 : 3;
    for (int i = 0; i < ops; i++) { int op = sx_choose(NOPS + 4, "operation"); switch (op) {
        case NOPS: ID3v2_FrameList_unlink(ID3v2_Tag_get_comment_frames(t)); break; case NOPS + 1: ID3v2_FrameList_unlink(ID3v2_Tag_get_apic_frames(t)); break; case NOPS + 2: ID3v2_FrameList_unlink(ID3v2_Tag_get_frames(t, "TPE1")); ID3v2_FrameList_unlink(ID3v2_Tag_get_frames(t, "XXXX")); break;
        case NOPS + 3: { int k = sx_choose(4, "delete"); if (k == 0) del_id(t, &l, "PRIV"); if (k == 1) ID3v2_Tag_delete_comment(t); if (k == 2) ID3v2_Tag_delete_album_cover(t); if (k == 3) ID3v2_Tag_delete_comment_frame(t, 7); break; }
        default: t = step(t, &l, op, ver); } }
    sx_assert(sx_live() > 0, "model: a tag is made of blocks"); ID3v2_Tag_free(t); sx_assert(fs_open_handles() == 0, "files are closed"); sx_no_leaks("a tag edited and freed"); sx_reach("done");
}
void c13_index(void)   /* deleting by any index, and freeing afterwards */
{
    RL l; ID3v2_Tag* t = base(3, &l); int k, apic = sx_choose(2, "pictures"); sx_sym(&k, sizeof k, "index"); if (apic) ID3v2_Tag_delete_apic_frame(t, k); else ID3v2_Tag_delete_comment_frame(t, k); ID3v2_Tag_free(t); sx_no_leaks("deleting by index"); sx_reach("done");
}
void c13_fields(void)  /* every setter twice, every deleter */
{
    RL l; ID3v2_Tag* t = base(2 * sx_choose(2, "tag"), &l); int k = sx_choose(NFIELDS, "field"); STR a = str(sx_choose(2, "string"), 1, "text"), b = str(sx_choose(2, "string"), 2, "text"); set_field(t, k, (char*)a.p); set_field(t, k, (char*)b.p); if (sx_choose(2, "delete")) delete_field(t, k); delete_field(t, (k + 1) % NFIELDS); ID3v2_Tag_set_comment(t, "eng", (char*)a.p); ID3v2_Tag_set_album_cover(t, "i/j", 2, "ab"); if (sx_choose(2, "delete")) { ID3v2_Tag_delete_comment(t); ID3v2_Tag_delete_album_cover(t); } ID3v2_Tag_free(t); sx_no_leaks("a tag edited and freed"); sx_reach("done");
}
/* ---------------------------------------------------------------- C22: edits that are undone leave the file as it would have been */
static void undo(ID3v2_Tag* t, RL* l, int deep)
{
    RL was = *l; u8* p; STR s; int i; static const int N[] = { 0, 3, 200 }; int n = N[sx_choose(3, "length")], what = sx_choose(7, "what"); RF f;
    switch (what) {
        case 0: case 1: do_comm(t, l, 1, ZERO, what, ENG, str(what, 1, "description"), str(what, n, "comment")); break;
        case 2: p = take(n + 1); memset(p, 7, n + 1); sx_sym(p, 1, "picture"); do_apic(t, l, 1, ZERO, 0, lit("i/j"), 3, iso(1, "description"), p, n + 1); break;
        case 3: do_set_text(t, l, "TXXX", ZERO, 0, iso(n, "text")); break;
        case 4: case 5: case 6: { static const char* const ID[] = { "TPE1", "COMM", "APIC" }; i = rl_find(l, ID[what - 4]); if (i < 0) sx_assume(0); f = l->f[i]; s = str(sx_choose(2, "string") * 2, n, "text");
            if (what == 4) do_set_text(t, l, "TPE1", ZERO, enc_of(s), s); if (what == 5) do_comm(t, l, 0, ZERO, enc_of(s), (const u8*)"fra", s, s); if (what == 6) do_apic(t, l, 0, ZERO, enc_of(s), lit("i/k"), 4, s, s.p, s.n); }
    }
    if (deep) undo(t, l, 0);
    switch (what) {
        case 0: case 1: { int k = 0; for (i = 0; i < was.n; i++) k += was.f[i].kind == COMM; del_nth(t, l, 0, k); } break;
        case 2: { int k = 0; for (i = 0; i < was.n; i++) k += was.f[i].kind == APIC; del_nth(t, l, 1, k); } break;
        case 3: if (sx_choose(2, "how")) del_id(t, l, "TXXX"); else { do_set_text(t, l, "TXXX", ZERO, 1, utf16(1, 0, "text")); del_id(t, l, "TXXX"); } break;
        case 4: do_set_text(t, l, "TPE1", f.flags, f.enc, (STR){ f.s1, f.n1 }); break;
        case 5: do_comm(t, l, 0, f.flags, f.enc, f.lang, (STR){ f.s1, f.n1 }, (STR){ f.s2, f.n2 }); break;
        case 6: do_apic(t, l, 0, f.flags, f.enc, (STR){ f.s1, f.n1 }, f.ptype, (STR){ f.s2, f.n2 }, f.s3, f.n3);
    }
}
void c22_undo(void)
{
    int b = sx_choose(4, "tag"), again = sx_choose(2, "written between"); RL l; ID3v2_Tag* t = base(b, &l); if (b >= 2) { ID3v2_Tag* u = ID3v2_read_tag_from_buffer((char*)tagbuf, (int)rss(tagbuf + 6) + 10); fs_put("g", "zz", 2); ID3v2_write_tag("g", u); ID3v2_Tag_free(u); } else { ID3v2_Tag* u = base(b, &l); fs_put("g", "zz", 2); ID3v2_write_tag("g", u); ID3v2_Tag_free(u); }
    fs_put("f", "zz", 2); if (again) ID3v2_write_tag("f", t); undo(t, &l, sx_param("DEEP", 0)); if (again) { ID3v2_Tag_free(t); t = ID3v2_read_tag("f"); undo(t, &l, 0); } ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
    sx_assert(fs_size("f") == fs_size("g"), "the file is as long as without the edits"); sx_assert(sx_same(fs_data("f"), fs_data("g"), fs_size("g")), "the file is as without the edits"); sx_reach("done");
}
/* everything deleted, and the tag filled again */
void c22_empty(void)
{
    RL l; int b = 2 + sx_choose(2, "tag"), ver = 1 + b; ID3v2_Tag* t = base(b, &l); for (int k = sx_choose(sx_param("TIMES", 2), "times"); k >= 0; k--) {
        while (l.n) { RF* f = &l.f[sx_choose(2, "last") ? l.n - 1 : 0]; char id[5] = { f->id[0], f->id[1], f->id[2], f->id[3], 0 }; del_id(t, &l, id); } check_tag(t, &l); if (sx_choose(2, "write")) final_write(t, ver, &l);
        do_set_text(t, &l, "TPE1", ZERO, 0, iso(2, "text")); u8* p = take(2); sx_sym(p, 2, "picture"); do_apic(t, &l, 1, ZERO, 0, lit("i/p"), 3, iso(1, "description"), p, 2); }
    final_write(t, ver, &l); ID3v2_Tag_free(t); sx_reach("done");
}
/* C19: one tag after another, each freed before the next is made (perhaps where the other was), asked for everything each time */
void c19_seq(void)
{
    int k = sx_choose(4, "tag"); for (int i = 0; i < sx_param("SEQ", 2); i++) {
        RL l; int b = sx_choose(2, "another kind") ? (k + 1 + i) % 4 : k; ID3v2_Tag* t = base(b, &l); int pad = pad_expected; check_getters(t, &l); fs_put("f", "zz", 2); int op = sx_choose(i ? NOPS : 7, "operation"); t = step(t, &l, i ? op : 2 * op, b == 1 || b == 3 ? 4 : 3); (void)pad; check_getters(t, &l); ID3v2_Tag_free(t); sx_no_leaks("a tag freed");
    }
    sx_reach("done");
}
/* the same, asked for one frame only each time */
static void ask(ID3v2_Tag* t, const RL* l, int q)
{
    static const char* const IDS[] = { "TIT2", "TPE1", "COMM", "APIC", "PRIV" }; const char* id = IDS[q % 5]; int i = rl_find(l, id); ID3v2_Frame* f = q == 0 ? (ID3v2_Frame*)ID3v2_Tag_get_title_frame(t) : q == 1 ? (ID3v2_Frame*)ID3v2_Tag_get_artist_frame(t) : q == 2 ? (ID3v2_Frame*)ID3v2_Tag_get_comment_frame(t) : q == 3 ? (ID3v2_Frame*)ID3v2_Tag_get_album_cover_frame(t) : ID3v2_Tag_get_frame(t, id);
    sx_assert((f == NULL) == (i < 0), "a frame is found exactly when there is one"); if (f) check_frame(f, &l->f[i]);
    if (q >= 5) { ID3v2_FrameList *s = ID3v2_Tag_get_frames(t, id), *p = s; for (int j = 0; j < l->n; j++) if (memcmp(l->f[j].id, id, 4) == 0) { sx_assert(p != NULL && p->frame != NULL, "a frame is missing"); check_frame(p->frame, &l->f[j]); p = p->next; } sx_assert(p == NULL || p->frame == NULL, "a frame too many"); ID3v2_FrameList_unlink(s); }
}
void c19_ask(void)
{
    int k = sx_choose(4, "tag"), q = sx_choose(10, "frame asked for"), edited = sx_choose(2, "edited first"); for (int i = 0; i < 2; i++) {
        RL l; ID3v2_Tag* t = base(k, &l); if (!i && edited) t = step(t, &l, 0, k == 1 || k == 3 ? 4 : 3); else ask(t, &l, q); int op = sx_choose(NOPS, "operation"); t = step(t, &l, op, k == 1 || k == 3 ? 4 : 3); ask(t, &l, q); check_tag(t, &l); ID3v2_Tag_free(t);
    }
    sx_reach("done");
}
