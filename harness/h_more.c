/* C01, C02, C05, C06, C10, C12, C13, C20: frames replaced by others of equal or very different sizes; tags read from damaged bytes, written */
#define POOL 1200000
#include "ref.h"
#include "walk.h"
static u8 tagbuf[400000];
static const u8 ZERO[2] = { 0, 0 };
static const u8 ENG[3] = { 'e', 'n', 'g' };
static ID3v2_Tag* fresh(int ver) { pad_of_new(); if (ver == 4) pad_expected = 0; if (ver == 3) return ID3v2_Tag_new_empty(); ID3v2_Tag* t = ID3v2_read_tag_from_buffer("ID3\4\0\0\0\0\0\0", 10); sx_assert(t != NULL, "an empty v2.4 tag"); return t; }
/* the tag in memory, in the file that it is written to, and as read back */
static void all_of(ID3v2_Tag* t, int ver, const RL* l)
{
    u8 au[2]; sx_sym(au, 2, "audio"); sx_assume(au[0] != 'I'); fs_put("f", au, 2); check_tag(t, l); ID3v2_write_tag("f", t); check_tag(t, l); ID3v2_Tag_free(t); int k = check_written(fs_data("f"), fs_size("f"), ver, l); sx_assert(fs_size("f") == k + 2 && sx_same(fs_data("f") + k, au, 2), "the audio follows the tag");
    t = ID3v2_read_tag("f"); check_tag(t, l); sx_assert(t->header->major_version == ver, "version"); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); sx_assert(check_written(fs_data("f"), fs_size("f"), ver, l) == k && fs_size("f") == k + 2, "written again"); sx_reach("done");
}
/* the first frame of a kind replaced by one whose body is equally long, with other flags, encoding, strings */
void r_same(void)
{
    int ver = 3 + sx_choose(2, "version"), kind = sx_choose(3, "kind"), loaded = sx_choose(2, "loaded"); RL l; l.n = 0; u8 f1[2], f2[2], la[3], lb[3], *p = take(4), *q = take(4), ta, tb; sx_sym(f1, 2, "flags"); sx_sym(f2, 2, "new flags"); sx_sym(la, 3, "language"); sx_sym(lb, 3, "new language"); sx_sym(p, 4, "picture"); sx_sym(q, 4, "new picture"); sx_sym(&ta, 1, "type"); sx_sym(&tb, 1, "new type");
    int a = sx_choose(3, "string"), b = sx_choose(3, "new string"); RF x; STR n1 = a ? utf16(1, a == 2, "text") : iso(5, "text"), n2 = b ? utf16(1, b == 2, "new text") : iso(5, "new text");   /* six bytes each */
    if (kind == 0) x = rf_text("TALB", a != 0, n1); if (kind == 1) x = rf_comm(a != 0, la, a ? utf16(1, a == 2, "description") : iso(5, "description"), n1); if (kind == 2) x = rf_apic(a != 0, iso(2, "mime"), ta, n1, p, 4); x = with_flags(x, f1);
    RF y = rf_text("TIT2", 0, iso(1, "title")); ID3v2_Tag* t;
    if (loaded) { rl_add(&l, y); rl_add(&l, x); rl_add(&l, rf_other("PRIV", p, 2)); int n = enc_tag(tagbuf, ver, 0, 0, &l, 0, pad_expected = 0, 0); t = ID3v2_read_tag_from_buffer((char*)tagbuf, n); }
    else { t = fresh(ver); ID3v2_Tag_set_title(t, (char*)y.s1); rl_add(&l, y); if (kind == 0) do_set_text(t, &l, "TALB", f1, x.enc, n1); else if (kind == 1) do_comm(t, &l, 0, f1, x.enc, la, (STR){ x.s1, x.n1 }, n1); else do_apic(t, &l, 0, f1, x.enc, (STR){ x.s1, x.n1 }, ta, n1, p, 4); }
    check_tag(t, &l); int how = sx_choose(kind == 0 ? 2 : 1, "how");
    if (kind == 0) { if (how) { ID3v2_Tag_set_album(t, (char*)n2.p); rl_set(&l, rf_text("TALB", b != 0, n2)); } else do_set_text(t, &l, "TALB", f2, b != 0, n2); }
    if (kind == 1) do_comm(t, &l, 0, f2, b != 0, lb, b ? utf16(1, b == 2, "new description") : iso(5, "new description"), n2); if (kind == 2) do_apic(t, &l, 0, f2, b != 0, iso(2, "new mime"), tb, n2, q, 4);
    all_of(t, ver, &l);
}
/* ... by one that is much longer or shorter, and then deleted */
static RF sized(ID3v2_Tag* t, RL* l, int kind, int n, int add)
{
    STR s = longstr(kind == 3, kind == 3 ? n / 2 + 1 : n, "content");     if (kind == 0 || kind == 3) { ID3v2_Tag_set_genre(t, (char*)s.p); rl_set(l, rf_text("TCON", kind == 3, s)); } if (kind == 1) do_comm(t, l, add, ZERO, 0, ENG, iso(1, "description"), s); if (kind == 2) do_apic(t, l, add, ZERO, 0, lit("i/j"), 3, iso(0, ""), s.p, n);
    if (kind == 4) do_comm(t, l, add, ZERO, 0, ENG, s, iso(1, "comment")); if (kind == 5) do_apic(t, l, add, ZERO, 0, s, 3, iso(0, ""), ENG, 3); if (kind == 6) do_apic(t, l, add, ZERO, 0, lit("i/j"), 3, s, ENG, 3); return l->f[0];
}
void r_sizes(void)
{
    static const int SZ[] = { 1, 127, 128, 256, 300, 33000, 70000 }; int kind = sx_param("KIND", 0), m = sx_param("SIZES", 6), ver = 3 + sx_choose(2, "version"), a = SZ[sx_choose(m, "size")], b = SZ[sx_choose(m, "new size")], add = kind != 0 && kind != 3 && sx_choose(2, "add"); RL l; l.n = 0; ID3v2_Tag* t = fresh(ver); ID3v2_Tag_set_title(t, "x"); rl_add(&l, rf_text("TIT2", 0, lit("x")));
    sized(t, &l, kind, a, 0); ID3v2_Tag_set_artist(t, "y"); rl_add(&l, rf_text("TPE1", 0, lit("y"))); sized(t, &l, kind, b, add); if (add && sx_choose(2, "delete")) { if (kind == 1 || kind == 4) { ID3v2_Tag_delete_comment(t); rl_del(&l, rl_find(&l, "COMM")); } else { ID3v2_Tag_delete_apic_frame(t, 0); rl_del(&l, rl_find(&l, "APIC")); } }
    all_of(t, ver, &l);
}
/* a tag and other bytes after it in which some bytes are damaged, anywhere, and that may be cut short */
static int damaged(int strs, int ver, int width)
{
    RL l; l.n = 0; u8 z[8]; memset(z, 'q', 8); u8 utf[] = { 0xFF, 0xFE, 'h', 0, 0, 1, 0, 0 }; STR s = { strs ? utf : (u8*)"hi", strs ? 8 : 3 }; rl_add(&l, rf_text("TIT2", strs, s)); rl_add(&l, rf_comm(strs, ENG, s, s)); rl_add(&l, rf_apic(strs, lit("i/j"), 3, s, z, 4)); rl_add(&l, rf_other("PRIV", z, 3));
    int ext = sx_param("EXT", 0) ? (ver == 3 ? 10 : 6) : 0, n = enc_tag(tagbuf, ver, 0, 0, &l, 0, 12, 0); if (ext) { n = enc_tag(tagbuf, ver, 0, 0, &l, ext, 12, 0); memset(tagbuf + 14, 0, ext - 4); } int off = sx_param("FROM", 0) + sx_choose(sx_param("COUNT", 40), "offset"); if (off > n - width) off = n - width; sx_sym(tagbuf + off, width, "damage"); return n;
}
static void damage(int* n) { int ver = 3 + sx_choose(2, "version"), w = sx_param("WIDTH", 2), cut = sx_param("CUT", 0); *n = damaged(sx_choose(2, "strings"), ver, w); if (cut) *n -= sx_choose(3, "cut") * 7; }
void d_read(void)      /* C01 and C13 */
{
    int n; damage(&n); char* b = malloc(n); memcpy(b, tagbuf, n); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, n); free(b); if (t == NULL) { sx_reach("no tag"); sx_no_leaks("rejected bytes"); return; }
    int k = walk_tag(t); sx_observe("frames", k); sx_reach("tag"); ID3v2_Tag_free(t); sx_no_leaks("a tag read and freed");
}
void d_file(void)      /* C02: a file with those bytes reads like a buffer with them */
{
    int n; damage(&n); fs_put("f", tagbuf, n); ID3v2_Tag* x = ID3v2_read_tag("f"); char* c = malloc(n); memcpy(c, tagbuf, n); ID3v2_Tag* y = ID3v2_read_tag_from_buffer(c, n); free(c); sx_assert((x == NULL) == (y == NULL), "a file has a tag exactly when its bytes have"); sx_assert(fs_size("f") == n && sx_same(fs_data("f"), tagbuf, n), "reading leaves the file alone"); sx_assert(fs_open_handles() == 0, "files are closed");
    if (x) { same_frames(x, y); ID3v2_Tag_free(x); ID3v2_Tag_free(y); } else sx_reach("no tag");
}
/* what was read from any bytes is written as a well-formed tag of the same frames, over and over */
static void same_as(const ID3v2_Tag* t, const u8* d, int n)
{
    DT x = decode(d, n); int k = 0; sx_assert(x.i.ver == t->header->major_version, "written: version"); for (ID3v2_FrameList* p = t->frames; p != NULL && p->frame != NULL; p = p->next, k++) { sx_assert(k < x.n, "written: a frame is missing"); sx_assert(sx_same(x.f[k].id, p->frame->header->id, 4), "written: frame id"); sx_assert(sx_same(x.f[k].flags, p->frame->header->flags, 2), "written: frame flags"); sx_assert(x.f[k].n == p->frame->header->size, "written: frame size"); } sx_assert(k == x.n, "written: a frame too many");
}
static void rewrite(const u8* b, int n, int mode)
{
    char* c = malloc(n); memcpy(c, b, n); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(c, n); free(c); if (t == NULL) { sx_reach("no tag"); return; }
    for (ID3v2_FrameList* p = t->frames; p != NULL && p->frame != NULL; p = p->next) sx_assume(p->frame->header->id[0] != 0);   /* no id of a frame begins with a zero */
    u8 au[2] = { 'z', 'y' }; fs_put("f", au, 2); ID3v2_write_tag("f", t); int m = fs_size("f"); const u8* d = fs_data("f"); sx_assert(m >= 12 && sx_same(d + m - 2, "zy", 2), "the audio follows the tag"); 
    if (mode == 6) { same_as(t, d, m); sx_reach(t->frames && t->frames->frame ? "frames" : "no frames"); }
    else { u8* snap = take(m); memcpy(snap, d, m); ID3v2_Tag* u = ID3v2_read_tag("f"); sx_assert(u != NULL, "the tag is read back"); if (mode == 20) { ID3v2_write_tag("f", u); sx_assert(fs_size("f") == m && sx_same(fs_data("f"), snap, m), "writing the tag just read changes the file"); ID3v2_write_tag("f", t); sx_assert(fs_size("f") == m && sx_same(fs_data("f"), snap, m), "writing the tag again changes the file"); } else { same_as(u, snap, m); same_as(t, snap, m); } sx_reach(t->frames && t->frames->frame ? "frames" : "no frames"); ID3v2_Tag_free(u); }
    ID3v2_Tag_free(t);
}
void d_write(void) { int n; damage(&n); rewrite(tagbuf, n, sx_param("MODE", 6)); }
void any_write(void) { int n = sx_param("N", 22); u8* b = take(n); sx_sym(b, n, "bytes"); sx_assume((b[0] == 'I') & (b[1] == 'D') & (b[2] == '3')); rewrite(b, n, sx_param("MODE", 6)); }
