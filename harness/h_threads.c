/* C21: two threads, each with tags and files of its own */
#include "ref.h"
#include "id3v2lib.compat.h"
/* no byte is 0 or above 127: it is not the strings that this is about */
static STR ascii(STR s, int from, int end) { for (int i = from; i < s.n - end; i++) sx_assume((s.p[i] != 0) & (s.p[i] < 128)); return s; }
#define iso(n, name) ascii(iso(n, name), 0, 1)
#define utf16(n, be, name) ascii(utf16(n, be, name), 2, 2)
static u8 buf[2][700];
typedef struct { int what, kind, ver; const char* file; RL l; u8 au[3]; u8* tag; int n; STR s; u8 pic[2]; } JOB;
static JOB job[2];
/* what one thread does: everything it needs was laid down beforehand; it checks what it gets itself */
static void run(JOB* j)
{
    static const u8 Z[2] = { 0, 0 }; ID3v2_Tag* t = NULL; RL* l = &j->l; char* h;
    switch (j->what) {
        case 0: t = ID3v2_read_tag_from_buffer((char*)j->tag, j->n); check_tag(t, l); break;
        case 1: t = ID3v2_read_tag(j->file); check_tag(t, l); break;
        case 2: t = ID3v2_read_tag(j->file); ID3v2_Tag_set_title(t, (char*)j->s.p); rl_set(l, with_flags(rf_text("TIT2", enc_of(j->s), j->s), Z)); check_tag(t, l); ID3v2_write_tag(j->file, t); break;
        case 3: t = ID3v2_Tag_new_empty(); l->n = 0; ID3v2_Tag_set_comment(t, "eng", (char*)j->s.p); rl_add(l, rf_comm(enc_of(j->s), (u8*)"eng", enc_of(j->s) ? utf16(0, 0, "") : iso(0, ""), j->s)); ID3v2_Tag_set_album_cover(t, "image/png", 2, (char*)j->pic); rl_add(l, rf_apic(1, lit("image/png"), 3, utf16(0, 0, ""), j->pic, 2)); ID3v2_Tag_set_year(t, "19"); rl_add(l, rf_text("TYER", 0, lit("19"))); ID3v2_Tag_delete_comment(t); rl_del(l, 0); check_tag(t, l); break;
        case 4: ID3v2_delete_tag(j->file); return;
        case 5: { ID3v2_tag* c = load_tag_with_buffer((char*)j->tag, j->n); sx_assert(c != NULL, "the tag is loaded"); tag_set_artist((char*)j->s.p, 0, c); rl_set(l, with_flags(rf_text("TPE1", enc_of(j->s), j->s), Z)); ID3v2_frame* f = tag_get_artist(c); sx_assert(f != NULL && f->size == 1 + j->s.n && sx_same(f->data + 1, j->s.p, j->s.n), "the artist"); set_tag(j->file, c); free_tag(c); return; }
        case 6: h = ID3v2_to_unicode((char*)j->s.p); if (h != (char*)j->s.p) { sx_assert(ID3v2_strlen(h) == 2 + 2 * (j->s.n - 1), "length"); for (int i = 0; i + 1 < j->s.n; i++) sx_assert((h[2 + 2 * i] == (char)j->s.p[i]) & (h[3 + 2 * i] == 0), "utf-16 of the string"); free(h); } sx_assert(ID3v2_strlent((char*)j->s.p) == j->s.n, "length with the terminator"); return;
    }
    ID3v2_Tag_free(t);
}
static void ta(void) { run(&job[0]); }
static void tb(void) { run(&job[1]); }
void c21_pair(void)
{
    static const u8 LANG[3] = { 'd', 'e', 'u' }; int from = sx_param("A", -1), to = sx_param("B", -1);
    for (int i = 0; i < 2; i++) {
        JOB* j = &job[i]; j->what = i ? (to >= 0 ? to : sx_choose(7, "the second does")) : from >= 0 ? from : sx_choose(7, "the first does"); j->file = i ? "g" : "f"; j->ver = i ? 4 : 3; RL* l = &j->l; l->n = 0; u8* p = take(2); sx_sym(p, 2, "picture");
        if (i) { rl_add(l, rf_text("TALB", 1, utf16(1, 0, "text"))); rl_add(l, rf_apic(0, iso(2, "mime type"), 4, iso(1, "description"), p, 2)); }
        else { rl_add(l, rf_text("TPE1", 0, iso(2, "text"))); rl_add(l, rf_comm(0, LANG, iso(1, "description"), iso(3, "comment"))); rl_add(l, rf_other("PRIV", p, 2)); }
        sx_sym(j->au, 3, "audio"); sx_assume(j->au[0] != 'I'); j->s = i ? iso(3, "string") : utf16(2, 0, "string"); sx_sym(j->pic, 2, "album cover"); j->tag = buf[i]; j->n = enc_tag(buf[i], j->ver, i, 0, l, 0, 9 + 4 * i, 0); memcpy(buf[i] + j->n, j->au, 3); fs_put(j->file, buf[i], j->n + 3);
    }
    sx_threads(ta, tb);
    for (int i = 0; i < 2; i++) {      /* the files */
        JOB* j = &job[i]; const u8* d = fs_data(j->file); int n = fs_size(j->file);
        if (j->what == 4) sx_assert(n == 3 && sx_same(d, j->au, 3), "the audio is left");
        else if (j->what == 2 || j->what == 5) { int total = check_written(d, n, j->ver, &j->l); sx_assert(n == total + 3 && sx_same(d + total, j->au, 3), "the audio is preserved"); }
        else sx_assert(n == j->n + 3 && sx_same(d, j->tag, n), "the file is as it was");
    }
    sx_assert(fs_count() == 2 && fs_open_handles() == 0, "no other files, none open"); sx_no_leaks("two threads"); sx_reach("done");
}
/* both read the same buffer or file */
static int shared_n, how; static const u8* shared_b;
static void reader(RL* l) { if (how == 2) { ID3v2_tag* c = load_tag("f"); sx_assert(c != NULL, "the tag is loaded"); ID3v2_frame* f = tag_get_artist(c); sx_assert(f != NULL && f->size == 1 + l->f[0].n1 && sx_same(f->data + 1, l->f[0].s1, l->f[0].n1), "the artist"); free_tag(c); return; }
    ID3v2_Tag* t = how ? ID3v2_read_tag("f") : ID3v2_read_tag_from_buffer((char*)shared_b, shared_n); check_tag(t, l); ID3v2_Tag_free(t); }
static void ra(void) { reader(&job[0].l); }
static void rb(void) { reader(&job[1].l); }
void c21_same(void)
{
    static const u8 LANG[3] = { 'd', 'e', 'u' }; how = sx_choose(3, "buffer, file, file through the old interface"); u8* p = take(2); sx_sym(p, 2, "picture"); RL* l = &job[0].l; l->n = 0; int ver = 3 + sx_choose(2, "version");
    rl_add(l, rf_text("TPE1", 0, iso(2, "text"))); rl_add(l, rf_comm(1, LANG, utf16(1, 0, "description"), utf16(1, 1, "comment"))); rl_add(l, rf_apic(0, iso(2, "mime type"), 4, iso(1, "description"), p, 2)); job[1].l = *l;
    u8* before = take(700); shared_b = buf[0]; shared_n = enc_tag(buf[0], ver, sx_choose(2, "extended header"), 0, l, 0, 9, 0); memcpy(before, buf[0], shared_n); fs_put("f", buf[0], shared_n);
    sx_threads(ra, rb);
    sx_assert(sx_same(buf[0], before, shared_n) && fs_size("f") == shared_n && sx_same(fs_data("f"), before, shared_n), "what is read stays as it is"); sx_assert(fs_count() == 1 && fs_open_handles() == 0, "no other files, none open"); sx_no_leaks("two readers"); sx_reach("done");
}
