/* C15 (and C13): a fault in any one file operation */
#include "ref.h"
#include "walk.h"
static u8 tagbuf[4000];
/* the file before: a tag (or none) and audio; returns its length, *off is where the audio begins */
static int setup(u8* b, int kind, int* off)
{
    int an = 1 + (sx_param("AUDIO", 0) ? sx_param("AUDIO", 0) : 2 * sx_choose(2, "audio length")), n = 0; RL l; l.n = 0;
    if (kind >= 1) { rl_add(&l, rf_text("TIT2", 0, iso(1, "old title"))); n = enc_tag(b, kind >= 3 ? 4 : 3, 0, 0, &l, 0, kind == 2 ? 12 : 0, kind == 4); }
    *off = n; if (an > 8) { memset(b + n, 9, an); sx_sym(b + n, 2, "audio"); sx_sym(b + n + an - 2, 2, "audio"); } else sx_sym(b + n, an, "audio"); if (!kind) sx_assume(b[0] != 'I'); fs_put("f", b, n + an); return n + an;
}
static ID3v2_Tag* a_tag(int what, RL* l)
{
    l->n = 0; ID3v2_Tag* t = ID3v2_Tag_new_empty(); u8 z[2] = { 0, 0 }; if (what) { do_set_text(t, l, "TPE1", z, 0, iso(2, "text")); u8* p = take(2); sx_sym(p, 2, "picture"); do_apic(t, l, 0, z, 0, lit("i/j"), 3, iso(0, ""), p, 2); } return t;
}
static void after(void) { sx_assert(fs_open_handles() == 0, "every stream is closed"); sx_assert(fs_count() == 1, "no other files are left"); }
static int unchanged(const u8* b, int n) { return fs_size("f") == n && sx_concrete(sx_same(fs_data("f"), b, n)); }
static void arm(void) { int k = sx_param("FROM", 0) + sx_param("STEP", 1) * sx_choose(sx_param("K", 40), "operation"); if (sx_param("FULL", 0)) fs_full_at(k); else fs_fault_at(k); }
/* the file is as before, or begins with all of the new tag and ends with what was there, from its audio (or from its beginning) on */
static void judge_write(const u8* b, int n, int off, const RL* l, int fault)
{
    if (unchanged(b, n)) { sx_assert(fault || n < 0, "without a fault the tag is written"); sx_reach("unchanged"); return; }
    sx_assert(fs_size("f") >= 10, "the file is as before, or has the new tag"); int k = check_written(fs_data("f"), fs_size("f"), 3, l), rest = fs_size("f") - k;
    sx_assert(rest == n - off || (fault && rest == n), "the audio is complete"); sx_assert(sx_same(fs_data("f") + k, b + n - rest, rest), "the audio is complete"); sx_reach("written");
}
void c15_write(void)
{
    int off, kind = sx_choose(5, "before"), n = setup(tagbuf, kind, &off); RL l; ID3v2_Tag* t = a_tag(sx_choose(2, "tag"), &l);
    arm(); ID3v2_write_tag("f", t); int fault = fs_faulted(), late = fs_destructive_before_fault(); sx_observe("f", fault * 10 + late); fs_fault_at(-1); after();
    if (fault && late) sx_reach("fault while overwriting"); else judge_write(tagbuf, n, off, &l, fault);
    check_tag(t, &l); ID3v2_write_tag("f", t); check_tag(t, &l); ID3v2_Tag_free(t); after(); sx_no_leaks("a tag whose writing failed");
}
void c15_delete(void)
{
    int off, kind = sx_choose(5, "before"), n = setup(tagbuf, kind, &off); arm(); ID3v2_delete_tag("f"); int fault = fs_faulted(), late = fs_destructive_before_fault(); sx_observe("f", fault * 10 + late); fs_fault_at(-1); after();
    if (fault && late) sx_reach("fault while overwriting");
    else if (unchanged(tagbuf, n)) { sx_assert(fault || kind == 0, "without a fault the tag is deleted"); sx_reach("unchanged"); }
    else { sx_assert(fs_size("f") == n - off && sx_same(fs_data("f"), tagbuf + off, n - off), "the audio is complete"); sx_reach("deleted"); }
    sx_no_leaks("deleting a tag");
}
void c15_read(void)
{
    int off, kind = sx_choose(5, "before"), n = setup(tagbuf, kind, &off); arm(); int what = sx_choose(2, "what");
    if (what) { ID3v2_TagHeader* h = ID3v2_read_tag_header("f"); if (h) { sx_touch(h, 6); sx_reach("read"); } else sx_reach("nothing"); ID3v2_TagHeader_free(h); }
    else { ID3v2_Tag* t = ID3v2_read_tag("f"); if (t) { walk_tag(t); sx_reach("read"); } else sx_reach("nothing"); if (t) ID3v2_Tag_free(t); }
    fs_fault_at(-1); after(); sx_assert(unchanged(tagbuf, n), "reading leaves the file alone"); sx_no_leaks("reading a file");
}
/* a file that may only be read; a file that is not there */
void c15_protected(void)
{
    int off, n = setup(tagbuf, sx_choose(5, "before"), &off); RL l; ID3v2_Tag* t = a_tag(1, &l); fs_protect("f");
    if (sx_choose(2, "what")) ID3v2_write_tag("f", t); else ID3v2_delete_tag("f");
    after(); sx_assert(unchanged(tagbuf, n), "a file that cannot be written is not changed"); check_tag(t, &l); ID3v2_Tag_free(t); sx_no_leaks("a file that cannot be written"); sx_reach("done");
}
void c15_missing(void)
{
    RL l; ID3v2_Tag* t = a_tag(1, &l); int what = sx_choose(4, "what");
    if (what == 0) ID3v2_write_tag("missing", t); if (what == 1) ID3v2_delete_tag("missing"); if (what == 2) sx_assert(ID3v2_read_tag("missing") == NULL, "no tag"); if (what == 3) sx_assert(ID3v2_read_tag_header("missing") == NULL, "no header");
    sx_assert(fs_open_handles() == 0 && fs_count() == 0 && fs_size("missing") < 0, "nothing is created"); check_tag(t, &l); ID3v2_Tag_free(t); ID3v2_write_tag("missing", NULL); sx_assert(fs_count() == 0, "nothing is created"); sx_no_leaks("a missing file"); sx_reach("done");
}
