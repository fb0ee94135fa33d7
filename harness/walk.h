/* Reads everything the public structures of a tag hand out, as a user may. */
#ifndef WALK_H
#define WALK_H
#include <string.h>
#include "id3v2lib.h"
#include "sx.h"
static inline int is_id(const char* a, const char* b) { return memcmp(a, b, 4) == 0; }
static void walk_frame(ID3v2_Frame* f)
{
    sx_assert(f->header != NULL, "a frame has a header");
    sx_touch(f->header->id, 4); sx_touch(f->header->flags, 2); sx_touch(&f->header->size, sizeof(int));
    if (f->header->id[0] == 'T') {
        ID3v2_TextFrame* t = (ID3v2_TextFrame*) f;
        sx_touch(&t->data->encoding, 1); sx_touch(&t->data->size, sizeof(int));
        sx_touch(t->data->text, t->data->size > 0 ? t->data->size : 0);
        sx_touch(t->data->text, ID3v2_strlent(t->data->text));
    } else if (is_id(f->header->id, "COMM")) {
        ID3v2_CommentFrame* c = (ID3v2_CommentFrame*) f;
        sx_touch(&c->data->encoding, 1); sx_touch(c->data->language, 3); sx_touch(&c->data->size, sizeof(int));
        sx_touch(c->data->short_description, ID3v2_strlent(c->data->short_description));
        sx_touch(c->data->comment, ID3v2_strlent(c->data->comment));
    } else if (is_id(f->header->id, "APIC")) {
        ID3v2_ApicFrame* a = (ID3v2_ApicFrame*) f;
        sx_touch(&a->data->encoding, 1); sx_touch(&a->data->picture_type, 1); sx_touch(&a->data->picture_size, sizeof(int));
        sx_touch(a->data->mime_type, ID3v2_strlent(a->data->mime_type));
        sx_touch(a->data->description, ID3v2_strlent(a->data->description));
        sx_assert(a->data->picture_size >= 0, "picture size is not negative");
        sx_touch(a->data->data, a->data->picture_size);
    } else {
        sx_assert(f->header->size >= 0, "frame size is not negative");
        sx_touch(f->data, f->header->size);
    }
}
static int walk_tag(ID3v2_Tag* t)
{
    int n = 0;
    sx_touch(t->header, 6); sx_touch(&t->header->tag_size, 4); sx_touch(&t->header->extended_header_size, 4); sx_touch(&t->padding_size, 4);
    for (ID3v2_FrameList* l = t->frames; l != NULL && l->frame != NULL; l = l->next) { walk_frame(l->frame); n++; }
    return n;
}
/* two tags with the same header and frames */
static void same_frames(const ID3v2_Tag* a, const ID3v2_Tag* b)
{
    const ID3v2_FrameList *x = a->frames, *y = b->frames;
    sx_assert(sx_same(a->header, b->header, 6), "same header"); sx_assert(a->header->tag_size == b->header->tag_size, "same sizes");
    int k = 0;
    for (;;) {
        int ex = x == NULL || x->frame == NULL, ey = y == NULL || y->frame == NULL; sx_assert(ex == ey, "same number of frames"); if (ex) break;
        ID3v2_Frame *f = x->frame, *g = y->frame; k++;
        sx_assert(sx_same(f->header->id, g->header->id, 4) & sx_same(f->header->flags, g->header->flags, 2), "same frame header"); sx_assert(f->header->size == g->header->size, "same frame size");
        if (f->header->id[0] == 'T') { ID3v2_TextFrameData *p = ((ID3v2_TextFrame*)f)->data, *q = ((ID3v2_TextFrame*)g)->data; sx_assert(p->size == q->size && p->encoding == q->encoding, "same text"); sx_assert(sx_same(p->text, q->text, p->size), "same text"); }
        else if (is_id(f->header->id, "COMM")) { ID3v2_CommentFrameData *p = ((ID3v2_CommentFrame*)f)->data, *q = ((ID3v2_CommentFrame*)g)->data; int d = ID3v2_strlent(p->short_description); sx_assert(p->size == q->size && p->encoding == q->encoding && sx_same(p->language, q->language, 3) && d == ID3v2_strlent(q->short_description), "same comment"); sx_assert(sx_same(p->comment, q->comment, p->size) & sx_same(p->short_description, q->short_description, d), "same comment"); }
        else if (is_id(f->header->id, "APIC")) { ID3v2_ApicFrameData *p = ((ID3v2_ApicFrame*)f)->data, *q = ((ID3v2_ApicFrame*)g)->data; int d = ID3v2_strlent(p->description), m = ID3v2_strlent(p->mime_type); sx_assert(p->picture_size == q->picture_size && p->encoding == q->encoding && p->picture_type == q->picture_type && d == ID3v2_strlent(q->description) && m == ID3v2_strlent(q->mime_type), "same picture"); sx_assert(sx_same(p->data, q->data, p->picture_size) & sx_same(p->description, q->description, d) & sx_same(p->mime_type, q->mime_type, m), "same picture"); }
        else sx_assert(sx_same(f->data, g->data, f->header->size), "same data");
        x = x->next; y = y->next;
    }
    sx_observe("frames", k); sx_reach(k == 0 ? "no frames" : k == 1 ? "one frame" : "frames");
}
#endif
