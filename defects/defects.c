/* Demonstrations of the defects found in the pinned commit and repaired by the
 * "fix:" commits in /repo.  Each case is an ordinary use of the public API;
 * built with ASan+UBSan+LSan it fails on the pinned commit, passes afterwards.
 * usage: defects CASE   (see run.sh) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "id3v2lib.compat.h"

#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); exit(3); } } while (0)

static void put(const char* n, const void* d, size_t s)
{ FILE* f = fopen(n, "wb"); fwrite(d, 1, s, f); fclose(f); }
static size_t get(const char* n, char* d, size_t cap)
{ FILE* f = fopen(n, "rb"); if (!f) return 0; size_t r = fread(d, 1, cap, f); fclose(f); return r; }
static ID3v2_Tag* from(const char* b, int n)
{ char* h = malloc(n ? n : 1); memcpy(h, b, n); ID3v2_Tag* t = ID3v2_read_tag_from_buffer(h, n); free(h); return t; }

int main(int argc, char** argv)
{
    char buf[1 << 16]; size_t n;
    switch (atoi(argv[1]))
    {
    case 1: /* empty string is one byte long */
        { char* e = calloc(1, 1); CHECK(ID3v2_strlent(e) == 1); free(e); } break;
    case 2: /* setters forgot the 10 byte frame header: heap overflow on write */
        { put("f", "AUDIO", 5); ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_title(t, "x");
          ID3v2_write_tag("f", t); ID3v2_Tag_free(t); n = get("f", buf, sizeof buf);
          CHECK(n == 10 + 13 + 5); CHECK(memcmp(buf + 23, "AUDIO", 5) == 0); } break;
    case 3: /* set then delete: the size underflows */
        { put("f", "AUDIO", 5); ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_title(t, "x");
          ID3v2_Tag_delete_title(t); CHECK(t->header->tag_size == 0); ID3v2_write_tag("f", t); ID3v2_Tag_free(t); } break;
    case 4: /* deleting a frame that isn't there */
        { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_delete_title(t); ID3v2_Tag_free(t); } break;
    case 5: /* deleting the last of several frames: exit(1) on write, later frames unreachable */
        { put("f", "AUDIO", 5); ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_title(t, "x"); ID3v2_Tag_set_artist(t, "y");
          ID3v2_Tag_delete_artist(t); ID3v2_Tag_set_album(t, "z"); CHECK(ID3v2_Tag_get_album_frame(t) != NULL);
          ID3v2_write_tag("f", t); ID3v2_Tag_free(t); } break;
    case 6: /* text without terminator, as most taggers write it */
        { ID3v2_Tag* t = from("ID3\3\0\0\0\0\0\14TRCK\0\0\0\2\0\0\0" "1", 22); CHECK(t);
          CHECK(ID3v2_Tag_get_track_frame(t)->data->size == 2); ID3v2_Tag_free(t); } break;
    case 7: /* comment without terminator swallows the following frame */
        { ID3v2_Tag* t = from("ID3\3\0\0\0\0\0\43COMM\0\0\0\6\0\0\0engDx"
                              "TIT2\0\0\0\3\0\0\0ab" "\0\0\0\0\0\0", 45); CHECK(t);
          CHECK(ID3v2_Tag_get_title_frame(t) != NULL); ID3v2_Tag_free(t); } break;
    case 8: /* COMR is not COMM, AENC is not APIC */
        { ID3v2_Tag* t = from("ID3\3\0\0\0\0\0\17COMR\0\0\0\5\0\0\1\2\3\4\5", 25); CHECK(t);
          CHECK(ID3v2_Tag_get_frame(t, "COMR") != NULL); CHECK(ID3v2_Tag_get_comment_frame(t) == NULL); ID3v2_Tag_free(t); } break;
    case 9: /* v2.4 frame sizes are synchsafe */
        { put("f", "AUDIO", 5); ID3v2_Tag* t = ID3v2_Tag_new_empty(); t->header->major_version = 4;
          char s[301]; memset(s, 'a', 300); s[300] = 0; ID3v2_Tag_set_title(t, s); ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
          t = ID3v2_read_tag("f"); CHECK(ID3v2_Tag_get_title_frame(t)->data->size == 301); ID3v2_Tag_free(t); } break;
    case 10: /* extended header */
        { ID3v2_Tag* t = from("ID3\3\0\100\0\0\0\27\0\0\0\6\0\0\0\0\0\0TIT2\0\0\0\3\0\0\0a\0", 33); CHECK(t);
          CHECK(ID3v2_Tag_get_title_frame(t) != NULL); ID3v2_Tag_free(t); } break;
    case 11: /* index based delete leaks and ignores the size */
        { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_Tag_set_comment(t, "eng", "a");
          ID3v2_Tag_add_comment_frame(t, &(ID3v2_CommentFrameInput){"\0\0", "eng", "", "b"});
          ID3v2_Tag_delete_comment_frame(t, 1); ID3v2_Tag_free(t); } break;
    case 12: /* unknown frames leak */
        { ID3v2_Tag* t = from("ID3\3\0\0\0\0\0\14PRIV\0\0\0\2\0\0xy", 22); CHECK(t); ID3v2_Tag_free(t); } break;
    case 13: /* writing to a file that can't be opened */
        { ID3v2_Tag* t = ID3v2_Tag_new_empty(); ID3v2_write_tag("does/not/exist", t); ID3v2_Tag_free(t); } break;
    case 14: /* big picture: the parser put it on the stack */
        { static char pic[9 << 20]; put("f", "AUDIO", 5); ID3v2_Tag* t = ID3v2_Tag_new_empty();
          ID3v2_Tag_set_album_cover(t, "image/png", sizeof pic, pic); ID3v2_write_tag("f", t); ID3v2_Tag_free(t);
          t = ID3v2_read_tag("f"); CHECK(t); ID3v2_Tag_free(t); } break;
    case 15: /* truncated file */
        { put("f", "ID3\3\0\0\0\0\1\0TIT2\0\0\0\177\0\0\0ab", 23); ID3v2_Tag* t = ID3v2_read_tag("f"); CHECK(t);
          CHECK(ID3v2_Tag_get_title_frame(t) == NULL); ID3v2_Tag_free(t); } break;
    case 16: /* compat: no tag */
        { put("f", "AUDIOAUDIOAUDIO", 15); CHECK(load_tag("f") == NULL); } break;
    case 17: /* compat: new tag, set, write, free */
        { put("f", "AUDIO", 5); ID3v2_tag* t = new_tag(); tag_set_title("x", 0, t); tag_set_artist("y", 0, t);
          CHECK(tag_get_artist(t) != NULL); set_tag("f", t); free_tag(t);
          t = load_tag("f"); CHECK(t && tag_get_title(t)); free_tag(t); } break;
    case 18: /* compat: tag without frames */
        { ID3v2_tag* t = load_tag_with_buffer("ID3\3\0\0\0\0\0\0", 10); CHECK(t); free_tag(t); } break;
    case 19: /* compat: second flag byte */
        { ID3v2_tag* t = load_tag_with_buffer("ID3\3\0\0\0\0\0\14TRCK\0\0\0\2\1\2\0\0", 22); CHECK(t);
          CHECK(tag_get_track(t)->flags[1] == 2); free_tag(t); } break;
    case 20: /* text frames lose encoding and everything after the first string */
        { ID3v2_Tag* t = from("ID3\4\0\0\0\0\0\17TXXX\0\0\0\5\0\0\3d\0vw", 25); CHECK(t);
          ID3v2_TextFrame* f = (ID3v2_TextFrame*) ID3v2_Tag_get_frame(t, "TXXX");
          CHECK(f->data->encoding == 3); CHECK(f->data->size >= 4 && memcmp(f->data->text, "d\0vw", 4) == 0); ID3v2_Tag_free(t); } break;
    case 21: /* comment/picture encoding (UTF-8) is relabelled */
        { ID3v2_Tag* t = from("ID3\4\0\0\0\0\0\21COMM\0\0\0\7\0\0\3eng\0a\0", 27); CHECK(t);
          CHECK(ID3v2_Tag_get_comment_frame(t)->data->encoding == 3); ID3v2_Tag_free(t); } break;
    case 22: /* v2.4 footer belongs to the tag */
        { put("f", "ID3\4\0\20\0\0\0\0" "3DI\4\0\20\0\0\0\0" "AUDIO", 25); ID3v2_delete_tag("f");
          n = get("f", buf, sizeof buf); CHECK(n == 5 && memcmp(buf, "AUDIO", 5) == 0); } break;
    case 23: /* compat: picture file without extension */
        { put("cover", "PIC", 3); ID3v2_tag* t = new_tag(); tag_set_album_cover("cover", t);
          CHECK(tag_get_album_cover(t) != NULL); free_tag(t); } break;
    case 24: /* buffer shorter than a header */
        { CHECK(from("I", 1) == NULL); } break;
    case 25: /* header-only read of a tag with extended header: size was uninitialised */
        { ID3v2_TagHeader* h = ID3v2_read_tag_header_from_buffer("ID3\3\0\100\0\0\0\27"); CHECK(h); CHECK(h->extended_header_size == 0); ID3v2_TagHeader_free(h); } break;
    case 26: /* whole file as buffer: frames must not be read past the end of the tag */
        { ID3v2_Tag* t = from("ID3\3\0\0\0\0\0\14TRCK\0\0\0\2\0\0\0" "1TIT2\0\0\0\2\0\0\0a", 34); CHECK(t); 
          CHECK(ID3v2_Tag_get_title_frame(t) == NULL); CHECK(t->padding_size == 0); ID3v2_Tag_free(t); } break;
    default: return 77;
    }
    return 0;
}
