#include <stdlib.h>
#include <string.h>
#include "id3v2lib.h"
#include "sx.h"
#include "walk.h"

/* C01: any bytes, as a buffer */
void c01_buffer(void)
{
    int n = sx_param("N", 16), lead = sx_param("LEAD", 0), ver = sx_param("VER", 0), ext = sx_param("EXT", -1), leak = sx_param("LEAK", 0);
    char* b = malloc(n ? n : 1);
    sx_sym(b, n, "buffer");
    if (lead) sx_assume((b[0] == 'I') & (b[1] == 'D') & (b[2] == '3'));
    if (ver) sx_assume(b[3] == ver);
    if (ext >= 0) sx_assume((b[5] & 0x40) == (ext ? 0x40 : 0));
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, n);
    free(b);
    if (t == NULL) { sx_reach("no tag"); if (leak) sx_no_leaks("rejected buffer"); return; }
    int k = walk_tag(t);
    sx_observe("frames", k);
    if (k == 0) sx_reach("no frames");
    if (k == 1) sx_reach("one frame");
    if (k >= 2) sx_reach("two frames");
    ID3v2_Tag_free(t);
    if (leak) sx_no_leaks("tag read and freed");
}
