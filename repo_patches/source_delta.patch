From 73cbbbe4babc7590732781e740a2b1b7d03bfd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:36 +0000
Subject: [PATCH 01/25] fix: do not read past the end of an empty string when
 looking for a bom

---
 src/modules/utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 3986782..0c60c47 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -152,6 +152,12 @@ bool string_has_bom(const char* string)
         return false;
     }
 
+    // An empty string is just one byte long, so there's no room for a bom
+    if (string[0] == '\0')
+    {
+        return false;
+    }
+
     if (memcmp("\xFF\xFE", string, 2) == 0 || memcmp("\xFE\xFF", string, 2) == 0)
     {
         return true;
-- 
2.43.0


From 0e8ff6ef686b5b11bc3b6d30d456912e596f9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:36 +0000
Subject: [PATCH 02/25] fix: signed overflow when encoding synchsafe integers

---
 src/modules/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 0c60c47..0b1dcef 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -110,7 +110,8 @@ char* itob(int integer)
 
 int syncint_encode(int value)
 {
-    int out, mask = 0x7F;
+    int out;
+    unsigned int mask = 0x7F; // unsigned, its last shift would overflow an int
 
     while (mask ^ 0x7FFFFFFF)
     {
-- 
2.43.0


From af1f73edf5da9829a6cb516ef98f33f582f6a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:36 +0000
Subject: [PATCH 03/25] fix: count the frame header when a frame is added to a
 tag

The tag size was short by ten bytes per added frame, so writing the tag
overflowed its buffer and lost data.
---
 src/modules/tag.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5350666..acd153c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -207,7 +207,7 @@ void ID3v2_Tag_set_text_frame(ID3v2_Tag* tag, ID3v2_TextFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -341,7 +341,7 @@ void ID3v2_Tag_set_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -360,7 +360,7 @@ void ID3v2_Tag_add_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     ID3v2_CommentFrame* new_frame =
         CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment)
@@ -394,7 +394,7 @@ void ID3v2_Tag_set_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -419,7 +419,7 @@ void ID3v2_Tag_add_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
         input->data
     );
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 /**
-- 
2.43.0


From 57ea89591a0b90b98f01ab7f5f89b7082f44c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:36 +0000
Subject: [PATCH 04/25] fix: deleting a frame the tag does not have must not
 crash

---
 src/modules/frame_list.c | 2 +-
 src/modules/tag.c        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 13e464f..cbe8b8b 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -117,7 +117,7 @@ ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* fra
 {
     if (list == NULL) return NULL;
 
-    while (list != NULL)
+    while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
diff --git a/src/modules/tag.c b/src/modules/tag.c
index acd153c..8931295 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -455,6 +455,7 @@ void ID3v2_Tag_free(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_frame(ID3v2_Tag* tag, const char* frame_id)
 {
     ID3v2_Frame* deleted = FrameList_remove_frame_by_id(tag->frames, frame_id);
+    if (deleted == NULL) return; // there's no such frame in the tag
     tag->header->tag_size -= deleted->header->size + ID3v2_FRAME_HEADER_LENGTH;
     // Maybe we should just return the frame instead of taking the responsibility
     // of freeing it?
-- 
2.43.0


From 52b10e6f9aa2b4fc7133b09fbe81694bc29eca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:36 +0000
Subject: [PATCH 05/25] fix: removing the last frame of a tag left an empty
 node in the list

Writing the tag then ended the process and frames added afterwards could
not be found.
---
 src/modules/frame_list.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index cbe8b8b..279d28f 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -117,17 +117,29 @@ ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* fra
 {
     if (list == NULL) return NULL;
 
+    ID3v2_FrameList* previous = NULL;
+
     while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
             ID3v2_Frame* removed = list->frame;
+
+            if (previous != NULL && list->next == NULL)
+            {
+                // It's the last one, don't leave an empty node behind
+                previous->next = NULL;
+                free(list);
+                return removed;
+            }
+
             ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
             *list = *new_head_old_ptr;
             free(new_head_old_ptr);
             return removed;
         }
 
+        previous = list;
         list = list->next;
     }
 
@@ -138,16 +150,27 @@ ID3v2_Frame* FrameList_remove_frame(ID3v2_FrameList* list, ID3v2_Frame* to_remov
 {
     if (list == NULL) return NULL;
 
+    ID3v2_FrameList* previous = NULL;
+
     while (list != NULL)
     {
         if (list->frame == to_remove)
         {
+            if (previous != NULL && list->next == NULL)
+            {
+                // It's the last one, don't leave an empty node behind
+                previous->next = NULL;
+                free(list);
+                return to_remove;
+            }
+
             ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
             *list = *new_head_old_ptr;
             free(new_head_old_ptr);
             return to_remove;
         }
 
+        previous = list;
         list = list->next;
     }
 
-- 
2.43.0


From 94abed537613780ae17f9f717d532d42a35d91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:36 +0000
Subject: [PATCH 06/25] fix: deleting a frame by index leaked memory and did
 not update the tag size

---
 src/modules/tag.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 8931295..d55cd5e 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -510,15 +510,17 @@ void ID3v2_Tag_delete_composer(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* comments = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* head = comments;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -527,7 +529,7 @@ void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(comments);
 }
 
 void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
@@ -538,15 +540,17 @@ void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* apics = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* head = apics;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_ApicFrame* to_delete = (ID3v2_ApicFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -555,7 +559,7 @@ void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(apics);
 }
 
 void ID3v2_Tag_delete_album_cover(ID3v2_Tag* tag)
-- 
2.43.0


From c138afa1e5e4bae994a508233338066a364d91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 07/25] fix: memory leaks when freeing and writing frames of
 unknown type

---
 src/modules/frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 29d775e..257ae51 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -78,6 +78,7 @@ CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
         CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
+        CharStream_free(header_cs);
         CharStream_write(frame_cs, frame->data, frame->header->size);
         return frame_cs;
     }
@@ -104,5 +105,6 @@ void ID3v2_Frame_free(ID3v2_Frame* frame)
         // Unknown frame id, naively try our best to free it
         free(frame->header);
         free(frame->data);
+        free(frame);
     }
 }
-- 
2.43.0


From 81aaf1112d40ca8bcf1f4753e9d8e81bb434db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 08/25] fix: only COMM frames are comments and only APIC frames
 are pictures

Any frame whose id starts with C or A (COMR, CHAP, AENC, ASPI...) was taken
for one and written back as one, destroying its content.
---
 src/modules/frame_header.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 4f755d2..2a1579a 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -13,6 +13,7 @@
 #include <string.h>
 
 #include "modules/char_stream.private.h"
+#include "modules/frame_ids.h"
 #include "modules/utils.private.h"
 
 #include "frame_header.private.h"
@@ -77,12 +78,12 @@ bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header)
 
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'C';
+    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'A';
+    return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 void FrameHeader_free(ID3v2_FrameHeader* header)
-- 
2.43.0


From 77554d4a93f9684276ab2bef119daf6660af48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 09/25] fix: write the frame sizes of v2.4 tags as synchsafe
 integers

They were read as such but written as plain ones, so a v2.4 tag with a frame
of 128 bytes or more came back corrupted.
---
 src/id3v2lib.compat.c                      |  2 +-
 src/modules/frame.c                        | 10 +++++-----
 src/modules/frame.private.h                |  2 +-
 src/modules/frame_header.c                 |  4 ++--
 src/modules/frame_header.private.h         |  2 +-
 src/modules/frames/apic_frame.c            |  4 ++--
 src/modules/frames/apic_frame.private.h    |  2 +-
 src/modules/frames/comment_frame.c         |  4 ++--
 src/modules/frames/comment_frame.private.h |  2 +-
 src/modules/frames/text_frame.c            |  4 ++--
 src/modules/frames/text_frame.private.h    |  2 +-
 src/modules/tag.c                          |  2 +-
 12 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index cb16591..ebad444 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -44,7 +44,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     // Frame data
-    CharStream* frame_cs = Frame_to_char_stream(frame);
+    CharStream* frame_cs = Frame_to_char_stream(frame, 3); // only its data is used
     CharStream_seek(frame_cs, ID3v2_FRAME_HEADER_LENGTH, SEEK_SET);
     compat_frame->data = (char*) malloc(compat_frame->size * sizeof(char));
     CharStream_read(frame_cs, compat_frame->data, compat_frame->size);
diff --git a/src/modules/frame.c b/src/modules/frame.c
index 257ae51..202f96d 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -56,27 +56,27 @@ ID3v2_Frame* Frame_parse(CharStream* frame_cs, int id3_major_version)
     return frame;
 }
 
-CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
+CharStream* Frame_to_char_stream(ID3v2_Frame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
     if (FrameHeader_isTextFrame(frame->header))
     {
-        return TextFrame_to_char_stream((ID3v2_TextFrame*) frame);
+        return TextFrame_to_char_stream((ID3v2_TextFrame*) frame, id3_major_version);
     }
     else if (FrameHeader_isCommentFrame(frame->header))
     {
-        return CommentFrame_to_char_stream((ID3v2_CommentFrame*) frame);
+        return CommentFrame_to_char_stream((ID3v2_CommentFrame*) frame, id3_major_version);
     }
     else if (FrameHeader_isApicFrame(frame->header))
     {
-        return ApicFrame_to_char_stream((ID3v2_ApicFrame*) frame);
+        return ApicFrame_to_char_stream((ID3v2_ApicFrame*) frame, id3_major_version);
     }
     else
     {
         // Unknown frame type, dump whatever we have in memory for that frame
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
-        CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
+        CharStream* header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
         CharStream_free(header_cs);
         CharStream_write(frame_cs, frame->data, frame->header->size);
diff --git a/src/modules/frame.private.h b/src/modules/frame.private.h
index 0e90da2..808eb8b 100644
--- a/src/modules/frame.private.h
+++ b/src/modules/frame.private.h
@@ -16,6 +16,6 @@ typedef struct _CharStream CharStream;
 
 ID3v2_Frame* Frame_parse(CharStream* frame_cs, int id3_major_version);
 
-CharStream* Frame_to_char_stream(ID3v2_Frame* frame);
+CharStream* Frame_to_char_stream(ID3v2_Frame* frame, const int id3_major_version);
 
 #endif
diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 2a1579a..bcb5df0 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -58,12 +58,12 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     return FrameHeader_new(id, flags, size);
 }
 
-CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header)
+CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header, const int id3_major_version)
 {
     CharStream* header_cs = CharStream_new(ID3v2_FRAME_HEADER_LENGTH);
 
     CharStream_write(header_cs, header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
-    char* size_bytes = itob(header->size);
+    char* size_bytes = itob(id3_major_version == 4 ? syncint_encode(header->size) : header->size);
     CharStream_write(header_cs, size_bytes, ID3v2_FRAME_HEADER_SIZE_LENGTH);
     free(size_bytes);
     CharStream_write(header_cs, (const char*) &header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
diff --git a/src/modules/frame_header.private.h b/src/modules/frame_header.private.h
index 6ca82fb..66694c1 100644
--- a/src/modules/frame_header.private.h
+++ b/src/modules/frame_header.private.h
@@ -19,7 +19,7 @@ typedef struct _CharStream CharStream;
 ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int size);
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version);
 
-CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header);
+CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header, const int id3_major_version);
 
 bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header);
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header);
diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index ba1d9cd..1969463 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -73,11 +73,11 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
     return frame;
 }
 
-CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame)
+CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/apic_frame.private.h b/src/modules/frames/apic_frame.private.h
index b968d58..bcc8a35 100644
--- a/src/modules/frames/apic_frame.private.h
+++ b/src/modules/frames/apic_frame.private.h
@@ -23,7 +23,7 @@ ID3v2_ApicFrame* ApicFrame_new(
     const char* data
 );
 ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame);
+CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame, const int id3_major_version);
 
 void ApicFrame_free(ID3v2_ApicFrame* frame);
 
diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 947f72d..69916c6 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -63,11 +63,11 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
     return frame;
 }
 
-CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame)
+CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/comment_frame.private.h b/src/modules/frames/comment_frame.private.h
index b956fed..8c95bc6 100644
--- a/src/modules/frames/comment_frame.private.h
+++ b/src/modules/frames/comment_frame.private.h
@@ -21,7 +21,7 @@ ID3v2_CommentFrame* CommentFrame_new(
     const char* comment
 );
 ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame);
+CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame, const int id3_major_version);
 
 void CommentFrame_free(ID3v2_CommentFrame* frame);
 
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 54cec80..6293fef 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -47,11 +47,11 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
     return frame;
 }
 
-CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame)
+CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/text_frame.private.h b/src/modules/frames/text_frame.private.h
index da96c2b..ab069d8 100644
--- a/src/modules/frames/text_frame.private.h
+++ b/src/modules/frames/text_frame.private.h
@@ -16,7 +16,7 @@ typedef struct _CharStream CharStream;
 
 ID3v2_TextFrame* TextFrame_new(const char* id, const char* flags, const char* text);
 ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame);
+CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame, const int id3_major_version);
 
 void TextFrame_free(ID3v2_TextFrame* frame);
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index d55cd5e..39653cb 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -92,7 +92,7 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
     while (frames != NULL)
     {
-        CharStream* frame_cs = Frame_to_char_stream(frames->frame);
+        CharStream* frame_cs = Frame_to_char_stream(frames->frame, tag->header->major_version);
 
         if (frame_cs == NULL) exit(1);
 
-- 
2.43.0


From 9779e6c1622983521fac19ad857331d71b80de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:31 +0000
Subject: [PATCH 10/25] fix: a buffer shorter than a tag header holds no tag

---
 src/modules/tag_header.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8ecc1f0..bd41bf1 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -47,6 +47,8 @@ ID3v2_TagHeader* TagHeader_new_empty()
 
 ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 {
+    if (header_cs->size < ID3v2_TAG_HEADER_LENGTH) return NULL;
+
     bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
     if (!has_id3v2_tag) return NULL;
 
-- 
2.43.0


From 95eadbb17ed742407c3813e3d2f5328cb1c7f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:31 +0000
Subject: [PATCH 11/25] fix: never read past the frame, the tag or the buffer
 when parsing frames

Frame sizes and string terminations found in the file were trusted: strings
that lacked a terminator were read past their end (into the next frames),
frames bigger than the tag were accepted, and whole frames were put on the
stack. Parse each frame from its own zero terminated copy instead.
---
 src/modules/frame.c                | 32 +++++++++++++++++++++++++++++-
 src/modules/frame.private.h        |  2 +-
 src/modules/frame_header.c         | 10 ++++++++++
 src/modules/frames/apic_frame.c    | 19 +++++++++---------
 src/modules/frames/comment_frame.c |  9 +++------
 src/modules/frames/text_frame.c    |  5 ++---
 src/modules/tag.c                  |  3 +++
 7 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 202f96d..67cbefc 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -21,7 +21,37 @@
 
 #include "frame.private.h"
 
-ID3v2_Frame* Frame_parse(CharStream* frame_cs, int id3_major_version)
+// Longer than any string terminations or fixed fields missing from a malformed frame
+#define ZERO_TAIL_LENGTH 8
+
+static ID3v2_Frame* Frame_parse_isolated(CharStream* frame_cs, int id3_major_version);
+
+/**
+ * Parses a copy of the frame, so nothing found in it can lead to read other frames or
+ * beyond the tag. The copy is followed by some zeros so the strings in it are always
+ * terminated.
+ */
+ID3v2_Frame* Frame_parse(CharStream* tag_cs, int id3_major_version)
+{
+    ID3v2_FrameHeader* header = FrameHeader_parse(tag_cs, id3_major_version);
+
+    if (header == NULL) return NULL; // no valid frame found
+
+    const int frame_length = header->size + ID3v2_FRAME_HEADER_LENGTH;
+    FrameHeader_free(header);
+
+    CharStream_seek(tag_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
+    CharStream* frame_cs = CharStream_new(frame_length + ZERO_TAIL_LENGTH);
+    CharStream_read(tag_cs, frame_cs->stream, frame_length);
+
+    ID3v2_Frame* frame = Frame_parse_isolated(frame_cs, id3_major_version);
+
+    CharStream_free(frame_cs);
+
+    return frame;
+}
+
+static ID3v2_Frame* Frame_parse_isolated(CharStream* frame_cs, int id3_major_version)
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
diff --git a/src/modules/frame.private.h b/src/modules/frame.private.h
index 808eb8b..f27ae2c 100644
--- a/src/modules/frame.private.h
+++ b/src/modules/frame.private.h
@@ -14,7 +14,7 @@
 
 typedef struct _CharStream CharStream;
 
-ID3v2_Frame* Frame_parse(CharStream* frame_cs, int id3_major_version);
+ID3v2_Frame* Frame_parse(CharStream* tag_cs, int id3_major_version);
 
 CharStream* Frame_to_char_stream(ID3v2_Frame* frame, const int id3_major_version);
 
diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index bcb5df0..33b9446 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -31,6 +31,9 @@ ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int
 
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version)
 {
+    // If there isn't room for a header, then there are no more frames
+    if (header_cs->size - header_cs->cursor < ID3v2_FRAME_HEADER_LENGTH) return NULL;
+
     char id[ID3v2_FRAME_HEADER_ID_LENGTH];
     CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
 
@@ -55,6 +58,13 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
     CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
+    // A frame can't be bigger than what's left of the tag
+    if (size < 0 || size > header_cs->size - header_cs->cursor)
+    {
+        CharStream_seek(header_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
+        return NULL;
+    }
+
     return FrameHeader_new(id, flags, size);
 }
 
diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index 1969463..6cd5a66 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -51,19 +51,20 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
     CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
 
     const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char mime_type[mime_type_size];
-    CharStream_read(frame_cs, mime_type, mime_type_size);
+    const char* mime_type = CharStream_slice(frame_cs, mime_type_size);
 
     const char picture_type = CharStream_getc(frame_cs);
 
     const int description_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char description[description_size];
-    CharStream_read(frame_cs, description, description_size);
-
-    const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
-                         ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-    char pic_data[pic_size];
-    CharStream_read(frame_cs, pic_data, pic_size);
+    const char* description = CharStream_slice(frame_cs, description_size);
+
+    const int pic_size = clamp_int(
+        header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
+            ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size,
+        0,
+        header->size
+    );
+    const char* pic_data = CharStream_slice(frame_cs, pic_size);
 
     ID3v2_ApicFrame* frame =
         ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 69916c6..cfa3d2f 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -45,16 +45,13 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 
     CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
 
-    char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH];
-    CharStream_read(frame_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+    const char* lang = CharStream_slice(frame_cs, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
 
     const int short_desc_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char short_desc[short_desc_size];
-    CharStream_read(frame_cs, short_desc, short_desc_size);
+    const char* short_desc = CharStream_slice(frame_cs, short_desc_size);
 
     const int comment_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char comment[comment_size];
-    CharStream_read(frame_cs, comment, comment_size);
+    const char* comment = CharStream_slice(frame_cs, comment_size);
 
     ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
 
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 6293fef..7c4e16f 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -36,9 +36,8 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
 
     CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
 
-    const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    char text[text_size];
-    CharStream_read(frame_cs, text, text_size);
+    const int text_size = clamp_int(header->size - ID3v2_FRAME_ENCODING_LENGTH, 0, header->size);
+    const char* text = CharStream_slice(frame_cs, text_size);
 
     ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 39653cb..45d27e8 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -54,6 +54,9 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
         CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
     }
 
+    // The buffer may hold more than the tag, but there are no frames past its end
+    tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
+
     ID3v2_Frame* current_frame;
     while (tag_cs->cursor < tag->header->tag_size)
     {
-- 
2.43.0


From 5539a66f66d4e5bc9f760e72b355b83f0fa67cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:57 +0000
Subject: [PATCH 12/25] fix: skip the extended header of a tag and do not
 announce one that is not written

The skip was relative to the start of the tag, so the frames of a tag with an
extended header were never found, and the size of a v2.3 one isn't synchsafe.
---
 include/modules/tag_header.h |  2 ++
 src/modules/tag.c            | 20 ++++++++++++++------
 src/modules/tag_header.c     | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/modules/tag_header.h b/include/modules/tag_header.h
index be6c46f..db2d22e 100644
--- a/include/modules/tag_header.h
+++ b/include/modules/tag_header.h
@@ -18,6 +18,8 @@
 #define ID3v2_TAG_HEADER_TAG_SIZE_LENGTH 4
 #define ID3v2_EXTENDED_HEADER_SIZE_LENGTH 4
 
+#define ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG (1 << 6)
+
 typedef struct _ID3v2_TagHeader
 {
     char identifier[ID3v2_TAG_HEADER_IDENTIFIER_LENGTH];
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 45d27e8..1398f24 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -48,15 +48,21 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Tag* tag = ID3v2_Tag_new(header, 0);
 
+    // The buffer may hold more than the tag, but there are no frames past its end
+    tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
+    CharStream_seek(tag_cs, 0, SEEK_CUR); // neither is the cursor
+
     if (header->extended_header_size > 0)
     {
-        // An extended header exists, skip it
-        CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
+        // An extended header exists, skip it. Its size was already read and, unlike in v2.3,
+        // that's part of the size of the extended header in v2.4
+        const unsigned int to_skip =
+            header->extended_header_size -
+            (header->major_version == 4 ? ID3v2_EXTENDED_HEADER_SIZE_LENGTH : 0);
+        const unsigned int left = tag_cs->size - tag_cs->cursor;
+        CharStream_seek(tag_cs, to_skip < left ? to_skip : left, SEEK_CUR);
     }
 
-    // The buffer may hold more than the tag, but there are no frames past its end
-    tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
-
     ID3v2_Frame* current_frame;
     while (tag_cs->cursor < tag->header->tag_size)
     {
@@ -78,7 +84,9 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    CharStream_write(tag_cs, &tag->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    // The extended header isn't written back, so it must not be announced either
+    const char flags = tag->header->flags & ~ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG;
+    CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
     CharStream_write(tag_cs, size_bytes, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH);
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index bd41bf1..55c5ac0 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -72,12 +72,17 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 
     int extended_header_size = 0;
 
-    if ((flags & (1 << 6)) == (1 << 6))
+    if ((flags & ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG) == ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG)
     {
         // An extended header exists, retrieve its size
-        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
+        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = { 0 }; // it may not be in the stream
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
-        extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
+        extended_header_size = btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
+
+        if (major_version == 4)
+        {
+            extended_header_size = syncint_decode(extended_header_size);
+        }
     }
 
     return TagHeader_new(major_version, minor_version, flags, tag_size, extended_header_size);
-- 
2.43.0


From a09047c34851554e2d54dfa52a19dd01fcd64320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:57 +0000
Subject: [PATCH 13/25] fix: the footer of a v2.4 tag is part of the tag, not
 of the audio

---
 include/modules/tag_header.h     |  1 +
 src/id3v2lib.c                   |  4 ++--
 src/modules/tag.c                |  5 +++--
 src/modules/tag_header.c         | 11 +++++++++++
 src/modules/tag_header.private.h |  1 +
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/modules/tag_header.h b/include/modules/tag_header.h
index db2d22e..e8cd674 100644
--- a/include/modules/tag_header.h
+++ b/include/modules/tag_header.h
@@ -19,6 +19,7 @@
 #define ID3v2_EXTENDED_HEADER_SIZE_LENGTH 4
 
 #define ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG (1 << 6)
+#define ID3v2_TAG_HEADER_FOOTER_FLAG (1 << 4)
 
 typedef struct _ID3v2_TagHeader
 {
diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b245bad..ad16d46 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -85,7 +85,7 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
     const int original_size =
-        existing_tag_header != NULL ? existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+        existing_tag_header != NULL ? TagHeader_get_full_tag_size(existing_tag_header) : 0;
     free(existing_tag_header);
 
     const int extra_padding_length = clamp_int(
@@ -139,7 +139,7 @@ void ID3v2_delete_tag(const char* file_name)
     FILE* file_fp = fopen(file_name, "rb");
     FILE* temp_fp = tmpfile();
 
-    fseek(file_fp, tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
+    fseek(file_fp, TagHeader_get_full_tag_size(tag_header), SEEK_SET);
 
     int c = 0;
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 1398f24..3b9050a 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -84,8 +84,9 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    // The extended header isn't written back, so it must not be announced either
-    const char flags = tag->header->flags & ~ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG;
+    // The extended header and the footer aren't written back, so they must not be announced either
+    const char flags = tag->header->flags & ~ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG &
+                       ~(tag->header->major_version == 4 ? ID3v2_TAG_HEADER_FOOTER_FLAG : 0);
     CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 55c5ac0..792eddc 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -88,6 +88,17 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     return TagHeader_new(major_version, minor_version, flags, tag_size, extended_header_size);
 }
 
+/**
+ * The length of the whole tag as found in the file, i.e. including its header and
+ * the footer that v2.4 tags may have.
+ */
+int TagHeader_get_full_tag_size(ID3v2_TagHeader* header)
+{
+    const int has_footer =
+        header->major_version == 4 && (header->flags & ID3v2_TAG_HEADER_FOOTER_FLAG) != 0;
+    return header->tag_size + ID3v2_TAG_HEADER_LENGTH * (has_footer ? 2 : 1);
+}
+
 void ID3v2_TagHeader_free(ID3v2_TagHeader* header)
 {
     free(header);
diff --git a/src/modules/tag_header.private.h b/src/modules/tag_header.private.h
index 011e39c..e098b28 100644
--- a/src/modules/tag_header.private.h
+++ b/src/modules/tag_header.private.h
@@ -23,5 +23,6 @@ ID3v2_TagHeader* TagHeader_new(
 );
 ID3v2_TagHeader* TagHeader_new_empty();
 ID3v2_TagHeader* TagHeader_parse(CharStream* stream);
+int TagHeader_get_full_tag_size(ID3v2_TagHeader* header);
 
 #endif
-- 
2.43.0


From 8819575d5daa22fbf5a146b0cc953aff1229fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:57 +0000
Subject: [PATCH 14/25] fix: keep the size of a tag in step with the frames
 parsed from it

Strings without terminator grow when parsed, which overflowed the buffer when
the tag was written back.
---
 src/modules/tag.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 3b9050a..1776bd1 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -64,15 +64,21 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     }
 
     ID3v2_Frame* current_frame;
+    unsigned int frames_size = 0;
     while (tag_cs->cursor < tag->header->tag_size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
         FrameList_add_frame(tag->frames, current_frame);
+        frames_size += current_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
 
     tag->padding_size = tag_cs->size - tag_cs->cursor;
 
+    // Frames may take a different size now (e.g. missing string terminations are added) and
+    // the tag may be incomplete, keep track of the space that writing it takes
+    header->tag_size = frames_size + tag->padding_size;
+
     return tag;
 }
 
-- 
2.43.0


From 7b347f8857532244221540ac5c1db0061d42211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:57 +0000
Subject: [PATCH 15/25] fix: keep the encoding and all the strings of the text
 frames read from a file

UTF-8 and UTF-16BE frames were relabelled as ISO-8859-1 and everything after
the first string (the value of TXXX, multiple values in v2.4) was dropped.
---
 src/modules/frames/text_frame.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 7c4e16f..2899df7 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -34,13 +34,31 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    const char encoding = CharStream_getc(frame_cs);
 
     const int text_size = clamp_int(header->size - ID3v2_FRAME_ENCODING_LENGTH, 0, header->size);
     const char* text = CharStream_slice(frame_cs, text_size);
 
     ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
 
+    // What's in the file isn't always a single string whose encoding can be told from its bom,
+    // so keep the encoding and every byte of it. The text is followed by zeros in the stream.
+    const bool is_utf16 = encoding == 1 || encoding == 2 || string_has_bom(text);
+    const int termination_size = is_utf16 ? 2 : 1;
+    int size = is_utf16 ? text_size + text_size % 2 : text_size;
+
+    if (size == 0 || memcmp(text + size - termination_size, "\0\0", termination_size) != 0)
+    {
+        size += termination_size;
+    }
+
+    free(frame->data->text);
+    frame->data->text = (char*) malloc(size * sizeof(char));
+    memcpy(frame->data->text, text, size);
+    frame->data->encoding = encoding;
+    frame->data->size = size;
+    frame->header->size = ID3v2_FRAME_ENCODING_LENGTH + size;
+
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
-- 
2.43.0


From 349d009d98808b1435b0370c72c54f4684aeb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:57 +0000
Subject: [PATCH 16/25] fix: keep the encoding of the comments and pictures
 read from a file

---
 src/modules/frames/apic_frame.c    | 4 +++-
 src/modules/frames/comment_frame.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index 6cd5a66..794f476 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -48,7 +48,7 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    const char encoding = CharStream_getc(frame_cs);
 
     const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
     const char* mime_type = CharStream_slice(frame_cs, mime_type_size);
@@ -69,6 +69,8 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
     ID3v2_ApicFrame* frame =
         ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
 
+    frame->data->encoding = encoding; // it can't always be told from the strings
+
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index cfa3d2f..7c8bf12 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -43,7 +43,7 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    const char encoding = CharStream_getc(frame_cs);
 
     const char* lang = CharStream_slice(frame_cs, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
 
@@ -55,6 +55,8 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 
     ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
 
+    frame->data->encoding = encoding; // it can't always be told from the strings
+
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
-- 
2.43.0


From 90734ab7f7e7629a57fdf48d1419a5ae434c8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:25 +0000
Subject: [PATCH 17/25] fix: do not parse uninitialised memory when the file is
 shorter than its tag

---
 src/id3v2lib.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index ad16d46..339e030 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -49,6 +49,13 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
     if (tag_header == NULL) return NULL;
 
     FILE* file = fopen(file_name, "rb");
+
+    if (file == NULL)
+    {
+        ID3v2_TagHeader_free(tag_header);
+        return NULL;
+    }
+
     int buffer_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* tag_buffer = (char*) malloc((buffer_length) * sizeof(char));
 
@@ -60,7 +67,8 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
         return NULL;
     }
 
-    fread(tag_buffer, buffer_length, 1, file);
+    // The file may be shorter than what its tag claims
+    buffer_length = fread(tag_buffer, sizeof(char), buffer_length, file);
     fclose(file);
 
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, buffer_length);
-- 
2.43.0


From 0d4a45b369547b3fe825333687b30c18ca121f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:25 +0000
Subject: [PATCH 18/25] fix: writing or deleting a tag must leave the file
 alone when the copy can not be made

A file that couldn't be opened crashed the program, and the file was truncated
and filled with an incomplete copy if reading it or writing the temporary file
failed.
---
 src/id3v2lib.c | 65 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 339e030..3b4415c 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -106,14 +106,24 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     // Perform operations on a temp file in case things go wrong
     FILE* temp_fp = tmpfile();
+    FILE* dest_fp = fopen(file_name, "r+b");
+
+    if (temp_fp == NULL || dest_fp == NULL)
+    {
+        perror("Could not write tag.");
+        if (temp_fp != NULL) fclose(temp_fp);
+        if (dest_fp != NULL) fclose(dest_fp);
+        CharStream_free(tag_cs);
+        return;
+    }
 
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
+    CharStream_free(tag_cs);
 
     // And then, read the original audio data and copy it to
     // the temp file so it's located after the tag
-    FILE* dest_fp = fopen(file_name, "r+b");
-    fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
+    const int seek_error = fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
 
     int c = 0;
 
@@ -122,10 +132,25 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         putc(c, temp_fp);
     }
 
+    // Don't touch the destination file unless the temp file is complete
+    if (seek_error || ferror(dest_fp) || ferror(temp_fp) || fseek(temp_fp, 0L, SEEK_SET) != 0)
+    {
+        perror("Could not write tag.");
+        fclose(temp_fp);
+        fclose(dest_fp);
+        return;
+    }
+
     // Finally copy the temp file back into the destination file
     fclose(dest_fp);
     dest_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+
+    if (dest_fp == NULL)
+    {
+        perror("Could not write tag.");
+        fclose(temp_fp);
+        return;
+    }
 
     while ((c = getc(temp_fp)) != EOF)
     {
@@ -134,8 +159,6 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     fclose(temp_fp);
     fclose(dest_fp);
-
-    CharStream_free(tag_cs);
 }
 
 void ID3v2_delete_tag(const char* file_name)
@@ -147,7 +170,16 @@ void ID3v2_delete_tag(const char* file_name)
     FILE* file_fp = fopen(file_name, "rb");
     FILE* temp_fp = tmpfile();
 
-    fseek(file_fp, TagHeader_get_full_tag_size(tag_header), SEEK_SET);
+    if (file_fp == NULL || temp_fp == NULL)
+    {
+        perror("Could not delete tag.");
+        if (file_fp != NULL) fclose(file_fp);
+        if (temp_fp != NULL) fclose(temp_fp);
+        ID3v2_TagHeader_free(tag_header);
+        return;
+    }
+
+    const int seek_error = fseek(file_fp, TagHeader_get_full_tag_size(tag_header), SEEK_SET);
 
     int c = 0;
 
@@ -156,18 +188,33 @@ void ID3v2_delete_tag(const char* file_name)
         putc(c, temp_fp);
     }
 
+    ID3v2_TagHeader_free(tag_header);
+
+    // Don't touch the file unless the temp file is complete
+    if (seek_error || ferror(file_fp) || ferror(temp_fp) || fseek(temp_fp, 0L, SEEK_SET) != 0)
+    {
+        perror("Could not delete tag.");
+        fclose(file_fp);
+        fclose(temp_fp);
+        return;
+    }
+
     // Finally copy the temp file back into the destination file
     fclose(file_fp);
     file_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+
+    if (file_fp == NULL)
+    {
+        perror("Could not delete tag.");
+        fclose(temp_fp);
+        return;
+    }
 
     while ((c = getc(temp_fp)) != EOF)
     {
         putc(c, file_fp);
     }
 
-    ID3v2_TagHeader_free(tag_header);
-
     fclose(temp_fp);
     fclose(file_fp);
 }
-- 
2.43.0


From b460d1f49ed77dc75b56bc6f426bc7ea27b588bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 19/25] fix: copy both flag bytes of a frame to its compat
 counterpart

---
 src/id3v2lib.compat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index ebad444..8e9a21f 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -41,7 +41,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     // Frame header
     memcpy(compat_frame->frame_id, frame->header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
     compat_frame->size = frame->header->size;
-    memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    memcpy(compat_frame->flags, frame->header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
     // Frame data
     CharStream* frame_cs = Frame_to_char_stream(frame, 3); // only its data is used
-- 
2.43.0


From 6459840c564873798082bb8afef60f6525fe963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 20/25] fix: loading a file without a tag, or a tag without
 frames, crashed the compat layer

---
 src/id3v2lib.compat.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 8e9a21f..96c7606 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -126,10 +126,19 @@ ID3v2_tag* new_tag()
 ID3v2_tag* load_tag(const char* file_name)
 {
     ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);
+    if (header == NULL) return NULL;
+
     FILE* fp = fopen(file_name, "rb");
-    const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+
+    if (fp == NULL)
+    {
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
+    int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* buffer = (char*) malloc(buffer_size * sizeof(char));
-    fread(buffer, sizeof(char), buffer_size, fp);
+    buffer_size = fread(buffer, sizeof(char), buffer_size, fp); // the tag may be incomplete
     fclose(fp);
 
     ID3v2_tag* tag = load_tag_with_buffer(buffer, buffer_size);
@@ -143,6 +152,9 @@ ID3v2_tag* load_tag(const char* file_name)
 ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
 {
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(buffer, length);
+
+    if (tag == NULL) return NULL;
+
     ID3v2_tag* compat_tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
 
     compat_tag->tag_header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
@@ -166,7 +178,7 @@ ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
     ID3v2_FrameList* head = tag->frames;
     ID3v2_frame_list* compat_frames = new_frame_list();
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
         add_to_list(compat_frames, compat_frame);
-- 
2.43.0


From 410d62b0ed7403e0029beb9daa39317575a26c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 21/25] fix: setting frames a tag does not have yet, and new
 tags, in the compat layer

new_tag() left fields uninitialised that free_tag() then used, and the setters
dereferenced NULL unless the frame already existed.
---
 src/id3v2lib.compat.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 96c7606..1667af3 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -29,6 +29,7 @@ ID3v2_frame_list* new_frame_list()
         list->frame = NULL;
         list->next = NULL;
         list->start = NULL;
+        list->last = NULL;
     }
 
     return list;
@@ -78,7 +79,9 @@ void add_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
 
 void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
 {
-    while (head != NULL)
+    ID3v2_frame_list* list = head;
+
+    while (head != NULL && head->frame != NULL)
     {
         if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)
         {
@@ -91,7 +94,7 @@ void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
     }
 
     // not found
-    add_to_list(head->start, frame);
+    add_to_list(list, frame);
 }
 
 ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
@@ -116,10 +119,17 @@ ID3v2_tag* new_tag()
 
     memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
 
+    tag->raw = NULL;
     tag->tag_header = header;
     tag->frames = new_frame_list();
     tag->tag = ID3v2_Tag_new_empty();
 
+    header->major_version = tag->tag->header->major_version;
+    header->minor_version = tag->tag->header->minor_version;
+    header->flags = tag->tag->header->flags;
+    header->tag_size = tag->tag->header->tag_size;
+    header->extended_header_size = tag->tag->header->extended_header_size;
+
     return tag;
 }
 
@@ -202,6 +212,8 @@ void set_tag(const char* file_name, ID3v2_tag* tag)
 
 void free_frame(ID3v2_frame* frame)
 {
+    if (frame == NULL) return;
+
     free(frame->data);
     free(frame);
 }
-- 
2.43.0


From 6272306bc1da057637eb7fa924388b214bd38322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 22/25] fix: album covers that can not be opened or have no
 extension crashed the compat layer

---
 src/id3v2lib.compat.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 1667af3..3ff1da8 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -445,6 +445,12 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
     int image_size;
     char* mimetype;
 
+    if (album_cover == NULL)
+    {
+        perror("Could not open album cover.");
+        return;
+    }
+
     fseek(album_cover, 0, SEEK_END);
     image_size = (int) ftell(album_cover);
     fseek(album_cover, 0, SEEK_SET);
@@ -454,8 +460,9 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 
     fclose(album_cover);
 
-    mimetype =
-        strcmp(strrchr(filename, '.') + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
+    const char* extension = strrchr(filename, '.');
+    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
+                                                                      : ID3v2_MIME_TYPE_JPG;
     tag_set_album_cover_from_bytes(album_cover_bytes, mimetype, image_size, tag);
 
     free(album_cover_bytes);
-- 
2.43.0


From 41e26fbbfbb800209877209faf7b219510973701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:14 +0000
Subject: [PATCH 23/25] fix: an iso comment must not have an utf-16 description

The encoding of a COMM frame applies to both of its strings, so any other reader takes the
utf-16 description written next to an iso comment for the end of the frame.
---
 src/modules/tag.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 1776bd1..e8cae14 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -388,7 +388,8 @@ void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment
         &(ID3v2_CommentFrameInput){
             .flags = "\0\0",
             .language = lang,
-            .short_description = EMPTY_UNICODE_STR,
+            // both strings of a comment share the same encoding
+            .short_description = string_has_bom(comment) ? EMPTY_UNICODE_STR : "",
             .comment = comment,
         }
     );
-- 
2.43.0


From e3150541e13456580b7370fb4c156cd3a88dbd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:07 +0000
Subject: [PATCH 24/25] fix: leave the tag alone when the album cover cannot be
 read

---
 src/id3v2lib.compat.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 3ff1da8..cdf198c 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -451,12 +451,26 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
         return;
     }
 
-    fseek(album_cover, 0, SEEK_END);
+    const int seek_error = fseek(album_cover, 0, SEEK_END);
     image_size = (int) ftell(album_cover);
-    fseek(album_cover, 0, SEEK_SET);
+
+    // May not be a regular file (e.g. a directory)
+    if (seek_error || image_size < 0 || fseek(album_cover, 0, SEEK_SET) != 0)
+    {
+        perror("Could not read album cover.");
+        fclose(album_cover);
+        return;
+    }
 
     album_cover_bytes = (char*) malloc(image_size * sizeof(char));
-    fread(album_cover_bytes, sizeof(char), image_size, album_cover);
+
+    if ((int) fread(album_cover_bytes, sizeof(char), image_size, album_cover) < image_size)
+    {
+        perror("Could not read album cover.");
+        free(album_cover_bytes);
+        fclose(album_cover);
+        return;
+    }
 
     fclose(album_cover);
 
-- 
2.43.0


From 41b08f58dd4aa9621e2c56fc5c99e9cc4464dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:30 +0000
Subject: [PATCH 25/25] fix: read an empty frame at the very end of a tag

---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index e8cae14..28b6783 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -65,7 +65,7 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Frame* current_frame;
     unsigned int frames_size = 0;
-    while (tag_cs->cursor < tag->header->tag_size)
+    while (tag_cs->cursor < tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
-- 
2.43.0

