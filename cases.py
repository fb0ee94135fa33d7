"""What is run for each property.  h: harness file, e: entry, p: bounds, reach: situations some path must reach."""
Q, T = ('quick',), ('thorough',)
ASSUMPTIONS = [
 'clang 18 -O0 translates the sources to IR faithfully; x86-64, little endian, 32-bit int',
 'the symbolic executor engine/symx.cpp and z3 are right (samples of the explored paths and every counterexample are replayed natively; the thorough tier repeats a sample of the queries with cvc5)',
 'libc is the model in rt/models.c and rt/fs.c (unbuffered files; replayed natively against glibc and real files)',
 'malloc succeeds',
 'signed arithmetic wraps as compiled; no claim about signed overflow being undefined',
 'one thread, except for C21; nobody else changes the files',
]
PROPS = {}
def prop(id, cases, bounds, outside, **k): PROPS[id] = dict(cases=cases, bounds=bounds, outside=outside, **k)
def C(h, e, p=None, **k): return dict(h=h, e=e, p=p or {}, **k)
BIG = 3000000000
MID = 400000000
def parse(n, reach, **k): return C('h_parse', 'c01_buffer', dict({'N': n}, **k.pop('x', {})), reach=reach, **k)

R2 = ['no tag', 'no frames']
R3 = ['no tag', 'no frames', 'one frame']
def M(e, p=None, **k): return C('h_more', e, p, **dict(dict(maxinstr=MID), **k))
def wext(mode): return [C('h_write', 'w_ext', {'MODE': mode}, maxinstr=MID, cost=9, samples=3)]
def named(op): return [C('h_compat', 'f_names', {'OP': op}, cost=9, samples=3)]
def many(e, p=None, **k): return C('h_many', e, dict({'COUNT': 4}, **(p or {})), **dict(dict(maxinstr=MID, cost=4, samples=2), **k))
def damage(e, w=2, ext=(0, 1), cut=0, step=35, upto=140, **k): return [M(e, dict({'FROM': f, 'COUNT': step, 'WIDTH': w, 'EXT': x, 'CUT': cut}, **k.get('x', {})), **{'cost': 9, 'samples': 2, 'reach': ['tag' if e == 'd_read' else 'frames'], **{a: b for a, b in k.items() if a != 'x'}}) for x in ext for f in range(0, upto, step)]
def huge(d): return [C('h_write', 'c07_huge', dict(p, DELETE=d), maxinstr=4*BIG, cost=c, shards=h, depth=1, samples=1, tiers=t) for p, c, h, t in (({'SIZE': 2}, 30, 2, Q), ({'ROUND': 1, 'COUNT': 6}, 12, 1, Q), ({'SIZE': 2}, 30, 1, T), ({'SIZE': 3}, 50, 1, T), ({'SIZE': 4}, 50, 1, T), ({'ROUND': 1, 'COUNT': 7}, 50, 1, T))]
def wround(mode): return [C('h_write', 'w_round', {'MODE': mode, 'COUNT': 9}, maxinstr=MID, cost=12, shards=2, samples=2, tiers=Q), C('h_write', 'w_round', {'MODE': mode, 'COUNT': 10}, maxinstr=MID, cost=40, shards=4, samples=2, tiers=T)]
def rround(mode): return [C('h_read', 'r_round', {'MODE': mode}, maxinstr=MID, cost=12, shards=2, samples=2)]
def rsizes(t=Q): return [M('r_sizes', {'KIND': k}, cost=20, samples=2, tiers=t) for k in range(7)] + [M('r_sizes', {'KIND': k, 'SIZES': 7}, cost=60, shards=4, samples=2, tiers=T) for k in range(7)]

prop('C01',
 [parse(n, ['no tag']) for n in (0, 1, 3, 9)] + [parse(n, R2) for n in (10, 11, 12, 13, 14, 15, 17, 18, 19)] +
 [parse(20, R2), parse(21, R3), parse(22, R3), parse(24, R3), parse(26, R3, cost=3)] +
 [parse(29, R3[1:], x={'LEAD': 1, 'VER': v, 'EXT': x}, cost=9, tiers=Q) for v in (3, 4) for x in (0, 1)] +
 [parse(n, R3[1:] + ['two frames'], x={'LEAD': 1, 'VER': v, 'EXT': x}, cost=20 + n, tiers=T, maxinstr=10**9) for n in (32, 34, 36) for v in (3, 4) for x in (0, 1)] +
 [parse(n, R3, tiers=T) for n in (16, 23, 25, 27, 28)] +
 damage('d_read', tiers=Q) + damage('d_read', 4, tiers=T) + damage('d_read', 3, cut=1, tiers=T),
 {'quick': 'every buffer of 0, 1, 3, 9..15, 17..22, 24, 26 bytes; every buffer of 29 bytes that begins with a supported version; tags of four frames (text, comment, picture, other; iso or utf-16; extended header or not) with any 2 adjacent bytes of any value, anywhere',
  'thorough': 'as quick, and every buffer up to 28 bytes and of 32, 34 and 36 bytes that begins with a supported version (two frames); any 4 adjacent bytes of the tags of four frames, and any 3 also when the tag is cut short'},
 'longer buffers with unconstrained content (C04, C02 go further with tags that are well formed or cut short); running time beyond an instruction bound per path')

prop('C02',
 [C('h_read', 'c02_any', {'N': n}, reach=['no tag']) for n in (0, 1, 9)] + [C('h_read', 'c02_any', {'N': n}, reach=R3 if n > 20 else R2) for n in (10, 12, 14, 20, 22)] +
 [C('h_read', 'c02_any', {'N': 25, 'LEAD': 1, 'VER': v}, reach=['no frames', 'one frame'], cost=8) for v in (3, 4)] +
 [C('h_read', 'c02_any', {'N': 29, 'LEAD': 1, 'VER': v}, reach=['no frames', 'one frame'], cost=30, tiers=T, maxinstr=MID) for v in (3, 4)] +
 [C('h_read', 'c02_cut', reach=['cut', 'whole', 'frames']), C('h_read', 'c02_big'), *rround(2), C('h_read', 'r_ext', {'MODE': 2}, maxinstr=MID, cost=5, samples=3), *named(0), many('m_read')] + damage('d_file', ext=(0,), tiers=Q) + damage('d_file', 3, cut=1, tiers=T),
 'every file of 0, 1, 9, 10, 12, 14, 20, 22 bytes and every one of 25 (thorough: 29) bytes with a supported version; a tag of three frames cut at every length; tags of 23 lengths up to 180000 bytes followed by audio; a frame, all frames, or the tag exactly as long as 11 round numbers up to 131072, and one byte more or less; extended headers up to 20000 bytes; long names, names with spaces, dots and bytes that are not ASCII; tags of up to 130 frames; tags of four frames with any 2 (thorough: 3) adjacent bytes of any value',
 'extended_header_size when the tag is too short to hold it; files beyond these sizes')

prop('C03',
 [C('h_read', 'c03_buffer', reach=['rejected', 'v2.3', 'v2.4']), C('h_read', 'c03_tag'), C('h_read', 'c03_two', cost=3)] + [C('h_read', 'c03_file', {'N': n}, reach=['short'] if n < 10 else ['rejected', 'v2.3', 'v2.4']) for n in (0, 1, 9, 10, 11, 14, 20)],
 'every header of 10 bytes, as a buffer and as a file of 0..20 bytes; every tag flags and minor version with each form of extended header; two of them read one after another, each as a header or a tag, from a buffer or a file',
 'the meaning of a size whose bytes are not synchsafe')

prop('C04',
 [C('h_read', 'c04_two', cost=4), C('h_read', 'c04_two', {'LEN': 130, 'REUSE': 1}, cost=4), C('h_read', 'c04_frames', {'FRAMES': 1, 'LEN': 16}, cost=9), C('h_read', 'c04_frames', {'FRAMES': 2, 'LEN': 2}, cost=8), C('h_read', 'c04_frames', {'FRAMES': 1, 'LEN': 32, 'EXACT': 1}, cost=9), C('h_read', 'c04_frames', {'FRAMES': 2, 'LEN': 24, 'EXACT': 1}, cost=9), C('h_read', 'c04_rawtext', {'LEN': 24, 'EXACT': 1}), C('h_read', 'c04_ext'), C('h_read', 'r_ext', maxinstr=MID, cost=5, samples=3), C('h_read', 'c04_rawtext', {'LEN': 5}, cost=3), C('h_read', 'c04_unterminated'), C('h_read', 'c04_sizes', maxinstr=MID, cost=3), C('h_read', 'c04_huge', maxinstr=MID, cost=3), C('h_read', 'c04_nobom', known=True), *rround(4), many('m_read'), many('m_read', {'FROM': 4, 'COUNT': 1}, tiers=T),
  C('h_read', 'c04_frames', {'FRAMES': 1, 'LEN': 24}, tiers=T, cost=9), C('h_read', 'c04_frames', {'FRAMES': 3, 'LEN': 1}, tiers=T, shards=8, depth=3, cost=50), C('h_read', 'c04_rawtext', {'LEN': 6}, tiers=T, cost=5)],
 {'quick': 'v2.3 and v2.4; 1 frame of every kind with strings of 0..16 and of 32 characters (iso, utf-8, utf-16 of both byte orders), or 2 frames with strings of 2 and of 24; every id, flags, language, type and content; padding 0..25, extended headers of 6..18 bytes and up to 20000, footer, bytes after the tag; text bodies of any 0..5 and 24 bytes; bodies of 21 sizes from 126 to 32768 (each string of each kind of frame) and of 2 MiB with symbolic ends; a frame, all frames, or the tag exactly as long as 11 round numbers up to 131072, and one byte more or less; up to 130 frames',
  'thorough': 'as quick with strings up to 24 characters, three frames, text bodies up to 6 bytes'},
 'unsynchronisation, compression, encryption and grouping (not decoded by the library); frame sizes of 2^28 and more; frames of no bytes at the very end of a tag; utf-16 without a bom in comments and pictures (known finding)')

def W(mode): return rsizes() + wround(mode) + [many('m_write'), many('m_repeat', cost=8), many('m_write', {'FROM': 4, 'COUNT': 1}, tiers=T), M('r_same', cost=3)] + damage('d_write', ext=(0,), step=10, x={'MODE': mode}, tiers=Q, cost=25, shards=4, depth=3) + damage('d_write', 3, step=18, cut=1, x={'MODE': mode}, tiers=T, cost=40) + [M('any_write', {'N': 22, 'MODE': mode}, reach=R3[:1] + ['no frames', 'frames'], cost=20), M('any_write', {'N': 24, 'MODE': mode}, reach=R3[:1] + ['no frames', 'frames'], cost=60, shards=4, depth=3, tiers=T)] + [
  C('h_write', 'w_new', {'MODE': mode, 'FRAMES': 1, 'LEN': 16}, cost=9), C('h_write', 'w_new', {'MODE': mode, 'FRAMES': 2, 'LEN': 2}, cost=12), C('h_write', 'w_new', {'MODE': mode, 'FRAMES': 1, 'LEN': 32, 'EXACT': 1}, cost=5), C('h_write', 'w_copy', {'MODE': mode, 'FRAMES': 1, 'LEN': 32, 'EXACT': 1}, cost=9), C('h_write', 'w_rawtext', {'MODE': mode, 'LEN': 24, 'EXACT': 1}, cost=3), C('h_write', 'w_empty', {'MODE': mode}), C('h_write', 'w_header', {'MODE': mode}, cost=3), C('h_write', 'w_rawtext', {'MODE': mode}), C('h_write', 'w_rawtext', {'MODE': mode, 'LEN': 7}, tiers=T, cost=3),
  C('h_write', 'w_copy', {'MODE': mode, 'FRAMES': 1, 'LEN': 12}, cost=15, shards=2), C('h_write', 'w_copy', {'MODE': mode, 'FRAMES': 2, 'LEN': 1}, cost=5),
  C('h_write', 'w_sizes', {'MODE': mode, 'FROM': 0, 'COUNT': 10}, cost=5, maxinstr=MID), C('h_write', 'w_sizes', {'MODE': mode, 'FROM': 10, 'COUNT': 10}, cost=8, maxinstr=MID),
  C('h_write', 'w_huge', {'MODE': mode, 'VER': 3}, maxinstr=BIG, cost=9, samples=1), C('h_write', 'w_huge', {'MODE': mode, 'VER': 4}, maxinstr=BIG, cost=9, samples=1),
  C('h_write', 'w_new', {'MODE': mode, 'FRAMES': 1, 'LEN': 20}, tiers=T, cost=20), C('h_write', 'w_copy', {'MODE': mode, 'FRAMES': 2, 'LEN': 2}, tiers=T, cost=30, shards=4), C('h_write', 'w_new', {'MODE': mode, 'FRAMES': 3, 'LEN': 1}, tiers=T, shards=8, cost=60)]
WB = {'quick': 'tags made by 1 (strings of 0..16 and of 32 characters) or 2 edits, and tags read with 1 (strings of 0..12 and of 32 characters) or 2 frames of any kind, any frame and tag flags (text frames of any body of up to 4 bytes and of 24, with one string or more), extended header, footer, padding 0..2100; v2.3 and v2.4; bodies of 20 sizes from 126 to 32768 (each string of each kind of frame) and 2 MiB with symbolic ends; a frame, all frames, or the tag exactly as long as 9 round numbers from 256 to 65536, and one byte more or less; a frame replaced by one as long, or of a size from 1 to 33000 by another; up to 130 frames; tags made for a header that was read from another tag; what is read from any 22 bytes that begin with ID3, and from a tag of four frames with any 2 adjacent bytes of any value; one edit repeated 255..258 times', 'thorough': 'as quick with strings up to 20 characters, three edits, sizes up to 70000, 258 frames, any 24 bytes, 3 adjacent damaged bytes of a tag cut anywhere'}
prop('C05', W(5), WB, 'tags of 2^28 bytes and more; the amount of padding; strings of a comment of different encodings (the caller has to give them the same one)')
prop('C06', W(6) + wext(6), {t: b + '; extended headers up to 20000 bytes' for t, b in WB.items()}, 'as C05; whether the ids and texts that the caller supplies are allowed by ID3v2')

prop('C07',
 [C('h_write', 'c07_short', {'LEN': 4}, cost=5), C('h_write', 'c07_tagsizes', cost=9, maxinstr=MID), *named(1), *wext(7), C('h_write', 'c08_tail', cost=9, samples=2), C('h_write', 'c08_tail', {'COUNT': 14}, cost=9, samples=2, tiers=T), C('h_write', 'c07_fit', cost=12, shards=2, samples=2)] + [C('h_write', 'c07_long', {'FROM': f, 'COUNT': 5}, cost=5, maxinstr=BIG, samples=2) for f in (0, 5, 10, 15, 20)] + [C('h_write', 'c07_short', {'LEN': 12}, tiers=T, cost=20)] + wround(7) + huge(0),
 {'quick': 'audio of any 0..4 bytes and of 25 lengths from 255 to 70001 with symbolic ends; before: nothing, v2.3, v2.4, footer, extended headers, much padding, v2.2, a tag cut short; six kinds of new tag; 16 x 16 old and new tag sizes up to 70000; old tags of five kinds that are exactly as long as the new one, and up to 20 bytes longer or shorter; frames and tags exactly as long as 9 round numbers, and one byte more or less; 1050000 bytes of audio, and so much that the file that is written has 4096, 8192, .. 131072 bytes; extended headers up to 20000 bytes; files under long names, names with spaces, dots and bytes that are not ASCII; every content of the audio that follows, up to 355 bytes', 'thorough': 'as quick with audio of any 0..12 bytes, and up to 2200000'},
 'a fault while the file is overwritten; audio longer than that; a v2.2 tag is part of the audio for this library')
prop('C08',
 [C('h_write', 'c08_short', cost=3, reach=['tagged', 'untagged']), C('h_write', 'c08_any', {'N': 12}, reach=['tagged', 'untagged']), C('h_write', 'c08_any', {'N': 16}, reach=['tagged', 'untagged']), C('h_write', 'c08_any', {'N': 24}, reach=['tagged', 'untagged'], cost=3), C('h_write', 'c08_any', {'N': 5}, reach=['untagged']), C('h_write', 'c08_long', cost=9, maxinstr=BIG, samples=2), C('h_write', 'c08_sizes', cost=5, maxinstr=MID), C('h_write', 'c08_written', cost=3), *named(2), *wext(8), C('h_write', 'c08_tail', {'DELETE': 1}, cost=9, samples=2), C('h_write', 'c08_tail', {'DELETE': 1, 'COUNT': 14}, cost=9, samples=2, tiers=T), C('h_write', 'c08_any', {'N': 60}, reach=['tagged', 'untagged'], tiers=T, cost=5)] + wround(8) + huge(1),
 {'quick': 'every file of 5, 12, 16 and 24 bytes; audio of any few bytes and of 25 lengths up to 70001 after every kind of tag; tags of many sizes; tags that the library has written, also exactly as long as 9 round numbers, and one byte more or less; 1050000 bytes of audio, and files of 4096, 8192, .. 131072 bytes; extended headers up to 20000 bytes; files under long names, names with spaces, dots and bytes that are not ASCII; every content of the audio that follows, up to 355 bytes', 'thorough': 'as quick, and every file of 60 bytes, and up to 2200000 bytes of audio'},
 'a fault while the file is overwritten; tag sizes that are not synchsafe')

prop('C09',
 [C('h_write', 'c09_edit', {'FRAMES': 1, 'LEN': 12}, cost=12, shards=2), C('h_write', 'c09_edit', {'FRAMES': 1, 'LEN': 24, 'EXACT': 1}, cost=9), C('h_write', 'c09_edit', {'FRAMES': 2, 'LEN': 1}, cost=20, shards=8, depth=3), C('h_write', 'c09_rawtext', cost=3), *wext(6), many('m_edit', cost=12, shards=2), C('h_write', 'c09_edit', {'FRAMES': 2, 'LEN': 2}, cost=30, shards=16, depth=4, tiers=T)],
 'a file with 1 or 2 frames of any kind (any id, flags, content; strings of 0..12 or 24 characters), or a text frame of any body of up to 4 bytes, read, edited through every kind of setter and deleter, and written; the same with extended headers up to 20000 bytes, and with up to 130 frames',
 'frames the library rewrites for want of a terminator, apart from that terminator; more frames than that (C12)')
prop('C10',
 [C('h_edit', 'c10_fields', {'LEN': 12}, cost=15, tiers=Q, shards=2), C('h_edit', 'c10_fields', {'LEN': 24, 'EXACT': 1}, cost=9), C('h_edit', 'c10_allfields'), C('h_edit', 'c10_text', cost=3), C('h_edit', 'c10_comments', cost=20, shards=4), C('h_edit', 'c10_pictures', cost=9, shards=2), C('h_edit', 'c10_text', {'LONG': 20}, cost=4), *[c for n in (7, 20) for c in (C('h_edit', 'c10_comments', {'LONG': n}, cost=20, shards=4), C('h_edit', 'c10_pictures', {'LONG': n}, cost=9, shards=2))], many('m_repeat', cost=8), C('h_edit', 'c10_null'), C('h_edit', 'c18_reuse', {'REUSE': 1}, cost=5), C('h_edit', 'c18_reuse', {'REUSE': 1, 'LONG': 20}, cost=5), M('r_same', cost=3), many('m_edit', cost=12, shards=2), *rsizes(), C('h_edit', 'c10_fields', {'LEN': 5}, cost=40, shards=8, tiers=T)],
 {'quick': 'every field, any text frame id and flags, comments and pictures, set once and then again, on four kinds of tag; strings of 0..12 and of about 20 characters in iso and both utf-16 byte orders, any content; replaced by contents of the same length and by others of sizes from 1 to 33000; on tags of up to 130 frames; one edit repeated 255..258 times', 'thorough': 'as quick with strings of up to 5 characters'},
 'ids that do not begin with T for text frames; strings without a terminator')
prop('C11',
 [*[C('h_edit', 'c11_delete', {'FRAMES': 2, 'DELETES': 1, 'LONG': n}, cost=4) for n in (7, 20)], C('h_edit', 'c11_fields', {'LONG': 20}, cost=3), C('h_edit', 'c11_dups', {'LONG': 20}, cost=2), C('h_edit', 'c11_delete', {'FRAMES': 2, 'DELETES': 2}, cost=20, shards=4, depth=3, reach=['done', 'all gone']), C('h_edit', 'c11_delete', {'FRAMES': 3, 'DELETES': 1}, cost=10, shards=2, depth=3), C('h_edit', 'c11_fields', cost=3), C('h_edit', 'c11_dups', cost=2), C('h_edit', 'c11_index', cost=2, reach=['deleted', 'no such index']), many('m_repeat', cost=8), many('m_edit', cost=12, shards=2), C('h_edit', 'c11_delete', {'FRAMES': 3, 'DELETES': 3}, cost=60, shards=32, depth=5, tiers=T, reach=['done', 'all gone'])],
 {'quick': 'lists of 2 or 3 frames of four kinds, made by adding or read, up to 2 deletions of any sort (by id, field, every index), optionally added to again, written (one deletion also with strings of 8 and 21 characters); any 32-bit index; 8 frames with duplicates; up to 130 frames, first, middle, last, all of a kind; one edit repeated 255..258 times', 'thorough': 'as quick with 3 frames and 3 deletions'},
 'longer lists')
prop('C12',
 [C('h_edit', 'c12_history', {'BASE': b, 'OPS': 2, 'LONG': n}, cost=3) for b in range(4) for n in (7, 20)] + [C('h_edit', 'c12_history', {'BASE': b, 'OPS': 3}, cost=6 + b, shards=4 if b == 3 else 2, depth=2) for b in range(4)] + rsizes() + [M('r_same', cost=3), many('m_repeat', cost=8), many('m_edit', cost=12, shards=2)] + [C('h_edit', 'c12_history', {'BASE': b, 'OPS': 2, 'REUSE': 1}, cost=3) for b in range(4)] + [C('h_edit', 'c12_history', {'BASE': b, 'OPS': 4}, cost=60, shards=8, tiers=T) for b in range(4)],
 {'quick': 'every sequence of 3 of the 14 operations (set, add, delete, delete by index, write and read back, write) on four kinds of tag (2 also with strings of 8 and 21 characters); a frame set or added, replaced and deleted with contents of sizes from 1 to 33000; up to 130 frames; one edit repeated 255..258 times', 'thorough': 'sequences of 4'},
 'longer histories; each operation only with a few sizes of argument (their content is symbolic)')
prop('C13',
 [parse(n, R3 if n > 20 else R2, x={'LEAK': 1}) for n in (10, 14, 22)] + [parse(26, ['no frames', 'one frame'], x={'LEAK': 1, 'LEAD': 1}, cost=3)] + [parse(3, ['no tag'], x={'LEAK': 1}), many('m_alive', {'COUNT': 7}, cost=9), many('m_repeat', cost=8), many('m_edit', cost=12, shards=2), *damage('d_read', ext=(0,), tiers=Q), *damage('d_read', 4, tiers=T), parse(29, R3[1:], x={'LEAK': 1, 'LEAD': 1}, cost=30, tiers=T)] +
 [C('h_edit', 'c13_history', {'BASE': b, 'OPS': 2}, cost=2) for b in range(4)] + [C('h_edit', 'c13_history', {'BASE': b, 'OPS': 3}, cost=9, tiers=T, maxinstr=MID) for b in range(4)] +
 [C('h_edit', 'c13_index'), C('h_edit', 'c13_fields', cost=2), C('h_write', 'c13_files', cost=2)] +
 [C('h_fault', 'c15_write', model=True, reach=['unchanged', 'fault while overwriting'], cost=2), C('h_fault', 'c15_delete', model=True, reach=['unchanged', 'fault while overwriting']), C('h_fault', 'c15_read', model=True, reach=['nothing', 'read']), C('h_fault', 'c15_missing'), C('h_compat', 'c16_any', {'N': 22}, reach=R3), C('h_compat', 'c16_none'), C('h_compat', 'c16_view', {'FRAMES': 1, 'LEN': 1}), C('h_compat', 'c17_cover', reach=['set', 'missing'])],
 {'quick': 'every buffer of 3, 10, 14, 22 bytes and of 26 that begins with ID3; every sequence of 2 of 18 operations on four kinds of tag; any index; every file operation on nine kinds of file; a fault in any of the first 40 file operations; the compat interface on every buffer of 22 bytes; up to 130 frames; damaged tags as in C01; one edit repeated 255..258 times; up to 258 tags at once', 'thorough': 'as quick with 29 bytes and sequences of 3'},
 'memory handed to the caller by ID3v2_to_unicode and the parse_* functions is the caller\'s to free')
prop('C14',
 [C('h_util', 'c14_strlen', {'N': 8}, reach=['iso', 'utf-16'], cost=2), C('h_util', 'c14_unicode', {'N': 24}, cost=2), C('h_util', 'c14_unicode', {'N': 40, 'EXACT': 1}), C('h_util', 'c14_strlen', {'N': 16, 'EXACT': 1}, cost=2, reach=['iso', 'utf-16']), C('h_util', 'c14_long', reach=['done', 'utf-16']), C('h_util', 'c14_lengths'), C('h_util', 'c14_boms'), C('h_util', 'c14_reuse'), C('h_util', 'c14_reuse', {'REUSE': 1}), C('h_util', 'c14_strlen', {'N': 16}, reach=['iso', 'utf-16'], tiers=T, cost=9)],
 {'quick': 'every string of up to 8 and of 16 bytes (and its terminator; conversions of 0..24 and of 40); lengths up to 70000 with symbolic ends; two strings one after the other in the same memory', 'thorough': 'every string of up to 16 bytes'},
 'strings without a terminator')
def faults(e, n, step=1, w=250, reach=(), **k): x = k.pop('x', {}); return [C('h_fault', e, dict(x, FROM=f * step, STEP=step, K=min(w, n // step - f)), model=True, reach=reach if f == 0 else (), **dict(dict(cost=9, samples=2), **k)) for f in range(0, n // step, w)]
prop('C15',
 [C('h_fault', 'c15_write', {'K': 200}, model=True, reach=['unchanged', 'fault while overwriting'], cost=5), C('h_fault', 'c15_write', {'K': 200, 'FULL': 1}, model=True, reach=['unchanged', 'fault while overwriting'], cost=5), C('h_fault', 'c15_delete', {'K': 60}, model=True, reach=['unchanged', 'fault while overwriting', 'deleted']), C('h_fault', 'c15_delete', {'K': 30, 'FULL': 1}, model=True, reach=['unchanged', 'deleted']), C('h_fault', 'c15_read', {'K': 30}, model=True, reach=['nothing', 'read']), C('h_fault', 'c15_protected', model=True), C('h_fault', 'c15_missing'),
  C('h_compat', 'c17_coverfault', model=True, reach=['set']), C('h_compat', 'c17_loadfault', model=True, reach=['loaded', 'not loaded'])] + faults('c15_write', 4400, 47, tiers=Q) + faults('c15_write', 2300, 23, x={'FULL': 1}, tiers=Q) + faults('c15_write', 1000, 7, x={'AUDIO': 300}, tiers=Q) + faults('c15_delete', 1300, 7, x={'AUDIO': 300}, tiers=Q) +
 faults('c15_write', 4400, tiers=T, cost=40) + faults('c15_write', 2300, x={'FULL': 1}, tiers=T, cost=40) + faults('c15_write', 6500, 3, x={'AUDIO': 500}, tiers=T, cost=40) + faults('c15_delete', 2100, x={'AUDIO': 500}, tiers=T, cost=40),
 {'quick': 'a fault in any one of the first 200 file operations of a write and each 47th of all ~4300, any of 60 of a deletion, 30 of a read; no space left from any of the first 200 writes on, and each 23rd; with 301 bytes of audio each 7th operation of the first 1000 of a write and of all of a deletion; five kinds of file with 1 or 3 bytes of audio, two kinds of tag; files that are protected or missing', 'thorough': 'a fault in any file operation of a write (all of the ~4300); each 3rd with 501 bytes of audio, and any of a deletion'},
 'what is in the file after a fault that happens once overwriting has begun (the library overwrites in place); faults of ftell; running out of memory; a crash of the process')
prop('C16',
 [C('h_compat', 'c16_view', {'FRAMES': 1, 'LEN': 16}, cost=5), C('h_compat', 'c16_view', {'FRAMES': 1, 'LEN': 32, 'EXACT': 1}, cost=9), C('h_compat', 'c16_view', {'FRAMES': 2, 'LEN': 1}, cost=10, shards=2), C('h_compat', 'c16_any', {'N': 22}, reach=R3, cost=2), C('h_compat', 'c16_any', {'N': 22, 'FILE': 1}, reach=R3, cost=2), C('h_compat', 'c16_any', {'N': 24, 'LEAD': 1}, reach=R3[1:], cost=8)] + [C('h_compat', 'c16_any', {'N': n, 'FILE': f}, reach=['no tag']) for n in (0, 9) for f in (0, 1)] + [C('h_compat', 'c16_any', {'N': 12, 'FILE': f}, reach=R2) for f in (0, 1)] + [C('h_compat', 'c16_none'), C('h_compat', 'c16_two', {'REUSE': 1}, cost=4), C('h_compat', 'c16_two', {'LEN': 20, 'FILE': 1}, cost=4), many('m_repeatc', cost=5), *named(3), *named(4), C('h_compat', 'c16_big', maxinstr=MID, cost=4), many('m_compat'), C('h_compat', 'c16_any', {'N': 28, 'LEAD': 1}, reach=R3[1:], cost=50, tiers=T, maxinstr=MID), C('h_compat', 'c16_view', {'FRAMES': 2, 'LEN': 2}, cost=30, shards=8, tiers=T)],
 {'quick': 'tags of 1 frame (strings up to 16 and of 32 characters) or 2 frames of every kind, as buffer and file; every buffer and file of 0, 9, 12, 22 bytes and of 24 that begins with ID3; frames of 19 sizes up to 100000; up to 130 frames; an extended header of 300 bytes; one edit repeated 255..258 times; files under unusual names; two tags one after the other', 'thorough': 'as quick, every buffer of 28 bytes that begins with ID3'},
 'tag_size in the header of tags with an extended header or unterminated text')
prop('C17',
 [C('h_compat', 'c17_set', {'SETS': 1, 'LEN': 16}, cost=10, shards=2), C('h_compat', 'c17_set', {'SETS': 1, 'LEN': 28, 'EXACT': 1}, cost=10, shards=2), C('h_compat', 'c17_set', {'SETS': 2, 'LEN': 1}, cost=12, shards=2), C('h_compat', 'c17_set', {'SETS': 2, 'LEN': 1, 'REUSE': 1}, cost=12, shards=2), C('h_compat', 'c17_set', {'SETS': 2, 'LEN': 1, 'LONG': 20}, cost=12, shards=2), C('h_compat', 'c17_set', {'SETS': 1, 'LEN': 2, 'LONG': 7}, cost=5), *named(3), C('h_compat', 'f_covers', cost=3), many('m_repeatc', cost=5), C('h_compat', 'c17_cover', reach=['set', 'missing'], cost=2), C('h_compat', 'c17_bigcover', maxinstr=MID, cost=2), C('h_compat', 'c17_same', maxinstr=MID, cost=36, shards=8, depth=4, samples=2), many('m_compat'), C('h_compat', 'c17_same', {'SIZES': 7}, maxinstr=MID, cost=60, shards=8, depth=3, samples=2, tiers=T), C('h_compat', 'c17_set', {'SETS': 3, 'LEN': 1}, cost=60, shards=8, depth=3, tiers=T)],
 {'quick': 'each of the 11 setters (strings of 0..16 and of 28 characters, any content) and every pair of five of them (strings of 1 and of 21), on a new tag and on two that were loaded; written, loaded again by both interfaces, removed; pictures of any 0..4 bytes from files of ten names, and of 8 sizes up to 65536; texts and pictures replaced by as long, longer and shorter ones (1 to 33000); up to 130 frames; one edit repeated 255..258 times; files and pictures under unusual names', 'thorough': 'as quick with every sequence of three of five setters'},
 'the encoding argument, which has no meaning any more; whether the mime type is right for names other than *.png and *.jpg')
prop('C18', [C('h_edit', 'c18_inputs', cost=2), C('h_edit', 'c18_inputs', {'LONG': 20}, cost=4), C('h_edit', 'c18_own', {'LONG': 20}, cost=4), C('h_edit', 'c18_own', cost=3), C('h_edit', 'c18_buffer'), C('h_edit', 'c18_reuse', {'REUSE': 1}, cost=5)],
 'strings of 0..2 and about 20 characters, pictures of 2 bytes, any content; frames set from what the same or another tag hands out; tags from buffers and files that go away; two calls with the same buffers, memory that was freed being handed out again or not', 'other sizes; the header given to ID3v2_Tag_new belongs to the tag')
prop('C19', [C('h_edit', 'c19_two', {'OPS': 2}, cost=18, shards=4), C('h_edit', 'c19_twofiles'), many('m_alive', {'COUNT': 7}, cost=9), C('h_edit', 'c19_twofiles', {'LONG': 20}), C('h_edit', 'c19_two', {'OPS': 1, 'LONG': 20}, cost=2), C('h_edit', 'c19_samebuffer'), C('h_read', 'c03_two', cost=3), C('h_read', 'c04_two', {'REUSE': 1}, cost=4), C('h_edit', 'c19_ask', {'REUSE': 1}, cost=20, shards=4, depth=3), C('h_edit', 'c19_seq', {'REUSE': 1}, cost=9, shards=2), C('h_edit', 'c19_seq', {'SEQ': 3, 'REUSE': 1}, cost=40, shards=8, depth=3, tiers=T), C('h_edit', 'c19_samebuffer', {'REUSE': 1}), C('h_edit', 'c19_two', {'OPS': 2, 'REUSE': 1}, cost=18, shards=4, tiers=T), C('h_edit', 'c19_two', {'OPS': 1, 'REUSE': 1}, tiers=Q), C('h_edit', 'c19_two', {'OPS': 3}, cost=60, shards=16, depth=4, tiers=T)],
 {'quick': 'every sequence of 2 of 14 operations on two tags in any interleaving; two files; one buffer or file that holds one tag and then another; two tags, one made after the other was freed; up to 258 tags at once', 'thorough': 'sequences of 3'}, 'threads (C21); longer histories')
prop('C20', [C('h_write', 'c20_again', {'LEN': 1}, cost=20, shards=4, depth=3), C('h_write', 'c20_again', {'LEN': 20}, cost=20, shards=4, depth=3), C('h_write', 'c20_again', {'LEN': 2}, cost=15, shards=4, depth=3), *rsizes(), *wround(20), *wext(20), many('m_write'), many('m_repeat', cost=8), *damage('d_write', ext=(0,), step=18, x={'MODE': 20}, tiers=T, cost=40), M('any_write', {'N': 20, 'MODE': 20}, reach=['no tag', 'no frames', 'frames'], cost=30), M('any_write', {'N': 22, 'MODE': 20}, reach=['no tag', 'no frames', 'frames'], cost=50, shards=4, depth=3, tiers=T)],
 'tags of 1 or 2 edits or read from a file, of every kind of frame with strings of 1, 2 or 20 characters, v2.3 and v2.4, written twice, read and written again; sizes from 1 to 33000 (thorough: 70000); frames and tags exactly as long as 9 round numbers, and one byte more or less; extended headers up to 20000 bytes; one edit repeated 255..258 times; up to 130 frames; what is read from any 20 (thorough: 22) bytes that begin with ID3 (thorough: and from a tag of four frames with any 2 adjacent bytes of any value)', 'other sizes; how much padding there is, apart from it not growing without end')
def pairs(k, w, **o): return [C('h_threads', 'c21_pair', {'A': a, 'B': b, 'FORCE': k, 'SWITCHES': w}, samples=2, maxinstr=MID, **o) for a, b in ((0, 3), (2, 5), (3, 2), (5, 6), (6, 3), (4, 2))]
prop('C21', [C('h_threads', 'c21_pair', {'SWITCHES': 3}, cost=9, shards=14, depth=2, maxinstr=MID, samples=2), C('h_threads', 'c21_same', cost=2)] + pairs(67, 1, tiers=Q) + [C('h_threads', 'c21_pair', {'SWITCHES': 5}, cost=50, shards=14, depth=2, maxinstr=MID, samples=2, tiers=T), C('h_threads', 'c21_pair', {'REUSE': 1}, cost=9, shards=7, depth=2, maxinstr=MID, samples=2, tiers=T), C('h_threads', 'c21_same', {'SWITCHES': 4}, tiers=T)] + pairs(13, 1, cost=20, tiers=T) + pairs(97, 2, cost=20, tiers=T),
 {'quick': 'two threads, each with one of 7 jobs (read a buffer, read a file, edit and write a file, make a tag, delete a tag, the old interface, the string helpers) on tags with symbolic content of its own, or both reading the same buffer or file; up to 3 switches between them (2 for the same buffer or file), at each place of the library where a block of code begins, or a file is about to be opened, closed, renamed or removed, after something was accessed that the threads share (a variable of the library, memory that the other one allocated, a file name); for 6 pairs also a switch at any 67th block', 'thorough': 'as quick with up to 5 switches (4), any 13th block, any two of the 97th blocks'},
 'switches within a block of code (between a load and the store after it) and the memory models of compilers and processors: an access that is not guarded at all still shows up at the next block; more threads; two threads that use the same tag, or one file that one of them writes')
P = {'PAD': 1}
prop('C22', [C('h_edit', 'c22_undo', dict(P), cost=9, shards=4), C('h_edit', 'c22_undo', dict(P, LONG=20), cost=9, shards=4), C('h_edit', 'c22_empty', dict(P), cost=9, shards=2, tiers=Q), C('h_edit', 'c22_empty', dict(P, TIMES=3), shards=4, cost=20, tiers=T), many('m_edit', P, cost=12, shards=2), many('m_repeat', P, cost=8), C('h_edit', 'c11_delete', {'FRAMES': 2, 'DELETES': 2, 'PAD': 1}, cost=20, shards=4, depth=3, reach=['done', 'all gone']), C('h_edit', 'c11_index', dict(P), reach=['deleted', 'no such index']), C('h_edit', 'c11_dups', dict(P)), M('r_same', P, cost=3)] + [M('r_sizes', dict(P, KIND=k, SIZES=n), cost=20, samples=2, tiers=t) for k in range(7) for n, t in ((5, Q), (7, T))] +
 [C('h_edit', 'c12_history', {'BASE': b, 'OPS': o, 'PAD': 1}, cost=6 + b, shards=4 if b == 3 else 2, depth=2, tiers=t) for b in range(4) for o, t in ((3, Q), (4, T))] + [C('h_write', 'c09_edit', {'FRAMES': 1, 'LEN': 2, 'PAD': 1}, cost=3), C('h_write', 'w_copy', {'MODE': 6, 'FRAMES': 1, 'LEN': 2, 'PAD': 1}, cost=3), C('h_compat', 'c17_set', {'SETS': 1, 'LEN': 2, 'PAD': 1}, cost=10, shards=2), C('h_compat', 'c17_set', {'SETS': 2, 'LEN': 1, 'PAD': 1}, cost=12, shards=2), C('h_compat', 'c17_same', P, maxinstr=MID, cost=36, shards=8, depth=4, samples=2), C('h_edit', 'c22_undo', {'PAD': 1, 'DEEP': 1}, cost=30, shards=8, depth=3, tiers=T)],
 {'quick': 'four kinds of tag (new, empty v2.4, read from v2.3 with padding and from v2.4 with several frames of a kind): each of 7 edits with contents of three sizes (and strings of 21 characters) and the edit that takes it back, also after writing and reading back; all frames deleted in any of two orders and added again, twice; every sequence of 3 of 14 operations; 2 deletions from lists of 2 frames; contents replaced by others of sizes from 1 to 300; up to 130 frames; edits of a file with any frame, padding and extended header; the setters of the old interface; one edit repeated 255..258 times', 'thorough': 'as quick with an edit within an edit, three times, sequences of 4 operations, sizes up to 70000'},
 'how much padding a tag has that was made through the interface; frames without a string terminator')
# not a property: the models of libc compared with libc (check.py RT --no-evidence)
prop('RT', [C('h_rt', 'rt_strings', samples=200, replays=300), C('h_rt', 'rt_files'), C('h_rt', 'rt_arith', samples=200, replays=300)], '-', '-')
