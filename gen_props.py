#!/usr/bin/env python3
"""Source of properties.jsonl (kept so that wording and anchors are edited in one place)."""
import json
import re
P=[]
def find(sym,files):
    for f in files+['smdiff-writer/src/lib.rs','smdiff-reader/src/lib.rs','smdiff-common/src/lib.rs','smdiff-encoder/src/lib.rs']:
        t=open('/repo/'+f).read()
        if re.search(r'\b(fn|struct|enum|trait)\s+'+sym+r'\b',t): return f
    return files[0]
def p(id,title,statement,over,qtext,why,files,symbols):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=find(x,files)) for x in symbols],hook_needed=None)))
E='smdiff-encoder/src/'
p('P01','Encoding then applying reproduces the target exactly',
 'For every source (including none or empty), every target and every configuration the encoder accepts, encoding returns a patch without failing or panicking, and applying that patch to the same source writes exactly the target bytes. This holds for every combination of source/target matching, compression level, lazy-match setting, naive tests, section format, segment size and secondary compression.',
 ['inputs','configurations'],'all source/target byte strings and all points of the encoder configuration space',
 'The encoder has no round-trip test at all in the repository except a binary that needs network files; matches, lazy matching, overlap trimming and window sliding interact with data content and sizes, so a handful of samples cannot settle it.',
 [E+'lib.rs',E+'encoder.rs',E+'op_maker.rs',E+'src_matcher.rs',E+'trgt_matcher.rs',E+'hashmap.rs',E+'hasher.rs',E+'writer.rs','smdiff-decoder/src/lib.rs'],['encode','encode_inner','translate_inner_ops','apply_patch'])
p('P02','Every patch the encoder emits conforms to the SMDIFF format',
 'Every patch the encoder emits is a sequence of sections of which exactly the last is marked terminal, with nothing after it; each section header states the exact number of operations, Add bytes and output bytes, uses the format and compression requested through the constructors and setters of the configuration, and describes an output no larger than the requested segment size (clamped to 65535..=2^24-1). Every operation is within its limits (Run 1..=62, Add/Copy 1..=65535 bytes), source copies stay inside the source, and output copies only refer to bytes generated before that operation.',
 ['inputs','configurations'],'all source/target byte strings and encoder configurations, including outputs that need several sections',
 'No existing test looks at the wire form of an encoder patch; the limits only matter for large or unusual inputs (runs over 372 bytes, matches over 65535 bytes, outputs over one segment).',
 [E+'lib.rs',E+'op_maker.rs',E+'writer.rs','smdiff-writer/src/lib.rs'],['encode','make_copy_ops','make_run_ops','make_add_ops','make_sections','section_writer'])
p('P03','Writing a section and reading it back yields the same header and operations',
 'For every list of valid operations, in either format, the bytes written for a section are exactly the encoding the format prescribes (control byte, counts, size classes, zig-zag address deltas kept separately for source and output copies and starting from zero in each section, Add bytes inline or gathered at the end). Reading those bytes back yields identical operations and consumes exactly the bytes written.',
 ['inputs','programs'],'all sequences of operations over all size classes, address deltas and both formats, in multi-section files',
 'The unit tests pin a few single-operation encodings; interactions (address state of two sources, size-class boundaries, gathered Add bytes, section resets) need all sequences.',
 ['smdiff-writer/src/lib.rs','smdiff-reader/src/lib.rs','smdiff-common/src/lib.rs'],['write_section_header','write_ops','read_section_header','read_ops_no_comp','read_section','size_routine'])
p('P04','Integer and address encodings are exact, minimal and total',
 'Unsigned and signed variable-length integers round trip for every 64-bit value, use the shortest encoding, and their predicted size equals the bytes written; an address re-derived from a previous address and the stored difference equals the original for every pair of 64-bit addresses. An encoding longer than ten bytes or wider than 64 bits is refused with an error instead of being read as some other value, and no value makes these functions panic.',
 ['inputs'],'all 64-bit values and pairs of addresses, and all byte strings presented as a varint',
 'The tests sample about a dozen values; the corner cases are at each 7-bit boundary, at the sign change and at differences of 2^63.',
 ['smdiff-common/src/lib.rs'],['write_u_varint','read_u_varint','write_i_varint','read_i_varint','u_varint_encode_size','diff_addresses_to_u64','diff_addresses_to_i64','zigzag_encode','zigzag_decode'])
p('P05','Applying a patch has exactly the meaning the format gives it',
 'Applying any well-formed patch (any number of sections, either format, any operations) to a source writes exactly the bytes the format prescribes, with addresses resolved per section and output copies able to reach everything generated so far in any earlier section. A patch that copies outside the source, that copies output not yet generated, or that needs a source when none is given, is refused with an error.',
 ['programs','inputs'],'all sequences of operations and sections over small sources, plus boundary sizes',
 'Decoder tests apply a few hand-made patches with one section; the meaning of a patch is a property of every operation sequence.',
 ['smdiff-decoder/src/lib.rs','smdiff-decoder/src/reader.rs','smdiff-reader/src/lib.rs'],['apply_patch','apply_ops','SectionIterator'])
p('P06','Malformed patches are refused without panic, hang or runaway memory',
 'For arbitrary bytes presented as a patch (or as a section, or as the input of merging, transcoding or instruction extraction) every reading entry point returns an error or a result, and never panics, aborts, loops without end, or allocates memory out of proportion to the input and to the output size limit of a section. Input that violates the format (counts or sizes that disagree with the operations, zero-length operations, Run sizes over 62, numbers too large for their field, a section over 2^24-1 output bytes, an undefined compression) is refused with an error.',
 ['inputs','fault_sequences'],'all byte strings up to a bound over a structural alphabet, and all single-byte mutations of valid patches',
 'The existing tests feed one or two malformed inputs; a decoder of untrusted files must survive every one.',
 ['smdiff-reader/src/lib.rs','smdiff-decoder/src/reader.rs','smdiff-decoder/src/lib.rs','smdiff-common/src/lib.rs','smdiff-merger/src/lib.rs'],['read_section_header','read_ops_no_comp','read_op','apply_patch','extract_patch_instructions','Merger'])
p('P07','A truncated patch is never accepted as complete',
 'For every valid patch, plain or with any secondary compression, applying or reading any proper prefix of it ends in an error, so a truncated transfer is never reported as success.',
 ['crash_points','inputs'],'every truncation point of every patch in the space',
 'No existing test truncates a patch; the property quantifies over each byte position of each patch, including inside compressed frames and between sections.',
 ['smdiff-reader/src/lib.rs','smdiff-decoder/src/reader.rs','smdiff-decoder/src/lib.rs'],['SectionIterator','read_section','apply_patch'])
p('P08','I/O failures surface as errors and short transfers change nothing',
 'If any read, seek or write of the patch, source, target or output fails with an error, the operation under way (encode, apply, merge, transcode, write, translate) returns an error and does not panic or report success. If reads and writes merely transfer fewer bytes than asked for or are interrupted and retried, the result is identical to that with full transfers.',
 ['fault_sequences','crash_points'],'every position of a single I/O failure, and every uniform or single short-transfer/interrupt schedule, on a set of representative operations',
 'All tests use in-memory cursors that always transfer everything and never fail.',
 ['smdiff-decoder/src/lib.rs','smdiff-decoder/src/reader.rs','smdiff-reader/src/lib.rs','smdiff-writer/src/lib.rs',E+'lib.rs',E+'writer.rs','smdiff-merger/src/lib.rs','smdiff-merger/src/transcoder.rs','smdiff-vcdiff/src/lib.rs'],['apply_patch','encode','section_writer','write_ops','transcode','Merger','convert_vcdiff_to_smdiff'])
p('P09','Dividing operations into sections is an order-preserving exact partition',
 'For every list of operations and every requested maximum, dividing it into sections yields consecutive, non-empty (unless the list is empty) slices that concatenate to the list, with only the last marked terminal. Each header counts exactly the operations, Add bytes and output bytes of its slice; no slice exceeds the maximum (clamped to 65535..=2^24-1), and a slice ends only where the next operation would have exceeded it.',
 ['programs','configurations'],'all operation-length sequences over boundary lengths and all maxima around the clamps',
 'Two tests use one list each; the boundary conditions (exact fit, clamp edges, first or last operation at the boundary) need enumeration.',
 ['smdiff-writer/src/lib.rs'],['make_sections'])
p('P10','Merging patches equals applying them one after another',
 'For every chain of patches in which each applies to the output of its predecessor, merging them from last to first and applying the summary patch to the original source yields the same output as applying the chain in order, whatever sections, formats or compression the patches use. The summary never needs anything but the original source.',
 ['histories','programs'],'all chains of up to three (quick: two) patches built from small operation programs',
 'Two merger tests use one hand-made chain; splitting, dereferencing and splicing depend on how every copy straddles the operations of the predecessor.',
 ['smdiff-merger/src/lib.rs'],['Merger','merge','get_exact_slice','deref_copy_o','expand_to','SummaryPatch'])
p('P11','The merger ends early exactly when no source copy remains',
 'Creating a merger or merging one more patch returns a finished summary exactly when the result contains no copy from the source, and otherwise returns a merger that accepts further patches; this never fails for a chain of valid patches. A summary so finished, or obtained by finishing a merger, writes a patch in the requested format, compression and segment size that reads back as exactly the operations it holds.',
 ['histories','programs','configurations'],'all small patches as terminal and predecessor patch, and all output options of the summary',
 'The tests observe one early termination; classification depends on which of the copies resolve to Add/Run data, including patches whose only copies are output copies.',
 ['smdiff-merger/src/lib.rs'],['Merger','SummaryPatch','find_mergeable_copies'])
p('P12','Transcoding changes the representation of a patch, never its meaning',
 'For every valid patch, including one with no operations, transcoding to any format, secondary compression and segment size yields a valid patch of that format, compression and size which produces the same output from the same source. Operation limits still hold after adjacent operations were joined and re-split.',
 ['programs','configurations'],'all small operation programs (with adjacent Adds and Runs around the join and split limits) times all output options',
 'One test transcodes one five-operation patch; joins, splits at 62/65535/372 and run-to-copy rewriting depend on adjacency patterns and output positions.',
 ['smdiff-merger/src/transcoder.rs'],['transcode','optimize_and_convert_ops','join_adjacent_adds','join_adjacent_runs','make_add_ops','make_run_ops'])
p('P13','Secondary compression is transparent for any number of sections',
 'For every algorithm (SMDIFF, zstd, brotli), level, format and number of sections, a patch written with secondary compression reads back, section by section, as exactly the headers and operations of the same patch written without, whatever the size of the section data. Sections using different algorithms may be mixed in one patch. Options of an algorithm that no section can have are refused with an error, without a panic; all others only change the bytes.',
 ['configurations','programs','inputs'],'all algorithm sequences over several sections with section data sizes around block and buffer boundaries',
 'Only a single-section patch with tiny data is ever read back in the tests; the end of one compressed frame decides where the next section starts.',
 [E+'writer.rs','smdiff-decoder/src/reader.rs','smdiff-decoder/src/lib.rs'],['section_writer','SectionIterator','SecondaryCompression'])
p('P14','Translating a VCDIFF delta preserves its output',
 'For every valid VCDIFF delta without secondary compression or its own code table (any windows, source or target segments, address modes, opcodes and sizes), translation yields a valid SMDIFF patch that produces, from the same source, the output RFC 3284 prescribes; nothing but the patch is emitted, not even on standard output. A truncated delta, one whose windows do not decode to exactly their declared target size, and one using features the translator does not support are refused with an error, without a panic, rather than silently translated in part. Deltas with self-overlapping copies as the vcdiff library of the same author writes them (the copy length also counts the repeated part) are translated as that library reads them.',
 ['programs','inputs','crash_points'],'all small VCDIFF programs over all instruction kinds, address modes and window kinds, boundary sizes, and every truncation point',
 "The crate's own three tests fail at baseline and cover one delta each; address caches, target windows, periodic copies and size splitting need enumeration.",
 ['smdiff-vcdiff/src/lib.rs'],['convert_vcdiff_to_smdiff'])
p('P15','Shared and repeated content is actually exploited',
 'With source matching enabled, target content that also occurs in the source in blocks long enough for the sampling of the matcher (whole-file identity, block moves, insertions and deletions) costs a small bounded number of patch bytes per edit rather than its length; with target matching enabled, so does content that repeats earlier target content; and while any matching is active, a long run of one byte costs a bounded number of bytes. Content with nothing to exploit costs its own length plus a small framing overhead.',
 ['inputs','configurations'],'all block-level edit scripts over a set of blocks at all compression levels, and all small strings for the expansion bound',
 'No test measures patch size; a matcher that silently stops finding matches still round-trips.',
 [E+'encoder.rs',E+'src_matcher.rs',E+'trgt_matcher.rs',E+'hashmap.rs',E+'hasher.rs',E+'op_maker.rs'],['encode','SrcMatcher','TrgtMatcher','BasicHashTable','ChainList'])
p('P16','Results depend only on the inputs',
 'Encoding, merging, transcoding and translating are deterministic: the same inputs and configuration give the same bytes, independent of earlier calls or other threads. Applying a patch writes the same output and nothing beyond it whatever the output stream contained before and wherever the source and output streams were positioned, and leaves the configuration and source unchanged.',
 ['histories','inputs'],'all pairs of consecutive calls over a set of inputs, and all initial stream positions and contents',
 'Tests call each function once on fresh cursors.',
 [E+'lib.rs',E+'writer.rs','smdiff-decoder/src/lib.rs','smdiff-merger/src/lib.rs'],['encode','apply_patch','transcode'])
p('P17','Section iterators yield each section once, then end, and do not over-read',
 'A section iterator yields the sections of a patch in order, each exactly once with the operations of only that section, then None forever, ignoring anything that follows the terminal section; the plain reader leaves its source positioned just after the terminal section. After an error it yields no further section and ends as well, and mixing borrowed and owned iteration yields the same sequence.',
 ['histories','inputs'],'all interleavings of borrowed/owned calls over multi-section patches, with trailing data and with an error at each section',
 'The tests read one or two sections and stop.',
 ['smdiff-reader/src/lib.rs','smdiff-decoder/src/reader.rs'],['SectionIterator','next_borrowed','into_inner'])
p('P18','A header read from a patch describes its section exactly',
 'After a section has been read, its header reports the number of operations, the number of Add bytes and the output size of the operations actually returned, in both formats and under every compression, and it can be used as is to write the same operations again. Instruction extraction reports each operation at its true output offset, and statistics whose counts and byte totals add up to the operations extracted.',
 ['programs','configurations'],'all small operation programs, both formats, with and without secondary compression, one or more sections',
 'The tests compare the header only for single-operation segregated sections or not at all; statistics are never compared.',
 ['smdiff-reader/src/lib.rs','smdiff-decoder/src/reader.rs','smdiff-merger/src/lib.rs'],['read_ops_no_comp','read_section','extract_patch_instructions','Stats'])
p('P19','The writer refuses a section whose header disagrees with its operations',
 'Writing the operations of a section returns an error, and never success, when the header states another number of operations, another output size, (in the segregated format) another number of Add bytes, or an output size above 2^24-1; when header and operations agree it succeeds. Writing a header returns an error when its fields cannot be expressed (a compression above 7, or more Add bytes than output bytes in the segregated format). So does writing an operation that cannot be expressed (no length, a Run over 62 or an Add over 65535 bytes), without a panic.',
 ['inputs','programs'],'all small operation lists times all single and double perturbations of the header fields',
 'The tests try one mismatch each at most; silent success would produce an unreadable patch.',
 ['smdiff-writer/src/lib.rs'],['write_ops','write_section_header'])
p('P20','Slicing and dereferencing instructions preserve the bytes they produce',
 'For every instruction list and every non-empty output range, the slice returned covers exactly that range and produces exactly the bytes the range has in the full output (or nothing is returned when the range is not covered), and the operation found for a position is the one that produces it. Replacing output copies by what they refer to leaves no output copy and the same output.',
 ['programs','inputs'],'all small instruction lists times all ranges and positions',
 'The tests check a few ranges of one list; off-by-one errors appear only where ranges start or end at operation boundaries.',
 ['smdiff-merger/src/lib.rs'],['find_controlling_op','get_exact_slice','deref_copy_o','MergeOp'])
p('P21','Memory stays within one section, the operations or the inputs',
 'Applying a patch and iterating over its sections need memory for one section at a time, however many sections there are and however large the source, the output and the copies are. Merging, transcoding, extracting and translating need memory in proportion to the operations and Add bytes they hold, not to the output these describe or the number of patches merged, and encoding in proportion to source and target whatever table or window capacity is configured.',
 ['inputs','programs'],'patches of up to 20000 sections and a gigabyte of output, operation lists, chains of merges, translated deltas and input pairs of growing sizes, in every representation, with the live memory counted at every allocation',
 'Nothing in the tests looks at memory; what is kept per section or per patch shows only with many of them.',
 ['smdiff-decoder/src/lib.rs','smdiff-decoder/src/reader.rs','smdiff-reader/src/lib.rs','smdiff-merger/src/lib.rs','smdiff-merger/src/transcoder.rs','smdiff-encoder/src/encoder.rs','smdiff-encoder/src/hashmap.rs','smdiff-vcdiff/src/lib.rs'],['apply_patch','apply_ops','SectionIterator','Merger::merge','transcode','extract_patch_instructions','encode','convert_vcdiff_to_smdiff'])
p('P22','Transcoding joins whatever is adjacent and never inflates a patch',
 'Transcoding joins neighbouring Adds (into Adds of up to 65535 bytes) and neighbouring Runs of the same byte, however many there are and wherever sections end, into as few operations as fit; a run of several hundred bytes becomes a few Runs and progressively longer copies of them. So the number of operations never grows, and the patch does not grow beyond its framing.',
 ['programs'],'all small operation programs, any number of neighbours of every kind, and lengths around the largest operation',
 'The tests join one pair of Adds and one pair of Runs; longer chains and long runs are never tried.',
 ['smdiff-merger/src/transcoder.rs'],['join_adjacent_adds','join_adjacent_runs','make_add_ops','make_run_ops','transcode'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
