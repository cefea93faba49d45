#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, sys
T='bounded exhaustive enumeration of '
C={
'P01':('model_checking',T+'source/target pairs and encoder configurations, each encoded by the real code and applied again','Every pair of the string, edit-script and boundary spaces times a covering set of all configuration dimensions (matchers, levels, lazy, segment sizes, formats, compressions); larger inputs are represented by structured families at the limits of the code.'),
'P02':('model_checking',T+'source/target pairs and encoder configurations, the emitted bytes judged by a strict independent parser','Same spaces as P01; the parser is independent of the code under test.'),
'P15':('exploration',T+'block-level edit scripts at all compression levels, patch size against a bound per edit','All scripts of blocks within the bounds; the bounds per edit are fixed numbers with margin over the unchanged tree.'),
'P03':('model_checking',T+'operation and section sequences on the real writer and readers against a reference codec','Every sequence within the bounds is written and read back by the real code and compared byte for byte with an independent model; nothing is claimed for lengths and addresses outside the alphabet.'),
'P04':('model_checking',T+'64-bit boundary values, address pairs and varint byte strings against a reference codec','Exhaustive over dense small ranges, all values around every power of two, all pairs of those, and all byte strings over a structural alphabet up to eleven bytes; other 64-bit values are assumed to behave like their neighbours.'),
'P05':('model_checking',T+'patch programs applied by the real decoder against a reference interpreter','Every program up to the depth over an alphabet with all boundary lengths and addresses; trusts the reference interpreter.'),
'P06':('model_checking',T+'byte strings (all short strings over a structural alphabet, all single and double damages and truncations of a corpus of patches) given to every entry point that reads patches','Every string within the bounds runs on the real code in debug arithmetic; no panic, no hang, memory bounded, and what is accepted is what an independent parser accepts.'),
'P07':('fault_enumeration',T+'truncation points and single-byte substitutions of a corpus of patches, judged by an independent parser','Every prefix and every substitution of every patch of the corpus; the corpus covers both formats and all compressions.'),
'P10':('model_checking',T+'chains of patch programs merged by the real code against an origin-tracking interpreter','All pairs and triples of small programs, every range of every small predecessor, chains of up to eight patches, every format and compression; operations of every size class.'),
'P11':('model_checking',T+'chains of patch programs and output options of the summary against an origin-tracking interpreter','Where merging must end is computed from the origin of every output byte, independently of the operations; summaries of every shape are written with every option and read back.'),
'P12':('model_checking',T+'patch programs and output options transcoded by the real code, judged by a strict parser and a reference interpreter','All programs up to the depth over an alphabet around the join and split limits; the result must be in the requested form and produce the same output.'),
'P13':('model_checking',T+'sequences of sections with their own compression, sizes of section data and compressor options, read back against a reference parser','All sequences of algorithms within the bounds, all small sizes and those around every block and buffer size, all levels; three kinds of content.'),
'P14':('model_checking',T+'VCDIFF window programs, encodings, damages and truncations against an independent RFC 3284 decoder','Every program and damage within the bounds; deviations of the vcdiff-reader library, which this repository does not contain, are listed findings and recognised by what exactly that library does.'),
'P08':('fault_enumeration',T+'single I/O failures at every call of every stream, and of transfer schedules (whole, cut, interrupted), on the real code of every operation','Every call of every stream of some 600 operations fails once in every way; every schedule of whole, cut and interrupted transfers over a sliding window of calls. Two independent failures in one run are not enumerated.'),
'P16':('model_checking',T+'operation histories, preemption points at I/O calls, memory operations and instructions, and stream contents and positions on the real code','Every ordered pair (thorough: triple) of operations, every pair in a process of its own, one preemption at every I/O call (same or another thread) every memory operation and (for short operations; at a stride for longer) every instruction (another thread) of one operation by the whole of another; every history of a failed operation and another. More than one switch is not explored; the code shares nothing between calls.'),
'P09':('model_checking',T+'operation-length sequences and maxima on the real partition against a greedy model','All sequences up to the depth over lengths around the clamps.'),
'P17':('model_checking',T+'call histories on the real iterators against a model sequence','Every interleaving of borrowed and owned calls over all small multi-section patches, trailing data and damage positions within the bounds.'),
'P18':('model_checking',T+'patches read by the real code, headers and statistics compared with model counts','Every program up to the depth in both formats and all compressions.'),
'P19':('exploration',T+'operation lists and header perturbations on the real writer','Every single and double perturbation from a finite set of every operation list within the bounds.'),
'P20':('model_checking',T+'instruction lists, ranges and positions on the real slicing functions against a reference interpreter','Every range of every list within the bounds, compared by the bytes it produces.'),
'P21':('exploration',T+'patches, operation lists, chains and input pairs of growing sizes on the real code, with every allocation of the thread counted','Every size, kind and representation of the spaces; streams take no memory themselves. Bounds are several times what the code needs; memory of the C libraries (zstd compression, brotli) is not counted.'),
'P22':('exploration',T+'operation programs transcoded by the real code, operations and bytes counted against what joining by the documented rules allows','All programs over the alphabets up to a depth, and up to 20000 neighbours of ten kinds.'),
}
exec(open('manifest_more.py').read()) if __import__('os').path.exists('manifest_more.py') else None
ids=[json.loads(l)['id'] for l in open('properties.jsonl')]
m=dict(version=1,setup_cmd='./check.sh build',checks=[],not_applicable=[],
 notes='No hooks: all checks use the public API of the crates. check.sh rebuilds the explorer (mc/) against /repo on every run.')
for i in ids:
    if i in C:
        l,t,n=C[i]
        m['checks'].append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',technique=t,level=l,level_note=n))
    else:
        m['not_applicable'].append(dict(property=i,reason='check under construction'))
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks')
