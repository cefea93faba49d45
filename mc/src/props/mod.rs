use crate::engine::*;
pub mod p01_encode;
pub mod p03_codec;
pub mod p05_decode;
pub mod p06_bytes;
pub mod p08_io;
pub mod p10_merge;
pub mod p13_comp;
pub mod p14_vcdiff;
pub mod p15_size;
pub mod p21_memory;
pub mod wide;

pub static ALL: &[Prop] = &[
    Prop { id: "P01", level: Level::Exploration, spaces: p01_encode::p01,
        rule: "every input pair and configuration of each space is encoded and the patch applied by the real code; non-trivial: the target is not empty; distinct by patch bytes and source length",
        assumptions: &["inputs come from finite alphabets of words, pieces and sizes around every limit; content is otherwise fixed noise"] },
    Prop { id: "P02", level: Level::Exploration, spaces: p01_encode::p02,
        rule: "every input pair and configuration of each space is encoded by the real code and the patch parsed by the strict reference parser; non-trivial: the target is not empty; distinct by patch bytes and source length",
        assumptions: &["compressed section data is expanded by the C libraries of zstd and brotli"] },
    Prop { id: "P03", level: Level::Model, spaces: p03_codec::p03,
        rule: "state: distinct encoded section sequences; transition: one operation or header encoded by the model; every sequence is written and read back by the real writer and readers and compared byte for byte with the model",
        assumptions: &["the operation byte layout is the one the repository's own tests pin (type in bits 6-7, size in bits 0-5)"] },
    Prop { id: "P04", level: Level::Model, spaces: p03_codec::p04,
        rule: "state: distinct values, address pairs and byte strings; each is encoded and decoded by the real functions and compared with an independent codec",
        assumptions: &["values outside the dense ranges are covered at and around every power of two and every 7-bit boundary"] },
    Prop { id: "P05", level: Level::Model, spaces: p05_decode::p05,
        rule: "state: (output so far, source) of the reference interpreter; transition: one operation; every program is encoded and applied by the real decoder",
        assumptions: &["operation lengths and addresses come from a finite alphabet containing every size-class and range boundary"] },
    Prop { id: "P06", level: Level::Exploration, spaces: p06_bytes::p06,
        rule: "every byte string is given to every reading entry point; non-trivial: the strict model refuses it; distinct by the bytes",
        assumptions: &["what is malformed inside a zstd frame is not judged, only that it neither panics nor exceeds the memory bound", "memory of the C library of brotli is not counted"] },
    Prop { id: "P07", level: Level::Model, spaces: p06_bytes::p07,
        rule: "state: distinct valid patches; transition: one truncation point, at which every reading entry point of the real code must report an error",
        assumptions: &[] },
    Prop { id: "P08", level: Level::Fault, spaces: p08_io::p08,
        rule: "every operation runs on the real code with every stream under every plan of the space; non-trivial: the plan had an effect (a call failed, was interrupted or was cut); distinct by operation and plan",
        assumptions: &["at most one failing call (or all calls from one on) in one stream at a time, except where all streams are cut as well", "failure points beyond the first 200 calls of an operation under cut transfers are taken at equal steps"] },
    Prop { id: "P09", level: Level::Model, spaces: p03_codec::p09,
        rule: "state: (bytes in current section, limit, section number) of the greedy partition model; transition: one operation; the real partition is compared slice by slice",
        assumptions: &["lengths and maxima come from a finite alphabet around the clamps"] },
    Prop { id: "P10", level: Level::Model, spaces: p10_merge::p10,
        rule: "state: distinct outputs (with the origin of every byte) after each patch of a chain; transition: one operation; every chain is encoded, merged by the real code, and the summary interpreted and applied to the original source",
        assumptions: &["operation lengths and ranges come from a finite alphabet, except in the space of all ranges of small predecessors"] },
    Prop { id: "P11", level: Level::Model, spaces: p10_merge::p11,
        rule: "state: distinct outputs (with the origin of every byte) after each patch of a chain; transition: one operation; where merging must end follows from the origins of the bytes; summaries are written with the options of the space and read back",
        assumptions: &["operation lengths and ranges come from a finite alphabet"] },
    Prop { id: "P12", level: Level::Model, spaces: p10_merge::p12,
        rule: "state: distinct patches; transition: one section or operation; every patch is transcoded by the real code and the result judged by the strict parser and the reference interpreter",
        assumptions: &["operation lengths come from a finite alphabet around the join and split limits"] },
    Prop { id: "P13", level: Level::Model, spaces: p13_comp::p13,
        rule: "state: distinct patches written; transition: one section written with its own algorithm; every patch is parsed by the model (which expands the data with the C libraries) and read back by the real code",
        assumptions: &["section data up to 15 MB, of three kinds of content"] },
    Prop { id: "P14", level: Level::Model, spaces: p14_vcdiff::p14,
        rule: "state: distinct deltas; transition: one VCDIFF instruction or truncation point; every delta is translated by the real code and the patch's output compared with an independent RFC 3284 decoder",
        assumptions: &["integers in window headers use their shortest form", "the known readings of the VCDIFF library that differ from RFC 3284 are listed as findings"] },
    Prop { id: "P15", level: Level::Exploration, spaces: p15_size::p15,
        rule: "every target of each space is encoded by the real code and the size of the patch compared with what the target has that is new, an allowance per edit and the framing; non-trivial: the target is not empty; distinct by patch bytes and source length",
        assumptions: &["blocks are fixed noise long enough for the level's sampling of the source; the allowance per edit is 16 bytes"] },
    Prop { id: "P16", level: Level::Model, spaces: p08_io::p16,
        rule: "state: distinct histories (operations run before, or interrupted at an I/O call, in this process), stream contents and positions; transition: one operation, whose result is compared with the one it has in a process of its own",
        assumptions: &["schedules switch at I/O calls, memory operations (allocation, growth, release) and instructions (of long operations: every few), with one switch to the other operation, which runs to its end"] },
    Prop { id: "P17", level: Level::Model, spaces: p05_decode::p17,
        rule: "state: (position, call-mode history, patch length, damage); transition: one next/next_borrowed call on the real iterator checked against the model sequence",
        assumptions: &[] },
    Prop { id: "P18", level: Level::Model, spaces: p05_decode::p18,
        rule: "state: distinct encoded patches; transition: one section header or operation; headers, rewritten bytes, offsets and statistics from the real code are compared with counts computed by the model",
        assumptions: &[] },
    Prop { id: "P19", level: Level::Exploration, spaces: p03_codec::p19,
        rule: "every operation list times every header perturbation; non-trivial: header and operations disagree; distinct by operations, format and header fields",
        assumptions: &[] },
    Prop { id: "P20", level: Level::Model, spaces: p05_decode::p20,
        rule: "state: (output bytes, range); transition: one range; each range is sliced by the real code and its bytes compared with the reference interpreter",
        assumptions: &["ranges are non-empty"] },
    Prop { id: "P21", level: Level::Exploration, spaces: p21_memory::p21,
        rule: "every patch, list or input pair of each space is run through the real code over streams that take no memory, with the live bytes of the thread counted; non-trivial: there is output",
        assumptions: &["memory of the C libraries of zstd (compression) and brotli is not counted", "constant and factors are several times what the code needs"] },
    Prop { id: "P22", level: Level::Exploration, spaces: p10_merge::p22,
        rule: "every list of operations of each space is transcoded by the real code and the operations and bytes counted; non-trivial: there is something to join; distinct by the resulting patch",
        assumptions: &["a run of 372 bytes or more may be three Runs and copies that double what there is, as documented"] },
];
