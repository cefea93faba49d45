//! Thin adapters between the model's types and the public API of the crates under test.
use crate::model::*;
use smdiff_common::{AddOp, Copy, CopySrc, Format, Op, Run, SectionHeader};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

pub type Op_ = smdiff_reader::Op;
pub fn to_op(o: &ROp) -> Op_ {
    match o {
        ROp::Add(b) => Op::Add(smdiff_reader::Add::new(b.clone())),
        ROp::Run(b, n) => Op::Run(Run { byte: *b, len: *n }),
        ROp::CopyD(a, n) => Op::Copy(Copy { src: CopySrc::Dict, addr: *a, len: *n }),
        ROp::CopyO(a, n) => Op::Copy(Copy { src: CopySrc::Output, addr: *a, len: *n }),
    }
}
pub fn to_ops(v: &[ROp]) -> Vec<Op_> { v.iter().map(to_op).collect() }
pub fn from_op<A: AddOp>(o: &Op<A>) -> ROp {
    match o {
        Op::Add(a) => ROp::Add(a.bytes().to_vec()),
        Op::Run(r) => ROp::Run(r.byte, r.len),
        Op::Copy(c) => match c.src { CopySrc::Dict => ROp::CopyD(c.addr, c.len), CopySrc::Output => ROp::CopyO(c.addr, c.len) },
    }
}
pub fn from_ops<A: AddOp>(v: &[Op<A>]) -> Vec<ROp> { v.iter().map(from_op).collect() }
pub fn fmt(seg: bool) -> Format { if seg { Format::Segregated } else { Format::Interleaved } }
pub fn header(s: &RSec) -> SectionHeader {
    SectionHeader { compression_algo: s.algo, format: fmt(s.seg), more_sections: s.more, num_operations: s.ops.len() as u32, num_add_bytes: s.adds() as u32, output_size: s.out() as u32 }
}
/// section as seen through a header + ops returned by a reader
pub fn sec_of<A: AddOp>(h: &SectionHeader, ops: &[Op<A>]) -> RSec {
    RSec { ops: from_ops(ops), seg: h.format.is_segregated(), algo: h.compression_algo, more: h.more_sections }
}
pub fn header_matches(h: &SectionHeader, s: &RSec) -> bool {
    h.num_operations as usize == s.ops.len() && h.num_add_bytes as usize == s.adds() && h.output_size as usize == s.out()
        && h.more_sections == s.more && h.compression_algo == s.algo && h.format.is_segregated() == s.seg
}

pub fn apply(patch: &[u8], src: Option<&[u8]>) -> Result<Vec<u8>, String> {
    let mut p = Cursor::new(patch);
    let mut out = Cursor::new(Vec::new());
    match src {
        Some(s) => { let mut c = Cursor::new(s); smdiff_decoder::apply_patch(&mut p, Some(&mut c), &mut out) }
        None => smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut p, None, &mut out),
    }.map_err(|e| format!("{:?}: {e}", e.kind()))?;
    Ok(out.into_inner())
}
/// Sections through the decoder's iterator (handles compression).
pub fn read_dec(patch: &[u8]) -> Result<Vec<(SectionHeader, RSec)>, String> {
    let mut v = vec![];
    for r in smdiff_decoder::reader::SectionIterator::new(Cursor::new(patch)) {
        let (ops, h) = r.map_err(|e| format!("{:?}: {e}", e.kind()))?;
        v.push((h, sec_of(&h, &ops)));
    }
    Ok(v)
}
/// Sections through the plain reader, and the bytes it consumed.
pub fn read_plain(patch: &[u8]) -> Result<(Vec<(SectionHeader, RSec)>, usize), String> {
    let mut v = vec![];
    let mut it = smdiff_reader::SectionIterator::new(Cursor::new(patch));
    while let Some(r) = it.next() {
        let (ops, h) = r.map_err(|e| format!("{:?}: {e}", e.kind()))?;
        v.push((h, sec_of(&h, &ops)));
    }
    let p = it.into_inner().position() as usize;
    Ok((v, p))
}
/// One section written by the writer crate.
pub fn write_sec(s: &RSec) -> std::io::Result<Vec<u8>> {
    let mut o = vec![];
    let h = header(s);
    let ops = to_ops(&s.ops);
    smdiff_writer::write_section_header(&h, &mut o)?;
    smdiff_writer::write_ops(&ops, &h, &mut o)?;
    Ok(o)
}
pub fn encode(src: Option<&[u8]>, trgt: &[u8], cfg: &smdiff_encoder::EncoderConfig) -> std::io::Result<Vec<u8>> {
    let mut o = vec![];
    let mut t = Cursor::new(trgt);
    match src {
        Some(s) => { let mut c = Cursor::new(s); smdiff_encoder::encode(Some(&mut c), &mut t, &mut o, cfg)?; }
        None => smdiff_encoder::encode(None, &mut t, &mut o, cfg)?,
    }
    Ok(o)
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("lengths {} / {}, first difference at {} ({:?} / {:?})", a.len(), b.len(), k, &a[k.min(a.len())..(k + 8).min(a.len())], &b[k.min(b.len())..(k + 8).min(b.len())])
}
pub fn abbrev(b: &[u8]) -> String { if b.len() <= 48 { format!("{b:02x?}") } else { format!("{:02x?}..[{}]", &b[..40], b.len()) } }

/// Marker trait users
pub trait RWS: Read + Write + Seek {}
impl<T: Read + Write + Seek> RWS for T {}
#[allow(unused)]
pub fn at_end<S: Seek>(s: &mut S) -> u64 { let p = s.stream_position().unwrap(); let e = s.seek(SeekFrom::End(0)).unwrap(); e - p }
