//! P21: memory stays within one section (applying, reading), the operations (merging, transcoding,
//! extracting) or the inputs (encoding). The global allocator counts what is live on the thread; sources
//! and outputs are streams that take no memory, so what is counted is what the code keeps.
use super::p01_encode::{Cfg, Sec, PLAIN};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use crate::vcd::{enc, table, VI, VWin};
use std::io::{Cursor, Read, Result as IoR, Seek, SeekFrom, Write};

/// endless computed content
pub struct Wide { pub pos: u64, pub end: u64, pub moved: u64 }
impl Wide { pub fn new(end: u64) -> Wide { Wide { pos: 0, end, moved: 0 } } }
impl Read for Wide {
    fn read(&mut self, b: &mut [u8]) -> IoR<usize> {
        let n = b.len().min(self.end.saturating_sub(self.pos).min(1 << 30) as usize);
        b[..n].fill(self.pos as u8 ^ 0x5A);
        self.pos += n as u64;
        self.moved += n as u64;
        Ok(n)
    }
}
impl Write for Wide {
    fn write(&mut self, b: &[u8]) -> IoR<usize> {
        self.pos += b.len() as u64;
        self.end = self.end.max(self.pos);
        self.moved += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> IoR<()> { Ok(()) }
}
impl Seek for Wide {
    fn seek(&mut self, s: SeekFrom) -> IoR<u64> {
        self.pos = match s { SeekFrom::Start(p) => p, SeekFrom::End(d) => self.end.wrapping_add_signed(d), SeekFrom::Current(d) => self.pos.wrapping_add_signed(d) };
        Ok(self.pos)
    }
}

const MB: u64 = 1 << 20;
/// what a section may take: its operations and data some times over, and what a decompressor needs
fn section_bound(s: &[RSec], big: bool) -> u64 {
    let one = s.iter().map(|s| 200 * s.ops.len() as u64 + 8 * s.adds() as u64).max().unwrap_or(0);
    one + if big { 4 * MB } else { MB }
}
fn within(what: &'static str, pk: u64, bound: u64, c: &mut Ctx, d: &dyn Fn() -> String) -> Result<(), String> {
    c.max("peak bytes of one call", pk as i64);
    if bound > 0 { c.max(what, (pk * 100 / bound) as i64) }
    if pk > bound { return Err(format!("{what} takes {pk} bytes of memory, {bound} are allowed: {}", d())) }
    Ok(())
}
const KINDS: u64 = 9;
/// one section; its operations may be repeated in any number of sections on a source of 1 TiB
fn sec_ops(kind: u64, j: u64) -> Vec<ROp> {
    let far = (j * 77_777_777) % (1 << 39);
    match kind {
        0 => vec![ROp::CopyD(far, 65535)],
        1 => (0..256).map(|k| ROp::CopyD(far + k * 3, 65535)).collect(),
        2 => vec![ROp::Add(noise(j, 200)), ROp::CopyO(0, 150), ROp::Run(3, 62)],
        3 => vec![ROp::Add(noise(j, 65535)), ROp::CopyO(j * 131_070 % 65535, 65535)],
        4 => (0..300).map(|k| ROp::Run(k as u8, 62)).collect(),
        5 => vec![],
        6 => [vec![ROp::Add(noise(j, 40_000))], (0..250).map(|k| ROp::CopyO(k * 3, 30_000)).collect()].concat(),
        7 => (0..250).map(|k| ROp::Add(noise(k, 65535))).collect(),
        _ => (0..60).flat_map(|k| [ROp::Add(noise(k, 9)), ROp::CopyD(far + 100 * k, 5000), ROp::CopyO(k, 7)]).collect(),
    }
}
fn patch_for(kind: u64, n: u64, seg: bool, algo: u8) -> (Vec<RSec>, Vec<u8>) {
    let secs: Vec<RSec> = (0..n).map(|j| RSec { ops: sec_ops(kind, j % 7), seg, algo, more: j + 1 < n }).collect();
    let one: Vec<Vec<u8>> = (0..7u64).map(|j| enc_sec(&RSec { ops: sec_ops(kind, j), seg, algo, more: true })).collect();
    let mut b = Vec::new();
    for j in 0..n - 1 { b.extend_from_slice(&one[(j % 7) as usize]) }
    b.extend(enc_sec(secs.last().unwrap()));
    (secs, b)
}

fn reading(t: Tier) -> Vec<Space> {
    let counts: Vec<u64> = t.pick(vec![1, 2, 40, 700, 20_000], vec![1, 2, 10, 40, 200, 700, 3000, 20_000, 100_000]);
    let nc = counts.len() as u64;
    vec![space("sections", nc * KINDS * 8, move |i, c| {
        let d = Radix(vec![8, KINDS, nc]).get(i);
        let (seg, algo) = (d[0] % 2 == 1, (d[0] / 2) as u8);
        let (kind, n) = (d[1] as u64, counts[d[2]]);
        // the largest outputs are written as often as a gigabyte allows
        let out: usize = sec_ops(kind, 0).iter().map(|o| o.len()).sum();
        if kind == 7 && (n > t.pick(2, 10) || algo > 0 && n > 1) { return Ok(()) }
        let n = n.min(if kind == 3 || kind == 6 { 700 } else { n }).min((t.pick(1u64, 4) << 30) / (out.max(1) as u64) + 1);
        let (secs, b) = patch_for(kind, n, seg, algo);
        let bound = section_bound(&secs, algo > 1);
        let d = || format!("{n} sections like {} with compression {algo}", show(&secs[0].ops));
        c.sample(|| d());
        let total: u64 = secs.iter().map(|s| s.out() as u64).sum();
        c.state(H::new(2100).u(i));
        let (mut src, mut sink) = (Wide::new(1 << 40), Wide::new(0));
        let (r, pk) = crate::alloc::peak_of(|| catch(|| smdiff_decoder::apply_patch(&mut Cursor::new(&b[..]), Some(&mut src), &mut sink)));
        c.eval(total > 0, H::new(2101).u(i));
        r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))?;
        if sink.end != total { return Err(format!("{} bytes written instead of {total}: {}", sink.end, d())) }
        within("applying", pk, bound, c, &d)?;
        let (r, pk) = crate::alloc::peak_of(|| catch(|| smdiff_decoder::reader::SectionIterator::new(Cursor::new(&b[..])).try_fold(0, |k, r| r.map(|_| k + 1))));
        c.eval(true, H::new(2102).u(i));
        if r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))? != n { return Err(format!("other number of sections read: {}", d())) }
        within("iterating", pk, bound, c, &d)?;
        let (r, pk) = crate::alloc::peak_of(|| catch(|| -> IoR<u64> {
            let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&b[..]));
            let mut k = 0;
            while let Some(r) = it.next_borrowed() { r?; k += 1 }
            Ok(k)
        }));
        c.eval(true, H::new(2103).u(i));
        if r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))? != n { return Err(format!("other number of sections read: {}", d())) }
        within("borrowed iteration", pk, bound, c, &d)?;
        if algo == 0 {
            let (r, pk) = crate::alloc::peak_of(|| catch(|| -> IoR<u64> {
                let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&b[..]));
                let mut k = 0;
                while let Some(r) = it.next_borrowed() { r?; k += 1 }
                Ok(k)
            }));
            c.eval(true, H::new(2104).u(i));
            if r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))? != n { return Err(format!("other number of sections read: {}", d())) }
            within("plain iteration", pk, bound, c, &d)?;
        }
        // writing
        let ops = to_ops(&secs[0].ops);
        let mut h = header(&secs[0]);
        h.compression_algo = 0;
        let mut sink = Wide::new(0);
        let (r, pk) = crate::alloc::peak_of(|| catch(|| smdiff_writer::write_section_header(&h, &mut sink).and_then(|_| smdiff_writer::write_ops(&ops, &h, &mut sink))));
        c.eval(true, H::new(2105).u(i));
        r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))?;
        within("writing", pk, MB + 4 * secs[0].adds() as u64, c, &d)
    })]
}

/// lists whose output is large for their number
fn flat(kind: u64, n: u64) -> Vec<ROp> {
    match kind {
        0 => (0..n).map(|k| ROp::CopyD(k * 65535, 65535)).collect(),
        1 => (0..n).map(|k| ROp::CopyD((n - k) * 70_000, 65535)).collect(),
        2 => (0..n).map(|k| if k == 0 { ROp::CopyD(5, 65535) } else { ROp::CopyO((k - 1) * 65535, 65535) }).collect(),
        3 => (0..n).map(|k| match k % 3 { 0 => ROp::CopyD(k * 999, 60_000), 1 => ROp::Run(k as u8, 60), _ => ROp::Add(noise(k, 3)) }).collect(),
        _ => (0..n).map(|k| if k % 2 == 0 { ROp::CopyD(k * 65_000, 65_535) } else { ROp::CopyO(k / 2 * 65_535, 65_535) }).collect(),
    }
}
fn cut(v: &[ROp], algo: u8) -> Vec<u8> {
    let mut s: Vec<RSec> = vec![];
    let mut out = usize::MAX;
    for o in v {
        if out.saturating_add(o.len()) > MAXW as usize { s.push(RSec { ops: vec![], seg: false, algo, more: true }); out = 0 }
        out += o.len();
        s.last_mut().unwrap().ops.push(o.clone());
    }
    if let Some(l) = s.last_mut() { l.more = false }
    enc_patch(&s)
}
fn lists(t: Tier) -> Vec<Space> {
    let counts = t.pick(vec![1u64, 10, 300, 5000, 30_000], vec![1, 3, 10, 100, 300, 1000, 5000, 30_000, 200_000]);
    let nc = counts.len() as u64;
    let (c1, c2) = (counts.clone(), counts);
    vec![space("lists", 5 * nc * 2, move |i, c| {
        let d = Radix(vec![2, 5, nc]).get(i);
        let n = c1[d[2]];
        let v = flat(d[1] as u64, n);
        let b = cut(&v, d[0] as u8 * 2);
        let adds: usize = v.iter().map(|o| if let ROp::Add(b) = o { b.len() } else { 0 }).sum();
        let bound = 400 * n + 8 * adds as u64 + 4 * b.len() as u64 + if d[0] > 0 { 4 * MB } else { MB };
        let d = || format!("{n} operations like {}", show(&v[..v.len().min(3)]));
        c.sample(|| d());
        c.state(H::new(2110).u(i));
        let (r, pk) = crate::alloc::peak_of(|| catch(|| smdiff_merger::extract_patch_instructions(Cursor::new(&b[..])).map(|r| r.0.len())));
        c.eval(true, H::new(2111).u(i));
        let k = r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))?;
        if k as u64 != n { return Err(format!("{k} operations extracted: {}", d())) }
        within("extracting", pk, bound, c, &d)?;
        for (size, sec) in [(usize::MAX, Sec::None), (65535, Sec::None), (usize::MAX, Sec::Smdiff(3))] {
            let mut sink = Wide::new(0);
            let (r, pk) = crate::alloc::peak_of(|| catch(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&b[..]), &mut sink, fmt(true), sec.make(), size)));
            c.eval(true, H::new(2112).u(i).u(size as u64));
            r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))?;
            within("transcoding", pk, bound, c, &d)?;
        }
        Ok(())
    }), space("merges", 5 * 5 * nc, move |i, c| {
        let d = Radix(vec![5, 5, nc]).get(i);
        let n = c2[d[2]];
        let (v1, v2) = (flat(d[0] as u64, n), flat([0, 1, 3, 3, 4][d[1]], n));
        // the second patch copies from what the first one makes
        let out1: u64 = v1.iter().map(|o| o.len() as u64).sum();
        let v2: Vec<ROp> = v2.into_iter().map(|o| if let ROp::CopyD(a, l) = o { let l = (l as u64).min(out1); ROp::CopyD(a % (out1 - l + 1), l as u16 as _) } else { o }).collect();
        let mut at = 0;
        if !v2.iter().all(|o| { let ok = if let ROp::CopyO(a, l) = o { a + *l as u64 <= at } else { true }; at += o.len() as u64; ok }) { return Ok(()) }
        let (b1, b2) = (cut(&v1, 0), cut(&v2, 0));
        let d = || format!("{n} operations like {} after {n} like {}", show(&v2[..v2.len().min(3)]), show(&v1[..v1.len().min(3)]));
        c.sample(|| d());
        c.state(H::new(2120).u(i));
        let merged = || -> IoR<smdiff_merger::SummaryPatch> {
            let m = match smdiff_merger::Merger::new(Cursor::new(&b2[..]))? { Ok(m) => m, Err(s) => return Ok(s) };
            Ok(match m.merge(Cursor::new(&b1[..]))? { Ok(m) => m.finish(), Err(s) => s })
        };
        let (r, pk) = crate::alloc::peak_of(|| catch(|| merged()?.write(&mut Wide::new(0), None, None, None)));
        c.eval(true, H::new(2121).u(i));
        r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))?;
        let o = catch(merged).map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))?.take_ops();
        let made: usize = o.iter().map(|o| if let smdiff_common::Op::Add(a) = o { smdiff_common::AddOp::bytes(a).len() } else { 0 }).sum();
        let k = o.len();
        within("merging", pk, 500 * (2 * n + k as u64) + 8 * made as u64 + 4 * (b1.len() + b2.len()) as u64 + MB, c, &d)
    })]
}

/// long chains, of which only the summary so far is kept; and deltas of other formats
fn chains(t: Tier) -> Vec<Space> {
    let counts = t.pick(vec![1u64, 2, 30, 300], vec![1, 2, 5, 30, 100, 300, 1000, 3000]);
    let nc = counts.len() as u64;
    let wins = t.pick(vec![1u64, 2, 50, 2000], vec![1, 2, 10, 50, 400, 2000, 20_000]);
    let nw = wins.len() as u64;
    vec![space("chains", 4 * nc, move |i, c| {
        let d = Radix(vec![4, nc]).get(i);
        let n = 2000u64;
        // every patch of the chain exchanges, shifts or keeps blocks
        let v: Vec<ROp> = (0..n).map(|k| match d[0] {
            0 => ROp::CopyD(k * 100, 100),
            1 => ROp::CopyD((n - 1 - k) * 100, 100),
            2 => ROp::CopyD((k * 100 + 50) % (n * 100 - 100), 100),
            _ => if k == 3 { ROp::Add(noise(5, 100)) } else { ROp::CopyD(k * 100, 100) },
        }).collect();
        let b = cut(&v, 0);
        let d = || format!("{} merges of {n} operations like {}", counts[d[1]], show(&v[..3]));
        c.sample(|| d());
        c.state(H::new(2140).u(i));
        let (r, pk) = crate::alloc::peak_of(|| catch(|| -> IoR<usize> {
            let Ok(mut m) = smdiff_merger::Merger::new(Cursor::new(&b[..]))? else { return Ok(0) };
            for k in 0..counts[Radix(vec![4, nc]).get(i)[1]] {
                c.transitions += 1;
                m = match m.merge(Cursor::new(&b[..]))? { Ok(m) => m, Err(s) => return Ok(s.take_ops().len() + k as usize * 0) };
            }
            Ok(m.finish().take_ops().len())
        }));
        c.eval(true, H::new(2141).u(i));
        let k = r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))? as u64;
        within("merging a chain", pk, 500 * (2 * n + k) + 4 * b.len() as u64 + MB, c, &d)
    }), space("translations", 5 * nw, move |i, c| {
        let d = Radix(vec![5, nw]).get(i);
        let n = wins[d[1]];
        let big = 1u32 << 24;
        let one = |j: u64| -> VWin { match d[0] {
            0 => VWin { ind: 1, seg: (5000, j * 1000), insts: vec![VI::Copy { addr: 7, n: 4000, mode: 0 }, VI::Add(noise(j, 30)), VI::Run(3, 500)] },
            1 => VWin { ind: 1, seg: (1 << 24, j << 24), insts: vec![VI::Copy { addr: 0, n: big, mode: 0 }] },
            2 => VWin { ind: 0, seg: (0, 0), insts: vec![VI::Run(9, big / 4)] },
            3 => VWin { ind: 0, seg: (0, 0), insts: vec![VI::Add(noise(j, 300_000)), VI::Copy { addr: 0, n: 300_000, mode: 0 }] },
            _ => VWin { ind: 1, seg: (1 << 20, j), insts: (0..200).map(|k| VI::Copy { addr: k * 5000, n: 4000, mode: 0 }).collect() },
        } };
        let n = n.min(match d[0] { 2 => 12, 3 => 60, _ => n });
        let Some(b) = enc(&(0..n).map(one).collect::<Vec<_>>(), 0, &table()) else { return Ok(()) };
        let d = || format!("{n} windows of {:?}", one(0).insts.iter().take(2).map(|i| i.len()).collect::<Vec<_>>());
        c.sample(|| d());
        c.state(H::new(2150).u(i));
        let mut sink = Wide::new(0);
        let (r, pk) = crate::alloc::peak_of(|| catch(|| smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&b[..]), &mut sink)));
        c.eval(true, H::new(2151).u(i));
        r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))?;
        within("translating", pk, 64 * MB, c, &d)
    })]
}

fn encoding(t: Tier) -> Vec<Space> {
    let sizes: Vec<usize> = t.pick(vec![0, 1000, 100_000, 2_000_000, 8_000_000], vec![0, 1000, 20_000, 100_000, 500_000, 2_000_000, 8_000_000]);
    let ns = sizes.len() as u64;
    vec![space("encodings", ns * ns * 11 * 2, move |i, c| {
        let d = Radix(vec![2, 11, ns, ns]).get(i);
        let (n, m) = (sizes[d[2]], sizes[d[3]]);
        let src = noise(2130, n);
        let mut trgt = [&src[..n.min(m)], &noise(2131, m - n.min(m))[..]].concat();
        if d[0] == 1 { for k in (0..trgt.len()).step_by(5000) { trgt[k] ^= 0x41 } }
        let huge = Some(1usize << 36);
        let cfg = [Cfg { src: Some((2, huge)), trgt: Some((70, 33, huge)), ..PLAIN }, Cfg::level(0, false), Cfg::level(3, false), Cfg::level(9, false), Cfg::level(0, true), Cfg::level(3, true), Cfg::level(9, true), Cfg::level(5, true).no_src(), Cfg { src: None, ..PLAIN }, Cfg { sec: Sec::Smdiff(3), ..Cfg::level(3, true) }, Cfg { sec: Sec::Smdiff(9), size: 65535, seg: true, ..PLAIN }][d[1]];
        let d = || format!("source of {n} bytes, target of {m} bytes under {cfg:?}");
        c.sample(|| d());
        let ec = cfg.make();
        let mut sink = Wide::new(0);
        let (r, pk) = crate::alloc::peak_of(|| catch(|| smdiff_encoder::encode(Some(&mut Cursor::new(&src[..])), &mut Cursor::new(&trgt[..]), &mut sink, &ec)));
        c.eval(m > 0, H::new(2132).u(i));
        r.map_err(|p| format!("{p}: {}", d()))?.map_err(|e| format!("{e}: {}", d()))?;
        within("encoding", pk, 64 * MB + if cfg.src.map_or(false, |s| s.1 == huge) { 80 } else { 24 } * (n + m) as u64, c, &d)
    })]
}

pub fn p21(t: Tier) -> Vec<Space> {
    let mut v = reading(t);
    v.extend(lists(t));
    v.extend(chains(t));
    v.extend(encoding(t));
    v
}
