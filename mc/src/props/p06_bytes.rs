//! P06 arbitrary bytes at every reading entry point, P07 every truncation point of valid patches.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use smdiff_common::Format;
use std::io::Cursor;
use std::sync::Arc;

/// What the strict model says about a byte string.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Verdict { Valid, Refuse, Unknown }
fn foreign(b: &[u8]) -> bool { b.first().map_or(false, |c| c >> 3 & 7 == 2) }
/// Walks the sections; a section in zstd is judged by another implementation than the one used by the
/// code under test, so what exactly is malformed there is left open ("Unknown").
fn judge(b: &[u8], comp: bool) -> (Verdict, Vec<RSec>) {
    let mut p = 0;
    let mut v = vec![];
    loop {
        match parse_section(&b[p..], comp) {
            Ok((s, n)) => {
                p += n;
                let more = s.more;
                v.push(s);
                if !more { return (Verdict::Valid, v) }
            }
            Err(Bad::Invalid("zstd")) => return (Verdict::Unknown, v),
            Err(_) if comp && foreign(&b[p..]) && parse_hdr_ok(&b[p..]) => return (Verdict::Unknown, v),
            Err(_) => return (Verdict::Refuse, v),
        }
    }
}
fn parse_hdr_ok(b: &[u8]) -> bool { parse_header_of(b).is_ok() }

impl Fix { pub fn src(&self) -> Vec<u8> { self.src.clone() } }
pub struct Fix { src: Vec<u8>, pred: Vec<u8>, term: Vec<u8> }
pub fn fix() -> Fix {
    Fix {
        src: noise(61, 24),
        pred: patch_of(vec![ROp::Add(vec![7, 8, 9]), ROp::CopyD(1, 6), ROp::Run(5, 9), ROp::CopyO(2, 6)], false),
        term: patch_of(vec![ROp::CopyD(0, 2), ROp::Add(vec![1]), ROp::CopyD(1, 1)], true),
    }
}
/// bytes that may be live at once while n bytes are read which describe `out` output bytes
/// (a zstd frame may ask for a window of 128 MiB, which the library used reaches by doubling)
fn allowance(b: &[u8], secs: &[RSec], out: u64) -> u64 {
    let z = b.first().map_or(false, |c| c >> 3 & 7 == 2) || secs.iter().any(|s| s.algo == 2 || s.more);
    (if z && b.windows(4).any(|w| w == [0x28, 0xB5, 0x2F, 0xFD]) { 512 << 20 } else { 64 << 20 }) + 64 * b.len() as u64 + 64 * out
}

/// Runs one entry point; checks that it does not panic, keeps within the memory bound, and errs if it must.
fn entry<T>(name: &str, b: &[u8], must_err: bool, limit: u64, c: &mut Ctx, f: impl FnOnce() -> Result<T, String>) -> Result<Option<T>, String> {
    let (r, pk) = crate::alloc::peak_of(|| catch(f));
    c.evals += 1;
    c.max("peak bytes of one call", pk as i64);
    if pk > limit { return Err(format!("{name}: {pk} bytes of memory (bound {limit}) for the input {}", abbrev(b))) }
    match r {
        Err(p) => Err(format!("{name}: {p}; input {}", abbrev(b))),
        Ok(Err(_)) => Ok(None),
        Ok(Ok(_)) if must_err => Err(format!("{name}: accepted although malformed: {}", abbrev(b))),
        Ok(Ok(v)) => Ok(Some(v)),
    }
}
fn e2s<T>(r: std::io::Result<T>) -> Result<T, String> { r.map_err(|e| e.to_string()) }

/// All reading entry points on one byte string.
pub fn all_entries(b: &[u8], fx: &Fix, c: &mut Ctx) -> Result<(), String> { let (vd, secs) = judge(b, true); entries(b, vd, secs, fx, c) }
/// `vd`, `secs`: what is known of it as a patch with compression
fn entries(b: &[u8], vd: Verdict, secs: Vec<RSec>, fx: &Fix, c: &mut Ctx) -> Result<(), String> {
    let (vp, _) = judge(b, false);
    let out: u64 = secs.iter().map(|s| s.out() as u64).sum();
    let lim = allowance(b, &secs, out);
    let (ep, ed) = (vp == Verdict::Refuse, vd == Verdict::Refuse);
    let nsec = b.len() + 2;
    c.sample(|| format!("{} -> model: plain {vp:?}, with compression {vd:?}", abbrev(b)));
    entry("reader iterator", b, ep, lim, c, || {
        let mut k = 0;
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(b));
        while let Some(r) = it.next_borrowed() { e2s(r.map(|_| ()))?; k += 1; assert!(k <= nsec, "more sections than bytes") }
        Ok(())
    })?;
    entry("decoder iterator", b, ed, lim, c, || {
        let mut k = 0;
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(b));
        while let Some(r) = it.next_borrowed() { e2s(r.map(|_| ()))?; k += 1; assert!(k <= nsec, "more sections than bytes") }
        Ok(())
    })?;
    // one section through the building blocks
    let one = parse_section(b, false);
    entry("read_section", b, one.is_err(), lim, c, || e2s(smdiff_reader::read_section(&mut Cursor::new(b), &mut vec![]).map(|_| ())))?;
    let h = parse_header_of(b);
    entry("read_section_header", b, h.is_err(), lim, c, || e2s(smdiff_reader::read_section_header(&mut Cursor::new(b)).map(|_| ())))?;
    for il in [false, true] {
        entry("read_op", b, false, lim, c, || { let (mut x, mut y) = (u64::MAX, 1u64 << 63); e2s(smdiff_reader::read_op(&mut Cursor::new(b), &mut x, &mut y, il).map(|_| ())) })?;
    }
    // applying
    let sem = vd == Verdict::Valid && interp(&secs, Some(&fx.src)).is_err();
    let sem0 = vd == Verdict::Valid && interp(&secs, None).is_err();
    entry("apply_patch", b, ed || sem, lim, c, || apply(b, Some(&fx.src)))?;
    entry("apply_patch without source", b, ed || sem0, lim, c, || apply(b, None))?;
    entry("extract_patch_instructions", b, ed, lim, c, || e2s(smdiff_merger::extract_patch_instructions(Cursor::new(b))))?;
    let m = entry("Merger::new", b, ed, lim, c, || e2s(smdiff_merger::Merger::new(Cursor::new(b))))?;
    if let Some(m) = m {
        match m {
            Ok(m) => {
                let m2 = m.clone();
                entry("Merger::finish and write", b, false, lim, c, || e2s(m2.finish().write(&mut vec![], None, None, None)))?;
                let r = entry("Merger::merge of a valid predecessor", b, false, lim, c, || e2s(m.merge(Cursor::new(&fx.pred[..]))))?;
                if let Some(r) = r {
                    let s = match r { Ok(m) => m.finish(), Err(s) => s };
                    entry("writing a summary", b, false, lim, c, || e2s(s.write(&mut vec![], None, Some(Format::Segregated), None)))?;
                }
            }
            Err(s) => { entry("writing a summary", b, false, lim, c, || e2s(s.write(&mut vec![], None, Some(Format::Segregated), None)))?; }
        }
    }
    let m = smdiff_merger::Merger::new(Cursor::new(&fx.term[..])).map_err(|e| e.to_string())?.map_err(|_| "fixture")?;
    entry("Merger::merge as predecessor", b, ed, lim, c, || e2s(m.merge(Cursor::new(b)).map(|_| ())))?;
    entry("transcode", b, ed, lim, c, || e2s(smdiff_merger::transcoder::transcode(&mut Cursor::new(b), &mut vec![], Format::Segregated, None, 70000)))?;
    c.nontrivial += ed as u64;
    if ed { c.outcome(H::new(6).b(b)) } else { c.note("not refused by the model") }
    Ok(())
}

pub const ALPHA: [u8; 24] = [0x00, 0x01, 0x02, 0x03, 0x05, 0x08, 0x10, 0x18, 0x20, 0x3e, 0x3f, 0x40, 0x41, 0x48, 0x7f, 0x80, 0x81, 0x82, 0x90, 0xbf, 0xc0, 0xc1, 0xfe, 0xff];

/// valid patches, each small, together using every feature
pub fn corpus() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let a = ROp::Add(vec![1, 2, 3]);
    let bodies: Vec<(&str, Vec<Vec<ROp>>)> = vec![
        ("empty", vec![vec![]]),
        ("add", vec![vec![a.clone()]]),
        ("run", vec![vec![ROp::Run(9, 62)]]),
        ("copies", vec![vec![ROp::CopyD(3, 4), ROp::CopyO(1, 2), ROp::CopyD(20, 1), ROp::CopyO(0, 6)]]),
        ("mixed", vec![vec![a.clone(), ROp::CopyD(0, 24), ROp::Run(1, 5), ROp::Add(vec![4]), ROp::CopyO(3, 7)]]),
        ("sizes", vec![vec![ROp::Add(vec![7; 63]), ROp::CopyO(0, 62), ROp::CopyO(1, 64)]]),
        ("three", vec![vec![ROp::CopyD(1, 2)], vec![], vec![ROp::CopyO(0, 2), a.clone()]]),
        ("two", vec![vec![a.clone(), ROp::Run(3, 3)], vec![ROp::CopyO(5, 1), ROp::CopyD(7, 9)]]),
    ];
    for (n, b) in &bodies {
        for seg in [false, true] {
            for algo in 0..4u8 {
                let k = b.len();
                let secs: Vec<RSec> = b.iter().enumerate().map(|(i, o)| RSec { ops: o.clone(), seg, algo, more: i + 1 < k }).collect();
                v.push((format!("{n}/{}/{algo}", if seg { "seg" } else { "int" }), enc_patch(&secs)));
            }
        }
    }
    // algorithms mixed in one patch
    v.push(("mixed-algos".into(), enc_patch(&[
        RSec { ops: vec![a.clone()], seg: false, algo: 2, more: true },
        RSec { ops: vec![ROp::CopyO(1, 2)], seg: true, algo: 3, more: true },
        RSec { ops: vec![ROp::Run(8, 8), a], seg: true, algo: 1, more: true },
        RSec { ops: vec![ROp::CopyD(8, 8)], seg: false, algo: 0, more: false },
    ])));
    // nested patch of two sections, with an output copy in it
    let body = enc_body(&[ROp::Add(vec![5, 5, 5, 5])], false); // 0x84 5 5 5 5
    let mut p = vec![8u8, 1, 4];
    p.extend(enc_patch(&[RSec { ops: vec![ROp::Add(body[..3].to_vec())], seg: false, algo: 0, more: true }, RSec { ops: vec![ROp::CopyO(1, 2)], seg: true, algo: 0, more: false }]));
    v.push(("nested-two".into(), p));
    // zstd frame with a checksum and several blocks
    let ops = vec![ROp::Add(noise(1, 300))];
    let s = RSec { ops, seg: false, algo: 2, more: false };
    let mut z = enc_header(&s);
    z.extend(zstd_frame(&enc_body(&s.ops, false), 3, true));
    v.push(("zstd-checksum".into(), z));
    v
}
/// a frame as the streaming interface of libzstd writes it, optionally with a checksum
pub fn zstd_frame(b: &[u8], level: i32, checksum: bool) -> Vec<u8> {
    use std::io::Write;
    let mut e = zstd::Encoder::new(Vec::new(), level).unwrap();
    e.include_checksum(checksum).unwrap();
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

/// frame with the given window descriptor and n RLE blocks of 128 KiB
fn zstd_bomb(wd: u8, n: usize, last: bool) -> Vec<u8> {
    let mut f = vec![0x28, 0xB5, 0x2F, 0xFD, 0x00, wd];
    for k in 0..n {
        let h = (131072u32 << 3) | (1 << 1) | (last && k + 1 == n) as u32;
        f.extend(&h.to_le_bytes()[..3]);
        f.push(0xC1); // a run operation of one byte, if read
    }
    f
}
fn nested_bomb(nsec: usize, copies: usize, last_ok: bool) -> Vec<u8> {
    let mut p = vec![8u8, 1, 1]; // one operation, one byte of output, smdiff compressed
    for k in 0..nsec {
        let mut ops = vec![];
        if k == 0 { ops.push(ROp::Add(noise(1, 100))); for _ in 0..10 { let n = ops.iter().map(|o| o.len()).sum::<usize>().min(30000); ops.push(ROp::CopyO(0, n as u16)) } }
        let base = ops.len();
        for _ in 0..copies - base.min(copies) { ops.push(ROp::CopyO(0, 30000)) }
        p.extend(enc_sec(&RSec { ops, seg: false, algo: 0, more: k + 1 < nsec || !last_ok }));
    }
    p
}

pub fn p06(t: Tier) -> Vec<Space> {
    let fx = Arc::new(fix());
    let mut v = vec![];
    let s = Strings::new(&ALPHA, t.pick(5, 6));
    let f = fx.clone();
    v.push(space("strings", s.total(), move |i, c| all_entries(&s.get(i), &f, c)));
    // bytes after a header that is in order
    let heads: Vec<Vec<u8>> = vec![vec![0, 1, 3], vec![0x40, 1, 2, 1], vec![0, 2, 4], vec![0x40, 2, 3, 3], vec![0x80, 1, 1], vec![8, 1, 3], vec![0x48, 1, 0, 3], vec![0x10, 1, 3], vec![0x18, 1, 3], vec![0, 3, 0x80, 1]];
    let s = Strings::new(&ALPHA, t.pick(4, 5));
    let f = fx.clone();
    v.push(space("headed-strings", s.total() * heads.len() as u64, move |i, c| {
        let n = heads.len() as u64;
        let mut b = heads[(i % n) as usize].clone();
        b.extend(s.get(i / n));
        all_entries(&b, &f, c)
    }));
    // numbers of the header
    let nums: Vec<Vec<u8>> = {
        let mut x: Vec<Vec<u8>> = [0u64, 1, 2, 3, 127, 128, 65535, 65536, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 3, 1 << 63, u64::MAX - 2, u64::MAX].iter().map(|n| { let mut o = vec![]; uv(&mut o, *n); o }).collect();
        x.push(vec![0x81, 0]); // longer than necessary
        x.push(vec![0x80; 10]);
        x.push(vec![0xff; 11]);
        x.push([vec![0xff; 9], vec![2]].concat());
        x.push([vec![0x81; 9], vec![0x80, 0]].concat());
        x
    };
    let tails: Vec<Vec<u8>> = vec![vec![], vec![0x81, 7], vec![0xC1, 7], vec![0x83, 1, 2, 3, 0x81, 1]];
    let k = nums.len() as u64;
    let r = Radix(vec![k, k, k, 4, 24]);
    let f = fx.clone();
    v.push(space("header-numbers", r.total(), move |i, c| {
        let d = r.get(i);
        // control bytes: format, continuation, compressions 0..=4 and 7, reserved bits
        let cb = [0x00u8, 0x40, 0x80, 0xC0, 0x08, 0x48, 0x10, 0x50, 0x18, 0x58, 0x20, 0x60, 0x38, 0x78, 0xB8, 0x01, 0x47, 0x07, 0x28, 0x30, 0xA0, 0x90, 0x98, 0x88][d[4]];
        let mut b = vec![cb];
        b.extend(&nums[d[0]]);
        if cb & 64 != 0 { b.extend(&nums[d[1]]) } else if d[1] > 0 { return Ok(()) }
        b.extend(&nums[d[2]]);
        b.extend(&tails[d[3]]);
        all_entries(&b, &f, c)
    }));
    // mutations of valid patches
    let co = Arc::new(corpus());
    let mut idx = vec![];
    for (p, (_, b)) in co.iter().enumerate() {
        for at in 0..b.len() {
            for x in 0..256u64 { idx.push((p as u32, at as u32, x as u32)) } // replace
            idx.push((p as u32, at as u32, 256)); // delete
        }
        for at in 0..=b.len() { for x in 0..24 { idx.push((p as u32, at as u32, 257 + x)) } } // insert
        for at in 1..=b.len() { for n in 1..4 { if at + n <= b.len() { idx.push((p as u32, at as u32, 300 + n as u32)) } } } // duplicate n bytes
    }
    let (f, c2) = (fx.clone(), co.clone());
    v.push(space("mutations", idx.len() as u64, move |i, c| {
        let (p, at, x) = idx[i as usize];
        let mut b = c2[p as usize].1.clone();
        let at = at as usize;
        match x {
            0..=255 => b[at] = x as u8,
            256 => { b.remove(at); }
            257..=299 => b.insert(at, ALPHA[x as usize - 257]),
            _ => { let n = x as usize - 300; let d = b[at..at + n].to_vec(); b.splice(at..at, d); }
        }
        all_entries(&b, &f, c)
    }));
    // two bytes replaced at once
    let mut idx = vec![];
    for (p, (_, b)) in co.iter().enumerate() {
        if b.len() > t.pick(24, 80) { continue }
        for a in 0..b.len() { for e in a + 1..b.len() { if e - a <= t.pick(8, 80) { idx.push((p, a, e)) } } }
    }
    let (f, c2) = (fx.clone(), co.clone());
    v.push(space("double-mutations", idx.len() as u64 * 576, move |i, c| {
        let (p, a, e) = idx[(i / 576) as usize];
        let mut b = c2[p].1.clone();
        b[a] = ALPHA[(i % 24) as usize];
        b[e] = ALPHA[(i / 24 % 24) as usize];
        all_entries(&b, &f, c)
    }));
    // section data that is malformed, in intact frames of every compression
    let bodies: Vec<(Vec<Vec<ROp>>, bool)> = {
        let a = ROp::Add(vec![1, 2, 3]);
        let v = vec![vec![vec![]], vec![vec![a.clone()]], vec![vec![ROp::Run(9, 62)]], vec![vec![ROp::CopyD(3, 4), ROp::CopyO(1, 2), ROp::CopyD(20, 1), ROp::CopyO(0, 6)]],
            vec![vec![a.clone(), ROp::CopyD(0, 24), ROp::Run(1, 5), ROp::Add(vec![4]), ROp::CopyO(3, 7)]], vec![vec![ROp::Add(vec![7; 63]), ROp::CopyO(0, 62), ROp::CopyO(1, 64)]],
            vec![vec![ROp::CopyD(1, 2)], vec![], vec![ROp::CopyO(0, 2), a.clone()]], vec![vec![a.clone(), ROp::Run(3, 3)], vec![ROp::CopyO(5, 1), ROp::CopyD(7, 9)]]];
        v.into_iter().flat_map(|b| [(b.clone(), false), (b, true)]).collect()
    };
    let mut idx = vec![];
    for (k, (b, seg)) in bodies.iter().enumerate() {
        for at in 0..b.len() {
            let len = enc_body(&b[at], *seg).len();
            for algo in 1..4u8 {
                for cut in 0..len { idx.push((k, at, algo, 0, cut, 0)) }
                for (j, _) in ALPHA.iter().enumerate() { idx.push((k, at, algo, 1, j, 0)); for p in 0..len { idx.push((k, at, algo, 2, p, j)) } }
                for p in 0..18 { idx.push((k, at, algo, 3, p, 0)) }
            }
        }
    }
    let f = fx.clone();
    v.push(space("compressed-damage", idx.len() as u64, move |i, c| {
        let (k, at, algo, kind, x, y) = idx[i as usize];
        let (b, seg) = &bodies[k];
        let mut p = vec![];
        let mut verdict = Verdict::Valid;
        let mut secs = vec![];
        for (j, ops) in b.iter().enumerate() {
            let s = RSec { ops: ops.clone(), seg: *seg, algo: if j == at { algo } else { (j + k) as u8 % 4 }, more: j + 1 < b.len() };
            if j != at { p.extend(enc_sec(&s)); secs.push(s); continue }
            let mut body = enc_body(&s.ops, s.seg);
            let (mut nops, mut adds, mut rest) = (s.ops.len() as u64, s.adds() as u64, (s.out() - if *seg { s.adds() } else { 0 }) as u64);
            match kind {
                0 => body.truncate(x),
                1 => body.push(ALPHA[x]),
                2 => body[x] = ALPHA[y],
                _ => { let d = [1i64, -1, 2, -2, 62, 256][x % 6]; let f = [&mut nops, &mut adds, &mut rest]; let t: &mut u64 = f.into_iter().nth(x / 6).unwrap(); match t.checked_add_signed(d) { Some(n) => *t = n, None => return Ok(()) } }
            }
            let head = |algo: u8| -> Vec<u8> { let mut h = vec![algo << 3 | (*seg as u8) << 6 | (s.more as u8) << 7]; uv(&mut h, nops); if *seg { uv(&mut h, adds) } uv(&mut h, rest); h };
            // what the data is worth without compression
            let plain = [head(0), body.clone()].concat();
            match parse_section(&plain, false) { Ok((t, n)) if n == plain.len() => secs.push(RSec { algo, ..t }), _ => verdict = Verdict::Refuse }
            p.extend(head(algo));
            match algo { 1 => p.extend(patch_of(if body.is_empty() { vec![] } else { vec![ROp::Add(body)] }, false)), 2 => p.extend(zstd_frame(&body, 3, x % 2 == 1)), _ => p.extend(brotli_compress(&body)) }
        }
        entries(&p, verdict, secs, &f, c)
    }));
    // every pair of valid patches concatenated with the continuation bit set
    let (f, c2) = (fx.clone(), co.clone());
    let n = co.len() as u64;
    v.push(space("concatenations", n * n * 2, move |i, c| {
        let (a, b, more) = (&c2[(i % n) as usize].1, &c2[(i / n % n) as usize].1, i / n / n);
        let mut x = a.clone();
        if more == 1 { x[0] |= 128 }
        x.extend(b);
        all_entries(&x, &f, c)
    }));
    // input that asks for much more than it has
    let f = fx.clone();
    v.push(space("amplification", 40, move |i, c| {
        let b = match i {
            // zstd frames whose content goes on for ever, with windows from 1 KiB to beyond a terabyte
            0..=19 => {
                let wd = [0x00u8, 0x50, 0x78, 0x80, 0x88, 0x90, 0xA0, 0xC0, 0xF8, 0xFF][(i / 2) as usize];
                let mut h = if i % 2 == 0 { vec![0x10, 1, 3] } else { vec![0x10]};
                if i % 2 == 1 { uv(&mut h, 100); uv(&mut h, 100) }
                h.extend(zstd_bomb(wd, 6000, i % 2 == 0));
                h
            }
            // a nested patch that generates much more than the section can use
            20 => nested_bomb(40, 500, true),
            21 => nested_bomb(40, 500, false),
            22 => nested_bomb(3, 500, true),
            23 => nested_bomb(200, 500, true),
            // brotli stream of a run
            24 => { let mut h = vec![0x18, 1, 3]; h.extend(brotli_compress(&vec![0xC1; 40 << 20])); h }
            // many operations announced, none there
            25..=32 => {
                let mut h = vec![[0x00u8, 0x40, 0x10, 0x18][(i % 4) as usize]];
                uv(&mut h, MAXW); if i % 4 == 1 { uv(&mut h, if i < 29 { 0 } else { MAXW }); uv(&mut h, if i < 29 { MAXW } else { 0 }) } else { uv(&mut h, MAXW) }
                if i >= 29 { h.extend([0x80, 0xff, 0xff]) }
                h
            }
            // segregated Adds announced without their bytes
            33 => { let mut h = vec![0x40]; uv(&mut h, 256); uv(&mut h, 256 * 65535); uv(&mut h, 0); for _ in 0..256 { h.extend([0x80, 0xff, 0xff]) } h }
            34 => { let mut h = vec![0x40]; uv(&mut h, 1000); uv(&mut h, MAXW); uv(&mut h, 0); for _ in 0..1000 { h.extend([0x80, 0xff, 0xff]) } h }
            // endless sections
            35 => vec![0x80, 0, 0].repeat(100_000),
            36 => vec![0xC0, 0, 0, 0].repeat(100_000),
            37 => { let mut b = vec![0x88, 0, 0]; b.extend([0x80, 0, 0].repeat(100_000)); b }
            38 => vec![0xff; 1 << 20],
            _ => vec![0x80; 1 << 20],
        };
        all_entries(&b, &f, c)
    }).serial());
    v
}

// ------------------------------------------------------------------------------------------ P07
fn truncations(p: &[u8], secs: &[RSec], c: &mut Ctx, all: bool) -> Result<(), String> {
    let src = noise(61, 400);
    let plain = secs.iter().all(|s| s.algo == 0);
    // the complete patch is accepted (otherwise the space is empty of meaning)
    let full = apply(p, Some(&src)).map_err(|e| format!("the complete patch is refused: {e}"))?;
    c.state(H::new(7).b(p));
    let term = patch_of(vec![ROp::CopyD(0, 1)], false);
    let d = || format!("{:?}", secs.iter().map(|s| (s.seg, s.algo, show(&s.ops).chars().take(200).collect::<String>())).collect::<Vec<_>>());
    c.sample(|| format!("{} truncation points of {}", p.len(), d()));
    for k in 0..p.len() {
        let b = &p[..k];
        c.transitions += 1;
        let bad = |w: &str| Err(format!("{w} accepts the first {k} of {} bytes of {}", p.len(), d()));
        if plain {
            match catch(|| read_plain(b)) { Ok(Err(_)) => {} Ok(Ok(_)) => return bad("reader"), Err(e) => return Err(e) }
            let mut it = smdiff_reader::SectionIterator::new(Cursor::new(b));
            let mut err = false;
            while let Some(r) = it.next_borrowed() { if r.is_err() { err = true } }
            if !err { return bad("reader (borrowed)") }
            c.evals += 2;
        }
        match catch(|| read_dec(b)) { Ok(Err(_)) => {} Ok(Ok(_)) => return bad("decoder reader"), Err(e) => return Err(e) }
        match catch(|| apply(b, Some(&src))) { Ok(Err(_)) => {} Ok(Ok(o)) => return bad(&format!("apply ({} of {} bytes out)", o.len(), full.len())), Err(e) => return Err(e) }
        c.evals += 2;
        if all {
            let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(b));
            let mut err = false;
            while let Some(r) = it.next_borrowed() { if r.is_err() { err = true } }
            if !err { return bad("decoder reader (borrowed)") }
            if smdiff_merger::extract_patch_instructions(Cursor::new(b)).is_ok() { return bad("extraction") }
            if smdiff_merger::Merger::new(Cursor::new(b)).is_ok() { return bad("merging (terminal)") }
            let m = smdiff_merger::Merger::new(Cursor::new(&term[..])).unwrap().map_err(|_| "fixture")?;
            if m.merge(Cursor::new(b)).is_ok() { return bad("merging (predecessor)") }
            if smdiff_merger::transcoder::transcode(&mut Cursor::new(b), &mut vec![], Format::Interleaved, None, 70000).is_ok() { return bad("transcoding") }
            c.evals += 5;
        }
    }
    c.traces += 1;
    Ok(())
}
pub fn p07(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let ts = vec![Tok::Add(1), Tok::Add(64), Tok::Run(3, 1), Tok::Run(4, 62), Tok::D(0, 1), Tok::D(70, 63), Tok::D(90, 300), Tok::OStart(0, 1), Tok::OAll, Tok::Sec];
    let s = Seqs { k: ts.len() as u64, max: t.pick(4, 5) };
    let (t1, s1) = (ts.clone(), s.clone());
    v.push(space("programs", s.total() * 2, move |i, c| {
        let q = s1.get(i / 2);
        let tk: Vec<&Tok> = q.iter().map(|d| &t1[*d]).collect();
        let Some(b) = build(&tk, 4) else { return Ok(()) };
        let secs = b.secs(i % 2 == 1, 0);
        truncations(&enc_patch(&secs), &secs, c, true)
    }));
    let s = Seqs { k: ts.len() as u64, max: t.pick(3, 4) };
    let (t1, s1) = (ts.clone(), s.clone());
    v.push(space("compressed-programs", s.total() * 6, move |i, c| {
        let q = s1.get(i / 6);
        let tk: Vec<&Tok> = q.iter().map(|d| &t1[*d]).collect();
        let Some(b) = build(&tk, 4) else { return Ok(()) };
        let secs = b.secs(i % 2 == 1, (i / 2 % 3 + 1) as u8);
        truncations(&enc_patch(&secs), &secs, c, true)
    }));
    // every sequence of algorithms over three sections
    let r = Radix(vec![4, 4, 4, 2, 3]);
    v.push(space("mixed-algorithms", r.total(), move |i, c| {
        let d = r.get(i);
        let bodies = [vec![ROp::Add(noise(1, 40)), ROp::CopyD(3, 9)], vec![], vec![ROp::CopyO(1, 30), ROp::Run(5, 40), ROp::Add(text(5, 90))]];
        let secs: Vec<RSec> = (0..3).map(|k| RSec { ops: bodies[(k + d[4]) % 3].iter().filter(|o| k > 0 || !matches!(o, ROp::CopyO(..))).cloned().collect(), seg: (d[3] + k) % 2 == 1, algo: d[k] as u8, more: k < 2 }).collect();
        if interp(&secs, Some(&noise(61, 400))).is_err() { return Ok(()) }
        truncations(&enc_patch(&secs), &secs, c, true)
    }));
    // patches written by the encoder itself, all compressions and levels, larger than the read buffer
    let r = Radix(vec![8, 2, 4]);
    v.push(space("encoder-patches", r.total(), move |i, c| {
        let d = r.get(i);
        use smdiff_encoder::*;
        let (n, kind) = [(0usize, 0), (1, 0), (500, 1), (if t.thorough() { 70_000 } else { 9_000 }, 1)][d[2]];
        let trgt = if kind == 0 { noise(9, n) } else { let mut x = text(9, n / 2); x.extend(noise(7, n / 2)); x };
        let src = noise(61, 400);
        let mut cfg = EncoderConfig::default().set_output_segment_size(65535);
        cfg.sec_comp = match d[0] { 0 => None, 1 => Some(SecondaryCompression::new_smdiff_default()), 2 => Some(SecondaryCompression::new_zstd_default()), 3 => Some(SecondaryCompression::Zstd { level: 19 }), 4 => Some(SecondaryCompression::new_brotli_default()), 5 => Some(SecondaryCompression::Zstd { level: 1 }),
            6 => { let mut o = brotli::BrotliEncoderOptions::default(); o.quality(brotli::Quality::new(0).unwrap()); Some(SecondaryCompression::Brotli { options: o }) }
            _ => { let mut o = brotli::BrotliEncoderOptions::default(); o.quality(brotli::Quality::new(5).unwrap()); Some(SecondaryCompression::Brotli { options: o }) } };
        if d[1] == 1 { cfg = cfg.format_segregated() }
        let p = crate::sut::encode(Some(&src), &trgt, &cfg).map_err(|e| e.to_string())?;
        let secs: Vec<RSec> = read_dec(&p)?.into_iter().map(|x| x.1).collect();
        truncations(&p, &secs, c, false)
    }));
    // section data over several blocks of the compressors, cut at every byte of the last 300 and around each 64 KiB
    v.push(space("block-boundaries", 6, |i, c| {
        let n = [131_000usize, 131_072 - 3, 262_144][(i % 3) as usize];
        let mut left = n;
        let mut ops = vec![];
        while left > 0 { let k = left.min(65535); ops.push(ROp::Add(text(left as u64, k))); left -= k }
        let s = RSec { ops, seg: i >= 3, algo: 2 + (i % 2) as u8, more: false };
        let p = enc_sec(&s);
        for k in 0..p.len() {
            if !(k < 50 || k + 300 > p.len() || k % 65536 < 4 || k % 1009 == 0) { continue }
            c.transitions += 1;
            c.evals += 1;
            if apply(&p[..k], None).is_ok() { return Err(format!("apply accepts {k} of {} bytes (algorithm {}, {n} Add bytes)", p.len(), s.algo)) }
        }
        c.state(H::new(7).b(&p));
        c.traces += 1;
        Ok(())
    }));
    v
}
