//! P08 environment faults on every stream of every operation; P16 histories and schedules of operations.
use super::p01_encode::{Cfg, Sec, PLAIN};
use super::p06_bytes;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use crate::vio::*;
use smdiff_common::Format;
use std::io::{Cursor, ErrorKind};
use std::sync::Arc;

type RunFn = Arc<dyn Fn(&mut [Vio]) -> std::io::Result<Vec<u8>> + Send + Sync>;
/// An operation on streams: what they hold at the start, and what is run on them. The result is
/// the bytes of a description of what was returned, and the contents of every stream afterwards.
#[derive(Clone)]
pub struct Scn { pub name: String, pub data: Vec<(&'static str, Vec<u8>)>, pub run: RunFn }
fn scn(name: impl Into<String>, data: Vec<(&'static str, Vec<u8>)>, run: impl Fn(&mut [Vio]) -> std::io::Result<Vec<u8>> + Send + Sync + 'static) -> Scn {
    Scn { name: name.into(), data, run: Arc::new(run) }
}
fn none(r: std::io::Result<()>) -> std::io::Result<Vec<u8>> { r.map(|_| vec![]) }
#[derive(Clone, PartialEq, Eq)]
pub struct Out { pub ret: Vec<u8>, pub data: Vec<Vec<u8>> }
impl Scn {
    fn streams(&self, plans: &[Plan]) -> Vec<Vio> { self.data.iter().zip(plans).map(|(d, p)| Vio::new(d.1.clone(), *p)).collect() }
    /// (result, per stream: calls and whether its plan had an effect)
    pub fn go(&self, plans: &[Plan]) -> Result<(std::io::Result<Out>, Vec<(u64, bool, bool)>), String> {
        let mut v = self.streams(plans);
        let r = catch(|| (self.run)(&mut v))?;
        let logs = v.iter().map(|s| { let l = s.log.borrow(); (l.calls, l.fired, l.soft) }).collect();
        Ok((r.map(|ret| Out { ret, data: v.into_iter().map(|s| s.data).collect() }), logs))
    }
    pub fn full(&self) -> Vec<Plan> { vec![Plan::Full; self.data.len()] }
}
fn merger_end(r: Result<smdiff_merger::Merger, smdiff_merger::SummaryPatch>) -> (u8, smdiff_merger::SummaryPatch) { match r { Ok(m) => (1, m.finish()), Err(s) => (0, s) } }

/// `pure`: nothing of the code under test runs while the scenarios are made.
pub fn scenarios(big: bool, pure: bool) -> Vec<Scn> {
    let mut v = vec![];
    let src = noise(81, 300);
    let trgt = { let mut t = src[20..140].to_vec(); t.extend(vec![b'z'; 90]); t.extend(noise(82, 70)); t.extend(&src[150..300]); t.extend(noise(82, 70)); t };
    let cfgs: Vec<(&str, Cfg)> = vec![
        ("plain", PLAIN),
        ("seg", Cfg { seg: true, ..PLAIN }),
        ("target", Cfg { trgt: Some((60, 10, None)), naive: true, lazy: Some(20), ..PLAIN }),
        ("smdiff", Cfg { sec: Sec::Smdiff(3), ..PLAIN }),
        ("zstd", Cfg { sec: Sec::Zstd(3), seg: true, ..PLAIN }),
        ("brotli", Cfg { sec: Sec::Brotli(4), ..PLAIN }),
        ("no matcher", Cfg { src: None, ..PLAIN }),
    ];
    let mut patches: Vec<(String, Vec<u8>)> = vec![];
    for (n, c) in &cfgs {
        let c = *c;
        v.push(scn(format!("encode/{n}"), vec![("source", src.clone()), ("target", trgt.clone()), ("patch", vec![])], move |s| {
            let [a, b, w] = s else { unreachable!() };
            none(smdiff_encoder::encode(Some(a), b, w, &c.make()))
        }));
        if !pure { patches.push((n.to_string(), encode(Some(&src), &trgt, &c.make()).expect("encode"))) }
    }
    v.push(scn("encode/no source", vec![("target", trgt.clone()), ("patch", vec![])], move |s| {
        let [b, w] = s else { unreachable!() };
        none(smdiff_encoder::encode(None, b, w, &Cfg { trgt: Some((60, 10, None)), ..PLAIN }.make()))
    }));
    v.push(scn("encode/empty", vec![("source", vec![]), ("target", vec![]), ("patch", vec![])], move |s| {
        let [a, b, w] = s else { unreachable!() };
        none(smdiff_encoder::encode(Some(a), b, w, &PLAIN.make()))
    }));
    if big {
        let long = { let mut t = noise(83, 100_000); t.extend(&src); t.extend(vec![7; 70_000]); t };
        for (n, c) in [("plain", PLAIN), ("smdiff", Cfg { sec: Sec::Smdiff(1), ..PLAIN }), ("zstd", Cfg { sec: Sec::Zstd(1), ..PLAIN }), ("brotli", Cfg { sec: Sec::Brotli(1), seg: true, ..PLAIN })] {
            let c = Cfg { size: 65535, ..c };
            v.push(scn(format!("encode/sections/{n}"), vec![("source", src.clone()), ("target", long.clone()), ("patch", vec![])], move |s| {
                let [a, b, w] = s else { unreachable!() };
                none(smdiff_encoder::encode(Some(a), b, w, &c.make()))
            }));
            let p = encode(Some(&src), &long, &c.make()).expect("encode");
            v.push(scn(format!("apply/sections/{n}"), vec![("patch", p), ("source", src.clone()), ("output", vec![])], |s| {
                let [p, a, o] = s else { unreachable!() };
                none(smdiff_decoder::apply_patch(p, Some(a), o))
            }));
        }
    }
    // every reading operation on patches that use every feature
    patches.extend(p06_bytes::corpus());
    let fx = p06_bytes::fix();
    for (n, p) in &patches {
        let own = n.contains('/') || n.contains('-');
        let s0 = if own { fx.src() } else { src.clone() };
        v.push(scn(format!("apply/{n}"), vec![("patch", p.clone()), ("source", s0.clone()), ("output", vec![])], |s| {
            let [p, a, o] = s else { unreachable!() };
            none(smdiff_decoder::apply_patch(p, Some(a), o))
        }));
        v.push(scn(format!("decoder sections/{n}"), vec![("patch", p.clone())], |s| {
            let mut it = smdiff_decoder::reader::SectionIterator::new(&mut s[0]);
            let mut o = vec![];
            while let Some(r) = it.next_borrowed() { let (ops, h) = r?; o.push((h, sec_of(&h, ops))) }
            Ok(format!("{o:?}").into_bytes())
        }));
        v.push(scn(format!("extract/{n}"), vec![("patch", p.clone())], |s| smdiff_merger::extract_patch_instructions(&mut s[0]).map(|r| format!("{r:?}").into_bytes())));
        let plain = parse_patch(p, false).is_ok();
        if plain {
            v.push(scn(format!("sections/{n}"), vec![("patch", p.clone())], |s| {
                let mut it = smdiff_reader::SectionIterator::new(&mut s[0]);
                let mut o = vec![];
                while let Some(r) = it.next_borrowed() { let (ops, h) = r?; o.push((h, sec_of(&h, ops))) }
                Ok(format!("{o:?}").into_bytes())
            }));
            v.push(scn(format!("read_section/{n}"), vec![("patch", p.clone())], |s| {
                let mut b = vec![];
                let h = smdiff_reader::read_section(&mut s[0], &mut b)?;
                Ok(format!("{h:?} {b:?} {}", s[0].pos).into_bytes())
            }));
            v.push(scn(format!("read_op/{n}"), vec![("patch", p.clone())], |s| {
                let h = smdiff_reader::read_section_header(&mut s[0])?;
                let (mut d, mut t) = (0, 0);
                let mut o = vec![];
                for _ in 0..h.num_operations { o.push(smdiff_reader::read_op(&mut s[0], &mut d, &mut t, h.is_interleaved())?) }
                Ok(format!("{o:?} {d} {t} {}", s[0].pos).into_bytes())
            }));
        }
        let small = n.contains('/') && !n.starts_with("add") && !n.starts_with("run");
        if !own || small || n.contains("mixed") {
            for (k, (f, c)) in [(Format::Interleaved, Sec::None), (Format::Segregated, Sec::Zstd(3)), (Format::Interleaved, Sec::Brotli(3)), (Format::Segregated, Sec::Smdiff(2))].into_iter().enumerate() {
                if k > 0 && !n.contains("mixed") && n != "plain" { continue }
                v.push(scn(format!("transcode/{n}/{k}"), vec![("patch", p.clone()), ("new patch", vec![])], move |s| {
                    let [p, w] = s else { unreachable!() };
                    none(smdiff_merger::transcoder::transcode(p, w, f, c.make(), 1 << 20))
                }));
            }
        }
    }
    // merging a chain
    let chain = |last: &Vec<u8>, algo: u8| {
        let a = enc_patch(&[RSec { ops: vec![ROp::CopyD(0, 9), ROp::Run(4, 8)], seg: false, algo, more: true }, RSec { ops: vec![ROp::CopyO(3, 7), ROp::Add(vec![1, 2, 3])], seg: true, algo, more: false }]);
        let b = enc_patch(&[RSec { ops: vec![ROp::CopyD(2, 20), ROp::CopyO(1, 4)], seg: true, algo, more: false }]);
        (a, b, last.clone())
    };
    for algo in 0..4u8 {
        for (k, (f, c)) in [(None, Sec::None), (Some(Format::Segregated), Sec::None), (Some(Format::Interleaved), Sec::Smdiff(1)), (None, Sec::Zstd(1)), (Some(Format::Segregated), Sec::Brotli(1))].into_iter().enumerate() {
            let (a, b, l) = chain(&patch_of(vec![ROp::CopyD(1, 20), ROp::Add(vec![9]), ROp::CopyD(0, 3)], algo % 2 == 1), algo);
            v.push(scn(format!("merge/{algo}/{k}"), vec![("last", l), ("second", b), ("first", a), ("summary", vec![])], move |s| {
                let [l, b, a, w] = s else { unreachable!() };
                let mut r = smdiff_merger::Merger::new(l)?;
                if let Ok(m) = r { r = m.merge(b)? }
                if let Ok(m) = r { r = m.merge(a)? }
                let (early, sum) = merger_end(r);
                sum.write(w, None, f, c.make())?;
                Ok(vec![early])
            }));
        }
    }
    // deltas in VCDIFF
    let tab = crate::vcd::table();
    for (k, (ws, st)) in super::p14_vcdiff::sample_deltas().iter().enumerate() {
        v.push(scn(format!("vcdiff/{k}"), vec![("delta", crate::vcd::enc(ws, (*st).min(1), &tab).unwrap()), ("patch", vec![])], |s| {
            let [d, w] = s else { unreachable!() };
            none(smdiff_vcdiff::convert_vcdiff_to_smdiff(d, w))
        }));
    }
    // the writer's building blocks
    let ops = vec![ROp::Add(noise(1, 5)), ROp::CopyD(70, 20), ROp::Run(3, 40), ROp::Add(noise(2, 63)), ROp::CopyO(9, 400), ROp::CopyD(0, 63), ROp::Add(noise(3, 300))];
    for seg in [false, true] {
        let (o1, o2) = (ops.clone(), ops.clone());
        v.push(scn(format!("write section/{seg}"), vec![("patch", vec![])], move |s| {
            let r = RSec { ops: o1.clone(), seg, algo: 0, more: false };
            smdiff_writer::write_section_header(&header(&r), &mut s[0])?;
            none(smdiff_writer::write_ops(&to_ops(&o1), &header(&r), &mut s[0]))
        }));
        for c in [Sec::None, Sec::Smdiff(3), Sec::Zstd(3), Sec::Brotli(3)] {
            let o2 = o2.clone();
            v.push(scn(format!("section_writer/{seg}/{c:?}"), vec![("patch", vec![])], move |s| {
                let mut buf = vec![];
                for more in [true, false] {
                    let r = RSec { ops: o2.clone(), seg, algo: 0, more };
                    smdiff_encoder::writer::section_writer(&c.make(), header(&r), &mut s[0], &to_ops(&o2), &mut buf)?;
                }
                Ok(vec![])
            }));
        }
    }
    if pure { settings(&mut v); sizes(&mut v); abandoned(&mut v); twins(&mut v) }
    for n in [0u64, 127, 128, 1 << 14, 1 << 32, u64::MAX] {
        v.push(scn(format!("varint/{n}"), vec![("out", vec![])], move |s| {
            smdiff_common::write_u_varint(&mut s[0], n)?;
            smdiff_common::write_i_varint(&mut s[0], n as i64)?;
            smdiff_common::write_u16(&mut s[0], n as u16)?;
            none(smdiff_common::write_u8(&mut s[0], n as u8))
        }));
        let mut b = vec![];
        uv(&mut b, n); uv(&mut b, zz(n as i64)); b.extend((n as u16).to_le_bytes()); b.push(n as u8);
        v.push(scn(format!("read varint/{n}"), vec![("in", b)], move |s| {
            let a = smdiff_common::read_u_varint(&mut s[0])?;
            let b = smdiff_common::read_i_varint(&mut s[0])?;
            let c = smdiff_common::read_u16(&mut s[0])?;
            let d = smdiff_common::read_u8(&mut s[0])?;
            Ok(format!("{a} {b} {c} {d} {}", s[0].pos).into_bytes())
        }));
    }
    v
}

/// Operations that differ in their settings only, on content for which these matter.
fn settings(v: &mut Vec<Scn>) {
    let words: Vec<Vec<u8>> = (0..9).map(|k| noise(700 + k, 7)).collect();
    let mix = |tag: u64, n: usize| -> Vec<u8> { noise(720 + tag, n).iter().enumerate().flat_map(|(j, x)| { let mut w = words[*x as usize % 9].clone(); w.truncate(4 + *x as usize / 9 % 4); w.extend(noise(7000 + tag * 1000 + j as u64, *x as usize / 36 % 4)); w }).collect() };
    let (src, trgt) = (mix(1, 160), mix(2, 200));
    let secs = [Sec::Smdiff(0), Sec::Smdiff(9), Sec::Zstd(1), Sec::Zstd(19), Sec::Brotli(1), Sec::Brotli(9)];
    let mut cfgs: Vec<(String, Cfg)> = vec![];
    for s in secs { cfgs.push((format!("{s:?}"), Cfg { sec: s, src: None, ..PLAIN })) }
    for l in [0, 3, 9] { cfgs.push((format!("source {l}"), Cfg::level(l, false))); cfgs.push((format!("target {l}"), Cfg::level(l, true).no_src())) }
    for (n, c) in [("lazy 0", Cfg { lazy: Some(0), ..Cfg::level(9, true) }), ("lazy 6", Cfg { lazy: Some(6), ..Cfg::level(9, true) }), ("small table", Cfg { trgt: Some((70, 33, Some(4))), src: None, ..PLAIN })] { cfgs.push((n.into(), c)) }
    for (n, c) in cfgs {
        let (a, b) = (src.clone(), trgt.clone());
        v.push(scn(format!("encode/settings/{n}"), vec![("source", a), ("target", b), ("patch", vec![])], move |s| {
            let [a, b, w] = s else { unreachable!() };
            none(smdiff_encoder::encode(Some(a), b, w, &c.make()))
        }));
    }
    let cut = |d: &[u8]| -> Vec<ROp> { d.chunks(50).enumerate().flat_map(|(k, c)| [ROp::Add(c.to_vec()), ROp::CopyD(k as u64 * 37, 9)]).collect() };
    let ops = cut(&trgt);
    for sec in secs {
        let p = patch_of(ops.clone(), true);
        v.push(scn(format!("transcode/settings/{sec:?}"), vec![("patch", p.clone()), ("new patch", vec![])], move |s| {
            let [p, w] = s else { unreachable!() };
            none(smdiff_merger::transcoder::transcode(p, w, Format::Segregated, sec.make(), 1 << 20))
        }));
        v.push(scn(format!("merge/settings/{sec:?}"), vec![("last", p), ("summary", vec![])], move |s| {
            let [l, w] = s else { unreachable!() };
            let (early, sum) = merger_end(smdiff_merger::Merger::new(l)?);
            sum.write(w, None, None, sec.make())?;
            Ok(vec![early])
        }));
        let o2 = ops.clone();
        v.push(scn(format!("section_writer/settings/{sec:?}"), vec![("patch", vec![])], move |s| {
            let mut buf = vec![];
            for more in [true, false] { smdiff_encoder::writer::section_writer(&sec.make(), header(&RSec { ops: o2.clone(), seg: more, algo: 0, more }), &mut s[0], &to_ops(&o2), &mut buf)? }
            Ok(vec![])
        }));
    }
}
/// Operations on inputs of very different sizes, whose results depend on the capacities chosen for them.
fn sizes(v: &mut Vec<Scn>) {
    let frag = |s: &[u8], tag: u64| -> Vec<u8> {
        // short pieces of the source in another order, some of them again and again
        let r = noise(tag, s.len() / 4 + 40);
        r.chunks_exact(3).take((s.len() / 30).min(900) + 4).flat_map(|x| { let n = s.len(); let a = (x[0] as usize * 256 + x[1] as usize) * n / 65536; let l = (12 + x[2] as usize % 29).min(n - a); let mut p = s[a..a + l].to_vec(); if x[2] % 3 == 0 { p.push(x[2]) } p }).collect()
    };
    for n in [60usize, 700, 9000, 70_000] {
        let src = text(760 + n as u64, n);
        let trgt = frag(&src, 770 + n as u64);
        for (name, c) in [("source", Cfg { src: Some((2, None)), ..PLAIN }), ("target", Cfg { trgt: Some((70, 8, None)), src: None, ..PLAIN }), ("both", Cfg { lazy: Some(6), naive: true, ..Cfg::level(6, true) }), ("smdiff", Cfg { sec: Sec::Smdiff(7), ..Cfg::level(2, false) }), ("zstd", Cfg { sec: Sec::Zstd(5), src: None, ..PLAIN }), ("brotli", Cfg { sec: Sec::Brotli(5), src: None, ..PLAIN })] {
            v.push(scn(format!("encode/size/{n}/{name}"), vec![("source", src.clone()), ("target", trgt.clone()), ("patch", vec![])], move |s| {
                let [a, b, w] = s else { unreachable!() };
                none(smdiff_encoder::encode(Some(a), b, w, &c.make()))
            }));
        }
        let ops: Vec<ROp> = trgt.chunks(37).enumerate().flat_map(|(k, x)| [ROp::Add(x.to_vec()), ROp::CopyD((k * 13 % (n - 20)) as u64, 20), ROp::CopyO(k as u64, 9)]).collect();
        for algo in [0u8, 1, 2, 3] {
            let p = enc_patch(&[RSec { ops: ops.clone(), seg: algo % 2 == 0, algo, more: false }]);
            let (p2, p3) = (p.clone(), p.clone());
            if algo != 1 { v.push(scn(format!("apply/size/{n}/{algo}"), vec![("patch", p), ("source", src.clone()), ("output", vec![])], |s| {
                let [p, a, o] = s else { unreachable!() };
                none(smdiff_decoder::apply_patch(p, Some(a), o))
            })); }
            let sec = [Sec::Smdiff(5), Sec::Zstd(3), Sec::Brotli(3), Sec::None][algo as usize];
            if algo % 2 == 0 { v.push(scn(format!("transcode/size/{n}/{algo}"), vec![("patch", p2), ("new patch", vec![])], move |s| {
                let [p, w] = s else { unreachable!() };
                none(smdiff_merger::transcoder::transcode(p, w, Format::Segregated, sec.make(), 1 << 20))
            })); }
            if algo < 2 { v.push(scn(format!("merge/size/{n}/{algo}"), vec![("last", patch_of(vec![ROp::CopyD(1, ops.iter().map(|o| o.len()).sum::<usize>().min(65535) as u16 - 3), ROp::CopyO(0, 9)], false)), ("first", p3), ("summary", vec![])], move |s| {
                let [l, f, w] = s else { unreachable!() };
                let mut r = smdiff_merger::Merger::new(l)?;
                if let Ok(m) = r { r = m.merge(f)? }
                let (early, sum) = merger_end(r);
                sum.write(w, None, None, sec.make())?;
                Ok(vec![early])
            })); }
        }
    }
}
/// Operations of one shape on different bytes: what one leaves in shared state fits the other.
fn twins(v: &mut Vec<Scn>) {
    for x in 0..3u64 {
        let b = 40 + x as u8 * 50;
        let src = noise(2000 + x, 600);
        let ops = vec![ROp::Add(noise(2010 + x, 300)), ROp::Run(b, 62), ROp::CopyD(10 * x + 3, 300), ROp::Run(b + 1, 20), ROp::CopyO(5 + x, 200), ROp::Add(noise(2020 + x, 63)), ROp::Run(b, 3), ROp::CopyD(200 + x, 40), ROp::CopyO(300 + x, 90), ROp::Run(b + 2, 62), ROp::Run(b + 2, 62)];
        for (f, seg) in [("int", false), ("seg", true)] {
            let sec = |more| RSec { ops: ops.clone(), seg, algo: 0, more };
            let p = enc_patch(&[sec(true), sec(false)]);
            v.push(scn(format!("twin apply/{x}/{f}"), vec![("patch", p.clone()), ("source", src.clone()), ("output", vec![])], |s| {
                let [p, a, o] = s else { unreachable!() };
                none(smdiff_decoder::apply_patch(p, Some(a), o))
            }));
            v.push(scn(format!("twin extract/{x}/{f}"), vec![("patch", p.clone())], |s| smdiff_merger::extract_patch_instructions(&mut s[0]).map(|r| {
                let d = smdiff_merger::deref_copy_o(r.0.clone());
                let k = smdiff_merger::get_exact_slice(&r.0, 250, 200);
                format!("{r:?} {d:?} {k:?}").into_bytes()
            })));
            v.push(scn(format!("twin write/{x}/{f}"), vec![("patch", vec![])], { let ops = ops.clone(); move |s| {
                for (o, h) in smdiff_writer::make_sections(&to_ops(&ops), 65535) {
                    let mut h = h;
                    h.format = if seg { Format::Segregated } else { Format::Interleaved };
                    smdiff_writer::write_section_header(&h, &mut s[0])?;
                    smdiff_writer::write_ops(o, &h, &mut s[0])?;
                }
                Ok(vec![])
            } }));
            v.push(scn(format!("twin transcode/{x}/{f}"), vec![("patch", p.clone()), ("new patch", vec![])], move |s| {
                let [p, w] = s else { unreachable!() };
                none(smdiff_merger::transcoder::transcode(p, w, if seg { Format::Interleaved } else { Format::Segregated }, None, 1 << 20))
            }));
            let last = patch_of(vec![ROp::CopyD(x, 500), ROp::Run(b, 62), ROp::Add(noise(2030 + x, 20)), ROp::CopyD(700 + x, 200), ROp::CopyO(1, 500)], seg);
            v.push(scn(format!("twin merge/{x}/{f}"), vec![("last", last), ("first", p.clone()), ("summary", vec![])], |s| {
                let [l, f, w] = s else { unreachable!() };
                let mut r = smdiff_merger::Merger::new(l)?;
                if let Ok(m) = r { r = m.merge(f)? }
                let (early, sum) = merger_end(r);
                sum.write(w, None, None, None)?;
                Ok(vec![early])
            }));
        }
        let trgt = [&src[100..300], &[b; 100][..], &noise(2040 + x, 30), &src[20..120], &noise(2040 + x, 30), &src[400..]].concat();
        for (n, c) in [("plain", PLAIN), ("target", Cfg { trgt: Some((60, 10, None)), naive: true, lazy: Some(20), ..PLAIN }), ("no source", Cfg { src: None, trgt: Some((60, 10, None)), seg: true, ..PLAIN })] {
            v.push(scn(format!("twin encode/{x}/{n}"), vec![("source", src.clone()), ("target", trgt.clone()), ("patch", vec![])], move |s| {
                let [a, b, w] = s else { unreachable!() };
                none(smdiff_encoder::encode(Some(a), b, w, &c.make()))
            }));
        }
        let mut d = super::p14_vcdiff::sample_deltas();
        for (k, (ws, st)) in d.drain(..).enumerate().filter(|(k, _)| k % 3 == 1) {
            let mut e = crate::vcd::enc(&ws, st.min(1), &crate::vcd::table()).unwrap();
            let n = e.len();
            e[n - 1] ^= x as u8; // the last byte is data, an address or a size
            v.push(scn(format!("twin vcdiff/{x}/{k}"), vec![("delta", e), ("patch", vec![])], |s| {
                let [d, w] = s else { unreachable!() };
                Ok(format!("{:?}", smdiff_vcdiff::convert_vcdiff_to_smdiff(d, w).map_err(|e| e.to_string())).into_bytes())
            }));
        }
    }
}
/// Operations that stop in the middle of their input.
fn abandoned(v: &mut Vec<Scn>) {
    let sec = |k: u64, seg, algo, more| RSec { ops: vec![ROp::Add(noise(k, 90)), ROp::CopyD(k, 30), ROp::Run(k as u8, 5), ROp::CopyO(2, 70)], seg, algo, more };
    for algo in 0..4u8 {
        let p = enc_patch(&[sec(1, false, algo, true), sec(2, true, algo, true), sec(3, false, algo, false)]);
        for n in [0usize, 1, 2] {
            v.push(scn(format!("decoder sections/first {n}/{algo}"), vec![("patch", p.clone())], move |s| {
                let mut it = smdiff_decoder::reader::SectionIterator::new(&mut s[0]);
                let mut o = vec![];
                for _ in 0..n { if let Some(r) = it.next_borrowed() { let (ops, h) = r?; o.push((h, sec_of(&h, ops))) } }
                Ok(format!("{o:?}").into_bytes())
            }));
            if algo == 0 { v.push(scn(format!("sections/first {n}"), vec![("patch", p.clone())], move |s| {
                let mut it = smdiff_reader::SectionIterator::new(&mut s[0]);
                let mut o = vec![];
                for _ in 0..n { if let Some(r) = it.next() { let (ops, h) = r?; o.push((h, sec_of(&h, &ops))) } }
                Ok(format!("{o:?}").into_bytes())
            })) }
        }
        v.push(scn(format!("merge/dropped/{algo}"), vec![("last", p.clone())], |s| {
            let r = smdiff_merger::Merger::new(&mut s[0])?;
            Ok(vec![r.is_ok() as u8])
        }));
        v.push(scn(format!("merge/dropped summary/{algo}"), vec![("last", p.clone()), ("first", p.clone())], |s| {
            let [l, f] = s else { unreachable!() };
            let mut r = smdiff_merger::Merger::new(l)?;
            if let Ok(m) = r { let _ = m.clone().finish(); r = m.merge(f)? }
            Ok(format!("{:?}", r.is_ok()).into_bytes())
        }));
    }
}
/// Every kind of error but Interrupted, which asks for another try.
pub const KINDS: [ErrorKind; 36] = {
    use ErrorKind::*;
    [Other, UnexpectedEof, WouldBlock, BrokenPipe, InvalidInput, InvalidData, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, AlreadyExists, TimedOut, WriteZero, Unsupported, OutOfMemory, StorageFull, NotSeekable, FileTooLarge, ResourceBusy, QuotaExceeded, HostUnreachable, NetworkUnreachable, NetworkDown, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong]
};
fn show(s: &Scn, i: usize, p: &Plan) -> String { format!("{}, stream \"{}\", {p:?}", s.name, s.data[i].0) }

/// One operation under one choice of plans; `want` is its result when all transfers complete.
fn judge(s: &Scn, plans: &[Plan], at: usize, want: &Out, c: &mut Ctx) -> Result<(), String> {
    let p = plans[at];
    c.sample(|| show(s, at, &p));
    c.evals += 1;
    let (r, logs) = s.go(plans).map_err(|e| format!("{e}; {}", show(s, at, &p)))?;
    c.transitions += logs.iter().map(|l| l.0).sum::<u64>();
    c.outcome(H::new(8).b(s.name.as_bytes()).b(format!("{plans:?}").as_bytes()));
    let fails = matches!(p, Plan::FailAt(..) | Plan::FailFrom(..) | Plan::ZeroAt(_) | Plan::ShortFail(..));
    let fired = if fails { logs[at].1 } else { logs.iter().any(|l| l.1) };
    if fired { c.nontrivial += 1 }
    match r {
        Ok(o) if fails && fired && o == *want && logs[at].2 => Ok(()),
        Ok(_) if fails && fired => Err(format!("reported success although a call failed; {}", show(s, at, &p))),
        Ok(o) if o != *want => Err(format!("result differs from that with full transfers; {}", show(s, at, &p))),
        Ok(_) => Ok(()),
        Err(_) if fails && fired => Ok(()),
        Err(e) => Err(format!("failed ({:?}: {e}) although every transfer made progress; {}", e.kind(), show(s, at, &p))),
    }
}

pub fn p08(t: Tier) -> Vec<Space> {
    let sc = Arc::new(scenarios(true, false));
    let mut base = vec![];
    for s in sc.iter() {
        let (r, logs) = s.go(&s.full()).unwrap_or_else(|e| panic!("{}: {e}", s.name));
        let r = r.unwrap_or_else(|e| panic!("{}: {e}", s.name));
        base.push((r, logs.iter().map(|l| l.0).collect::<Vec<u64>>()));
    }
    // calls with transfers of one byte each
    let short: Vec<Vec<Vec<u64>>> = sc.iter().map(|s| [1usize, 3].iter().map(|k| {
        let (_, logs) = s.go(&vec![Plan::Short(*k); s.data.len()]).unwrap_or_else(|e| panic!("{}: {e}", s.name));
        logs.iter().map(|l| l.0).collect()
    }).collect()).collect();
    let base = Arc::new(base);
    let mut v = vec![];
    let mut add = |name: &str, jobs: Vec<(usize, usize, Plan, bool)>| {
        let (sc, base) = (sc.clone(), base.clone());
        v.push(space(name, jobs.len() as u64, move |i, c| {
            let (k, at, p, all) = jobs[i as usize];
            let s = &sc[k];
            let mut plans = s.full();
            plans[at] = p;
            if all {
                if let Plan::ShortFail(n, ..) = p { for (i, q) in plans.iter_mut().enumerate() { if i != at { *q = Plan::Short(n) } } } else { plans.fill(p) }
            }
            judge(s, &plans, at, &base[k].0, c)
        }));
    };
    // one failing call, and failing from one call on: every call of every stream
    let mut jobs = vec![];
    for (k, _) in sc.iter().enumerate() { for (at, n) in base[k].1.iter().enumerate() { for i in 0..*n + 1 {
        for e in KINDS { jobs.push((k, at, Plan::FailAt(i, e), false)) }
        for e in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut] { jobs.push((k, at, Plan::FailFrom(i, e), false)) }
        jobs.push((k, at, Plan::ZeroAt(i), false));
    } } }
    add("one failure", jobs);
    // one interrupted or cut transfer
    let mut jobs = vec![];
    for (k, _) in sc.iter().enumerate() { for (at, n) in base[k].1.iter().enumerate() { for i in 0..*n { jobs.push((k, at, Plan::IntrAt(i), false)); jobs.push((k, at, Plan::ShortAt(i), false)) } } }
    add("one cut or interrupted transfer", jobs);
    // uniform limits, on one stream and on all
    let mut jobs = vec![];
    for (k, s) in sc.iter().enumerate() { for at in 0..s.data.len() { for n in [1usize, 2, 3, 4, 5, 7, 8, 9, 16, 63, 64, 65, 100, 1000, 8191, 8192, 8193, 65535] {
        for all in [false, true] {
            if all && at > 0 { continue }
            jobs.push((k, at, Plan::Short(n), all));
            for m in [2u64, 3, 5] { jobs.push((k, at, Plan::ShortIntr(n, m), all)) }
        }
    } } }
    add("all transfers limited", jobs);
    // every pattern of short and whole transfers of a small period
    let mut jobs = vec![];
    for (k, s) in sc.iter().enumerate() { for at in 0..s.data.len() { for w in 1..=t.pick(6u32, 9) { for b in 0..1u32 << w {
        let mut p = 0u32;
        for i in 0..32 { p |= (b >> (i % w) & 1) << i }
        jobs.push((k, at, Plan::Pattern(p), b % 2 == 1));
    } } } }
    add("periodic patterns", jobs);
    // every schedule of whole, cut and interrupted transfers over a window of calls, at every window
    let w = t.pick(4u32, 6);
    let mut jobs = vec![];
    for (k, _) in sc.iter().enumerate() { for (at, n) in short[k][0].iter().enumerate() {
        let mut st = 0;
        while st < (*n).min(t.pick(60, 200)) { for code in 1..3u64.pow(w) { jobs.push((k, at, Plan::Sched(st, w, code), false)) } st += w as u64 }
    } }
    add("transfer schedules", jobs);
    // failures while transfers are cut
    let mut jobs = vec![];
    for (k, _) in sc.iter().enumerate() { for (q, lim) in [1usize, 3].into_iter().enumerate() { for (at, n) in short[k][q].iter().enumerate() {
        let step = (*n / t.pick(300, 2000)).max(1);
        let mut i = 0;
        while i <= *n {
            for e in [ErrorKind::Other, ErrorKind::UnexpectedEof] { jobs.push((k, at, Plan::ShortFail(lim, i, e), true)) }
            i += if i < 200 { 1 } else { step };
        }
    } } }
    add("failures among cut transfers", jobs);
    v
}

// ---------------------------------------------------------------- P16
/// Result of one operation, as one line.
fn line(r: &Result<(std::io::Result<Out>, Vec<(u64, bool, bool)>), String>) -> String {
    match r {
        Ok((Ok(o), _)) => { let mut h = H::new(16).b(&o.ret); for d in &o.data { h = h.b(d) } format!("ok {:016x}", h.0) }
        Ok((Err(e), _)) => format!("err {:?} {e}", e.kind()),
        Err(p) => format!("panic {p}").replace('\n', " "),
    }
}
/// `smc ops a,b,..`: the operations with these numbers, in this order, in this process.
pub fn ops_cmd(list: &str, out: &mut dyn std::io::Write) {
    let sc = scenarios(false, true);
    for k in list.split(',').filter_map(|k| k.parse::<usize>().ok()) {
        let s = &sc[k];
        let _ = writeln!(out, "{}", line(&s.go(&s.full())));
    }
}
fn fresh(list: &[usize]) -> Result<Vec<String>, String> {
    let l = list.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["ops", &l]).output().map_err(|e| e.to_string())?;
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())
}

/// Runs f on this thread's partner, another thread, and waits for it. `fresh`: on one just started.
fn partner(fresh: bool, f: impl FnOnce() -> String + Send + 'static) -> String {
    use std::sync::mpsc::*;
    type Job = Box<dyn FnOnce() -> String + Send>;
    thread_local! { static P: std::cell::OnceCell<(Sender<Job>, Receiver<String>)> = const { std::cell::OnceCell::new() }; }
    if fresh { return std::thread::spawn(f).join().unwrap() }
    P.with(|p| {
        let (s, r) = p.get_or_init(|| {
            let ((js, jr), (rs, rr)) = (channel::<Job>(), channel());
            std::thread::spawn(move || for j in jr { if rs.send(j()).is_err() { break } });
            (js, rr)
        });
        s.send(Box::new(f)).unwrap();
        r.recv().unwrap()
    })
}
/// Encodings of many operations and of more than one section.
fn long_encodings() -> Vec<Scn> {
    let src = noise(85, 400_000);
    let mut trgt = vec![];
    for k in 0..12_000usize { let at = k * 7919 % 399_000; trgt.extend(&src[at..at + 20 + k % 60]); if k % 3 == 0 { trgt.extend([k as u8, (k >> 8) as u8]) } }
    let many = Cfg { size: 70_000, ..PLAIN };
    [("one section", PLAIN), ("sections", many), ("target", Cfg { trgt: Some((60, 10, None)), lazy: Some(20), ..many }), ("segregated", Cfg { seg: true, naive: true, ..many }), ("smdiff", Cfg { sec: Sec::Smdiff(3), ..many })].into_iter().map(|(n, c)| {
        scn(format!("encode/long/{n}"), vec![("source", src.clone()), ("target", trgt.clone()), ("patch", vec![])], move |s| {
            let [a, b, w] = s else { unreachable!() };
            none(smdiff_encoder::encode(Some(a), b, w, &c.make()))
        })
    }).collect()
}

pub fn p16(t: Tier) -> Vec<Space> {
    let sc = Arc::new(scenarios(false, true));
    let n = sc.len() as u64;
    // what each operation gives in a process of its own
    let want: Arc<Vec<String>> = Arc::new({
        let next = std::sync::atomic::AtomicUsize::new(0);
        let res = std::sync::Mutex::new(vec![String::new(); sc.len()]);
        std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if k >= sc.len() { break }
            let l = fresh(&[k]).unwrap_or_default();
            res.lock().unwrap()[k] = l.first().cloned().unwrap_or_default();
        }); });
        res.into_inner().unwrap()
    });
    let mut v = vec![];
    let (s2, w2) = (sc.clone(), want.clone());
    v.push(space("alone", n, move |i, c| {
        let k = i as usize;
        c.sample(|| s2[k].name.clone());
        if !w2[k].starts_with("ok") { return Err(format!("{}: {:?}", s2[k].name, w2[k])) }
        let mut all = vec![line(&s2[k].go(&s2[k].full()))];
        for _ in 0..3 { all.extend(fresh(&[k])?) }
        all.extend(fresh(&[k, k])?);
        c.evals += 6;
        c.outcome(H::new(161).u(i));
        for l in all { c.nontrivial += 1; if l != w2[k] { return Err(format!("{}: {l} instead of {}", s2[k].name, w2[k])) } }
        Ok(())
    }));
    // every history of two (three) operations
    let len = t.pick(2u32, 3);
    // (three: the operations whose number is a multiple of three, after any two)
    let (s2, w2) = (sc.clone(), want.clone());
    let tot = if len == 2 { n * n } else { n * n * n.div_ceil(3) };
    v.push(space("histories", tot, move |i, c| {
        let mut h = vec![(i % n) as usize, (i / n % n) as usize];
        if len == 3 { h.push((i / n / n) as usize * 3) }
        c.sample(|| h.iter().map(|k| s2[*k].name.clone()).collect::<Vec<_>>().join(", then "));
        c.state(H::new(162).u(i));
        c.traces += 1;
        for (p, k) in h.iter().enumerate() {
            c.evals += 1; c.nontrivial += 1; c.transitions += 1;
            let l = line(&s2[*k].go(&s2[*k].full()));
            if l != w2[*k] { return Err(format!("{}: {l} instead of {}, after {}", s2[*k].name, w2[*k], h[..p].iter().map(|k| s2[*k].name.clone()).collect::<Vec<_>>().join(", "))) }
        }
        Ok(())
    }));
    // clocks: whatever time passes during an operation, and between which readings, its result is the same
    let (s2, w2) = (sc.clone(), want.clone());
    let long = Arc::new(long_encodings());
    let refs: Arc<Vec<std::sync::OnceLock<String>>> = Arc::new(long.iter().map(|_| Default::default()).collect());
    v.push(space("clocks", n + long.len() as u64, move |i, c| {
        use crate::clock::{with, Clock};
        let s = if i < n { &s2[i as usize] } else { &long[(i - n) as usize] };
        let want = if i < n { &w2[i as usize] } else { refs[(i - n) as usize].get_or_init(|| line(&s.go(&s.full()))) };
        if !want.starts_with("ok") { return Err(format!("{}: {want:?}", s.name)) }
        c.sample(|| s.name.clone());
        let (_, reads) = with(Clock::Stopped, || s.go(&s.full()));
        c.max("readings of the clock by an operation", reads as i64);
        let mut modes = vec![Clock::Stopped];
        for d in [1, 1_000, 1_000_000, 20_000_000, 1_000_000_000, 3_600_000_000_000, -1_000_000_000] { modes.push(Clock::Steps(d)) }
        for before in 0..reads.min(6) { for by in [1_000_000_000, 100_000_000_000_000, -1_000_000_000] { modes.push(Clock::Jump { before, by }) } }
        for m in modes {
            c.evals += 1; c.nontrivial += 1; c.transitions += reads;
            c.state(H::new(174).u(i).b(format!("{m:?}").as_bytes()));
            let (l, _) = with(m, || line(&s.go(&s.full())));
            if l != *want { return Err(format!("{}: {l} instead of {want}, with the clock {m:?}", s.name)) }
        }
        Ok(())
    }));
    // surroundings: no variables, another directory, one processor, a low limit of open files, a closed input
    let per = 12u64;
    let (s2, w2) = (sc.clone(), want.clone());
    v.push(space("surroundings", n.div_ceil(per) * 5, move |i, c| {
        let from = (i / 5 * per) as usize;
        let l: Vec<usize> = (from..(from + per as usize).min(s2.len())).collect();
        let what = ["no variables", "another directory", "one processor", "few files", "variables of every kind"][(i % 5) as usize];
        let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
        cmd.args(["ops", &l.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",")]);
        match i % 5 {
            0 => { cmd.env_clear(); }
            1 => { cmd.current_dir("/"); }
            2 => unsafe { use std::os::unix::process::CommandExt; cmd.pre_exec(|| { let mut set: libc::cpu_set_t = std::mem::zeroed(); let mut all: libc::cpu_set_t = std::mem::zeroed(); libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all); let one = (0..1024).find(|x| libc::CPU_ISSET(*x, &all)).unwrap_or(0); libc::CPU_SET(one, &mut set); libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set); Ok(()) }); },
            3 => unsafe { use std::os::unix::process::CommandExt; cmd.pre_exec(|| { let r = libc::rlimit { rlim_cur: 8, rlim_max: 8 }; libc::setrlimit(libc::RLIMIT_NOFILE, &r); Ok(()) }); },
            _ => { cmd.envs([("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("TMPDIR", "/nonexistent"), ("HOME", "/nonexistent"), ("RUST_MIN_STACK", "65536"), ("RAYON_NUM_THREADS", "1"), ("ZSTD_CLEVEL", "19"), ("ZSTD_NBTHREADS", "4"), ("DEBUG", "1"), ("SMDIFF_DEBUG", "1")]); }
        }
        let o = cmd.stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
        let got: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
        if got.len() != l.len() { return Err(format!("with {what} the process ended early: {} of {} operations from {}", got.len(), l.len(), s2[from].name)) }
        for (k, g) in l.iter().zip(&got) {
            c.evals += 1; c.nontrivial += 1; c.transitions += 1;
            c.state(H::new(175).u(i).u(*k as u64));
            if *g != w2[*k] { return Err(format!("{}: {g} instead of {}, with {what}", s2[*k].name, w2[*k])) }
        }
        Ok(())
    }));
    // two operations, each history in a process of its own
    let all: Vec<usize> = (0..sc.len()).filter(|k| !sc[*k].name.contains("/size/")).collect();
    let pick: Vec<usize> = if t.thorough() { all } else { let mut seen = std::collections::BTreeSet::new(); all.into_iter().filter(|k| seen.insert(sc[*k].name.split('/').next().unwrap().to_string()) || sc[*k].name.starts_with("encode") || sc[*k].name.contains("settings") || sc[*k].name.contains("mixed")).collect() };
    let m = pick.len() as u64;
    let (s2, w2, p2) = (sc.clone(), want.clone(), pick.clone());
    v.push(space("histories in fresh processes", m * m, move |i, c| {
        let h = [p2[(i % m) as usize], p2[(i / m) as usize]];
        c.state(H::new(163).u(i));
        c.traces += 1;
        c.transitions += 2;
        let l = fresh(&h)?;
        if l.len() != 2 { return Err(format!("{} then {}: the process ended early", s2[h[0]].name, s2[h[1]].name)) }
        for k in 0..2 { c.evals += 1; c.nontrivial += 1; if l[k] != w2[h[k]] { return Err(format!("{}: {} instead of {} ({} then {})", s2[h[k]].name, l[k], w2[h[k]], s2[h[0]].name, s2[h[1]].name)) } }
        Ok(())
    }));
    // an operation on inputs of one size, then one of another
    let sized: Vec<usize> = (0..sc.len()).filter(|k| sc[*k].name.contains("/size/")).collect();
    let z = sized.len() as u64;
    let (s2, w2) = (sc.clone(), want.clone());
    v.push(space("sizes in fresh processes", z * z, move |i, c| {
        let h = [sized[(i % z) as usize], sized[(i / z) as usize]];
        c.state(H::new(165).u(i));
        c.traces += 1;
        c.transitions += 2;
        c.sample(|| format!("{}, then {}", s2[h[0]].name, s2[h[1]].name));
        let l = fresh(&h)?;
        if l.len() != 2 { return Err(format!("{} then {}: the process ended early", s2[h[0]].name, s2[h[1]].name)) }
        for k in 0..2 { c.evals += 1; c.nontrivial += 1; if l[k] != w2[h[k]] { return Err(format!("{}: {} instead of {} ({} then {})", s2[h[k]].name, l[k], w2[h[k]], s2[h[0]].name, s2[h[1]].name)) } }
        Ok(())
    }));
    // schedules: at every call of one operation, the whole of another on another thread (or on the same one)
    let mut jobs = vec![];
    for k in 0..sc.len() {
        if sc[k].name.contains("/size/") { continue }
        let Ok((_, logs)) = sc[k].go(&sc[k].full()) else { continue };
        for (at, l) in logs.iter().enumerate() {
            let st = (l.0 / t.pick(8, 100)).max(1);
            for i in (0..l.0).step_by(st as usize) { jobs.push((k, at, i)) }
        }
    }
    let others: Arc<Vec<usize>> = Arc::new(pick.into_iter().enumerate().filter(|(j, k)| t.thorough() || j % 4 == 0 || !sc[*k].name.contains("settings")).map(|x| x.1).collect());
    let jn = jobs.len() as u64;
    let (s2, w2) = (sc.clone(), want.clone());
    v.push(space("schedules", jn * others.len() as u64 * 2, move |i, c| {
        let (k, at, call) = jobs[(i / 2 % jn) as usize];
        let b = others[(i / 2 / jn) as usize];
        let inner: std::rc::Rc<std::cell::RefCell<Option<String>>> = Default::default();
        let (s3, i2) = (s2.clone(), inner.clone());
        let same = i % 2 == 0;
        let mut st = s2[k].streams(&s2[k].full());
        st[at].hook = Some((call, Box::new(move || {
            let l = if same { line(&s3[b].go(&s3[b].full())) } else {
                let s4 = s3.clone();
                partner(i / 2 % 64 == 0, move || line(&s4[b].go(&s4[b].full())))
            };
            *i2.borrow_mut() = Some(l);
        })));
        c.evals += 2; c.nontrivial += 1; c.traces += 1; c.transitions += 2;
        c.state(H::new(164).u(i));
        let r = catch(|| (s2[k].run)(&mut st)).map(|r| (r.map(|ret| Out { ret, data: st.into_iter().map(|s| s.data).collect() }), vec![]));
        let l = line(&r);
        let what = || format!("{} while {} runs (at call {call} of its stream {at}, {} thread)", s2[b].name, s2[k].name, if same { "same" } else { "another" });
        if l != w2[k] { return Err(format!("outer operation: {l} instead of {}: {}", w2[k], what())) }
        let got = inner.borrow().clone();
        match &got { Some(x) if *x == w2[b] => Ok(()), x => Err(format!("inner operation: {x:?} instead of {}: {}", w2[b], what())) }
    }));
    // which operations are run after or during another one: itself, the next of its kind, and one or two of every kind
    let kind = |k: usize| sc[k].name.split('/').next().unwrap().to_string();
    let reps: Vec<usize> = { let mut seen = std::collections::BTreeMap::new(); (0..sc.len()).filter(|k| { if sc[*k].name.contains("/size/") { return false } let e = seen.entry(kind(*k)).or_insert(0); *e += 1; *e == 2 || *e == 9 }).collect() };
    let partners: Arc<Vec<Vec<usize>>> = Arc::new((0..sc.len()).map(|k| { let mut v = reps.clone(); v.push(k); v.extend((1..sc.len()).map(|j| (k + j) % sc.len()).find(|j| kind(*j) == kind(k))); v.sort(); v.dedup(); v }).collect());
    // an operation that fails at some call, or on a cut or damaged input; then another operation
    let (s2, w2, p2) = (sc.clone(), want.clone(), partners.clone());
    let lim = t.pick(6u64, 40);
    v.push(space("after failures", n, move |i, c| {
        let k = i as usize;
        let s = &s2[k];
        let Ok((Ok(_), logs)) = s.go(&s.full()) else { return Ok(()) };
        let mut fails: Vec<(String, Scn, Vec<Plan>)> = vec![];
        for (at, l) in logs.iter().enumerate() {
            let mut pts: Vec<u64> = (0..lim.min(l.0)).map(|j| j * l.0 / lim.min(l.0)).collect();
            pts.extend([1, l.0.saturating_sub(2), l.0.saturating_sub(1)]);
            pts.sort(); pts.dedup();
            for x in pts { if x < l.0 { let mut p = s.full(); p[at] = Plan::FailAt(x, ErrorKind::Other); fails.push((format!("failing at call {x} of \"{}\"", s.data[at].0), s.clone(), p)) } }
            let len = s.data[at].1.len();
            if len > 0 {
                for x in [0, 1, len / 3, len * 2 / 3, len - 1] { let mut z = s.clone(); z.data[at].1.truncate(x); fails.push((format!("on {x} bytes of \"{}\"", s.data[at].0), z, s.full())) }
                for x in [1, len / 2, len - 1] { let mut z = s.clone(); z.data[at].1[x.min(len - 1)] ^= 0x55; fails.push((format!("with byte {x} of \"{}\" changed", s.data[at].0), z, s.full())) }
            }
        }
        c.traces += 1;
        for (j, (what, f, plans)) in fails.iter().enumerate() {
            for b in &p2[k] {
                if !t.thorough() && *b != k && (b + j) % 3 != 0 { continue }
                c.evals += 1; c.transitions += 2;
                c.state(H::new(170).u(i).u(j as u64).u(*b as u64));
                if let Ok((Err(_), _)) = f.go(plans) { c.nontrivial += 1 }
                let l = line(&s2[*b].go(&s2[*b].full()));
                if l != w2[*b] { return Err(format!("{}: {l} instead of {}, after {} {what}", s2[*b].name, w2[*b], s.name)) }
            }
        }
        Ok(())
    }));
    // schedules at memory operations: at an allocation, growth or release made by one operation, the whole of
    // another on another thread (or as much of it as does not wait for the first)
    let (s2, w2, p2) = (sc.clone(), want.clone(), partners);
    let lim = t.pick(16u64, 150);
    v.push(space("schedules at memory operations", n, move |i, c| {
        let k = i as usize;
        let s = &s2[k];
        if s.name.contains("70000") && !t.thorough() { return Ok(()) }
        let (_, points) = crate::alloc::switch_at(u64::MAX, &mut || {}, || s.go(&s.full()));
        c.max("points at which one operation may be interrupted", points as i64);
        let m = lim.min(points).max(1);
        for j in 0..m {
            let at = j * points / m;
            for b in &p2[k] {
                if !t.thorough() && *b != k && (*b as u64 + j) % 4 != 0 { continue }
                c.evals += 2; c.transitions += 2; c.traces += 1;
                c.state(H::new(171).u(i).u(at).u(*b as u64));
                type Box2 = (std::sync::Mutex<Option<String>>, std::sync::Condvar);
                let cell: Arc<Box2> = Default::default();
                let mut th = None;
                let (s3, c3, b3) = (s2.clone(), cell.clone(), *b);
                let mut go = || {
                    let (s4, c4) = (s3.clone(), c3.clone());
                    th = Some(std::thread::spawn(move || { let l = line(&s4[b3].go(&s4[b3].full())); *c4.0.lock().unwrap() = Some(l); c4.1.notify_all() }));
                    // an operation that waits for the other goes on after it
                    let _ = c3.1.wait_timeout_while(c3.0.lock().unwrap(), std::time::Duration::from_millis(1500), |x| x.is_none());
                };
                let mut st = s.streams(&s.full());
                let (r, _) = crate::alloc::switch_at(at, &mut go, || catch(|| (s.run)(&mut st)));
                let l = line(&r.map(|r| (r.map(|ret| Out { ret, data: st.into_iter().map(|s| s.data).collect() }), vec![])));
                let Some(h) = th else { continue };
                c.nontrivial += 1;
                let _ = h.join();
                let what = || format!("{} while {} runs (at its memory operation {at} of {points}, on another thread)", s2[*b].name, s.name);
                if l != w2[k] { return Err(format!("outer operation: {l} instead of {}: {}", w2[k], what())) }
                let g = cell.0.lock().unwrap().clone();
                if g.as_deref() != Some(&w2[*b]) { return Err(format!("inner operation: {g:?} instead of {}: {}", w2[*b], what())) }
            }
        }
        Ok(())
    }));
    // schedules at instructions: before every instruction of one operation, the whole of another on another thread
    // (in longer operations before every some instructions, from several first ones on)
    let small: Vec<usize> = {
        // the shortest operations and some longer ones, of every kind
        let mut by: std::collections::BTreeMap<String, Vec<(u64, usize)>> = Default::default();
        for k in 0..sc.len() {
            if sc[k].name.contains("/size/") || sc[k].name.contains("70000") || sc[k].name.contains("settings") { continue }
            let bytes: usize = sc[k].data.iter().map(|d| d.1.len()).sum();
            by.entry(kind(k)).or_default().push((bytes as u64, k));
        }
        let mut o = vec![];
        for (n, l) in by.iter_mut() { l.sort(); let m = if n.starts_with("twin") { l.len() } else { t.pick(3, 20).min(l.len()) }; o.extend((0..m).map(|j| l[j * l.len() / m].1)) }
        o.extend((0..sc.len()).filter(|k| sc[*k].name.contains("settings")).step_by(t.pick(9, 1)));
        o
    };
    let mut jobs = vec![];
    for k in &small {
        let same: Vec<usize> = small.iter().copied().filter(|j| kind(*j) == kind(*k) && j != k).collect();
        let at = small.iter().position(|j| j == k).unwrap();
        let mut p = vec![small[(at * 7 + 3) % small.len()]];
        p.extend(same.iter().cycle().skip(at % same.len().max(1)).take(t.pick(2, 6).min(same.len())));
        if t.thorough() { p.push(*k); p.extend((0..4).map(|x| small[(at * 11 + x * 5) % small.len()])) }
        p.sort(); p.dedup();
        for b in p { for f in 0..t.pick(1u64, 4) { jobs.push((*k, b, f)) } }
    }
    let (s2, w2) = (sc.clone(), want.clone());
    let (most, cap) = (t.pick(2500u64, 20_000), t.pick(200_000u64, 3_000_000));
    v.push(space("schedules at instructions", jobs.len() as u64, move |i, c| {
        let (k, b, f) = jobs[i as usize];
        let s = &s2[k];
        let go = |first: u64, every: u64, g: &mut (dyn FnMut() + Send)| {
            let mut st = s.streams(&s.full());
            let (r, n) = crate::step::interleave(cap, first, every, g, || catch(|| (s.run)(&mut st)));
            (line(&r.map(|r| (r.map(|ret| Out { ret, data: st.into_iter().map(|s| s.data).collect() }), vec![]))), n)
        };
        let (_, n) = go(u64::MAX, u64::MAX, &mut || {});
        if n.all > cap { c.note("operations of too many instructions"); return Ok(()) }
        let every = (n.all / if s.name.starts_with("twin") { 4 * most } else { most }).max(1);
        let mut bad: Option<String> = None;
        let (l, n) = go(f * every / 4, every, &mut || { let l = line(&s2[b].go(&s2[b].full())); if l != w2[b] && bad.is_none() { bad = Some(l) } });
        c.evals += 1 + n.switches; c.nontrivial += 1; c.traces += 1; c.transitions += n.switches;
        c.notes("switches at instructions", n.switches);
        c.notes("of which the other operation waited for the first", n.late);
        c.max("instructions of an operation", n.all as i64);
        c.state(H::new(173).u(i));
        let what = || format!("{} before every {every} instructions of {}, from the {}th", s2[b].name, s.name, f * every / 4);
        c.sample(what);
        if l != w2[k] { return Err(format!("outer operation: {l} instead of {}: {}", w2[k], what())) }
        if let Some(g) = bad { return Err(format!("inner operation: {g} instead of {}: {}", w2[b], what())) }
        Ok(())
    }));
    // sinks: what the output holds before, where it is positioned, where the source is positioned
    let corpus: Vec<(String, Vec<u8>)> = p06_bytes::corpus();
    let src = p06_bytes::fix().src();
    let outs: Vec<Vec<u8>> = corpus.iter().map(|(_, p)| interp(&parse_patch(p, true).unwrap().0, Some(&src)).unwrap()).collect();
    let r = Radix(vec![corpus.len() as u64, 7, 6, 5]);
    let cp = corpus.clone();
    let sr = src.clone();
    v.push(space("sinks", r.total(), move |i, c| {
        let d = r.get(i);
        let want = &outs[d[0]];
        let n = want.len();
        let held = [0, 1, n.saturating_sub(1), n, n + 1, n + 40, 3 * n + 7][d[1]];
        let prior: Vec<u8> = (0..held).map(|k| 0xE0 ^ k as u8).collect();
        let at = [0, 1, held / 2, held, held + 9, n][d[2]];
        let mut o = Vio::new(prior.clone(), Plan::Full);
        o.pos = at as u64;
        let mut s = Vio::new(sr.clone(), Plan::Full);
        s.pos = [0, 1, sr.len() / 2, sr.len(), sr.len() + 100][d[3]] as u64;
        let mut p = Cursor::new(&cp[d[0]].1[..]);
        let what = || format!("{}: sink of {held} bytes at {at}, source at {}", cp[d[0]].0, [0, 1, sr.len() / 2, sr.len(), sr.len() + 100][d[3]]);
        c.sample(what);
        c.eval(held > 0 || at > 0 || d[3] > 0, H::new(165).u(i));
        c.state(H::new(165).u(i));
        c.transitions += 1;
        catch(|| smdiff_decoder::apply_patch(&mut p, Some(&mut s), &mut o)).map_err(|e| format!("{e}; {}", what()))?.map_err(|e| format!("{e}; {}", what()))?;
        let mut w = want.clone();
        if held > n { w.extend(&prior[n..]) }
        if o.data != w { return Err(format!("the sink holds something else: {}; {}", diff(&o.data, &w), what())) }
        if s.data != sr { return Err(format!("the source was changed; {}", what())) }
        Ok(())
    }));
    // writers that hold something already: it stays, and the same bytes follow
    let (s2, w) = (sc.clone(), sc.iter().map(|s| s.go(&s.full()).ok().and_then(|r| r.0.ok())).collect::<Vec<_>>());
    let writers = ["patch", "new patch", "summary", "out"];
    v.push(space("appending", n * 3, move |i, c| {
        let k = (i % n) as usize;
        let s = &s2[k];
        let at = s.data.len() - 1;
        if !s.data[at].1.is_empty() || !writers.contains(&s.data[at].0) || s.name.starts_with("apply") { return Ok(()) }
        let Some(want) = &w[k] else { return Err(format!("{} fails", s.name)) };
        let held = [1usize, 5, 4096][(i / n) as usize];
        let prior: Vec<u8> = (0..held).map(|k| 0xE0 ^ k as u8).collect();
        let mut st = s.streams(&s.full());
        st[at].data = prior.clone();
        st[at].pos = held as u64;
        c.eval(true, H::new(166).u(i));
        c.state(H::new(166).u(i));
        c.transitions += 1;
        let r = catch(|| (s.run)(&mut st)).map_err(|e| format!("{e}; {}", s.name))?.map_err(|e| format!("{e}; {}", s.name))?;
        let mut x = prior;
        x.extend(&want.data[at]);
        if r != want.ret || st[at].data != x { return Err(format!("{} into a writer of {held} bytes: {}", s.name, diff(&st[at].data, &x))) }
        for (q, z) in st.iter().enumerate() { if q != at && z.data != s.data[q].1 { return Err(format!("{} changed its input {}", s.name, s.data[q].0)) } }
        Ok(())
    }));
    // one configuration, several targets in turn: neither the configuration nor the results change
    let cfgs = super::p01_encode::MATCHERS;
    let secs = [Sec::None, Sec::Smdiff(0), Sec::Smdiff(9), Sec::Zstd(3), Sec::Brotli(5)];
    let tg: Vec<Vec<u8>> = vec![vec![], noise(1, 5), text(2, 700), { let mut t = noise(3, 300); t.extend(vec![1; 200]); t.extend(noise(3, 300)); t }, vec![9; 5000], noise(4, 2000)];
    let q = tg.len() as u64;
    let r = Radix(vec![cfgs, secs.len() as u64, 2, q, q, q]);
    v.push(space("one configuration", r.total(), move |i, c| {
        let d = r.get(i);
        let mut cf = super::p01_encode::matcher(d[0]);
        cf.sec = secs[d[1]];
        cf.seg = d[2] == 1;
        let cfg = cf.make();
        let shown = format!("{cfg:?}");
        let src = noise(3, 1500);
        c.state(H::new(167).u(i));
        c.traces += 1;
        for k in [d[3], d[4], d[5]] {
            c.eval(true, H::new(167).u(i).u(k as u64));
            c.transitions += 1;
            let a = catch(|| encode(Some(&src), &tg[k], &cfg))?.map_err(|e| e.to_string())?;
            let b = catch(|| encode(Some(&src), &tg[k], &cf.make()))?.map_err(|e| e.to_string())?;
            if a != b { return Err(format!("target {k} with a configuration used before: {}; {cf:?}", diff(&a, &b))) }
        }
        if format!("{cfg:?}") != shown { return Err(format!("encoding changed its configuration: {cf:?}")) }
        Ok(())
    }));
    // one encoding after another of related content: every ordered pair (with the first one run once or
    // twice), under every matcher, against the result on a thread that did nothing before
    let words: Vec<Vec<u8>> = (0..7).map(|k| noise(900 + k, 5)).collect();
    let mk = move |tag: u64, n: usize| -> Vec<u8> { noise(1000 + tag, n).iter().enumerate().flat_map(|(j, x)| { let mut w = words[*x as usize % 7].clone(); w.extend(noise(5000 + tag * 1000 + j as u64, *x as usize / 7 % 4)); w }).collect() };
    let mut rel: Vec<Vec<u8>> = vec![];
    for k in 0..t.pick(10u64, 24) { rel.push(mk(k, [12, 60, 60, 200][k as usize % 4])) }
    rel.extend([vec![3; 60], rel[1][40..].to_vec(), [&rel[2][..100], &rel[2][90..]].concat(), [&rel[3][200..], &[0; 40][..], &rel[3][..100]].concat(), vec![], rel[0][..4].to_vec()]);
    let q = rel.len() as u64;
    let rsrc = mk(99, 150);
    let (rl, rs) = (Arc::new(rel), Arc::new(rsrc));
    let refs: Arc<Vec<std::sync::OnceLock<Vec<u8>>>> = Arc::new((0..q * super::p01_encode::MATCHERS).map(|_| std::sync::OnceLock::new()).collect());
    v.push(space("related encodings", super::p01_encode::MATCHERS * q * q * 2, move |i, c| {
        let d = Radix(vec![super::p01_encode::MATCHERS, 2, q, q]).get(i);
        let cf = super::p01_encode::matcher(d[0]);
        let alone = refs[d[3] * super::p01_encode::MATCHERS as usize + d[0]].get_or_init(|| std::thread::scope(|s| s.spawn(|| catch(|| encode(Some(&rs), &rl[d[3]], &cf.make()).unwrap_or_default()).unwrap_or_default()).join().unwrap()));
        c.state(H::new(169).u(i));
        c.traces += 1; c.transitions += 2;
        for _ in 0..=d[1] { let _ = catch(|| encode(Some(&rs), &rl[d[2]], &cf.make()).map_err(|e| e.to_string()))??; }
        c.eval(true, H::new(169).b(alone));
        let b = catch(|| encode(Some(&rs), &rl[d[3]], &cf.make()))?.map_err(|e| e.to_string())?;
        if b != *alone { return Err(format!("encoding {} after {}: {}; {cf:?}", abbrev(&rl[d[3]]), abbrev(&rl[d[2]]), diff(&b, alone))) }
        Ok(())
    }));
    // a merger that was copied goes on as if it had not been
    let pats: Vec<Vec<u8>> = corpus.iter().map(|p| p.1.clone()).collect();
    let m = pats.len() as u64;
    v.push(space("copied mergers", m * m, move |i, c| {
        let (a, b) = (&pats[(i % m) as usize], &pats[(i / m) as usize]);
        let wr = |s: smdiff_merger::SummaryPatch| -> Result<Vec<u8>, String> { let mut o = vec![]; s.write(&mut o, None, None, None).map_err(|e| e.to_string())?; Ok(o) };
        let go = || -> Result<(), String> {
            let Ok(m1) = smdiff_merger::Merger::new(Cursor::new(a)).map_err(|e| e.to_string())? else { return Ok(()) };
            let first = wr(m1.clone().finish())?;
            let m2 = m1.clone();
            let r1 = m1.clone().merge(Cursor::new(b)).map(|r| format!("{:?}", merger_end(r))).map_err(|e| e.to_string());
            if wr(m1.finish())? != first { return Err("merging a copy changed the original".into()) }
            let r2 = m2.merge(Cursor::new(b)).map(|r| format!("{:?}", merger_end(r))).map_err(|e| e.to_string());
            if r1 != r2 { return Err("the copy and the original merge differently".into()) }
            Ok(())
        };
        c.eval(true, H::new(168).u(i));
        c.state(H::new(168).u(i));
        c.transitions += 1;
        catch(go)?.map_err(|e| format!("{e}: {} after {}", abbrev(a), abbrev(b)))
    }));
    v
}
