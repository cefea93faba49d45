//! P10 merged chains, P11 the end of merging and the summary, P12 transcoding.
use super::p01_encode::Sec;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use smdiff_merger::{Merger, SummaryPatch};
use std::io::Cursor;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Judge { Output, End }

/// One patch of a chain: the sections and what they are encoded as.
type Link = Vec<RSec>;
fn descr(chain: &[Link], src: usize) -> String {
    format!("source of {src} bytes, patches {}", chain.iter().map(|l| format!("{:?}", l.iter().map(|s| (s.seg, s.algo, show(&s.ops))).collect::<Vec<_>>())).collect::<Vec<_>>().join(" then "))
}
/// Output of a patch over bytes that carry where they came from (true: the original source).
fn trace(secs: &[RSec], src: &[(u8, bool)]) -> Option<Vec<(u8, bool)>> {
    let mut o: Vec<(u8, bool)> = vec![];
    for op in secs.iter().flat_map(|s| &s.ops) {
        match op {
            ROp::Add(b) => o.extend(b.iter().map(|x| (*x, false))),
            ROp::Run(b, n) => o.extend(std::iter::repeat((*b, false)).take(*n as usize)),
            ROp::CopyD(a, n) => { let (a, n) = (*a as usize, *n as usize); o.extend_from_slice(src.get(a..a + n)?) }
            ROp::CopyO(a, n) => { let (a, n) = (*a as usize, *n as usize); if a + n > o.len() { return None } o.extend_from_within(a..a + n) }
        }
    }
    Some(o)
}
/// the summary of merging from the last patch to the first; and after how many merges it was finished, if early
fn merged(pats: &[Vec<u8>], full: bool) -> Result<(SummaryPatch, Option<usize>), String> {
    let e = |k: usize| move |e: std::io::Error| format!("merging fails at patch {k}: {:?} {e}", e.kind());
    let n = pats.len();
    let mut m = match Merger::new(Cursor::new(&pats[n - 1])).map_err(e(n - 1))? { Ok(m) => m, Err(s) => return Ok((s, Some(n - 1))) };
    for k in (0..n - 1).rev() {
        if full {
            // a merger may be finished at any point, without effect on its clone
            let _ = m.clone().finish();
        }
        m = match m.merge(Cursor::new(&pats[k])).map_err(e(k))? { Ok(m) => m, Err(s) => return Ok((s, Some(k))) };
    }
    Ok((m.finish(), None))
}
#[derive(Clone, Copy, Debug)]
pub struct OutCfg { pub size: Option<usize>, pub seg: Option<bool>, pub sec: Sec }
const SECS: [Sec; 4] = [Sec::None, Sec::Smdiff(3), Sec::Zstd(3), Sec::Brotli(3)];
fn algo(s: &Sec) -> u8 { match s { Sec::None => 0, Sec::Smdiff(_) => 1, Sec::Zstd(_) => 2, Sec::Brotli(_) => 3 } }
const SIZES: [Option<usize>; 7] = [None, Some(0), Some(65535), Some(65536), Some(131070), Some(usize::MAX), Some((1 << 32) + 3)];
fn outcfg(i: u64) -> OutCfg { OutCfg { size: SIZES[(i / 12 % 7) as usize], seg: [None, Some(false), Some(true)][(i % 3) as usize], sec: SECS[(i / 3 % 4) as usize] } }
const OUTCFGS: u64 = 84;
pub fn fmt_of(o: &OutCfg) -> smdiff_common::Format { fmt(o.seg.unwrap_or(false)) }

fn check_chain(j: Judge, chain: &[Link], src: &[u8], oc: &[OutCfg], c: &mut Ctx) -> Result<(), String> {
    let tagged: Vec<(u8, bool)> = src.iter().map(|b| (*b, true)).collect();
    // what every patch of the chain produces
    let mut outs = vec![tagged];
    for l in chain {
        let Some(o) = trace(l, outs.last().unwrap()) else { c.note("chains that are not valid"); return Ok(()) };
        c.state(H::new(10).b(&o.iter().map(|x| x.0 ^ x.1 as u8 * 0x80).collect::<Vec<_>>()).u(outs.len() as u64).u(src.len() as u64));
        c.transitions += l.iter().map(|s| s.ops.len() as u64).sum::<u64>();
        outs.push(o);
    }
    let want: Vec<u8> = outs.last().unwrap().iter().map(|x| x.0).collect();
    let d = || descr(chain, src.len());
    let pats: Vec<Vec<u8>> = chain.iter().map(|l| enc_patch(l)).collect();
    c.traces += 1;
    c.evals += 1;
    c.sample(|| d());
    let run = |full| catch(|| merged(&pats, full)).map_err(|p| format!("{p}; {}", d()))?.map_err(|e| format!("{e}; {}", d()));
    let (sum, end) = run(true)?;
    let ops = from_ops(&sum.take_ops());
    if j == Judge::Output {
        let mut got = vec![];
        interp_into(&mut got, &ops, Some(src)).map_err(|e| format!("the summary {} needs more than the original source ({e}); {}", show(&ops), d()))?;
        if got != want { return Err(format!("the summary produces another output ({}): {}; {}", diff(&got, &want), show(&ops), d())) }
        c.outcome(H::new(100).b(&got));
        let mut p = vec![];
        run(false)?.0.write(&mut p, None, None, None).map_err(|e| format!("writing the summary fails: {e}; {}", d()))?;
        match apply(&p, Some(src)) {
            Ok(o) if o == want => {}
            Ok(o) => return Err(format!("the written summary produces another output ({}); {}", diff(&o, &want), d())),
            Err(e) => return Err(format!("the written summary is refused: {e}; {}", d())),
        }
        return Ok(());
    }
    // P11: the first point, from the end, at which nothing of the output comes from the input of the patch
    let mut expect = None;
    for k in (0..chain.len()).rev() {
        let mut t: Vec<(u8, bool)> = outs[k].iter().map(|x| (x.0, true)).collect();
        for l in &chain[k..] { t = trace(l, &t).unwrap() }
        if !t.iter().any(|x| x.1) { expect = Some(k); break }
    }
    if end != expect { return Err(format!("merging ends early at patch {end:?} instead of {expect:?} (counted from the first, None: not early); {}", d())) }
    if expect.is_some() { c.note("early ends") }
    let has = ops.iter().any(|o| matches!(o, ROp::CopyD(..)));
    if has == end.is_some() { return Err(format!("summary {} {} copies from the source; {}", show(&ops), if has { "has" } else { "has no" }, d())) }
    for o in oc {
        let mut p = vec![];
        catch(|| run(false)?.0.write(&mut p, o.size, o.seg.map(fmt), o.sec.make()).map_err(|e| format!("writing the summary fails: {e}; {o:?}; {}", d())))
            .map_err(|e| format!("{e} writing the summary; {o:?}; {}", d()))??;
        check_written(&p, &ops, o, &d, c)?;
    }
    Ok(())
}
/// The bytes hold exactly the operations in the form asked for.
fn check_written(p: &[u8], ops: &[ROp], o: &OutCfg, d: &dyn Fn() -> String, c: &mut Ctx) -> Result<(), String> {
    let (secs, used) = parse_patch(p, true).map_err(|e| format!("not a valid patch: {e:?}; {o:?}; {}", d()))?;
    if used != p.len() { return Err(format!("{} bytes after the patch; {o:?}; {}", p.len() - used, d())) }
    check_form(&secs, o, d)?;
    let flat: Vec<ROp> = secs.iter().flat_map(|s| s.ops.iter().cloned()).collect();
    if flat != *ops { return Err(format!("written as {} instead of {}; {o:?}; {}", show(&flat), show(ops), d())) }
    let r = read_dec(p).map_err(|e| format!("the decoder refuses: {e}; {o:?}; {}", d()))?;
    let back: Vec<ROp> = r.iter().flat_map(|s| s.1.ops.iter().cloned()).collect();
    if back != *ops { return Err(format!("reads back as {} instead of {}; {o:?}; {}", show(&back), show(ops), d())) }
    if secs.len() > 1 { c.note("summaries of several sections") }
    c.evals += 1;
    Ok(())
}
fn check_form(secs: &[RSec], o: &OutCfg, d: &dyn Fn() -> String) -> Result<(), String> {
    let lim = o.size.unwrap_or(MAXW as usize).clamp(65535, MAXW as usize);
    for (k, s) in secs.iter().enumerate() {
        if o.seg.map_or(false, |f| f != s.seg) { return Err(format!("section {k} has another format; {o:?}; {}", d())) }
        if s.algo != algo(&o.sec) { return Err(format!("section {k} has compression {}; {o:?}; {}", s.algo, d())) }
        if s.out() > lim { return Err(format!("section {k} of {} bytes; {o:?}; {}", s.out(), d())) }
        if s.more != (k + 1 < secs.len()) { return Err(format!("terminal mark wrong at section {k}; {o:?}; {}", d())) }
    }
    Ok(())
}

/// tokens of the first patch and of later patches whose source is the predecessor's output of n bytes
fn toks(n: u64, rich: bool) -> Vec<Tok> {
    let mut v = vec![Tok::Add(1), Tok::Add(4), Tok::Run(0xA0, 3), Tok::OAll, Tok::OEnd(3), Tok::OStart(1, 2), Tok::Sec];
    // always the same number of tokens, whatever n is
    let d = |a: u64, l: u64| if n > 0 && a < n { Tok::D(a, l.min(n - a).max(1) as u16) } else { Tok::OStart(1 << 40, 1) };
    v.extend([d(0, n), d(0, 2), d(n.saturating_sub(3), 3), d(n / 2, 3)]);
    if rich { v.extend([d(1, n.saturating_sub(2)), d(n / 3, n / 2), Tok::Run(0xA1, 1), Tok::OStart(0, 1)]) }
    v
}
const NT: u64 = 11;
const NR: u64 = 15;
fn pick(t: &[Tok], q: &[usize], tag: u8) -> Option<Build> { build(&q.iter().map(|d| &t[*d]).collect::<Vec<_>>(), tag) }
fn src_of(n: usize) -> Vec<u8> { (0..n).map(|k| b'a' + k as u8 % 26).collect() }

fn src66k2() -> &'static [u8] {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    S.get_or_init(|| noise(47, 90_000))
}
fn src66k() -> &'static [u8] {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    S.get_or_init(|| noise(46, 66_000))
}
fn chains(t: Tier, j: Judge) -> Vec<Space> {
    let mut v = vec![];
    let some = move |i: u64| -> Vec<OutCfg> { if j == Judge::End { vec![outcfg(i * 5 % OUTCFGS)] } else { vec![] } };
    // every range of every small predecessor
    let s = Seqs { k: NT, max: t.pick(4, 5) };
    v.push(space("ranges", s.total(), move |i, c| {
        let src = src_of(7);
        let Some(b) = pick(&toks(7, false), &s.get(i), 0) else { return Ok(()) };
        let p1 = b.secs(i % 2 == 1, 0);
        if b.out > 24 { c.note("predecessors over 24 bytes left to other spaces"); return Ok(()) }
        for a in 0..b.out { for l in 1..=b.out - a {
            let cp = ROp::CopyD(a as u64, l as u16);
            let secs = |ops: Vec<ROp>| vec![RSec { ops, seg: (a + l) % 2 == 1, algo: 0, more: false }];
            let p2 = match (a + l) % 3 { 0 => secs(vec![cp]), 1 => secs(vec![cp.clone(), ROp::Run(7, 2), cp]), _ => secs(vec![ROp::Add(vec![1, 2]), cp, ROp::CopyO(1, (l + 1) as u16), ROp::CopyD(0, 1)]) };
            check_chain(j, &[p1.clone(), p2], &src, &[], c)?;
        } }
        Ok(())
    }));
    // all pairs of small programs
    let s1 = Seqs { k: NT, max: t.pick(3, 4) };
    let s2 = Seqs { k: NR, max: 3 };
    v.push(space("pairs", s1.total() * s2.total(), move |i, c| {
        let src = src_of(7);
        let Some(b1) = pick(&toks(7, false), &s1.get(i / s2.total()), 0) else { return Ok(()) };
        let Some(b2) = pick(&toks(b1.out as u64, true), &s2.get(i % s2.total()), 100) else { return Ok(()) };
        check_chain(j, &[b1.secs(i % 2 == 1, 0), b2.secs(i / 2 % 2 == 1, 0)], &src, &some(i), c)
    }));
    // long terminal programs over a few predecessors
    let s2 = Seqs { k: NT, max: t.pick(4, 5) };
    v.push(space("long-last", s2.total() * 6, move |i, c| {
        let src = src_of(9);
        let p1 = match i % 6 {
            0 => vec![ROp::CopyD(0, 9)],
            1 => vec![ROp::Add(vec![1, 2]), ROp::CopyD(3, 4), ROp::Run(9, 3), ROp::CopyO(1, 4)],
            2 => vec![ROp::Run(9, 5)],
            3 => vec![ROp::Add(vec![1, 2, 3]), ROp::CopyO(0, 3), ROp::CopyO(2, 4)],
            4 => vec![ROp::CopyD(8, 1), ROp::CopyD(0, 1), ROp::Add(vec![5])],
            _ => vec![],
        };
        let n: usize = p1.iter().map(|o| o.len()).sum();
        let Some(b2) = pick(&toks(n as u64, false), &s2.get(i / 6), 100) else { return Ok(()) };
        check_chain(j, &[vec![RSec { ops: p1, seg: false, algo: 0, more: false }], b2.secs(true, 0)], &src, &some(i), c)
    }));
    // all triples of programs of up to two operations; thorough: longer ones for first and last
    let s = Seqs { k: NT, max: 2 };
    let s3 = Seqs { k: NT, max: t.pick(2, 3) };
    v.push(space("triples", s.total().pow(2) * s3.total(), move |i, c| {
        let src = src_of(7);
        let n = s.total();
        let Some(b1) = pick(&toks(7, false), &s.get(i % n), 0) else { return Ok(()) };
        let Some(b2) = pick(&toks(b1.out as u64, false), &s.get(i / n % n), 100) else { return Ok(()) };
        let Some(b3) = pick(&toks(b2.out as u64, false), &s3.get(i / n / n), 200) else { return Ok(()) };
        check_chain(j, &[b1.secs(false, 0), b2.secs(i % 2 == 1, 0), b3.secs(false, 0)], &src, &some(i), c)
    }));
    // chains of up to six (eight) patches over a few programs
    let s = Seqs { k: 5, max: t.pick(7, 9) };
    v.push(space("long-chains", s.total(), move |i, c| {
        let src = src_of(8);
        let mut n = 8u64;
        let mut chain = vec![];
        for (k, d) in s.get(i).iter().enumerate() {
            let ops = match d {
                0 => vec![ROp::CopyD(n / 2, (n - n / 2) as u16), ROp::CopyD(0, (n / 2) as u16)],
                1 => vec![ROp::CopyD(0, 2), ROp::Add(vec![k as u8, 2]), ROp::CopyD(4, (n - 4) as u16)],
                2 => vec![ROp::CopyD(1, 3), ROp::CopyO(0, 3), ROp::CopyD(n - 2, 2)],
                3 => vec![ROp::Run(k as u8, 3), ROp::CopyD(2, (n - 3) as u16)],
                _ => vec![ROp::Add(vec![k as u8; 3]), ROp::CopyO(0, 2), ROp::CopyD(2, 3)],
            };
            n = ops.iter().map(|o| o.len() as u64).sum();
            chain.push(vec![RSec { ops, seg: (i + k as u64) % 2 == 0, algo: 0, more: false }]);
        }
        if chain.is_empty() { return Ok(()) }
        check_chain(j, &chain, &src, &some(i), c)
    }));
    // every format, compression and division into sections of a set of chains
    v.push(space("representations", 8 * 64 * 4, move |i, c| {
        let src = src_of(9);
        let d = Radix(vec![64, 4, 8]).get(i);
        let (f1, f2) = (d[0] % 8, d[0] / 8);
        let (p1, p2) = rep_chain(d[2]);
        let cut = |ops: &[ROp], how: usize, f: usize| -> Link {
            let parts: Vec<Vec<ROp>> = match how { 0 => vec![ops.to_vec()], 1 => ops.iter().map(|o| vec![o.clone()]).collect(), 2 => vec![vec![], ops.to_vec(), vec![]], _ => { let h = ops.len() / 2; vec![ops[..h].to_vec(), ops[h..].to_vec()] } };
            let n = parts.len();
            let parts = if n == 0 { vec![vec![]] } else { parts };
            let n = parts.len().max(n);
            parts.into_iter().enumerate().map(|(k, ops)| RSec { ops, seg: f & 1 == 1, algo: (f / 2) as u8, more: k + 1 < n }).collect()
        };
        check_chain(j, &[cut(&p1, d[1], f1), cut(&p2, 3 - d[1], f2)], &src, &(0..if j == Judge::End { OUTCFGS } else { 0 }).filter(|k| (k + i) % 6 == 0).map(outcfg).collect::<Vec<_>>(), c)
    }));
    // operations of every size class, copies that straddle them
    let lens: [usize; 9] = [1, 2, 61, 62, 63, 317, 318, 40000, 65535];
    let s = Seqs { k: 9 * 3, max: 2 };
    v.push(space("sizes", s.total() * t.pick(6, 18), move |i, c| {
        let src = noise(33, 70000);
        let q = s.get(i / t.pick(6, 18));
        let mut ops = vec![];
        let mut n = 0u64;
        for (k, d) in q.iter().enumerate() {
            let l = lens[d % 9];
            let op = match d / 9 { 0 => ROp::Add(noise(40 + k as u64, l)), 1 => ROp::CopyD(k as u64 * 11 + 3, l as u16), _ => if l <= 62 { ROp::Run(k as u8, l as u8) } else if n >= l as u64 { ROp::CopyO(n - l as u64, l as u16) } else { ROp::CopyD(70000 - l as u64, l as u16) } };
            n += op.len() as u64;
            ops.push(op);
        }
        if n == 0 { return Ok(()) }
        let first = q.first().map_or(0, |d| lens[d % 9]) as u64;
        let mut p2 = vec![];
        let clip = |a: u64, l: u64| (a < n).then(|| ROp::CopyD(a, l.min(n - a).min(65535) as u16));
        match i % t.pick(6, 18) {
            0 => p2.extend(clip(0, n)),
            1 => { p2.extend(clip(1, n)); p2.extend(clip(0, n)) }
            2 => { p2.extend(clip(first.saturating_sub(1), 2)); p2.extend(clip(first, 65535)); p2.extend(clip(0, first)) }
            3 => { p2.extend(clip(n - 1, 1)); p2.push(ROp::CopyO(0, 1)); p2.extend(clip(n.saturating_sub(63), 63)); p2.extend(clip(n.saturating_sub(62), 62)) }
            4 => { p2.extend(clip(0, 65535)); let l = n.min(65535); p2.push(ROp::CopyO(0, l as u16)); p2.push(ROp::CopyO(l / 2, l as u16)) }
            5 => { p2.extend(clip(n / 2, n)); p2.push(ROp::Add(noise(50, 65535))); p2.extend(clip(n / 3, n / 2 + 1)); p2.push(ROp::CopyO(1, 65535)) }
            k => { for x in 0..4u64 { p2.extend(clip((first + n * x / (k - 4)).saturating_sub(x * k % 67), 1 + x * 62 + k)) } }
        }
        check_chain(j, &[vec![RSec { ops, seg: i % 2 == 0, algo: 0, more: false }], vec![RSec { ops: p2, seg: i % 4 < 2, algo: 0, more: false }]], &src, &some(i), c)
    }));
    // neighbours that belong together and whose lengths add up to about the largest one of an operation
    let r = Radix(vec![8, 8, 4, 5, 5, 2]);
    v.push(space("joins", r.total(), move |i, c| {
        let d = r.get(i);
        let ls = [1usize, 2, 62, 32767, 32768, 65533, 65534, 65535];
        let src = noise(38, 210_000);
        let (mut ops, mut n, mut at) = (vec![], 0u64, 5u64);
        for (k, l) in [ls[d[0]], ls[d[1]], [0, 1, 65535, 3][d[2]]].into_iter().enumerate() {
            if l == 0 { continue }
            let op = match d[3] {
                0 => { at += l as u64; ROp::CopyD(at - l as u64, l as u16) }
                1 => ROp::Add(noise(39 + k as u64, l)),
                2 if k == 1 => ROp::CopyO(0, l.min(n as usize) as u16),
                2 => ROp::CopyD(7, l as u16),
                3 if l <= 62 => ROp::Run(4, l as u8),
                3 => { at += l as u64; ROp::CopyD(at - l as u64, l as u16) }
                _ => { if k == 0 { at = 140_000 } else { at -= l as u64 } ROp::CopyD(at, l as u16) }
            };
            n += op.len() as u64;
            ops.push(op);
        }
        let step = [65535u64, 65534, 32768, 40_000, n.div_ceil(3).clamp(1, 65535)][d[4]];
        let mut p2 = vec![];
        let mut a = d[5] as u64;
        while a < n { let l = step.min(n - a); p2.push(ROp::CopyD(a, l as u16)); a += l }
        p2.push(ROp::Add(vec![1]));
        // and copies in the output that lie next to each other
        p2.push(ROp::CopyO(0, step.min(n.saturating_sub(d[5] as u64)).max(1) as u16));
        p2.push(ROp::CopyO(step.min(n.saturating_sub(d[5] as u64)), 1));
        check_chain(j, &[vec![RSec { ops, seg: i % 2 == 0, algo: 0, more: false }], vec![RSec { ops: p2, seg: i % 4 < 2, algo: 0, more: false }]], &src, &some(i), c)
    }));
    // outputs and sources over one section: positions beyond 2^16 and 2^24
    v.push(space("big-outputs", t.pick(24, 72), move |i, c| {
        let src = noise(34, 200_000);
        let d = Radix(vec![6, 4, 3]).get(i);
        let mut ops = vec![];
        let n = [20usize, 270, 300][d[2]];
        for k in 0..n { ops.push(match (k + d[0]) % 4 { 0 => ROp::CopyD(k as u64, 65535), 1 => ROp::Add(noise(k as u64, 300)), 2 if k > 4 => ROp::CopyO(k as u64 * 100, 60000), _ => ROp::CopyD(k as u64 * 7, 65535) }) }
        // into sections
        let mut secs: Link = vec![RSec { ops: vec![], seg: d[0] % 2 == 1, algo: d[1] as u8, more: true }];
        for o in ops { if secs.last().unwrap().out() + o.len() > [1 << 20, MAXW as usize][d[0] / 3] { secs.push(RSec { ops: vec![], seg: d[0] % 2 == 0, algo: d[1] as u8, more: true }) } secs.last_mut().unwrap().ops.push(o) }
        secs.last_mut().unwrap().more = false;
        let tot: u64 = secs.iter().map(|s| s.out() as u64).sum();
        let p2 = vec![ROp::CopyD(tot - 65535, 65535), ROp::CopyD(tot / 2, 65535), ROp::CopyO(3, 65535), ROp::Add(vec![1; 100]), ROp::CopyD(0, 65535), ROp::CopyD(tot / 3, 1), ROp::CopyD(tot.saturating_sub(1 << 18), 65535)];
        check_chain(j, &[secs, vec![RSec { ops: p2, seg: false, algo: 0, more: false }]], &src, &some(i), c)
    }));
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    // copies of every length, cut at the boundaries of what they refer to
    v.push(space("every-length", t.pick(65535 / 4, 65535) * 2, move |i, c| {
        let n = (t.pick(4, 1) * (i / 2) + 1 + (i / 2) % 4).min(65535) as u16;
        let one = |ops: Vec<ROp>| vec![RSec { ops, seg: i % 2 == 1, algo: 0, more: false }];
        let first = one(vec![ROp::CopyD(7, n), ROp::Add(noise(2, 65536 - n as usize)), ROp::CopyO(n as u64 / 2, n)]);
        let second = if i % 2 == 0 { one(vec![ROp::CopyD(65536 - n as u64 / 2, n), ROp::Add(vec![1]), ROp::CopyO(0, n / 2 + 1)]) } else { one(vec![ROp::CopyD(1, n), ROp::CopyD(n as u64, n)]) };
        let oc = [OutCfg { size: None, seg: None, sec: Sec::None }];
        check_chain(j, &[first, second], src66k(), &oc, c)
    }));
    // patches of very many operations, alone and under a patch that copies long ranges of what they make
    v.push(space("crowds", cn * CROWD_KINDS * 5, move |i, c| {
        let d = Radix(vec![5, CROWD_KINDS, cn]).get(i);
        let n = cc[d[2]];
        let one = |ops: Vec<ROp>| vec![RSec { ops, seg: i % 2 == 1, algo: 0, more: false }];
        let ops = crowd(d[1], n);
        let out: usize = ops.iter().map(|o| o.len()).sum();
        let m = out.min(65535);
        let long = vec![ROp::CopyD((out - m) as u64, m as u16), ROp::Add(vec![1, 2, 3]), ROp::CopyD(0, m as u16), ROp::CopyO(1, m.min(60000) as u16), ROp::CopyD((out / 3) as u64, (m / 3) as u16)];
        let chain = match d[0] {
            0 => vec![one(ops)],
            1 => vec![one(ops), one(long)],
            // the many operations refer to what a short patch makes
            2 => vec![one(vec![ROp::CopyD(3, 250), ROp::Run(7, 50)]), one(ops)],
            3 => vec![one(ops), one(long), one(vec![ROp::CopyD(m as u64 / 2, m.min(65535) as u16), ROp::CopyD(1, 2)])],
            _ => vec![crowd_of_secs(d[1] % 4, n, 0), one(vec![ROp::CopyD(0, (n / 5).max(1).min(m) as u16)])],
        };
        let oc = [OutCfg { size: SIZES[i as usize % 7], seg: [None, Some(false), Some(true)][i as usize % 3], sec: SECS[(i / 7 % 4) as usize] }];
        check_chain(j, &chain, &noise(45, 300), &oc, c)
    }));
    v
}
fn rep_chain(k: usize) -> (Vec<ROp>, Vec<ROp>) {
    match k {
        0 => (vec![ROp::Add(vec![1, 2, 3]), ROp::CopyD(2, 5), ROp::Run(6, 4)], vec![ROp::CopyD(2, 8), ROp::CopyO(1, 4), ROp::Add(vec![8, 9])]),
        1 => (vec![ROp::CopyD(0, 9), ROp::CopyO(2, 6), ROp::Add(vec![4])], vec![ROp::Add(vec![7]), ROp::CopyD(8, 5), ROp::CopyD(0, 3), ROp::CopyO(0, 9)]),
        2 => (vec![ROp::Run(1, 5), ROp::Add(vec![1, 2]), ROp::CopyO(3, 4)], vec![ROp::CopyD(0, 11), ROp::Run(2, 2)]),
        3 => (vec![ROp::CopyD(5, 4), ROp::CopyD(0, 4)], vec![ROp::Add(vec![1, 2, 3]), ROp::CopyO(0, 2)]),
        4 => (vec![], vec![ROp::Add(vec![1, 2, 3]), ROp::Run(4, 4), ROp::CopyO(2, 4)]),
        5 => (vec![ROp::CopyD(1, 1), ROp::CopyD(3, 1), ROp::CopyD(5, 1)], vec![]),
        6 => (vec![ROp::Add(noise(5, 400)), ROp::CopyO(10, 300), ROp::CopyD(1, 7)], vec![ROp::CopyD(350, 100), ROp::CopyD(690, 17), ROp::CopyO(5, 80)]),
        _ => (vec![ROp::CopyD(0, 2), ROp::CopyD(2, 2), ROp::Run(5, 62), ROp::CopyD(4, 2)], vec![ROp::CopyD(3, 2), ROp::CopyD(66, 2), ROp::CopyD(64, 3)]),
    }
}
/// chains written by the real encoder
fn encoded_chains(t: Tier) -> Space {
    let b: Arc<Vec<Vec<u8>>> = Arc::new((0..3).map(|k| noise(800 + k, 150)).collect());
    let s = Seqs { k: 5, max: t.pick(2, 3) };
    let n = s.total();
    space("encoded", n * n * 8, move |i, c| {
        let mk = |q: Vec<usize>| -> Vec<u8> { q.iter().flat_map(|d| match d { 3 => vec![b'z'; 90], 4 => b"some text".to_vec(), k => b[*k].clone() }).collect() };
        let f0 = b.concat();
        let f1 = mk(s.get(i / 8 % n));
        let f2 = [&mk(s.get(i / 8 / n))[..], b"tail", &f1[..f1.len() / 2]].concat();
        let cfg = super::p01_encode::Cfg { sec: SECS[(i % 4) as usize], seg: i / 4 % 2 == 1, trgt: Some((27, 11, None)), ..super::p01_encode::PLAIN }.make();
        let e = |a: &[u8], b: &[u8]| encode(Some(a), b, &cfg).map_err(|e| e.to_string());
        let (p1, p2) = (e(&f0, &f1)?, e(&f1, &f2)?);
        c.evals += 1;
        c.traces += 1;
        c.transitions += 2;
        c.state(H::new(11).b(&p1).b(&p2));
        c.sample(|| format!("{} -> {} -> {} bytes", f0.len(), f1.len(), f2.len()));
        let mut p = vec![];
        catch(|| merged(&[p1, p2], true))?.map_err(|e| format!("{e}; encoded chain {} {} {}", f0.len(), f1.len(), f2.len()))?.0.write(&mut p, None, None, None).map_err(|e| e.to_string())?;
        match apply(&p, Some(&f0)) {
            Ok(o) if o == f2 => Ok(()),
            x => Err(format!("merging two encoded patches ({} -> {} -> {} bytes) gives {}", abbrev(&f0), abbrev(&f1), abbrev(&f2), match x { Ok(o) => diff(&o, &f2), Err(e) => e })),
        }
    })
}
pub fn p10(t: Tier) -> Vec<Space> { let mut v = chains(t, Judge::Output); v.push(encoded_chains(t)); v.extend(super::wide::p10(t)); v }
pub fn p11(t: Tier) -> Vec<Space> {
    let mut v = chains(t, Judge::End);
    // every output option of summaries of every shape, of a single patch
    let al: [Tok; 9] = [Tok::Add(1), Tok::Add(63), Tok::Run(5, 62), Tok::D(0, 40000), Tok::D(5, 3), Tok::OAll, Tok::OEnd(1), Tok::Add(65535), Tok::Sec];
    let s = Seqs { k: 9, max: t.pick(3, 4) };
    v.push(space("summaries", s.total() * if t.thorough() { 4 } else { 1 }, move |i, c| {
        let (r, i) = if t.thorough() { (i % 4, i / 4) } else { (i % 4, i) };
        let q = s.get(i);
        let Some(b) = build(&q.iter().map(|d| &al[*d]).collect::<Vec<_>>(), 0) else { return Ok(()) };
        let heavy = q.iter().any(|d| matches!(d, 3 | 7));
        let src = noise(35, 40100);
        let oc: Vec<OutCfg> = (0..OUTCFGS).filter(|k| if heavy && !t.thorough() { (k + i) % 9 == 0 } else { t.thorough() == false || k % 4 == r }).map(outcfg).collect();
        check_chain(Judge::End, &[b.secs(i % 2 == 1, 0)], &src, &oc, c)
    }));
    v
}

// ------------------------------------------------------------------------------------ transcoding
fn check_transcode(secs: &[RSec], src: &[u8], ocs: &[OutCfg], c: &mut Ctx) -> Result<(), String> {
    let want = interp(secs, Some(src)).map_err(|e| format!("generator: {e}"))?;
    let p = enc_patch(secs);
    for s in secs { c.transitions += s.ops.len() as u64 + 1; }
    c.state(H::new(12).b(&p));
    c.sample(|| format!("{:?}", secs.iter().map(|s| (s.seg, s.algo, show(&s.ops))).collect::<Vec<_>>()));
    for o in ocs {
        let d = || format!("{:?} on a source of {} bytes", secs.iter().map(|s| (s.seg, s.algo, show(&s.ops))).collect::<Vec<_>>(), src.len());
        c.evals += 1;
        c.traces += 1;
        let mut out = vec![];
        catch(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&p), &mut out, fmt(o.seg.unwrap_or(false)), o.sec.make(), o.size.unwrap_or(usize::MAX)))
            .map_err(|e| format!("{e}; {o:?}; {}", d()))?.map_err(|e| format!("fails: {e}; {o:?}; {}", d()))?;
        let (got, used) = parse_patch(&out, true).map_err(|e| format!("not a valid patch: {e:?}; {o:?}; {}", d()))?;
        if used != out.len() { return Err(format!("{} bytes after the patch; {o:?}; {}", out.len() - used, d())) }
        check_form(&got, &OutCfg { seg: Some(o.seg.unwrap_or(false)), ..*o }, &d)?;
        check_ranges(&got, src.len()).map_err(|e| format!("{e}; {o:?}; {}", d()))?;
        let r = interp(&got, Some(src)).map_err(|e| format!("not applicable: {e}; {o:?}; {}", d()))?;
        if r != want { return Err(format!("another output ({}): {:?}; {o:?}; {}", diff(&r, &want), got.iter().map(|s| show(&s.ops)).collect::<Vec<_>>(), d())) }
        c.outcome(H::new(120).b(&out));
        if got.iter().map(|s| s.ops.len()).sum::<usize>() != secs.iter().map(|s| s.ops.len()).sum::<usize>() { c.note("joined or split") }
        match apply(&out, Some(src)) {
            Ok(r) if r == want => {}
            Ok(r) => return Err(format!("the decoder gets another output ({}); {o:?}; {}", diff(&r, &want), d())),
            Err(e) => return Err(format!("the decoder refuses: {e}; {o:?}; {}", d())),
        }
    }
    Ok(())
}
pub fn p12(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let one = |i: u64| vec![outcfg(i * 5 % OUTCFGS), outcfg((i * 11 + 30) % 12)];
    // all programs over a rich alphabet
    let al: Vec<Tok> = vec![Tok::Add(1), Tok::Add(2), Tok::Add(62), Tok::Add(63), Tok::Run(0xA0, 1), Tok::Run(0xA0, 61), Tok::Run(0xA0, 62), Tok::Run(0xB0, 5), Tok::D(0, 3), Tok::D(2, 1), Tok::OStart(0, 1), Tok::OEnd(1), Tok::OAll, Tok::Sec];
    let s = Seqs { k: al.len() as u64, max: t.pick(5, 6) };
    v.push(space("programs", s.total(), move |i, c| {
        let Some(b) = build(&s.get(i).iter().map(|d| &al[*d]).collect::<Vec<_>>(), 0) else { return Ok(()) };
        check_transcode(&b.secs(i % 2 == 1, 0), &src_of(5), &one(i), c)
    }));
    // long chains of neighbours that can be joined
    let al = [Tok::Add(1), Tok::Add(3), Tok::Run(0xA0, 62), Tok::Run(0xB0, 1), Tok::OAll, Tok::Sec];
    let s = Seqs { k: 6, max: t.pick(7, 9) };
    v.push(space("neighbours", s.total(), move |i, c| {
        let Some(b) = build(&s.get(i).iter().map(|d| &al[*d]).collect::<Vec<_>>(), 0) else { return Ok(()) };
        check_transcode(&b.secs(i % 2 == 1, 0), &[], &one(i)[..1], c)
    }));
    // runs that are joined up to any number: n runs of one byte, and of two alternating in groups
    let r = Radix(vec![t.pick(40, 160), 6, 4]);
    v.push(space("many-runs", r.total(), move |i, c| {
        let d = r.get(i);
        let n = d[0] + 1;
        let ops: Vec<ROp> = (0..n).map(|k| {
            let b = match d[2] { 0 => 5, 1 => (k / 3 % 2) as u8, 2 => (k % 7 / 6) as u8, _ => (k / 8) as u8 };
            ROp::Run(b, [1, 2, 31, 61, 62, (k % 62 + 1) as u8][d[1]])
        }).collect();
        let mut ops = ops;
        if d[2] == 2 { ops.insert(0, ROp::Add(vec![9, 9])); }
        check_transcode(&[RSec { ops, seg: false, algo: 0, more: false }], &[], &one(i), c)
    }));
    // runs joined to every length up to some thousands, and around what doubling copies and a copy's limit make of them
    let mut ls: Vec<u64> = (1..t.pick(2200, 20_000)).collect();
    for k in 5..13u64 { for d in 0..t.pick(5, 40) { ls.push((62 << k) + d - 2); } }
    for k in [1u64, 2, 3, 4, 20] { for d in 0..t.pick(9, 130) { ls.extend([65535 * k + d - 4, 65535 * k + 62 + d - 4, 65535 * k + 124 + d - 4]); } }
    let r = Radix(vec![4, 3, ls.len() as u64]);
    v.push(space("joined-runs", r.total(), move |i, c| {
        let d = r.get(i);
        let l = ls[d[2]];
        let mut ops = vec![];
        if d[0] % 2 == 1 { ops.extend([ROp::Add(vec![1, 2, 3]), ROp::CopyD(1, 4)]) }
        let unit = [62u64, 61, 7][d[1]];
        if unit == 7 && l > 30_000 { return Ok(()) }
        for _ in 0..l / unit { ops.push(ROp::Run(6, unit as u8)) }
        if l % unit > 0 { ops.push(ROp::Run(6, (l % unit) as u8)) }
        if d[0] / 2 == 1 {
            for _ in 0..l / 124 { ops.push(ROp::Run(9, 62)) }
            ops.extend([ROp::Run(9, 1), ROp::CopyO(l / 2, (l / 2).clamp(1, 700).min(l) as u16), ROp::Add(vec![4])]);
            if let Some(ROp::CopyO(a, n)) = ops.iter_mut().rev().nth(1) { *a = (*a).min(l - *n as u64) }
        }
        let mut at = 0;
        let mut secs = vec![RSec { ops: vec![], seg: i % 3 == 1, algo: 0, more: false }];
        for o in ops { if at + o.len() > 16_000_000 { secs.last_mut().unwrap().more = true; secs.push(RSec { ops: vec![], seg: false, algo: 0, more: false }); at = 0 } at += o.len(); secs.last_mut().unwrap().ops.push(o) }
        check_transcode(&secs, b"abcdef", &[outcfg((i / 12) * 5 % OUTCFGS)], c)
    }));
    let r = Radix(vec![t.pick(40, 160), 6, 3]);
    v.push(space("many-adds", r.total(), move |i, c| {
        let d = r.get(i);
        let ops: Vec<ROp> = (0..=d[0]).flat_map(|k| {
            let a = ROp::Add(noise(k as u64, [1, 2, 62, 63, 1000, 7 * k % 70 + 1][d[1]]));
            match d[2] { 1 if k % 3 == 2 => vec![a, ROp::Run(0, 4)], 2 if k % 5 == 4 => vec![a, ROp::CopyO(0, 1)], _ => vec![a] }
        }).collect();
        check_transcode(&[RSec { ops, seg: i % 2 == 1, algo: 0, more: false }], &[], &one(i), c)
    }));
    // around the largest operation and the segment limits
    let al = [Tok::Add(65535), Tok::Add(65534), Tok::Add(32768), Tok::Add(1), Tok::Run(0xA0, 62), Tok::D(0, 65535), Tok::OAll, Tok::Sec];
    let s = Seqs { k: al.len() as u64, max: t.pick(4, 5) };
    v.push(space("limits", s.total(), move |i, c| {
        let Some(b) = build(&s.get(i).iter().map(|d| &al[*d]).collect::<Vec<_>>(), 0) else { return Ok(()) };
        let oc: Vec<OutCfg> = if i < 600 { (0..OUTCFGS).filter(|k| (k + i) % 5 == 0).map(outcfg).collect() } else { vec![outcfg(i * 5 % OUTCFGS)] };
        check_transcode(&b.secs(i % 2 == 1, 0), &noise(36, 65600), &oc, c)
    }));
    // every pair of neighbouring sizes for joined Adds near the limit
    v.push(space("join-limit", t.pick(64, 256) * 3, |i, c| {
        let (a, w) = ((i / 3) as usize, i % 3);
        let l1 = [65535 - a, 65535, 65535 - a * 128][w as usize].max(1);
        let l2 = [a + 1, 65535 - a, 65535][w as usize];
        let ops = vec![ROp::Add(noise(1, l1)), ROp::Add(noise(2, l2)), ROp::Add(vec![1]), ROp::CopyO((l1 + l2 - 5) as u64, 6)];
        let mut secs = vec![];
        for (k, o) in ops.into_iter().enumerate() { secs.push(RSec { ops: vec![o], seg: i % 2 == 0, algo: 0, more: k < 3 }) }
        check_transcode(&secs, &[], &[outcfg(i * 11 % OUTCFGS), outcfg((i * 11 + 12) % OUTCFGS)], c)
    }));
    // every representation in, every representation out
    v.push(space("representations", 16 * 8 * 3, |i, c| {
        let d = Radix(vec![8, 3, 16]).get(i);
        let (p1, p2) = rep_chain(d[2] % 8);
        let ops = if d[2] < 8 { p1 } else if p2.iter().any(|o| matches!(o, ROp::CopyD(a, n) if a + *n as u64 > 9)) { p2.into_iter().map(|o| match o { ROp::CopyD(a, n) => ROp::CopyD(a % 300, n), o => o }).collect() } else { p2 };
        let parts: Vec<Vec<ROp>> = match d[1] { 0 => vec![ops], 1 => { let mut v: Vec<Vec<ROp>> = ops.into_iter().map(|o| vec![o]).collect(); v.push(vec![]); v } _ => { let h = ops.len() / 2; vec![vec![], ops[..h].to_vec(), ops[h..].to_vec()] } };
        let n = parts.len();
        let secs: Vec<RSec> = parts.into_iter().enumerate().map(|(k, ops)| RSec { ops, seg: d[0] % 2 == 1, algo: (d[0] / 2) as u8, more: k + 1 < n }).collect();
        check_transcode(&secs, &noise(37, 1000), &(0..OUTCFGS).map(outcfg).collect::<Vec<_>>(), c)
    }));
    // patches of the encoder, and several transcodings in a row
    v.push(space("encoded", 24 * 12, |i, c| {
        let d = Radix(vec![12, 4, 6]).get(i);
        let (s, tr): (Vec<u8>, Vec<u8>) = match d[2] {
            0 => (vec![], vec![]),
            1 => (vec![], vec![b'x'; 100_000]),
            2 => (noise(1, 2000), [noise(1, 900), noise(2, 100), noise(1, 2000)].concat()),
            3 => (vec![], text(3, 70_000)),
            4 => (noise(4, 200_000), [&noise(4, 200_000)[50_000..], b"abc", &noise(4, 100_000)[..], &[0; 5000]].concat()),
            _ => (vec![], [vec![1; 400], vec![2; 372], noise(6, 63), vec![3; 371], vec![4; 62]].concat()),
        };
        let cfg = super::p01_encode::Cfg { sec: SECS[d[1]], seg: d[0] % 2 == 1, trgt: Some((27, 11, None)), size: 70_000, ..super::p01_encode::PLAIN }.make();
        let p = encode(Some(&s), &tr, &cfg).map_err(|e| e.to_string())?;
        let (secs, _) = parse_patch(&p, true).map_err(|e| format!("encoder's patch: {e:?}"))?;
        check_transcode(&secs, &s, &[outcfg(i * 5 % OUTCFGS)], c)?;
        let mut p = p;
        for k in 0..4u64 {
            let o = outcfg((i * 13 + k * 31) % OUTCFGS);
            let mut q = vec![];
            smdiff_merger::transcoder::transcode(&mut Cursor::new(&p), &mut q, fmt(o.seg.unwrap_or(false)), o.sec.make(), o.size.unwrap_or(usize::MAX)).map_err(|e| format!("transcoding {k} of an encoded patch: {e}"))?;
            p = q;
            if apply(&p, Some(&s)).map_err(|e| format!("after {} transcodings: {e}", k + 1))? != tr { return Err(format!("another output after {} transcodings of an encoded patch ({d:?})", k + 1)) }
        }
        Ok(())
    }));
    v.extend(super::wide::p12(t));
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * (CROWD_KINDS * 2 + 4), move |i, c| {
        let d = Radix(vec![CROWD_KINDS * 2 + 4, cn]).get(i);
        let n = cc[d[1]];
        let ocs = [OutCfg { size: SIZES[i as usize % 7], seg: Some(i % 2 == 1), sec: SECS[(i / 5 % 4) as usize] }];
        let src = noise(44, 300);
        if d[0] < 4 { check_transcode(&crowd_of_secs(d[0], n, 0), &src, &ocs, c) } else { check_transcode(&[RSec { ops: crowd((d[0] - 4) / 2, n), seg: d[0] % 2 == 1, algo: 0, more: false }], &src, &ocs, c) }
    }));
    // operations of every length next to ones they can be joined with
    v.push(space("every-length", t.pick(65535 / 2, 65535) * 3, move |i, c| {
        let n = (t.pick(2, 1) * (i / 3) + 1 + (i / 3) % 2).min(65535) as u16;
        let ops = match i % 3 {
            0 => vec![ROp::Add(noise(3, n as usize)), ROp::Add(noise(4, 65536 - n as usize)), ROp::Run(1, 62), ROp::Run(1, (n % 62 + 1) as u8)],
            1 => vec![ROp::CopyD(5, n), ROp::CopyD(5 + n as u64, (n / 3).max(1)), ROp::Add(noise(5, (n % 300) as usize + 1))],
            _ => vec![ROp::Add(noise(6, n as usize)), ROp::CopyO(0, n), ROp::Add(noise(7, (n % 63) as usize + 1))],
        };
        check_transcode(&[RSec { ops, seg: i % 2 == 1, algo: 0, more: false }], src66k2(), &[OutCfg { size: SIZES[i as usize % 7], seg: Some(i % 4 < 2), sec: Sec::None }], c)
    }));
    v
}

// ------------------------------------------------------------------------------------------ P22
/// the most operations that a run of n bytes may take: runs, or three runs and copies that double what there is
fn run_ops(n: u64) -> u64 {
    if n < 372 { return n.div_ceil(62) }
    let (mut have, mut k) = (186u64, 3);
    while have < n { have += have.min(65535); k += 1 }
    k + 1
}
/// What transcoding may cost at most: (operations, bytes of operations in one section of the interleaved format)
fn joined_bound(ops: &[ROp]) -> (u64, u64) {
    let (mut n, mut bytes) = (0, 0);
    let mut i = 0;
    while i < ops.len() {
        let mut j = i + 1;
        match &ops[i] {
            ROp::Add(_) => {
                while j < ops.len() && matches!(ops[j], ROp::Add(_)) { j += 1 }
                let l: u64 = ops[i..j].iter().map(|o| o.len() as u64).sum();
                n += (2 * l.div_ceil(65535)).min((j - i) as u64);
            }
            ROp::Run(b, _) => {
                while j < ops.len() && matches!(&ops[j], ROp::Run(c, _) if c == b) { j += 1 }
                let l: u64 = ops[i..j].iter().map(|o| o.len() as u64).sum();
                n += run_ops(l).min((j - i) as u64);
                if l >= 372 { bytes += 30 }
            }
            _ => n += 1,
        }
        i = j;
    }
    (n, bytes + enc_body(ops, false).len() as u64)
}
fn check_joined(secs: &[RSec], c: &mut Ctx) -> Result<(), String> {
    let flat: Vec<ROp> = secs.iter().flat_map(|s| s.ops.clone()).collect();
    let d = || secs.iter().map(|s| show(&s.ops)).collect::<Vec<_>>().join(" / ");
    c.sample(|| d());
    let mut out = vec![];
    catch(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(enc_patch(secs)), &mut out, fmt(false), None, usize::MAX)).map_err(|e| format!("{e}; {}", d()))?.map_err(|e| format!("fails: {e}; {}", d()))?;
    let (got, _) = parse_patch(&out, true).map_err(|e| format!("not a valid patch: {e:?}; {}", d()))?;
    let (n, bytes) = joined_bound(&flat);
    let made: u64 = got.iter().map(|s| s.ops.len() as u64).sum();
    c.eval(n < flat.len() as u64, H::new(220).b(&out));
    if made > n { return Err(format!("{made} operations although {n} suffice for {} ones: {:?}; from {}", flat.len(), got.iter().map(|s| show(&s.ops)).collect::<Vec<_>>(), d())) }
    // addresses are relative to the start of a section, so they may take up to ten bytes more in each further one
    let more = 12 * got.len() as u64 + 20 * (got.len() as u64 - 1);
    if out.len() as u64 > bytes + more { return Err(format!("{} bytes although {} suffice: {:?}; from {}", out.len(), bytes + more, got.iter().map(|s| show(&s.ops)).collect::<Vec<_>>(), d())) }
    Ok(())
}
pub fn p22(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let al: Vec<Tok> = vec![Tok::Add(1), Tok::Add(2), Tok::Add(62), Tok::Add(63), Tok::Run(0xA0, 1), Tok::Run(0xA0, 61), Tok::Run(0xA0, 62), Tok::Run(0xB0, 5), Tok::D(0, 3), Tok::OStart(0, 1), Tok::OAll, Tok::Sec];
    let s = Seqs { k: al.len() as u64, max: t.pick(5, 6) };
    v.push(space("programs", s.total(), move |i, c| {
        let Some(b) = build(&s.get(i).iter().map(|d| &al[*d]).collect::<Vec<_>>(), 0) else { return Ok(()) };
        check_joined(&b.secs(i % 2 == 1, 0), c)
    }));
    let al = [Tok::Add(1), Tok::Add(3), Tok::Run(0xA0, 62), Tok::Run(0xB0, 1), Tok::Sec];
    let s = Seqs { k: al.len() as u64, max: t.pick(8, 10) };
    v.push(space("neighbours", s.total(), move |i, c| {
        let Some(b) = build(&s.get(i).iter().map(|d| &al[*d]).collect::<Vec<_>>(), 0) else { return Ok(()) };
        check_joined(&b.secs(i % 2 == 1, 0), c)
    }));
    // any number of neighbours, behind and before something else
    let ns: Vec<usize> = (1..t.pick(130usize, 400)).chain([500, 1057, 1058, 2000, 5000, 20_000]).collect();
    let r = Radix(vec![ns.len() as u64, 10, 4, 3]);
    v.push(space("many", r.total(), move |i, c| {
        let d = r.get(i);
        let n = ns[d[0]];
        let mut ops: Vec<ROp> = (0..n).map(|k| match d[1] {
            0 => ROp::Run(7, 62), 1 => ROp::Run(7, 1), 2 => ROp::Run(7, (k % 62 + 1) as u8), 3 => ROp::Run((k / 7) as u8, 62), 4 => ROp::Run((k / 100) as u8, 61),
            5 => ROp::Add(noise(k as u64, 1)), 6 => ROp::Add(noise(k as u64, 70)), 7 => ROp::Add(noise(k as u64, k % 300 + 1)),
            8 => if k % 9 == 8 { ROp::Run(1, 5) } else { ROp::Add(noise(k as u64, 5)) },
            _ => if k % 9 == 8 { ROp::CopyD(k as u64, 5) } else { ROp::Run(2, 62) },
        }).collect();
        if d[2] & 1 == 1 { ops.insert(0, ROp::CopyD(5, 50)) }
        if d[2] & 2 == 2 { ops.push(ROp::CopyO(3, 4.min(ops[0].len() as u16))); }
        if let Some(ROp::CopyO(a, _)) = ops.last_mut() { *a = 0 }
        let size = [1, 7, n][d[3]].min(n);
        let parts: Vec<Vec<ROp>> = ops.chunks(if d[3] == 2 { ops.len() } else { size * 50 }).map(|c| c.to_vec()).collect();
        let k = parts.len();
        check_joined(&parts.into_iter().enumerate().map(|(j, ops)| RSec { ops, seg: i % 2 == 1, algo: 0, more: j + 1 < k }).collect::<Vec<_>>(), c)
    }));
    let al = [Tok::Add(65535), Tok::Add(65534), Tok::Add(32768), Tok::Add(1), Tok::Run(0xA0, 62), Tok::D(0, 65535), Tok::Sec];
    let s = Seqs { k: al.len() as u64, max: t.pick(4, 5) };
    v.push(space("limits", s.total(), move |i, c| {
        let Some(b) = build(&s.get(i).iter().map(|d| &al[*d]).collect::<Vec<_>>(), 0) else { return Ok(()) };
        check_joined(&b.secs(i % 2 == 1, 0), c)
    }));
    v
}
