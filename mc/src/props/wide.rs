//! Positions and addresses beyond 32 bits: outputs of more than 4 GiB, judged symbolically (every
//! output byte is a source position or a literal) or over streams whose content is computed.
use super::p10_merge::{fmt_of, OutCfg};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use crate::vcd::{enc, Half, VWin, VI};
use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, OnceLock};

// ------------------------------------------------------------------------- symbolic output
#[derive(Clone, Debug)]
enum Sym { Src(u64), Lit(Arc<Vec<u8>>, usize), Rep(u8) }
impl Sym {
    fn skip(&self, n: u64) -> Sym { match self { Sym::Src(a) => Sym::Src(a + n), Sym::Lit(b, o) => Sym::Lit(b.clone(), o + n as usize), Sym::Rep(b) => Sym::Rep(*b) } }
}
/// pieces (start, length, content) that tile an output
#[derive(Clone, Default)]
struct Pieces { v: Vec<(u64, u64, Sym)>, end: u64 }
impl Pieces {
    fn push(&mut self, n: u64, s: Sym) { self.v.push((self.end, n, s)); self.end += n }
    fn slice(&self, from: u64, n: u64) -> Option<Vec<(u64, Sym)>> {
        if from.checked_add(n)? > self.end { return None }
        let mut i = self.v.partition_point(|p| p.0 + p.1 <= from);
        let (mut at, end) = (from, from + n);
        let mut o = vec![];
        while at < end {
            let (s, l, k) = &self.v[i];
            let m = (s + l).min(end) - at;
            o.push((m, k.skip(at - s)));
            at += m;
            i += 1;
        }
        Some(o)
    }
    /// `src`: what the source is made of (None: source positions stay as they are)
    fn of(ops: &[ROp], src: Option<&Pieces>) -> Option<Pieces> {
        let mut p = Pieces::default();
        for o in ops {
            match o {
                ROp::Add(b) => p.push(b.len() as u64, Sym::Lit(Arc::new(b.clone()), 0)),
                ROp::Run(b, n) => p.push(*n as u64, Sym::Rep(*b)),
                ROp::CopyD(a, n) => match src { None => p.push(*n as u64, Sym::Src(*a)), Some(s) => for (m, k) in s.slice(*a, *n as u64)? { p.push(m, k) } },
                ROp::CopyO(a, n) => for (m, k) in p.slice(*a, *n as u64)? { p.push(m, k) },
            }
        }
        Some(p)
    }
}
fn same(a: &Pieces, b: &Pieces) -> Result<(), String> {
    if a.end != b.end { return Err(format!("output of {} bytes instead of {}", a.end, b.end)) }
    let (mut i, mut j, mut at) = (0, 0, 0);
    while at < a.end {
        let (x, y) = (&a.v[i], &b.v[j]);
        let n = (x.0 + x.1).min(y.0 + y.1) - at;
        let (p, q) = (x.2.skip(at - x.0), y.2.skip(at - y.0));
        let byte = |s: &Sym, k: usize| match s { Sym::Src(_) => None, Sym::Rep(b) => Some(*b), Sym::Lit(b, o) => Some(b[o + k]) };
        let ok = match (&p, &q) {
            (Sym::Src(u), Sym::Src(v)) => u == v,
            (Sym::Src(_), _) | (_, Sym::Src(_)) => false,
            _ => (0..n as usize).all(|k| byte(&p, k) == byte(&q, k)),
        };
        if !ok {
            let f = |s: &Sym| match s { Sym::Src(a) => format!("source {a}"), Sym::Rep(b) => format!("run of {b}"), Sym::Lit(b, o) => format!("Add {:?}", &b[*o..(*o + 8).min(b.len())]) };
            return Err(format!("output at {at}: {} instead of {}", f(&p), f(&q)));
        }
        at += n;
        if at == x.0 + x.1 { i += 1 }
        if at == y.0 + y.1 { j += 1 }
    }
    Ok(())
}

pub const G4: u64 = 1 << 32;
/// 65537 copies end at 2^32 - 1
fn big(kind: u64) -> Vec<ROp> {
    let mut v: Vec<ROp> = (0..65537u64).map(|k| ROp::CopyD(match kind { 0 => k * 65535 + 5, 1 => (65537 - k) * 65535, _ => (k % 4) * 70000 }, 65535)).collect();
    let lit = |n| ROp::Add(noise(n as u64, n));
    match kind {
        0 => v.extend([lit(1), ROp::Run(9, 3), lit(100), ROp::CopyD(7, 50), ROp::CopyO(G4 - 10, 300.min(20)), ROp::CopyO(10, 40), ROp::Run(8, 62), ROp::CopyD(5_000_000_000, 1000)]),
        1 => v.extend([ROp::CopyD(3, 9), lit(70), ROp::CopyO(G4 - 3, 12), ROp::CopyO(G4 + 5, 60), ROp::CopyO(0, 65535), ROp::CopyO(G4 - 65535, 65535)]),
        _ => { v.extend([ROp::Run(1, 40), lit(2)]); v.extend((0..8).map(|_| ROp::Run(7, 60))); v.extend([ROp::CopyO(G4 + 20, 300), lit(65535), ROp::CopyO(G4 - 1, 2)]) }
    }
    v
}
/// cuts a list of operations into sections of at most `ops` operations and the largest output
fn cut(v: &[ROp], seg: bool, algo: u8) -> Vec<RSec> {
    let mut s: Vec<RSec> = vec![];
    let mut out = usize::MAX;
    for o in v {
        if out.saturating_add(o.len()) > MAXW as usize { s.push(RSec { ops: vec![], seg, algo, more: true }); out = 0 }
        out += o.len();
        s.last_mut().unwrap().ops.push(o.clone());
    }
    s.last_mut().unwrap().more = false;
    s
}
struct Big { ops: Vec<ROp>, pieces: Pieces, patch: [Vec<u8>; 2] }
fn bigs(kind: u64) -> &'static Big {
    static B: [OnceLock<Big>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    B[kind as usize].get_or_init(|| {
        let ops = big(kind);
        let pieces = Pieces::of(&ops, None).unwrap();
        let patch = [enc_patch(&cut(&ops, false, 0)), enc_patch(&cut(&ops, true, 0))];
        Big { ops, pieces, patch }
    })
}
fn merge2(p1: &[u8], p2: &[u8]) -> Result<Vec<ROp>, String> {
    let m = smdiff_merger::Merger::new(Cursor::new(p2)).map_err(|e| e.to_string())?.map_err(|_| "ended early")?;
    Ok(from_ops(&match m.merge(Cursor::new(p1)).map_err(|e| e.to_string())? { Ok(m) => m.finish(), Err(s) => s }.take_ops()))
}
fn wide_points() -> Vec<u64> { vec![0, 3, 65534, 65535, G4 - 65537, G4 - 65536, G4 - 3, G4 - 2, G4 - 1, G4, G4 + 1, G4 + 2, G4 + 3, G4 + 60, G4 + 103, G4 + 104, G4 + 150] }

pub fn p10(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // ranges of a predecessor whose output exceeds 4 GiB
    let pts = wide_points();
    let lens = [1u16, 2, 3, 5, 60, 200, 65535];
    v.push(space("wide-predecessor", 3 * t.pick(2, pts.len() as u64), move |i, c| {
        let b = bigs(i % 3);
        for k in 0..pts.len() {
            // quick: every range at once in two orders; thorough: also paired with every other
            let mut ops = vec![];
            let others: Vec<usize> = if i / 3 < 2 { vec![(k + 5) % pts.len()] } else { vec![(k + i as usize) % pts.len()] };
            for a in std::iter::once(k).chain(others) { for l in lens { if pts[a] + l as u64 <= b.pieces.end { ops.push(ROp::CopyD(pts[a], l)) } } }
            if i / 3 % 2 == 1 { ops.reverse(); ops.push(ROp::CopyO(1, 9)) }
            if k > 1 && !t.thorough() && k % 2 == (i % 2) as usize { continue }
            let want = Pieces::of(&ops, Some(&b.pieces)).unwrap();
            let got = merge2(&b.patch[(i + k as u64) as usize % 2], &patch_of(ops.clone(), false)).map_err(|e| format!("merging {} over an output of {} bytes: {e}", show(&ops), b.pieces.end))?;
            c.evals += 1; c.traces += 1; c.transitions += ops.len() as u64;
            c.state(H::new(1010).u(i).u(k as u64));
            c.sample(|| format!("output of {} bytes, then {}", b.pieces.end, show(&ops)));
            if got.iter().any(|o| matches!(o, ROp::CopyO(..))) { return Err(format!("output copies left in the summary of {}", show(&ops))) }
            same(&Pieces::of(&got, None).ok_or("summary not valid")?, &want).map_err(|e| format!("merging {} over predecessor {}: {e}", show(&ops), i % 3))?;
        }
        Ok(())
    }));
    // a terminal patch with more than 4 GiB of output
    v.push(space("wide-last", 3 * 3, |i, c| {
        let b = bigs(i % 3);
        // the predecessor reproduces the source in other pieces, without literals or with
        let n = if i % 3 == 2 { 400_000u64 } else { 5_000_100_000 };
        let mut p1: Vec<ROp> = vec![];
        match i / 3 {
            0 if i % 3 == 2 => { let mut a = 0; while a < n { let l = 50_001.min(n - a); p1.push(ROp::CopyD(a + 11, l as u16)); a += l } }
            1 if i % 3 == 2 => { p1.push(ROp::Add(noise(1, 65535))); let mut a = 65535; while a < n { let l = 9_999.min(n - a); p1.push(ROp::CopyD(n - a, l as u16)); a += l } }
            _ => { let mut a = 0; let mut k = 0u64; while a < n { let l = [65535, 65535, 40000][(k % 3) as usize].min(n - a); k += 1; p1.push(ROp::CopyD(a + i, l as u16)); a += l } }
        }
        let s = Pieces::of(&p1, None).unwrap();
        let want = Pieces::of(&b.ops, Some(&s)).ok_or("generator")?;
        c.evals += 1; c.traces += 1; c.transitions += b.ops.len() as u64;
        c.state(H::new(1011).u(i));
        let got = merge2(&enc_patch(&cut(&p1, i % 2 == 0, 0)), &b.patch[i as usize / 3 % 2]).map_err(|e| format!("merging an output of {} bytes: {e}", want.end))?;
        same(&Pieces::of(&got, None).ok_or("summary not valid")?, &want).map_err(|e| format!("merging last patch {} over predecessor {i}: {e}", i % 3))
    }));
    v
}
pub fn p12(_t: Tier) -> Vec<Space> {
    vec![space("wide-output", 3 * 6, |i, c| {
        let b = bigs(i % 3);
        let o = OutCfg { size: [None, Some(65535), Some(1_000_000)][(i / 3 % 3) as usize], seg: Some(i / 9 == 1), sec: super::p01_encode::Sec::None };
        let mut out = vec![];
        smdiff_merger::transcoder::transcode(&mut Cursor::new(&b.patch[i as usize % 2]), &mut out, fmt_of(&o), None, o.size.unwrap_or(usize::MAX)).map_err(|e| format!("an output of {} bytes: {e}", b.pieces.end))?;
        let (secs, used) = parse_patch(&out, true).map_err(|e| format!("{e:?}"))?;
        if used != out.len() { return Err("bytes after the patch".into()) }
        let lim = o.size.unwrap_or(MAXW as usize);
        for s in &secs { if s.out() > lim || s.seg != o.seg.unwrap() { return Err(format!("a section of {} bytes, segregated {}", s.out(), s.seg)) } }
        let flat: Vec<ROp> = secs.into_iter().flat_map(|s| s.ops).collect();
        c.evals += 1; c.traces += 1; c.transitions += flat.len() as u64;
        c.state(H::new(1012).u(i));
        if flat.len() != b.ops.len() { c.note("joined or split") }
        same(&Pieces::of(&flat, None).ok_or("not valid any more")?, &b.pieces).map_err(|e| format!("transcoding output {} ({o:?}): {e}", i % 3))
    })]
}
pub fn p18(_t: Tier) -> Vec<Space> {
    vec![space("wide-offsets", 6, |i, c| {
        let b = bigs(i % 3);
        let (ex, st) = smdiff_merger::extract_patch_instructions(Cursor::new(&b.patch[i as usize / 3])).map_err(|e| e.to_string())?;
        if ex.len() != b.ops.len() { return Err(format!("{} operations of {}", ex.len(), b.ops.len())) }
        let (mut at, mut w) = (0u64, [0usize; 8]);
        for (k, (o, op)) in ex.iter().enumerate() {
            let (x, y) = (from_op(op), &b.ops[k]);
            if *o != at || x != *y { return Err(format!("operation {k}: {} at {o}, true {} at {at}", x.short(), y.short())) }
            let n = y.len();
            at += n as u64;
            match y { ROp::Add(_) => { w[0] += n; w[3] += 1 } ROp::Run(..) => { w[1] += n; w[4] += 1 } ROp::CopyD(..) => { w[2] += n; w[5] += 1 } ROp::CopyO(..) => { w[2] += n; w[6] += 1 } }
            w[7] += n;
        }
        let g = [st.add_bytes, st.run_bytes, st.copy_bytes, st.add_cnt, st.run_cnt, st.copy_d_cnt, st.copy_o_cnt, st.output_size];
        if g != w { return Err(format!("statistics {st:?}, true {w:?}")) }
        c.evals += 1; c.traces += 1; c.transitions += ex.len() as u64;
        c.state(H::new(1018).u(i));
        Ok(())
    })]
}
pub fn p20(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // the list of an output over 4 GiB: positions and ranges around 2^32, and those equal to them modulo 2^32
    let near = t.pick(24, 80);
    v.push(space("wide-lists", 3 * near, move |i, c| {
        static L: [OnceLock<Vec<smdiff_merger::SparseOp>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
        let b = bigs(i % 3);
        let sp = L[(i % 3) as usize].get_or_init(|| { let mut p = 0; b.ops.iter().map(|o| { let r = (p, to_op(o)); p += o.len() as u64; r }).collect() });
        let k = i / 3;
        for st in [k, G4 - 5 + k, G4 + 65530 + k, 65535 * 65530 + k - 3, 65535 * 100 + k * 70_001, b.pieces.end - 1 - k, b.pieces.end + k] {
            let want = if st < b.pieces.end { Some(sp.partition_point(|o| o.0 <= st) - 1) } else { None };
            let g = smdiff_merger::find_controlling_op(sp, st);
            c.evals += 1; c.transitions += 1;
            if g != want { return Err(format!("operation producing position {st}: {g:?} instead of {want:?}")) }
            for len in [1u32, 2, 4, 7, 63, 1000, 65535, 65536, 200_000] {
                c.state(H::new(1020).u(st).u(len as u64).u(i % 3));
                c.evals += 1; c.transitions += 1;
                let g = smdiff_merger::get_exact_slice(sp, st, len);
                if st + len as u64 > b.pieces.end { if g.is_some() { return Err(format!("slice {st}+{len} beyond the output")) } continue }
                let g = g.ok_or_else(|| format!("no slice {st}+{len}"))?;
                let mut at = st;
                for (o, op) in &g { if *o != at || op.oal() == 0 { return Err(format!("slice {st}+{len}: operation at {o}, expected {at}")) } at += op.oal() as u64 }
                let mut p = Pieces::default();
                for (_, op) in &g { match from_op(op) {
                    ROp::CopyO(a, n) => for (m, s) in b.pieces.slice(a, n as u64).ok_or("output copy out of range")? { p.push(m, s) },
                    o => for (m, s) in Pieces::of(&[o], None).unwrap().v.into_iter().map(|x| (x.1, x.2)) { p.push(m, s) },
                } }
                let mut w = Pieces::default();
                for (m, s) in b.pieces.slice(st, len as u64).unwrap() { w.push(m, s) }
                same(&p, &w).map_err(|e| format!("slice {st}+{len}: {e}"))?;
            }
        }
        c.traces += 1;
        Ok(())
    }));
    v.push(space("wide-dereferenced", 3, |i, c| {
        let b = bigs(i);
        let mut p = 0;
        let sp: Vec<_> = b.ops.iter().map(|o| { let r = (p, to_op(o)); p += o.len() as u64; r }).collect();
        let de = smdiff_merger::deref_copy_o(sp);
        let mut at = 0;
        for (o, op) in &de { if *o != at { return Err(format!("operation at {o}, expected {at}")) } at += op.oal() as u64 }
        let ops: Vec<ROp> = de.iter().map(|x| from_op(&x.1)).collect();
        if ops.iter().any(|o| matches!(o, ROp::CopyO(..))) { return Err("output copy left".into()) }
        c.evals += 1; c.traces += 1; c.transitions += de.len() as u64;
        c.state(H::new(1021).u(i));
        same(&Pieces::of(&ops, None).unwrap(), &b.pieces)
    }));
    v
}

// ------------------------------------------------------------------------- VCDIFF
/// What windows generate, with source positions left as they are (None: not valid).
fn vcd_pieces(ws: &[VWin]) -> Option<Pieces> {
    let mut p = Pieces::default();
    for w in ws {
        let s = if w.ind == 0 { 0 } else { w.seg.0 };
        let start = p.end;
        if w.ind == 2 && w.seg.1.checked_add(s)? > start { return None }
        for i in &w.insts { match i {
            VI::Add(b) => p.push(b.len() as u64, Sym::Lit(Arc::new(b.clone()), 0)),
            VI::Run(b, n) => p.push(*n as u64, Sym::Rep(*b)),
            VI::Copy { addr, n, .. } => {
                let n = *n as u64;
                if *addr < s && addr + n <= s {
                    if w.ind == 1 { p.push(n, Sym::Src(w.seg.1 + addr)) } else { for (m, k) in p.slice(w.seg.1 + addr, n)? { p.push(m, k) } }
                } else if *addr >= s { for (m, k) in p.slice(start + addr - s, n)? { p.push(m, k) } } else { return None }
            }
        } }
    }
    Some(p)
}
fn show_win(w: &VWin) -> String { format!("[{} {:?}: {}]", w.ind, w.seg, w.insts.iter().map(|i| match i { VI::Add(b) => format!("Add{}", b.len()), VI::Run(b, n) => format!("Run{b}x{n}"), VI::Copy { addr, n, mode } => format!("Copy({addr},{n},m{mode})") }).collect::<Vec<_>>().join(" ")) }
fn vcd_check(ws: &[VWin], style: u8, tab: &[(Half, Half)], c: &mut Ctx) -> Result<(), String> {
    let Some(d) = enc(ws, style, tab) else { c.note("address mode not enabled"); return Ok(()) };
    let what = || ws.iter().map(show_win).collect::<Vec<_>>().join(" ");
    c.evals += 1; c.traces += 1; c.transitions += ws.iter().map(|w| w.insts.len() as u64).sum::<u64>();
    c.state(H::new(1014).b(&d));
    c.sample(what);
    let want = vcd_pieces(ws);
    match (want, catch(|| super::p14_vcdiff::translate(&d))) {
        (_, Err(p)) => Err(format!("{p}; {}", what())),
        (None, Ok(Err(_))) => { c.note("refused deltas"); Ok(()) }
        (None, Ok(Ok(_))) => Err(format!("accepted although damaged; {}", what())),
        (Some(_), Ok(Err(e))) => Err(format!("refused although valid: {e}; {}", what())),
        (Some(w), Ok(Ok(p))) => {
            let (secs, used) = parse_patch(&p, false).map_err(|e| format!("the translated patch is malformed ({e:?}); {}", what()))?;
            if used != p.len() { return Err("bytes after the terminal section".into()) }
            if let Some(s) = secs.iter().find(|s| s.out() > MAXW as usize) { return Err(format!("a section of {} bytes", s.out())) }
            let flat: Vec<ROp> = secs.into_iter().flat_map(|s| s.ops).collect();
            same(&Pieces::of(&flat, None).ok_or_else(|| format!("the translated patch reads output that is not there; {}", what()))?, &w).map_err(|e| format!("the translated patch gives another output: {e}; {}", what()))
        }
    }
}
pub fn p14(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let tab = Arc::new(crate::vcd::table());
    // source segments at positions of any size
    let mut pos: Vec<u64> = vec![0, 65535];
    for k in [31u32, 32, 33, 40, 56, 62] { for d in [-70_000i64, -5, -1, 0, 1, 65535] { pos.push((1u64 << k).wrapping_add(d as u64)) } }
    pos.push((1 << 63) - 200_001);
    let n = pos.len() as u64;
    let r = Radix(vec![n, 4, n, 5]);
    let tb = tab.clone();
    v.push(space("wide-source", r.total(), move |i, c| {
        let d = r.get(i);
        let sz = [1u64, 300, 70_000, 200_000][d[1]];
        let m = sz as u32;
        let mut insts = vec![VI::Copy { addr: 0, n: m, mode: 0 }, VI::Add(vec![7, 8]), VI::Copy { addr: sz - 1, n: 1, mode: 0 }, VI::Copy { addr: sz / 2, n: m - m / 2, mode: 1 }];
        insts.push(VI::Copy { addr: sz + m as u64, n: 2, mode: 0 });
        insts.push(VI::Copy { addr: sz / 2, n: m - m / 2, mode: 3 });
        let w1 = VWin { ind: 1, seg: (sz, pos[d[0]]), insts };
        let o: u64 = w1.insts.iter().map(|i| i.len()).sum();
        let w2 = match d[3] {
            0 => VWin { ind: 0, seg: (0, 0), insts: vec![VI::Add(vec![1, 2, 3]), VI::Copy { addr: 1, n: 2, mode: 1 }] },
            1 => VWin { ind: 2, seg: (o - 1, 1), insts: vec![VI::Copy { addr: 0, n: o as u32 - 1, mode: 0 }, VI::Run(1, 3)] },
            k => VWin { ind: 1, seg: (5, pos[d[2]]), insts: vec![VI::Copy { addr: 1, n: k as u32, mode: k as u8 - 2 }, VI::Copy { addr: 0, n: 5, mode: 1 }] },
        };
        if d[3] < 2 && d[2] > 0 { return Ok(()) }
        vcd_check(&[w1.clone(), w2.clone(), w1, w2], (i % 3) as u8, &tb, c)
    }));
    // outputs beyond 4 GiB
    let tb = tab.clone();
    v.push(space("wide-output", 3 * 3 * t.pick(8, 24), move |i, c| {
        let g = 1u64 << 30;
        let copy = |a: u64, n: u64, mode: u8| VI::Copy { addr: a, n: n as u32, mode };
        let mut ws = match i % 3 {
            // from a source, 2 GiB at a time
            0 => (0..2).map(|k| VWin { ind: 1, seg: (g, k * 5 * G4), insts: vec![copy(0, g, 0), copy(5, g - 5, 0), copy(0, 5, 0)] }).collect::<Vec<_>>(),
            // from what is there, doubled
            1 => {
                let mut v = vec![VWin { ind: 0, seg: (0, 0), insts: vec![VI::Add(noise(1, 1000)), VI::Run(5, 5_000), VI::Add(noise(2, 4_995_000))] }];
                let mut o = 5_001_000u64;
                while o < G4 - 10_000_000 { let n = o.min(1_500_000_000).min(G4 - 10_000_000 - o); v.push(VWin { ind: 2, seg: (n, o - n), insts: vec![copy(0, n, (o % 2) as u8)] }); o += n }
                v.push(VWin { ind: 1, seg: (10_000_000, 77), insts: vec![copy(0, 10_000_000, 0)] });
                v
            }
            // one window of almost 4 GiB
            _ => vec![VWin { ind: 1, seg: (g, 3), insts: vec![copy(0, g, 0), copy(g, g, 0), copy(g, g - 1, 1)] }, VWin { ind: 2, seg: (g, 1), insts: vec![copy(0, g, 0), copy(g, 1, 0)] }],
        };
        // (the third ends at 2^32, like the others)
        let o: u64 = ws.iter().flat_map(|w| &w.insts).map(|i| i.len()).sum();
        if o != G4 { return Err(format!("generator: {o}")) }
        // end a little before, at or after 2^32
        let k = i / 9;
        let lead = [0u64, 1, 3, 70_000][k as usize % 4];
        if lead > 0 { ws.insert(0, VWin { ind: 0, seg: (0, 0), insts: vec![VI::Add(noise(9, lead as usize))] }); for w in &mut ws[1..] { if w.ind == 2 { w.seg.1 += lead } } }
        let o = o + lead;
        // then windows that read around there
        let at = [G4 - 65_540, G4 - 9, G4 - 2, 3, o - 66_000, o - 20, 0, G4 / 2][((k / 4 + k) % 8) as usize];
        let n = (o - at).min(66_000);
        match i / 3 % 3 {
            0 => ws.push(VWin { ind: 2, seg: (n, at), insts: vec![copy(0, n, 0), copy(n - 1, 1, 1), VI::Add(vec![3; 5]), copy(n + n, 5, 0)] }),
            1 => {
                ws.push(VWin { ind: 0, seg: (0, 0), insts: vec![VI::Add(noise(3, 50)), copy(10, 40, 0), VI::Run(2, 70), copy(3, 100, 1)] });
                ws.push(VWin { ind: 2, seg: (n, at), insts: vec![copy(0, 9, 0)] });
                // to the very end of what is there, and one byte more
                ws.push(VWin { ind: 2, seg: (100, o + 169), insts: vec![copy(0, 100, 0), VI::Run(7, 1)] });
                if k % 2 == 1 { ws.push(VWin { ind: 2, seg: (4, o + 368), insts: vec![copy(0, 1, 0)] }) }
            }
            _ => {
                ws.push(VWin { ind: 1, seg: (66_000, at), insts: vec![copy(0, 66_000, 0), copy(66_001, 65_536, 1), copy(1, 3, 0)] });
                ws.push(VWin { ind: 2, seg: (131_000, o - 3), insts: vec![copy(1, 130_000, 0), VI::Add(vec![1]), copy(131_000, 130_000, 0)] });
            }
        }
        vcd_check(&ws, (k % 3) as u8, &tb, c)
    }));
    v
}

// ------------------------------------------------------------------------- computed streams
const PER: usize = 1_000_003;
fn table() -> &'static [u8] { static T: OnceLock<Vec<u8>> = OnceLock::new(); T.get_or_init(|| { let mut t = noise(500, PER); t.extend_from_within(..70_000); t }) }
fn far(at: u64, n: usize) -> &'static [u8] { let o = (at % PER as u64) as usize; &table()[o..o + n] }
/// a source of `len` bytes whose content is a function of the position
struct Far { len: u64, pos: u64 }
impl Read for Far {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.len.saturating_sub(self.pos)).min(b.len().min(65536) as u64) as usize;
        b[..n].copy_from_slice(far(self.pos, n));
        self.pos += n as u64;
        Ok(n)
    }
}
fn go(pos: u64, len: u64, to: SeekFrom) -> std::io::Result<u64> {
    let n = match to { SeekFrom::Start(n) => n as i128, SeekFrom::End(d) => len as i128 + d as i128, SeekFrom::Current(d) => pos as i128 + d as i128 };
    if n < 0 || n > i64::MAX as i128 { return Err(Error::new(ErrorKind::InvalidInput, "seek out of range")) }
    Ok(n as u64)
}
impl Seek for Far { fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> { self.pos = go(self.pos, self.len, to)?; Ok(self.pos) } }
/// An output stream that expects a given content before `base` and keeps what is written after it.
struct Sink { base: u64, pos: u64, len: u64, kept: Vec<u8>, bad: Option<u64> }
impl Sink { fn new(base: u64) -> Sink { Sink { base, pos: 0, len: 0, kept: vec![], bad: None } } }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.pos > self.len { return Err(Error::new(ErrorKind::Other, "written beyond the end of the output")) }
        let n = if self.pos < self.base {
            let n = b.len().min(65536).min((self.base - self.pos) as usize);
            if b[..n] != *far(self.pos, n) && self.bad.is_none() { self.bad = Some(self.pos) }
            n
        } else {
            let p = (self.pos - self.base) as usize;
            let k = b.len().min(self.kept.len() - p);
            self.kept[p..p + k].copy_from_slice(&b[..k]);
            self.kept.extend_from_slice(&b[k..]);
            b.len()
        };
        self.pos += n as u64;
        self.len = self.len.max(self.pos);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Read for Sink {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.len.saturating_sub(self.pos)).min(b.len().min(65536) as u64) as usize;
        let n = if self.pos < self.base {
            let n = n.min((self.base - self.pos) as usize);
            b[..n].copy_from_slice(far(self.pos, n));
            n
        } else {
            let p = (self.pos - self.base) as usize;
            b[..n].copy_from_slice(&self.kept[p..p + n]);
            n
        };
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sink { fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> { self.pos = go(self.pos, self.len, to)?; Ok(self.pos) } }

pub fn p05(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // source copies at addresses up to the largest a stream can have
    let ends: [u64; 7] = [70_000, G4 - 1, G4, G4 + 70_000, 1 << 40, (1 << 62) + 3, i64::MAX as u64];
    let mut at: Vec<u64> = vec![0, 65535];
    for k in [31, 32, 33, 40, 48, 62] { for d in [-65535i64, -1, 0, 1] { at.push((1u64 << k).wrapping_add(d as u64)) } }
    at.extend([i64::MAX as u64 - 65535, i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - 65535, u64::MAX]);
    let n = at.len() as u64;
    v.push(space("far-source", 7 * n * n, move |i, c| {
        let d = Radix(vec![7, n, n]).get(i);
        let len = ends[d[0]];
        for l in [1u16, 2, 65535] {
            let ops = vec![ROp::CopyD(at[d[1]], l), ROp::Add(vec![1]), ROp::CopyD(at[d[2]], 3), ROp::CopyO(0, 2)];
            let mut want = Some(vec![]);
            for o in &ops { if let Some(w) = &mut want { match o {
                ROp::CopyD(a, m) => if a.checked_add(*m as u64).map_or(false, |e| e <= len) { w.extend_from_slice(far(*a, *m as usize)) } else { want = None },
                o => interp_into(w, std::slice::from_ref(o), None).unwrap(),
            } } }
            let mut out = Cursor::new(vec![]);
            let r = smdiff_decoder::apply_patch(&mut Cursor::new(patch_of(ops.clone(), i % 2 == 1)), Some(&mut Far { len, pos: i % 9 }), &mut out);
            c.evals += 1; c.traces += 1; c.transitions += 4;
            c.state(H::new(1005).u(i).u(l as u64));
            match (want, r) {
                (Some(w), Ok(())) if w == *out.get_ref() => c.outcome(H::new(1006).b(&w)),
                (None, Err(_)) => c.note("refused programs"),
                (w, r) => return Err(format!("source of {len} bytes, {}: {r:?}, {}", show(&ops), w.map_or("not valid".into(), |w| diff(out.get_ref(), &w)))),
            }
        }
        Ok(())
    }));
    // outputs beyond 4 GiB: the first 4 GiB repeat the source, then operations of every kind
    v.push(space("over-4GiB", t.pick(2, 8), |i, c| {
        let base = 65537u64 * 65535 - [0, 65535, 3 * 65535, 7 * 65535][i as usize / 2];
        let mut ops: Vec<ROp> = (0..base / 65535).map(|k| ROp::CopyD(k * 65535, 65535)).collect();
        let mut tail = vec![ROp::Add(noise(1, 100)), ROp::Run(7, 62), ROp::CopyO(base - 5, 10), ROp::CopyO(base + 1, 3), ROp::CopyO(3, 1000), ROp::CopyD(5_000_000_000, 700), ROp::CopyO(base + 100, 65), ROp::CopyD(9, 65535)];
        // past 2^32 in every case, and positions that coincide modulo 2^32
        for k in 0..(G4 - base) / 65535 + 1 { tail.push(ROp::CopyD(k * 999, 65535)) }
        for k in 0..12u64 { tail.push(ROp::CopyO(G4 - 20 + k * 3, 5)); tail.push(ROp::CopyO(k, 7)); tail.push(ROp::Add(noise(k, 3))); }
        let mut kept: Vec<u8> = vec![];
        for o in &tail {
            match o {
                ROp::CopyD(a, n) => kept.extend_from_slice(far(*a, *n as usize)),
                ROp::CopyO(a, n) => for p in *a..*a + *n as u64 { let b = if p < base { far(p, 1)[0] } else { kept[(p - base) as usize] }; kept.push(b) },
                o => interp_into(&mut kept, std::slice::from_ref(o), None).unwrap(),
            }
        }
        let end = base + kept.len() as u64;
        let head = ops.len();
        ops.extend(tail);
        for extra in [false, true] {
            // one more operation that copies one byte too many
            if extra { if i > 1 { break } ops.push(ROp::CopyO(end - 4, 5)) }
            let mut sink = Sink::new(base);
            // what follows comes in small sections, which start beyond 2^32 too
            let mut secs = cut(&ops[..head], i % 2 == 1, 0);
            for s in ops[head..].chunks(2) { secs.last_mut().unwrap().more = true; secs.push(RSec { ops: s.to_vec(), seg: i % 2 == 1, algo: 0, more: false }) }
            let p = enc_patch(&secs);
            let r = smdiff_decoder::apply_patch(&mut Cursor::new(&p), Some(&mut Far { len: 1 << 40, pos: 0 }), &mut sink);
            c.evals += 1; c.traces += 1; c.transitions += ops.len() as u64;
            c.state(H::new(1007).u(i));
            if extra { if r.is_ok() { return Err(format!("a copy of {}+5 is accepted at output position {end}", end - 4)) } c.note("refused programs"); continue }
            r.map_err(|e| format!("an output of {end} bytes is refused: {e}"))?;
            if let Some(b) = sink.bad { return Err(format!("wrong output near {b}")) }
            if sink.len != end { return Err(format!("{} bytes instead of {end}", sink.len)) }
            if sink.kept != kept { return Err(format!("wrong output after {base}: {}", diff(&sink.kept, &kept))) }
        }
        Ok(())
    }));
    v
}
