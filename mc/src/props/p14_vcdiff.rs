//! P14 translation of VCDIFF deltas.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use crate::vcd::*;
use std::io::Cursor;
use std::sync::Arc;

pub fn translate(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    smdiff_vcdiff::convert_vcdiff_to_smdiff(&mut Cursor::new(d), &mut o).map_err(|e| e.to_string())?;
    Ok(o)
}
/// the patch is valid for the source and gives `want`
fn check_patch(p: &[u8], src: &[u8], want: &[u8]) -> Result<(), String> {
    let (secs, used) = parse_patch(p, false).map_err(|e| format!("the translated patch is malformed ({e:?})"))?;
    if used != p.len() { return Err("bytes after the terminal section".into()) }
    check_ranges(&secs, src.len())?;
    let o = interp(&secs, Some(src))?;
    if o != want { return Err(format!("the translated patch gives another output: {}", diff(&o, want))) }
    let o = apply(p, Some(src)).map_err(|e| format!("the translated patch cannot be applied: {e}"))?;
    if o != want { return Err(format!("the translated patch applied gives another output: {}", diff(&o, want))) }
    Ok(())
}
/// One delta (any bytes) through the translator, judged by the strict decoder.
fn judge(d: &[u8], src: &[u8], tab: &[(Half, Half)], what: &dyn Fn() -> String, c: &mut Ctx) -> Result<(), String> {
    let r = judge_by(d, src, tab, what, c);
    let Err(e) = &r else { return r };
    // the same delta read with the library's own table: only that reading explains it
    let lib = LIB.get_or_init(library_table);
    if [How::Rfc, How::Dialect, How::Lenient].iter().any(|h| decode(d, src, *h, tab, 1 << 26).0.paired || decode(d, src, *h, lib, 1 << 26).0.paired) {
        let l = judge_by(d, src, lib, what, c);
        if l.as_ref().err().map_or(true, |m| m.starts_with('K')) {
            return Err(format!("K6 a paired ADD+COPY code is read with another table than RFC 3284's: {e}"));
        }
        return Err(format!("{e} (read with the library's table: {})", l.unwrap_err()));
    }
    r
}
fn judge_by(d: &[u8], src: &[u8], tab: &[(Half, Half)], what: &dyn Fn() -> String, c: &mut Ctx) -> Result<(), String> {
    let cap = 1 << 26;
    let (ft, m) = decode(d, src, How::Rfc, tab, cap);
    c.evals += 1;
    c.sample(|| format!("{} -> model {:?}", what(), m.as_ref().map(|o| o.len())));
    let r = catch(|| translate(d));
    if crate::stdout_len() != 0 { return Err("something was printed on standard output".into()) }
    c.outcome(H::new(14).b(d));
    if matches!(m, Err(VBad::NonCanonical) | Err(VBad::Empty)) { c.note("not judged"); return r.map(|_| ()).or(Ok(())) }
    match (m, r) {
        (Ok(_), Ok(Err(_))) if ft.length || ft.empty => { c.note("not judged"); Ok(()) }
        (Ok(want), Ok(Ok(p))) => check_patch(&p, src, &want).map_err(|e| format!("{e}; {}", what())),
        (Ok(_), Ok(Err(e))) if ft.periodic && e.contains("do not generate its target window") => { c.note("K1"); Err(format!("K1 a copy that overlaps its own output is not translated as RFC 3284 says: {e}; {}", what())) }
        (Ok(_), Ok(Err(e))) if ft.periodic && (e.contains("Address is out of bounds") || e.contains("must be entirely in T")) => Err(format!("K1 a copy that overlaps its own output is not translated as RFC 3284 says: {e}; {}", what())),
        (Ok(_), Ok(Err(e))) if ft.crossing && e.contains("must be entirely in T") => Err(format!("K3 a copy from the source segment into the target window is refused: {e}; {}", what())),
        (Ok(_), Ok(Err(e))) => Err(format!("refused although valid: {e}; {}", what())),
        (_, Err(p)) if p.contains("/vcdiff-common-1.0.0/src/lib.rs") || p.contains("/vcdiff-reader-1.0.0/src/lib.rs") => {
            let at = p.split("/vcdiff-").nth(1).unwrap_or("").replace("1.0.0/src/lib.rs", "").replace(":", " ");
            Err(format!("K2 the VCDIFF library panics at [{}]: {p}; {}", at.split_whitespace().take(2).collect::<Vec<_>>().join(" "), what()))
        }
        (_, Err(p)) => Err(format!("{p}; {}", what())),
        (Err(_), Ok(Err(_))) => Ok(()),
        (Err(bad), Ok(Ok(p))) => {
            if bad == VBad::SrcSegment { // shows when the patch is applied
                return catch(|| apply(&p, Some(src))).map(|_| ());
            }
            // the author's own reading of overlapping copies
            let own = decode(d, src, How::Dialect, tab, cap).1;
            if let Ok(want) = own { c.note("author's dialect"); return check_patch(&p, src, &want).map_err(|e| format!("{e}; {}", what())) }
            if let (_, Ok(want)) = decode(d, src, How::Lenient, tab, cap) {
                check_patch(&p, src, &want).map_err(|e| format!("{e}; {}", what()))?;
                match (bad, own.unwrap_err()) {
                    (_, VBad::Inst) | (VBad::Inst, _) => return Err(format!("K5 an instruction size read beyond its section is not noticed; {}", what())),
                    (_, VBad::Addrs) | (VBad::Addrs, _) => return Err(format!("K4 addresses read beyond or short of their section are not noticed; {}", what())),
                    _ => {}
                }
            }
            if let (_, Ok(want)) = decode(d, src, How::Cut, tab, cap) {
                check_patch(&p, src, &want).map_err(|e| format!("{e}; {}", what()))?;
                return Err(format!("K7 only the lower 32 bits of an instruction's size or address are read; {}", what()));
            }
            match bad {
                _ => Err(format!("accepted although damaged ({bad:?}); {}", what())),
            }
        }
    }
}
fn show_wins(ws: &[VWin]) -> String {
    ws.iter().map(|w| format!("[ind {} seg {:?}: {}]", w.ind, w.seg, w.insts.iter().map(|i| match i { VI::Add(b) => format!("Add{}", b.len()), VI::Run(b, n) => format!("Run{b}x{n}"), VI::Copy { addr, n, mode } => format!("Copy({addr},{n},m{mode})") }).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" ")
}
fn run_wins(ws: &[VWin], style: u8, src: &[u8], tab: &[(Half, Half)], c: &mut Ctx) -> Result<(), String> {
    let Some(d) = enc(ws, style, tab) else { c.note("address mode not enabled"); return Ok(()) };
    c.state(H::new(14).b(&d));
    c.transitions += ws.iter().map(|w| w.insts.len() as u64).sum::<u64>();
    c.traces += 1;
    // the model's encoder against the model's decoder
    let (_, m) = decode(&d, src, How::Rfc, tab, 1 << 26);
    if let Err(b) = &m { if *b != VBad::Address && *b != VBad::TargetSize && !(*b == VBad::Unsupported && ws.iter().any(|w| w.insts.is_empty())) { return Err(format!("model: {b:?} for {}", show_wins(ws))) } }
    judge(&d, src, tab, &|| format!("{} (style {style})", show_wins(ws)), c)
}

fn dialect(ws: &[VWin], paired: bool, src: &[u8], tab: &[(Half, Half)], c: &mut Ctx) -> Result<(), String> {
    let mut d = MAGIC.to_vec();
    for w in ws { match enc_win_how(w, 1 + paired as u8, &library_table(), How::Dialect) { Some(b) => d.extend(b), None => return Ok(()) } }
    let _ = tab;
    let lib = LIB.get_or_init(library_table);
    let want = decode(&d, src, How::Dialect, lib, 1 << 26).1.map_err(|b| format!("model: {b:?} for {}", show_wins(ws)))?;
    c.state(H::new(15).b(&d));
    c.transitions += ws.iter().map(|w| w.insts.len() as u64).sum::<u64>();
    c.traces += 1;
    c.evals += 1;
    let what = || format!("{} (the library's dialect)", show_wins(ws));
    match catch(|| translate(&d)) {
        Err(p) => Err(format!("{p}; {}", what())),
        Ok(Err(e)) => Err(format!("refused although valid: {e}; {}", what())),
        Ok(Ok(p)) => check_patch(&p, src, &want).map_err(|e| format!("{e}; {}", what())),
    }
}

/// symbolic instruction, resolved against the position in U
#[derive(Clone, Copy, Debug)]
enum T { Add(usize), Run(u8, u32), /// address from the start of U
    Start(u64, u32, u8), /// ends this many bytes before the end of the segment
    Seg(u64, u32, u8), /// starts this many bytes before here
    Back(u64, u32, u8), /// same address as the copy before, plus
    Again(u64, u32, u8) }
fn resolve(ts: &[T], ind: u8, seg: (u64, u64), tag: u64, allow_overlap: bool, allow_cross: bool) -> Option<VWin> { resolve_how(ts, ind, seg, tag, allow_overlap, allow_cross, How::Rfc) }
fn resolve_how(ts: &[T], ind: u8, seg: (u64, u64), tag: u64, allow_overlap: bool, allow_cross: bool, how: How) -> Option<VWin> {
    let s = if ind == 0 { 0 } else { seg.0 };
    let mut here = s;
    let mut last: Option<u64> = None;
    let mut insts = vec![];
    for (k, t) in ts.iter().enumerate() {
        let i = match *t {
            T::Add(n) => VI::Add(noise(tag * 31 + k as u64, n)),
            T::Run(b, n) => VI::Run(b, n),
            T::Start(a, n, m) => VI::Copy { addr: a, n, mode: m },
            T::Seg(b, n, m) => VI::Copy { addr: s.checked_sub(b + n as u64)?, n, mode: m },
            T::Back(b, n, m) => VI::Copy { addr: here.checked_sub(b)?, n, mode: m },
            T::Again(d, n, m) => VI::Copy { addr: last? + d, n, mode: m },
        };
        if let VI::Copy { addr, n, .. } = &i {
            let e = addr + *n as u64;
            if *addr >= here { return None }
            if e > here && !allow_overlap { return None }
            if *addr < s && e > s && !allow_cross { return None }
            last = Some(*addr);
        }
        here += makes(&i, here, how);
        insts.push(i);
    }
    Some(VWin { ind, seg, insts })
}
pub fn sample_deltas() -> Vec<(Vec<VWin>, u8)> {
    let w = |ind, seg, ts: &[T]| resolve(ts, ind, seg, 5, false, false).unwrap();
    vec![
        (vec![w(0, (0, 0), &[T::Add(5)])], 1),
        (vec![w(0, (0, 0), &[T::Add(3), T::Run(9, 200), T::Back(7, 5, 1)])], 1),
        (vec![w(1, (40, 10), &[T::Start(3, 20, 0), T::Add(2), T::Back(5, 4, 0), T::Seg(0, 6, 0)])], 2),
        (vec![w(1, (40, 10), &[T::Add(1), T::Start(3, 4, 0), T::Add(2), T::Again(0, 6, 2), T::Start(3, 4, 6), T::Add(1)])], 2),
        (vec![w(1, (40, 10), &[T::Start(0, 40, 0)]), w(2, (20, 5), &[T::Start(2, 10, 0), T::Add(4), T::Back(3, 3, 1)]), w(1, (30, 70), &[T::Start(1, 20, 0), T::Again(4, 20, 2)])], 0),
        (vec![w(0, (0, 0), &[T::Run(1, 1)]), w(0, (0, 0), &[T::Add(130), T::Start(2, 128, 0)])], 1),
    ]
}
pub fn p14(t: Tier) -> Vec<Space> {
    let tab = Arc::new(table());
    let src = Arc::new(noise(141, 600));
    let mut v = vec![];
    // ---- single windows: every sequence of instructions
    let mut ts = vec![T::Add(1), T::Add(3), T::Add(18), T::Run(0xAA, 1), T::Run(0x55, 63)];
    for m in [0u8, 1] { for n in [1u32, 4, 6, 19] { ts.push(T::Start(2, n, m)); ts.push(T::Seg(0, n, m)); ts.push(T::Back(n as u64, n, m)) } }
    for m in 2..9 { for n in [4u32, 5] { ts.push(T::Again(0, n, m)) } ts.push(T::Again(1, 4, m)); ts.push(T::Start(0, 4, m)); }
    let s = Seqs { k: ts.len() as u64, max: t.pick(3, 4) };
    let kinds: Vec<(u8, (u64, u64))> = vec![(0, (0, 0)), (1, (64, 0)), (1, (300, 300)), (2, (30, 7))];
    let (tb, sr) = (tab.clone(), src.clone());
    let (t1, s1, k1) = (ts.clone(), s.clone(), kinds.clone());
    v.push(space("windows", s.total() * 12, move |i, c| {
        let (style, kd, q) = ((i % 3) as u8, k1[(i / 3 % 4) as usize], s1.get(i / 12));
        let tk: Vec<T> = q.iter().map(|d| t1[*d]).collect();
        let Some(w) = resolve(&tk, kd.0, kd.1, 3, false, false) else { return Ok(()) };
        let mut ws = vec![];
        if kd.0 == 2 { ws.push(VWin { ind: 1, seg: (100, 50), insts: vec![VI::Copy { addr: 20, n: 40, mode: 0 }] }) }
        if w.insts.is_empty() { return Ok(()) }
        ws.push(w);
        run_wins(&ws, style, &sr, &tb, c)
    }));
    // ---- address caches: longer sequences of copies in every mode
    let mut ts = vec![T::Add(2)];
    for m in 0..9u8 { for a in [0u64, 5, 260, 520, 773] { if m != 1 || a == 5 { ts.push(T::Start(a, 4, m)) } } }
    ts.push(T::Back(4, 4, 0)); ts.push(T::Back(4, 4, 1));
    let ts: Vec<T> = ts;
    let big = Arc::new(noise(142, 2000));
    let s = Seqs { k: ts.len() as u64, max: t.pick(4, 5) };
    let (tb, sr) = (tab.clone(), big.clone());
    v.push(space("address-caches", s.total(), move |i, c| {
        let q = s.get(i);
        let tk: Vec<T> = q.iter().map(|d| ts[*d]).collect();
        let Some(w) = resolve(&tk, 1, (1600, 100), 3, false, false) else { return Ok(()) };
        if w.insts.is_empty() { return Ok(()) }
        run_wins(&[w], 1, &sr, &tb, c)
    }));
    // more than four copies: the near slots go round
    let addrs = [0u64, 5, 260, 700, 768];
    let r = Radix(vec![5, 5, 5, 5, 5, 5, 9, 5]);
    let (tb, sr) = (tab.clone(), big.clone());
    v.push(space("near-slots", r.total(), move |i, c| {
        let d = r.get(i);
        let mut insts: Vec<VI> = (0..6).map(|k| VI::Copy { addr: addrs[d[k]], n: 4, mode: 0 }).collect();
        insts.push(VI::Copy { addr: addrs[d[7]], n: 6, mode: d[6] as u8 });
        run_wins(&[VWin { ind: 1, seg: (1600, 100), insts }], 1, &sr, &tb, c)
    }));
    // ---- every opcode of the table, with both sizes explicit and embedded
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("opcodes", 256 * 4, move |i, c| {
        let (f, s) = tb[(i % 256) as usize];
        let pre = i / 256;
        let mut insts = vec![VI::Copy { addr: 8 + 256 * pre.min(1), n: 5, mode: 0 }, VI::Add(noise(1, 9))];
        if pre == 2 { insts = vec![VI::Add(noise(1, 9)), VI::Copy { addr: 520, n: 4, mode: 0 }] }
        if pre == 3 { insts = vec![VI::Copy { addr: 8, n: 4, mode: 0 }, VI::Copy { addr: 264, n: 4, mode: 0 }, VI::Copy { addr: 520, n: 4, mode: 0 }, VI::Copy { addr: 30, n: 4, mode: 0 }, VI::Copy { addr: 9, n: 4, mode: 0 }] }
        for h in [f, s] {
            let n = if h.1 == 0 { 21 } else { h.1 as u64 };
            match h.0 {
                1 => insts.push(VI::Add(noise(7, n as usize))),
                2 => insts.push(VI::Run(3, n as u32)),
                3 => { let a = [8u64, 8, 520, 30, 8, 264, 8, 264, 520][h.2 as usize]; insts.push(VI::Copy { addr: a, n: n as u32, mode: h.2 }) }
                _ => {}
            }
        }
        run_wins(&[VWin { ind: 1, seg: (580, 20), insts }], 2, &sr, &tb, c)
    }));
    // ---- several windows of every kind
    let wk: Vec<(u8, (u64, u64), Vec<T>)> = vec![
        (0, (0, 0), vec![T::Add(4), T::Back(3, 3, 1)]),
        (0, (0, 0), vec![T::Run(7, 130)]),
        (1, (10, 0), vec![T::Start(0, 10, 0), T::Add(1), T::Back(4, 4, 0)]),
        (1, (50, 550), vec![T::Add(1), T::Seg(0, 5, 0), T::Again(0, 4, 2)]),
        (1, (0, 600), vec![T::Add(2)]),
        (2, (3, 0), vec![T::Start(0, 3, 0), T::Add(1)]),
        (2, (4, 2), vec![T::Start(1, 2, 0), T::Back(1, 1, 1), T::Run(1, 1)]),
        (2, (0, 1), vec![T::Add(2)]),
        (1, (600, 0), vec![T::Start(590, 10, 0), T::Start(590, 10, 2)]),
        (2, (999, 0), vec![]), // the whole output so far
    ];
    let s = Seqs { k: wk.len() as u64, max: t.pick(4, 6) };
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("several-windows", s.total() * 2, move |i, c| {
        let q = s.get(i / 2);
        let mut o = 0u64;
        let mut ws = vec![];
        for (k, d) in q.iter().enumerate() {
            let (ind, seg, ts) = &wk[*d];
            let mut seg = *seg;
            let mut ts = ts.clone();
            if seg.0 == 999 { if o == 0 { return Ok(()) } seg = (o, 0); ts = vec![T::Start(0, o as u32, 0), T::Add(1)] }
            if *ind == 2 && seg.0 + seg.1 > o { c.note("target segment not there"); }
            let Some(w) = resolve(&ts, *ind, seg, k as u64, false, false) else { return Ok(()) };
            o += w.insts.iter().map(|i| i.len()).sum::<u64>();
            ws.push(w);
        }
        if ws.is_empty() { return Ok(()) }
        let Some(d) = enc(&ws, (i % 2) as u8 * 2, &tb) else { return Ok(()) };
        c.state(H::new(14).b(&d));
        c.transitions += ws.len() as u64;
        c.traces += 1;
        judge(&d, &sr, &tb, &|| show_wins(&ws), c)
    }));
    // ---- sizes around every limit of either format
    let lens = [1u32, 17, 18, 19, 62, 63, 124, 125, 127, 128, 371, 372, 65534, 65535, 65536, 65537, 131070, 131071, 196606, 262144];
    let n = lens.len() as u64;
    let r = Radix(vec![n, n, 5, 5]);
    let huge = Arc::new(noise(143, 600_000));
    let (tb, sr) = (tab.clone(), huge.clone());
    v.push(space("sizes", r.total(), move |i, c| {
        let d = r.get(i);
        let mut here = 500_000u64;
        let mut insts = vec![];
        for (l, k) in [(lens[d[0]], d[2]), (lens[d[1]], d[3])] {
            let x = match k {
                0 => VI::Add(noise(l as u64, l as usize)),
                1 => VI::Run(0x61, l),
                2 => VI::Copy { addr: 0, n: l, mode: 0 },
                3 => VI::Copy { addr: 500_000 - l as u64, n: l, mode: 1 },
                _ => { if insts.is_empty() { VI::Copy { addr: 7, n: l, mode: 0 } } else { let have = (here - 500_000).min(l as u64); VI::Copy { addr: here - have, n: have as u32, mode: 1 } } }
            };
            here += x.len();
            insts.push(x);
        }
        run_wins(&[VWin { ind: 1, seg: (500_000, 99_999), insts }], 1, &sr, &tb, c)
    }));
    // ---- outputs of more than one section
    let (tb, sr) = (tab.clone(), huge.clone());
    v.push(space("over-16MiB", t.pick(12, 24), move |i, c| {
        let m = MAXW as u32;
        let first: Vec<VI> = match i % 6 {
            0 => vec![VI::Run(9, m + 100)],
            1 => (0..40).map(|k| VI::Copy { addr: k * 100, n: 450_000, mode: 0 }).collect(),
            2 => vec![VI::Copy { addr: 0, n: 65535, mode: 0 }, VI::Run(1, m - 65535), VI::Add(noise(2, 3))],
            3 => vec![VI::Run(1, m - 1), VI::Add(noise(2, 3))],
            4 => vec![VI::Run(2, m - 70_000), VI::Add(noise(3, 200_000))],
            _ => vec![VI::Run(2, m - 5), VI::Copy { addr: 3, n: 100_000, mode: 0 }],
        };
        let l: u64 = first.iter().map(|i| i.len()).sum();
        let mut ws = vec![VWin { ind: 1, seg: (500_000, 5), insts: first }];
        if i / 6 >= 1 { ws.push(VWin { ind: 2, seg: (300_000, l - 300_000), insts: vec![VI::Copy { addr: 299_000, n: 1000, mode: 0 }, VI::Add(noise(1, 5)), VI::Copy { addr: 0, n: 200_000, mode: 0 }] }) }
        if i / 6 >= 2 { ws.push(VWin { ind: 0, seg: (0, 0), insts: vec![VI::Add(noise(4, 100)), VI::Copy { addr: 0, n: 100, mode: 0 }] }); ws.push(VWin { ind: 2, seg: (60_000, 0), insts: vec![VI::Copy { addr: 3, n: 59_000, mode: 0 }] }) }
        if i / 6 == 3 { ws.swap(0, 2); ws.truncate(1) }
        run_wins(&ws, 1, &sr, &tb, c)
    }).serial());
    // ---- copies that overlap their own output, and copies across the segment end
    let mut ts = vec![T::Add(1), T::Add(4), T::Run(1, 3)];
    for n in [2u32, 4, 7, 64] { for b in [1u64, 2, 3] { for m in [0u8, 1] { ts.push(T::Back(b, n, m)) } } }
    for n in [4u32, 9] { ts.push(T::Start(62, n, 0)); ts.push(T::Start(63, n, 0)) }
    let s = Seqs { k: ts.len() as u64, max: 3 };
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("overlapping", s.total() * 2, move |i, c| {
        let q = s.get(i / 2);
        let tk: Vec<T> = q.iter().map(|d| ts[*d]).collect();
        let (ind, seg) = if i % 2 == 0 { (0, (0, 0)) } else { (1, (64, 9)) };
        let Some(w) = resolve(&tk, ind, seg, 3, true, true) else { return Ok(()) };
        if w.insts.is_empty() { return Ok(()) }
        run_wins(&[w], 1, &sr, &tb, c)
    }));
    // ---- overlapping copies as the authors' own VCDIFF library writes them (the copy's length covers
    // what it repeats as well as what it adds), which the translator reads that way
    let mut ts = vec![T::Add(1), T::Add(5), T::Run(1, 3)];
    for b in [1u64, 2, 3] { for k in [1u32, 2, 3, 5, 64] { ts.push(T::Back(b, b as u32 + k, (k % 2) as u8)) } }
    ts.push(T::Back(5, 12, 0)); ts.push(T::Back(1, 1, 1));
    let s = Seqs { k: ts.len() as u64, max: t.pick(3, 4) };
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("overlapping-dialect", s.total() * 4, move |i, c| {
        let q = s.get(i / 4);
        let tk: Vec<T> = q.iter().map(|d| ts[*d]).collect();
        let (ind, seg) = if i % 2 == 0 { (0, (0, 0)) } else { (1, (64, 9)) };
        let Some(w) = resolve_how(&tk, ind, seg, 3, true, false, How::Dialect) else { return Ok(()) };
        if w.insts.is_empty() { return Ok(()) }
        dialect(&[w], i / 2 % 2 == 1, &sr, &tb, c)
    }));
    let lens = [(1u64, 65534u32), (1, 65535), (1, 65536), (1, 200_000), (2, 65535), (3, 131_072), (62, 63), (63, 1000), (65_534, 3), (65_535, 65_535), (65_536, 70_000), (70_000, 150_000), (70_000, 70_001), (140_000, 141_000), (100, 17_000_000), (70_000, 17_000_000)];
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("overlapping-dialect-sizes", lens.len() as u64 * 4, move |i, c| {
        let (per, add) = lens[(i / 4) as usize];
        let mut ts = vec![T::Add(per as usize), T::Back(per, per as u32 + add, (i % 2) as u8), T::Add(3), T::Back(7, 5, 0)];
        if i / 2 % 2 == 1 { ts.insert(0, T::Start(0, 40, 0)); ts.insert(3, T::Seg(1, 4, 0)) }
        let Some(w) = resolve_how(&ts, 1, (64, 9), 3, true, false, How::Dialect) else { return Ok(()) };
        dialect(&[w.clone(), w], false, &sr, &tb, c)
    }).serial());
    // ---- every truncation point
    let ds = sample_deltas();
    let mut idx = vec![];
    for (p, (w, st)) in ds.iter().enumerate() { for k in 0..enc(w, *st, &tab).unwrap().len() { idx.push((p, k)) } }
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("truncations", idx.len() as u64, move |i, c| {
        let (p, k) = idx[i as usize];
        let (ws, st) = &ds[p];
        let d = enc(ws, *st, &tb).ok_or("model: sample delta")?;
        decode(&d, &sr, How::Rfc, &tb, 1 << 20).1.map_err(|e| format!("model: sample delta {e:?}"))?;
        c.state(H::new(14).b(&d).u(k as u64));
        c.transitions += 1;
        judge(&d[..k], &sr, &tb, &|| format!("the first {k} of {} bytes of {}", d.len(), show_wins(ws)), c)
    }));
    // ---- every single-byte damage, insertion and deletion
    let ds = sample_deltas();
    let mut idx = vec![];
    let encd: Vec<Vec<u8>> = ds.iter().map(|(w, s)| enc(w, *s, &tab).unwrap()).collect();
    for (p, d) in encd.iter().enumerate() {
        for at in 0..d.len() { for x in 0..256 { idx.push((p, at, x)) } idx.push((p, at, 256)) }
        for at in 0..=d.len() { for x in 257..281 { idx.push((p, at, x)) } }
    }
    let (tb, sr) = (tab.clone(), src.clone());
    let e2 = encd.clone();
    v.push(space("damage", idx.len() as u64, move |i, c| {
        let (p, at, x) = idx[i as usize];
        let mut d = e2[p].clone();
        match x { 0..=255 => d[at] = x as u8, 256 => { d.remove(at); } _ => d.insert(at, super::p06_bytes::ALPHA[x - 257]) }
        judge(&d, &sr, &tb, &|| format!("delta {p} with byte {at} changed ({x}): {}", abbrev(&d)), c)
    }));
    // ---- two bytes damaged
    let mut idx = vec![];
    for (p, d) in encd.iter().enumerate() { for a in 4..d.len().min(40) { for b in a + 1..d.len().min(a + t.pick(3, 12)) { idx.push((p, a, b)) } } }
    let al: Vec<u8> = vec![0, 1, 2, 3, 4, 7, 12, 20, 0x7f, 0x80, 0x81, 163, 200, 255];
    let (tb, sr) = (tab.clone(), src.clone());
    let e3 = encd.clone();
    v.push(space("double-damage", idx.len() as u64 * 196, move |i, c| {
        let (p, a, b) = idx[(i / 196) as usize];
        let mut d = e3[p].clone();
        d[a] = al[(i % 14) as usize];
        d[b] = al[(i / 14 % 14) as usize];
        judge(&d, &sr, &tb, &|| format!("delta {p} with bytes {a} and {b} changed: {}", abbrev(&d)), c)
    }));
    // ---- integers of every length put in everywhere
    let mut ins: Vec<Vec<u8>> = vec![];
    for n in 1..=11usize { for x in [0x80u8, 0x81, 0xC0, 0xFF] { for l in [0u8, 1, 0x7f] { let mut q = vec![x; n]; q.push(l); ins.push(q) } } }
    let mut idx = vec![];
    for (p, d) in encd.iter().enumerate() { for at in 0..d.len().min(t.pick(36, 60)) { for r in [false, true] { for k in 0..ins.len() { idx.push((p, at, r, k)) } } } }
    let (tb, sr) = (tab.clone(), src.clone());
    let e2 = encd.clone();
    v.push(space("long-integers", idx.len() as u64, move |i, c| {
        let (p, at, r, k) = idx[i as usize];
        let mut d = e2[p][..at].to_vec();
        d.extend(&ins[k]);
        d.extend(&e2[p][at + r as usize..]);
        judge(&d, &sr, &tb, &|| format!("delta {p} with {:x?} at {at}: {}", ins[k], abbrev(&d)), c)
    }));
    // ---- every integer also with more than 32 bits (the same value modulo a power of two)
    let offs = [0u64, 1 << 31, 1 << 32, 3 << 32, 1 << 40, 1 << 56, (1 << 32) - 2, (1 << 32) + 1];
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("wide-integers", 4 * 13 * 13 * 64, move |i, c| {
        let d = Radix(vec![4, 13, 13, 8, 8]).get(i);
        if d[1] >= d[2] || d[3] == 0 || (d[4] == 0 && d[2] != d[1] + 1) { return Ok(()) }
        let ind = d[0] as u8 % 3;
        let mut first = MAGIC.to_vec();
        if ind == 2 { first.extend(enc_win(&VWin { ind: 1, seg: (100, 50), insts: vec![VI::Copy { addr: 0, n: 90, mode: 0 }] }, 0, &tb).unwrap()) }
        let seg = if ind == 0 { 0u64 } else { 64 };
        // segment size and position, delta, target, data, instruction and address lengths, then
        // sizes of Add 3, Run 9, two copies; three address integers
        let mut n = [seg, 7, 0, 3 + 9 + 5 + 6 + 4, 4, 0, 0, 3, 9, 5, 6, seg + 1, if d[0] == 3 { 4 } else { 2 }];
        let w = |n: u64, k: usize| n.wrapping_add(if d[1] == k { offs[d[3]] } else if d[2] == k { offs[d[4]] } else { 0 });
        for k in 7..13 { n[k] = w(n[k], k) }
        let (mut inst, mut addr) = (vec![], vec![]);
        inst.push(1); vint(&mut inst, n[7]);
        inst.push(0); vint(&mut inst, n[8]);
        inst.push(19); vint(&mut inst, n[9]);
        inst.push(if d[0] == 3 { 35 } else { 19 + 32 }); vint(&mut inst, n[10]);
        inst.push(20); // four bytes from an absolute address
        vint(&mut addr, n[11]);
        vint(&mut addr, if d[0] == 3 { n[12] + 6 } else { n[12] });
        vint(&mut addr, 0);
        n[5] = inst.len() as u64;
        n[6] = addr.len() as u64;
        for k in 3..7 { n[k] = w(n[k], k) }
        // (gigabytes of output are for the space wide-output)
        if n[3] > 1 << 26 && n[3] <= u32::MAX as u64 || (7..11).any(|k| n[k] as u32 > 1 << 20) { return Ok(()) }
        let mut body = vec![];
        vint(&mut body, n[3]);
        body.push(0);
        for k in 4..7 { vint(&mut body, n[k]) }
        body.extend([1, 2, 3, 4]);
        body.extend(&inst);
        body.extend(&addr);
        let mut b = first;
        b.push(ind);
        if ind != 0 { for k in 0..2 { vint(&mut b, w(n[k], k)) } }
        vint(&mut b, w(body.len() as u64, 2));
        b.extend(body);
        c.state(H::new(14).b(&b));
        c.transitions += 1;
        c.traces += 1;
        judge(&b, &sr, &tb, &|| format!("integers {} and {} of a window (indicator {ind}) raised by {} and {}: {b:x?}", d[1], d[2], offs[d[3]], offs[d[4]]), c)
    }));
    // ---- every short string of bytes after the magic
    let al: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 6, 19, 35, 51, 115, 128, 163, 255];
    let s = Seqs { k: al.len() as u64, max: t.pick(5, 7) };
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("byte-strings", s.total(), move |i, c| {
        let mut d = MAGIC.to_vec();
        d.extend(s.get(i).iter().map(|k| al[*k]));
        judge(&d, &sr, &tb, &|| format!("{d:x?}"), c)
    }));
    // ---- every instruction and address section of a few bytes, for a few declared target sizes
    let al: Vec<u8> = vec![0, 1, 2, 3, 5, 19, 20, 35, 51, 67, 115, 163, 166, 200, 247, 0x81];
    let bl: Vec<u8> = vec![0, 1, 4, 62, 64, 66, 0x80, 255];
    let (si, sa) = (Seqs { k: al.len() as u64, max: t.pick(3, 4) }, Seqs { k: bl.len() as u64, max: t.pick(2, 3) });
    let (ni, na) = (si.total(), sa.total());
    let (tb, sr) = (tab.clone(), src.clone());
    v.push(space("sections", ni * na * 2, move |i, c| {
        let (inst, addr) = (si.get(i % ni), sa.get(i / ni % na));
        let inst: Vec<u8> = inst.iter().map(|k| al[*k]).collect();
        let addr: Vec<u8> = addr.iter().map(|k| bl[*k]).collect();
        let ind = (i / ni / na) as u8;
        // the target size and data length that these instructions ask for, as both tables read them
        for t in [&*tb, &LIB.get_or_init(library_table)[..]] { for how in [How::Rfc, How::Dialect] {
            let Some((tl, dl)) = asked(&inst, &addr, t, how, if ind == 1 { 64 } else { 0 }) else { continue };
            let mut body = vec![];
            vint(&mut body, tl);
            body.push(0);
            for n in [dl, inst.len() as u64, addr.len() as u64] { vint(&mut body, n) }
            body.extend(noise(9, dl as usize));
            body.extend(&inst);
            body.extend(&addr);
            let mut d = MAGIC.to_vec();
            d.push(ind);
            if ind == 1 { d.extend([64, 7]) }
            vint(&mut d, body.len() as u64);
            d.extend(body);
            c.state(H::new(14).b(&d));
            c.transitions += inst.len() as u64;
            judge(&d, &sr, &tb, &|| format!("{d:x?}"), c)?;
        } }
        Ok(())
    }));
    v.extend(super::wide::p14(t));
    v
}
static LIB: std::sync::OnceLock<Vec<(Half, Half)>> = std::sync::OnceLock::new();
/// What a window of these sections generates and how much data it uses, when it is decodable.
fn asked(inst: &[u8], addr: &[u8], tab: &[(Half, Half)], how: How, seg: u64) -> Option<(u64, u64)> {
    let int = |b: &[u8], p: &mut usize| -> Option<u64> { let mut v = 0u64; loop { let x = *b.get(*p)?; *p += 1; v = v << 7 | (x & 127) as u64; if x < 128 { return Some(v) } } };
    let (mut i, mut a, mut here, mut data) = (0, 0, seg, 0);
    let (mut near, mut slot, mut same) = ([0u64; 4], 0, vec![0u64; 768]);
    while i < inst.len() {
        let (f, s) = tab[inst[i] as usize];
        i += 1;
        for h in [f, s] {
            if h.0 == 0 { continue }
            let n = if h.1 == 0 { int(inst, &mut i)? } else { h.1 as u64 };
            if n > 1 << 16 { return None }
            match h.0 {
                1 => { data += n; here += n }
                2 => { data += 1; here += n }
                _ => {
                    let x = match h.2 {
                        0 => int(addr, &mut a)?,
                        1 => here.checked_sub(int(addr, &mut a)?)?,
                        m @ 2..=5 => near[m as usize - 2] + int(addr, &mut a)?,
                        m => { let v = *addr.get(a)?; a += 1; same[(m as usize - 6) * 256 + v as usize] }
                    };
                    if x >= here { return None }
                    near[slot] = x; slot = (slot + 1) % 4; same[x as usize % 768] = x;
                    here += if how == How::Dialect && x + n > here { x + n - here } else { n };
                }
            }
        }
    }
    Some((here - seg, data))
}
