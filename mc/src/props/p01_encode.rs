//! P01 round trip, P02 conformance of emitted patches, P15 what the matchers find.
//! One set of input spaces, three oracles.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use smdiff_encoder::{EncoderConfig, SecondaryCompression, SrcMatcherConfig, TrgtMatcherConfig};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which { Round, Form, Size }

#[derive(Clone, Copy, Debug)]
pub enum Sec { None, Smdiff(usize), Zstd(i32), Brotli(u8) }
impl Sec {
    pub fn algo(&self) -> u8 { match self { Sec::None => 0, Sec::Smdiff(_) => 1, Sec::Zstd(_) => 2, Sec::Brotli(_) => 3 } }
    pub fn make(&self) -> Option<SecondaryCompression> {
        Some(match self {
            Sec::None => return None,
            Sec::Smdiff(l) => SecondaryCompression::Smdiff(TrgtMatcherConfig::comp_level(*l)),
            Sec::Zstd(l) => SecondaryCompression::Zstd { level: *l },
            Sec::Brotli(q) => {
                let mut o = smdiff_encoder::brotli::BrotliEncoderOptions::new();
                o.quality(smdiff_encoder::brotli::Quality::new(*q).unwrap());
                SecondaryCompression::Brotli { options: o }
            }
        })
    }
}
/// one point of the configuration space
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// (step, maximal source window)
    pub src: Option<(usize, Option<usize>)>,
    /// (early exit, chain length, table capacity)
    pub trgt: Option<(usize, usize, Option<usize>)>,
    pub sec: Sec,
    pub seg: bool,
    pub size: usize,
    pub naive: bool,
    pub lazy: Option<usize>,
}
pub const PLAIN: Cfg = Cfg { src: Some((18, None)), trgt: None, sec: Sec::None, seg: false, size: usize::MAX, naive: false, lazy: None };
impl Cfg {
    pub fn make(&self) -> EncoderConfig {
        let mut c = EncoderConfig::default();
        c.match_src = self.src.map(|(s, w)| SrcMatcherConfig::new(s, w));
        c.match_trgt = self.trgt.map(|(e, ch, cap)| { let t = TrgtMatcherConfig { compress_early_exit: e, chain_check: ch, prev_table_capacity: None }; match cap { Some(n) => t.with_table_capacity(n), None => t } });
        c.sec_comp = self.sec.make();
        c = if self.seg { c.format_segregated() } else { c.format_interleaved() };
        c.output_segment_size = self.size;
        if self.naive { c = c.set_naive_tests(Default::default()) }
        c.lazy_escape_len = self.lazy;
        c
    }
    pub fn level(l: usize, trgt: bool) -> Cfg {
        let s = SrcMatcherConfig::comp_level(l);
        let t = TrgtMatcherConfig::comp_level(l);
        Cfg { src: Some((s.l_step, s.max_src_win_size)), trgt: trgt.then_some((t.compress_early_exit, t.chain_check, None)), ..PLAIN }
    }
    pub fn no_src(mut self) -> Cfg { self.src = None; self }
    fn lim(&self) -> usize { self.size.clamp(65535, MAXW as usize) }
}
const SRCS: [Option<(usize, Option<usize>)>; 5] = [None, Some((26, None)), Some((9, None)), Some((2, None)), Some((1, None))];
const TRGTS: [Option<(usize, usize, Option<usize>)>; 4] = [None, Some((6, 1, None)), Some((70, 33, None)), Some((27, 11, Some(4)))];
const LAZY: [Option<usize>; 3] = [None, Some(0), Some(6)];
/// 120 matcher configurations
pub const MATCHERS: u64 = 5 * 4 * 3 * 2;
pub fn matcher(i: usize) -> Cfg {
    Cfg { src: SRCS[i % 5], trgt: TRGTS[i / 5 % 4], lazy: LAZY[i / 20 % 3], naive: i / 60 % 2 == 1, seg: i % 2 == 1, ..PLAIN }
}

/// Runs the encoder on one case and decides the chosen property. `bound`: what the patch may cost at most.
pub fn decide(w: Which, src: Option<&[u8]>, trgt: &[u8], cfg: &Cfg, bound: Option<usize>, c: &mut Ctx) -> Result<(), String> {
    let d = || format!("source {} target {} under {cfg:?}", src.map_or("none".into(), abbrev), abbrev(trgt));
    let patch = catch(|| encode(src, trgt, &cfg.make())).map_err(|p| format!("encoding panics: {p}; {}", d()))?.map_err(|e| format!("encoding fails: {e}; {}", d()))?;
    c.sample(|| format!("{} -> patch of {} bytes", d(), patch.len()));
    c.eval(!trgt.is_empty(), H::new(w as u64).b(&patch).u(src.map_or(0, |s| s.len() as u64 + 1)));
    match w {
        Which::Round => {
            let o = catch(|| apply(&patch, src)).map_err(|p| format!("applying panics: {p}; {}", d()))?.map_err(|e| format!("applying fails: {e}; {}", d()))?;
            if o != trgt { return Err(format!("applying gives another file ({}): {}", diff(&o, trgt), d())) }
        }
        Which::Form => {
            let (secs, used) = parse_patch(&patch, true).map_err(|e| format!("the patch violates the format: {e:?}; {}; patch {}", d(), abbrev(&patch)))?;
            if used != patch.len() { return Err(format!("{} bytes after the terminal section; {}", patch.len() - used, d())) }
            let n = check_ranges(&secs, src.map_or(0, |s| s.len())).map_err(|e| format!("{e}; {}", d()))?;
            if n != trgt.len() { return Err(format!("the patch describes {n} output bytes instead of {}; {}", trgt.len(), d())) }
            for (i, s) in secs.iter().enumerate() {
                if s.seg != cfg.seg { return Err(format!("section {i} has the other format; {}", d())) }
                if s.algo != cfg.sec.algo() { return Err(format!("section {i} has compression {}; {}", s.algo, d())) }
                if s.out() > cfg.lim() { return Err(format!("section {i} describes {} output bytes, the limit is {}; {}", s.out(), cfg.lim(), d())) }
                c.transitions += s.ops.len() as u64 + 1;
            }
            if secs.len() > 1 { c.note("patches of several sections") }
        }
        Which::Size => {
            // nothing may cost much more than its length
            let sects = trgt.len() / cfg.lim().max(1) + 1;
            let cap = trgt.len() + if cfg.sec.algo() == 0 { 10 } else { 32 } * sects + trgt.len() / 64;
            let b = bound.unwrap_or(usize::MAX).min(cap);
            if trgt.len() < 64 { c.max("expansion of targets under 64 bytes", patch.len() as i64 - trgt.len() as i64) } else { c.max("expansion in permille", patch.len() as i64 * 1000 / trgt.len() as i64 - 1000) }
            if patch.len() > b { return Err(format!("the patch takes {} bytes, {} are allowed for what it has to express; {}", patch.len(), b, d())) }
        }
    }
    Ok(())
}

/// source variants related to a target
pub fn related(t: &[u8], k: usize) -> Option<Vec<u8>> {
    let mut v = t.to_vec();
    match k {
        0 => return None,
        1 => v.clear(),
        2 => {}
        3 => { if !v.is_empty() { v.remove(0); } }
        4 => { v.pop(); }
        5 => v.push(b'x'),
        6 => v.insert(0, b'x'),
        7 => v.extend_from_slice(t),
        8 => v.reverse(),
        9 => { let h = v.len() / 2; v.rotate_left(h) }
        _ => { v.extend_from_slice(b"abababababab"); v.extend_from_slice(t) }
    }
    Some(v)
}
const RELATED: u64 = 11;

/// pieces of a target over a fixed source
#[derive(Clone, Debug)]
enum Pc { Src(usize, usize), New(usize), Run(u8, usize), Last(usize), First(usize), Per(usize, usize) }
fn compose(src: &[u8], ps: &[&Pc], tag: u64) -> Vec<u8> {
    let mut t: Vec<u8> = vec![];
    for (k, p) in ps.iter().enumerate() {
        match p {
            Pc::Src(a, n) => t.extend_from_slice(&src[*a..a + n]),
            Pc::New(n) => t.extend(noise(1000 + tag * 16 + k as u64, *n)),
            Pc::Run(b, n) => t.extend(vec![*b; *n]),
            Pc::Last(n) => { let k = t.len().saturating_sub(*n); t.extend_from_within(k..) }
            Pc::First(n) => { let k = (*n).min(t.len()); t.extend_from_within(..k) }
            Pc::Per(p, n) => { let u = noise(500, *p); t.extend(u.iter().cycle().take(*n)) }
        }
    }
    t
}
fn pieces(n: usize) -> Vec<Pc> {
    vec![
        Pc::Src(0, 4), Pc::Src(0, 9), Pc::Src(0, 30), Pc::Src(n / 2, 8), Pc::Src(n / 2 + 1, 13), Pc::Src(n / 3, 60.min(n - n / 3)), Pc::Src(n - 9, 9), Pc::Src(n - 40, 40), Pc::Src(0, n),
        Pc::New(1), Pc::New(2), Pc::New(5), Pc::New(70),
        Pc::Run(0, 3), Pc::Run(0, 4), Pc::Run(7, 5), Pc::Run(7, 9), Pc::Run(7, 62), Pc::Run(7, 63), Pc::Run(7, 371), Pc::Run(7, 372), Pc::Run(7, 373),
        Pc::Last(4), Pc::Last(5), Pc::Last(12), Pc::First(4), Pc::First(9), Pc::First(50), Pc::Per(2, 11), Pc::Per(3, 40), Pc::Per(5, 400),
    ]
}

pub fn p01(t: Tier) -> Vec<Space> { spaces(Which::Round, t) }
pub fn p02(t: Tier) -> Vec<Space> {
    let mut v = spaces(Which::Form, t);
    // every history of calls on the configuration builder, from every way to make a configuration
    let starts = 2 + 10 * 2 * 4;
    let s = Seqs { k: SETTERS, max: t.pick(3, 4) };
    let big = Seqs { k: SETTERS, max: 2 };
    for (name, s, long) in [("configurations", s, false), ("configurations/several sections", big, true)] {
        let (src, trgt) = config_input(long);
        v.push(space(name, s.total() * starts, move |i, c| config_case((i % starts) as usize, &s.get(i / starts), &src, &trgt, c)));
    }
    v
}
const SETTERS: u64 = 20;
fn config_input(long: bool) -> (Vec<u8>, Vec<u8>) {
    let src = noise(300, 400);
    let mut t = [&src[50..250], &noise(301, 40)[..], &noise(301, 40)[..], &src[..120], &[7; 30][..]].concat();
    if long { t.extend(vec![9; 70_000]); t.extend(noise(302, 30_000)); t.extend(&src[100..300]); t.extend(vec![3; 60_000]) }
    (src, t)
}
/// What is known of a configuration without looking at it.
#[derive(Clone, Debug)]
struct Known { src: bool, trgt: Option<(usize, usize)>, sec: Sec, seg: bool, size: usize, naive: bool, lazy: Option<Option<usize>> }
fn config_case(start: usize, q: &[usize], src: &[u8], trgt: &[u8], c: &mut Ctx) -> Result<(), String> {
    let lv = |l: usize| { let t = TrgtMatcherConfig::comp_level(l); (t.compress_early_exit, t.chain_check) };
    let sec0 = [Sec::None, Sec::Smdiff(2), Sec::Zstd(1), Sec::Brotli(1)];
    let mut k = Known { src: true, trgt: None, sec: Sec::None, seg: false, size: MAXW as usize, naive: false, lazy: None };
    let mut e = match start {
        0 => EncoderConfig::new(),
        1 => EncoderConfig::default(),
        n => {
            let (l, m, z) = ((n - 2) % 10, (n - 2) / 10 % 2 == 1, sec0[(n - 2) / 20]);
            k.trgt = m.then(|| lv(l));
            k.sec = z;
            k.seg = z.algo() != 0;
            EncoderConfig::comp_level(l, m, z.make())
        }
    };
    for d in q {
        e = match d {
            0 => { k.src = false; e.no_match_src() }
            1 => { k.trgt = None; e.no_match_target() }
            2 => { k.sec = Sec::None; e.no_sec_comp() }
            3 => { k.src = true; e.set_match_src(SrcMatcherConfig::new(3, None)) }
            4 => { k.sec = Sec::Smdiff(7); e.set_sec_comp(k.sec.make().unwrap()) }
            5 => { k.sec = Sec::Zstd(2); e.set_sec_comp(k.sec.make().unwrap()) }
            6 => { k.sec = Sec::Brotli(2); e.set_sec_comp(k.sec.make().unwrap()) }
            7 => { k.seg = false; e.format_interleaved() }
            8 => { k.seg = true; e.format_segregated() }
            9 => { k.trgt = Some(lv(6)); e.set_match_target(TrgtMatcherConfig::comp_level(6)) }
            10 => { k.size = 65535; e.set_output_segment_size(65535) }
            11 => { k.size = 3; e.set_output_segment_size(3) }
            12 => { k.size = 100_000; e.set_output_segment_size(100_000) }
            13 => { k.naive = true; e.set_naive_tests(Default::default()) }
            14 => { k.lazy = Some(Some(20)); e.set_lazy_escape_len(20) }
            // what the constructors of the options give
            15 => { k.sec = Sec::Smdiff(3); e.set_sec_comp(SecondaryCompression::new_smdiff_default()) }
            16 => { k.sec = Sec::Zstd(3); e.set_sec_comp(SecondaryCompression::new_zstd_default()) }
            17 => { k.sec = Sec::Brotli(5); e.set_sec_comp(SecondaryCompression::new_brotli_default()) }
            18 => { k.trgt = Some(lv(4)); e.set_match_target(TrgtMatcherConfig::comp_level(4).with_table_capacity(50)) }
            _ => { k.src = true; e.set_match_src(SrcMatcherConfig::comp_level(7)) }
        };
    }
    let d = || format!("configuration {start} followed by setters {q:?}: {e:?}, expected {k:?}");
    c.sample(d);
    let got = (e.match_src.is_some(), e.match_trgt.as_ref().map(|t| (t.compress_early_exit, t.chain_check)), e.sec_comp.as_ref().map_or(0, |s| s.algo_value()), e.format.is_segregated(), e.output_segment_size.clamp(65535, MAXW as usize), e.naive_tests.is_some());
    if got != (k.src, k.trgt, k.sec.algo(), k.seg, k.size.clamp(65535, MAXW as usize), k.naive) || k.lazy.map_or(false, |l| l != e.lazy_escape_len) { return Err(format!("the configuration is another than asked for; {}", d())) }
    let p = encode(Some(src), trgt, &e).map_err(|x| format!("{x}; {}", d()))?;
    c.eval(true, H::new(22).b(&p).u(start as u64));
    c.transitions += q.len() as u64 + 1;
    let (secs, used) = parse_patch(&p, true).map_err(|x| format!("the patch violates the format: {x:?}; {}", d()))?;
    if used != p.len() { return Err(format!("{} bytes after the terminal section; {}", p.len() - used, d())) }
    for s in &secs {
        if s.seg != k.seg || s.algo != k.sec.algo() || s.out() > k.size.clamp(65535, MAXW as usize) { return Err(format!("a section has format {} compression {} and {} output bytes; {}", s.seg as u8, s.algo, s.out(), d())) }
        for o in &s.ops {
            if !k.src && !k.naive && matches!(o, ROp::CopyD(..)) { return Err(format!("the source was not to be used: {}; {}", show(&s.ops), d())) }
        }
    }
    if interp(&secs, Some(src)).map_err(|x| format!("{x}; {}", d()))? != trgt { return Err(format!("the patch describes another output; {}", d())) }
    Ok(())
}

fn spaces(w: Which, t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // every short target over two letters, with every related source, under every matcher configuration
    let s = Strings::new(b"ab", t.pick(11, 14));
    v.push(space("tiny-targets", s.total() * RELATED * MATCHERS, move |i, c| {
        let cfg = matcher((i % MATCHERS) as usize);
        let i = i / MATCHERS;
        let trgt = s.get(i / RELATED);
        let src = related(&trgt, (i % RELATED) as usize);
        decide(w, src.as_deref(), &trgt, &cfg, None, c)
    }));
    // different content with equal checksums (for the checksums in use): short vectors of their lattices
    let r = Radix(vec![9 + 4, 2, 6, 5, MATCHERS]);
    v.push(space("equal-checksums", r.total(), move |i, c| {
        let d = r.get(i);
        let df: Vec<i32> = if d[0] < 9 { LARGE[d[0]].to_vec() } else { SMALL[d[0] - 9].to_vec() };
        let sg = if d[1] == 0 { 1 } else { -1 };
        let a: Vec<u8> = df.iter().map(|x| if x * sg > 0 { (x * sg) as u8 } else { 0 }).collect();
        let b: Vec<u8> = df.iter().map(|x| if x * sg < 0 { (-x * sg) as u8 } else { 0 }).collect();
        let (post, pre) = (noise(5, 30), noise(6, [0, 1, 7, 18, 26][d[3]]));
        let (n1, n2) = (noise(7, 50), noise(8, 11));
        let (src, trgt): (Vec<u8>, Vec<u8>) = match d[2] {
            0 => ([&pre[..], &a, &post, &n1].concat(), [&b[..], &post].concat()),
            1 => ([&pre[..], &a, &post, &n1, &pre, &b, &post, &n1].concat(), [&n2[..], &b, &post, &a, &post].concat()),
            2 => ([&n1[..], &pre, &a, &n1].concat(), [&n1[..], &pre, &b, &n1].concat()),
            3 => (vec![], [&pre[..], &a, &post, &n2, &b, &post, &n2, &a, &post].concat()),
            4 => (n1.clone(), [&b[..], &b, &a, &n2, &a, &a, &pre, &b, &a, &post].concat()),
            _ => (vec![], [&b[..], &post, &n1, &a, &post, &n2, &pre, &b, &post].concat()),
        };
        decide(w, Some(&src), &trgt, &matcher(d[4]), None, c)
    }));
    // every pair of short strings over one letter and a marker: runs against runs
    let s = Strings::new(b"ab", t.pick(6, 8));
    v.push(space("runs-around-words", s.total() * s.total() * 16 * 12, move |i, c| {
        let r = Radix(vec![12, 16, s.total(), s.total()]).get(i);
        let cfg = matcher(r[0] * 10 + 3);
        let (a, b) = (s.get(r[2] as u64), s.get(r[3] as u64));
        let (x, y) = (r[1] % 4 * 3, r[1] / 4 * 3);
        let trgt: Vec<u8> = a.iter().copied().chain(vec![b'a'; x]).chain(b.iter().copied()).chain(vec![b'b'; y]).collect();
        let src: Vec<u8> = b.iter().copied().chain(vec![b'a'; y]).chain(a.iter().copied()).chain(vec![b'b'; x]).collect();
        decide(w, Some(&src), &trgt, &cfg, None, c)
    }));
    // programs of source pieces, new bytes, runs and repeats
    for (n, depth) in [(61usize, t.pick(2, 3)), (300, t.pick(3, 3))] {
        let src = noise(42, n);
        let ps: Vec<Pc> = pieces(n);
        let s = Seqs { k: ps.len() as u64, max: depth };
        v.push(space(format!("programs/src-{n}"), s.total() * MATCHERS, move |i, c| {
            let q = s.get(i / MATCHERS);
            let p: Vec<&Pc> = q.iter().map(|d| &ps[*d]).collect();
            let trgt = compose(&src, &p, n as u64);
            decide(w, Some(&src), &trgt, &matcher((i % MATCHERS) as usize), None, c)
        }));
    }
    {
        let src = noise(42, 300);
        let ps: Vec<Pc> = pieces(300);
        let (k, d) = (ps.len() as u64, t.pick(4u32, 5));
        let cf = t.pick(vec![64usize, 111], vec![43]);
        let nc = cf.len() as u64;
        v.push(space("programs/deep", k.pow(d) * nc, move |i, c| {
            let q = Radix(vec![k; d as usize]).get(i / nc);
            let p: Vec<&Pc> = q.iter().map(|d| &ps[*d]).collect();
            decide(w, Some(&src), &compose(&src, &p, 9), &matcher(cf[(i % nc) as usize]), None, c)
        }));
    }
    // the naive tests: the source at the start or the end of the target, overlapping repeats
    let r = Radix(vec![14, 30, 4, 3, MATCHERS / 2]);
    v.push(space("naive", r.total(), move |i, c| {
        let d = r.get(i);
        let n = [0usize, 1, 2, 3, 4, 5, 8, 9, 10, 11, 13, 20, 40, 120][d[0]];
        let src = match d[3] { 0 => noise(8, n), 1 => vec![5; n], _ => noise(8, 3).into_iter().cycle().take(n).collect() };
        let extra: Vec<u8> = match d[1] { k @ 0..=14 => noise(3, k), k @ 15..=19 => vec![5; (k - 14) * 2], k @ 20..=24 => src.iter().copied().take((k - 19) * 2).collect(), k => src.iter().rev().copied().take((k - 24) * 3).collect() };
        let trgt = match d[2] { 0 => [&src[..], &extra].concat(), 1 => [&extra[..], &src].concat(), 2 => [&src[..], &extra, &src].concat(), _ => [&src[..n / 2], &extra, &src].concat() };
        let mut cfg = matcher(d[4]);
        cfg.naive = true;
        decide(w, Some(&src), &trgt, &cfg, None, c)
    }));
    // a match, run or repeat of every length ending with every small number of bytes left
    let r = Radix(vec![3, 4, 16, t.pick(100, 130), 24]);
    v.push(space("landing", r.total(), move |i, c| {
        let d = r.get(i);
        let (kind, pre, tail, len) = (d[0], [0, 1, 6, 17][d[1]], d[2], d[3] + 1);
        let src = noise(21, 200);
        let mut t = noise(22, pre);
        match kind { 0 => t.extend_from_slice(&src[10..10 + len.min(190)]), 1 => t.extend(vec![3; len]), _ => { let u = noise(23, len); t.extend_from_slice(&u); t.push(1); t.extend_from_slice(&u) } }
        t.extend(noise(24, tail));
        let mut cfg = matcher(d[4] * 5);
        cfg.src = Some((1, None));
        decide(w, Some(&src), &t, &cfg, None, c)
    }));
    // the matcher configuration space over a few inputs
    let inputs: Arc<Vec<(Vec<u8>, Vec<u8>)>> = {
        let src = noise(42, 700);
        let ps = pieces(700);
        let mk = |ix: &[usize]| compose(&src, &ix.iter().map(|d| &ps[*d]).collect::<Vec<_>>(), 3);
        Arc::new(vec![
            (src.clone(), mk(&[7, 12, 5, 20, 30, 27, 3, 9, 6])), (src.clone(), mk(&[8, 9, 8])), (src.clone(), mk(&[12, 29, 29, 22, 24, 13, 15, 25])),
            (vec![], mk(&[12, 27, 12, 27])), (text(5, 400), [text(5, 400), text(6, 30), text(5, 200)].concat()), (vec![1; 300], vec![1; 900]),
        ])
    };
    let steps = [0usize, 1, 2, 3, 7, 8, 9, 10, 26, 100, 5000, usize::MAX];
    let wins = [None, Some(0), Some(1 << 20), Some(usize::MAX)];
    let exits = [0usize, 6, 70, usize::MAX];
    let chains = [0usize, 1, 33, usize::MAX];
    let caps = [None, Some(0), Some(1), Some(3), Some(64), Some(1000), Some(usize::MAX)];
    let lazies = [None, Some(0), Some(1), Some(4), Some(5), Some(45), Some(1000), Some(usize::MAX)];
    let r = Radix(vec![6, 2, 8, 12, 4, t.pick(12, 1 + 4 * 4 * 7)]);
    v.push(space("matcher-options", r.total(), move |i, c| {
        let d = r.get(i);
        let tm = if d[5] == 0 { None } else {
            let k = (d[5] - 1) * if r.0[5] == 12 { 11 } else { 1 };
            Some((exits[k % 4], chains[k / 4 % 4], caps[k / 16 % 7]))
        };
        let cfg = Cfg { src: Some((steps[d[3]], wins[d[4]])), trgt: tm, naive: d[1] == 1, lazy: lazies[d[2]], ..PLAIN };
        let (s, tr) = &inputs[d[0]];
        decide(w, Some(s), tr, &cfg, None, c)
    }));
    // levels, as made by the constructors
    let r = Radix(vec![10, 2, 5, 6]);
    v.push(space("levels", r.total(), move |i, c| {
        let d = r.get(i);
        let sec = [Sec::None, Sec::Smdiff(3), Sec::Zstd(3), Sec::Brotli(5), Sec::Smdiff(9)][d[2]];
        let cfg = Cfg { sec, seg: d[2] > 0, ..Cfg::level(d[0], d[1] == 1) };
        let src = text(9, 3000);
        let trgt = match d[3] { 0 => src.clone(), 1 => [&src[1000..], &src[..1000]].concat(), 2 => text(10, 3000), 3 => [&src[..1500], &text(11, 40)[..], &src[1500..]].concat(), 4 => src.repeat(3), _ => vec![] };
        decide(w, Some(&src), &trgt, &cfg, None, c)?;
        // the same through the public constructor
        let e = EncoderConfig::comp_level(d[0], d[1] == 1, sec.make());
        let p = encode(Some(&src), &trgt, &e).map_err(|x| x.to_string())?;
        if apply(&p, Some(&src))? != trgt { return Err(format!("round trip at level {}", d[0])) }
        Ok(())
    }));
    // output options: format, segment size, secondary compression
    let secs: Vec<Sec> = vec![Sec::None, Sec::Smdiff(0), Sec::Smdiff(3), Sec::Smdiff(9), Sec::Zstd(i32::MIN), Sec::Zstd(-5), Sec::Zstd(0), Sec::Zstd(3), Sec::Zstd(100), Sec::Brotli(0), Sec::Brotli(5), Sec::Brotli(9)];
    let sizes = [0usize, 65535, 65536, 100000, 131070, (1 << 24) - 1, 1 << 24, usize::MAX, (1 << 32) + 5];
    let r = Radix(vec![12, 2, 9, 8]);
    let secs1 = secs.clone();
    v.push(space("output-options", r.total(), move |i, c| {
        let d = r.get(i);
        let cfg = Cfg { sec: secs1[d[0]], seg: d[1] == 1, size: sizes[d[2]], trgt: Some((27, 11, None)), ..PLAIN };
        let (src, trgt) = boundary_input(d[3]);
        decide(w, Some(&src), &trgt, &cfg, None, c)
    }));
    // lengths around the instruction, run and section limits
    let lens = [65534usize, 65535, 65536, 65597, 65598, 131069, 131070, 131071, 131072, 196605];
    let r = Radix(vec![10, 5, 4, 2, 3]);
    v.push(space("long-operations", r.total(), move |i, c| {
        let d = r.get(i);
        let n = lens[d[0]];
        let src = noise(50, 200_000);
        let mut tr = noise(51, [0, 1, 63][d[4]]);
        match d[1] { 0 => tr.extend_from_slice(&src[1000..1000 + n.min(199_000)]), 1 => tr.extend(noise(52, n)), 2 => tr.extend(vec![9; n]), 3 => { let h = noise(53, n); tr.extend_from_slice(&h); tr.extend_from_slice(&h) } _ => { tr.extend_from_slice(&src[..n / 2]); tr.extend(vec![1; n]) } }
        let cfg = Cfg { trgt: if d[1] == 3 { Some((27, 11, None)) } else { None }, size: [0, 65536, 131071, usize::MAX][d[2]], seg: d[3] == 1, ..PLAIN };
        decide(w, Some(&src), &tr, &cfg, None, c)
    }));
    // matches, new content, repeats and runs of every length
    let (hs, hn) = (Arc::new(noise(54, 150_000)), Arc::new(noise(55, 70_000)));
    v.push(space("every-length", t.pick(66_200 / 5, 66_200) * 4, move |i, c| {
        let n = t.pick(5, 1) * (i / 4) as usize + 1 + (i as usize / 4) % 5;
        let k = (i % 4) as usize;
        let mut tr = hn[..(i as usize / 20) % 3].to_vec();
        match k { 0 => tr.extend_from_slice(&hs[n / 2..n / 2 + n]), 1 => tr.extend_from_slice(&hn[..n]), 2 => { tr.extend_from_slice(&hn[..n]); tr.extend_from_slice(&hn[..n.min(70 + n % 5000)]) } _ => { tr.extend(vec![7; n]); tr.extend_from_slice(&hs[100..170]) } }
        let cfg = Cfg { src: if k == 2 { None } else { Some((9, None)) }, trgt: if k == 2 { Some((27, 4, None)) } else { None }, seg: n % 2 == 0, size: if n % 3 == 0 { 0 } else { usize::MAX }, ..PLAIN };
        decide(w, Some(&hs), &tr, &cfg, None, c)
    }));
    // secondary compression over sections with large section data (buffers inside the codecs)
    let r = Radix(vec![t.pick(5, 9), 2, 12]);
    v.push(space("large-section-data", r.total(), move |i, c| {
        let d = r.get(i);
        let n = [131_060usize, 131_072, 300_000, 1 << 20, 100_000, 131_064, 131_068, 131_080, 3 << 20][d[0]];
        if matches!(secs[d[2]], Sec::Brotli(9)) && n > 400_000 { return Ok(()) }
        let cfg = Cfg { sec: secs[d[2]], seg: d[1] == 1, size: if d[0] % 2 == 0 { usize::MAX } else { 65536 }, ..PLAIN };
        let tr = if d[1] == 1 { text(60, n) } else { noise(60, n) };
        decide(w, Some(b"a source"), &tr, &cfg, None, c)
    }));
    // sources longer than the window of hashed positions, which then slides over them
    let steps = [1usize, 2, 3, 5, 8, 9, 10, 13, 18, 26];
    let r = Radix(vec![10, t.pick(4, 9), 4, t.pick(2, 3)]);
    v.push(space("sliding-window", r.total(), move |i, c| {
        let d = r.get(i);
        let n = [1_100_003usize, 1_600_000, 2_100_005, 1 << 20, (1 << 20) + 1, (1 << 20) + 10, 1 << 21, 3_000_001, 1_572_864 + 13][d[1]] + d[0];
        let src = noise(900 + d[1] as u64, n);
        let trgt = match d[2] { 0 => edit_every(&src, 40_000), 1 => edit_every(&src[n / 3..], 90_001), 2 => [&noise(901, 300_000)[..], &edit_every(&src, 150_000)].concat(), _ => src[n - 700_000..].iter().chain(&src[..700_000]).copied().collect() };
        let cfg = Cfg { src: Some((steps[d[0]], Some(1 << 20))), trgt: if d[3] == 1 { Some((27, 11, None)) } else { None }, lazy: [None, Some(0), Some(45)][d[3]], ..PLAIN };
        decide(w, Some(&src), &trgt, &cfg, None, c)
    }));
    // outputs above the section limit, sources above the window
    v.push(space("large", t.pick(10, 24), move |i, c| {
        let (src, trgt, cfg) = large_input(i);
        decide(w, Some(&src), &trgt, &cfg, None, c)
    }));
    v
}
/// differences of nine bytes that the source checksum cannot see
const LARGE: [[i32; 9]; 9] = [
    [18, -42, 20, 14, 27, -1, -66, 18, -48], [-36, -8, 20, 27, -37, -11, -20, -66, -77], [-27, -35, -83, 5, 18, 26, 19, -77, 22],
    [-6, 46, -57, 7, -95, -66, -55, 47, -69], [21, -118, 39, -58, -37, -19, 67, -21, 6], [69, 62, 3, 42, -30, -32, -83, -104, 41],
    [-56, 19, 2, -68, 1, 129, -74, 21, -42], [44, -15, -43, -109, 40, 64, 40, -10, -115], [107, 36, -52, 38, -81, 110, -7, -15, 12],
];
/// differences of four bytes that the target checksum cannot see
const SMALL: [[i32; 4]; 4] = [[129, -234, -61, -2], [160, -7, -43, -18], [191, 220, -25, -34], [31, 227, 18, -16]];
/// inputs of about 200 KB whose operations end on and around section limits
fn boundary_input(k: usize) -> (Vec<u8>, Vec<u8>) {
    let src = noise(70, 90_000);
    let tr = match k {
        0 => src.clone(),
        1 => noise(71, 65535),
        2 => noise(71, 65536),
        3 => [&src[..65535], &noise(72, 65535)[..]].concat(),
        4 => [&noise(72, 30)[..], &src[..80_000], &vec![0; 70_000], &src[100..40_000]].concat(),
        5 => vec![0; 200_000],
        6 => text(73, 150_000),
        _ => vec![],
    };
    (src, tr)
}
fn large_input(i: u64) -> (Vec<u8>, Vec<u8>, Cfg) {
    match i {
        0 => (vec![], noise(80, (1 << 24) + 70_000), Cfg { src: None, ..PLAIN }),
        1 => (vec![], vec![7; (1 << 25) + 5], Cfg { seg: true, ..PLAIN }),
        2 => { let s = noise(81, 300_000); let t = s.repeat(60); (s, t, PLAIN) }
        3 => (noise(82, 100), noise(83, (1 << 24) + 1), Cfg { sec: Sec::Zstd(1), seg: true, ..PLAIN }),
        4 => { let s = noise(84, 3_000_000); let t = edit_every(&s, 100_000); (s, t, Cfg { src: Some((18, Some(1 << 20))), ..PLAIN }) }
        5 => { let s = noise(85, 5_000_000); let t = edit_every(&s[..2_500_000], 70_001); (s, t, Cfg { src: Some((26, Some(1))), trgt: Some((27, 11, None)), ..PLAIN }) }
        6 => { let s = noise(86, 1_000_000); let t = [&edit_every(&s, 50_000)[..], &edit_every(&s, 33_333)].concat(); (s, t, Cfg { src: Some((5, Some(1 << 20))), size: 100_000, ..PLAIN }) }
        7 => { let s = noise(87, 2_000_000); let mut t = s.clone(); t.rotate_left(1_234_567); (s, t, Cfg { src: Some((2, Some(1 << 20))), ..PLAIN }) }
        8 => { let s = noise(88, 70_000); let t = [&noise(89, 400_000)[..], &s].concat(); (s, t, Cfg { naive: true, trgt: Some((70, 33, None)), ..PLAIN }) }
        9 => { let s = noise(90, 70_000); let t = [&s[..], &noise(91, 300_000), &s[5..]].concat(); (s, t, Cfg { naive: true, trgt: Some((70, 33, Some(100))), ..PLAIN }) }
        k => { let s = text(92 + k, 1_500_000 + 1000 * k as usize); let t = edit_every(&s, 1000 + 777 * k as usize);
            (s, t, Cfg { src: Some((1 + k as usize % 26, if k % 2 == 0 { Some(1 << 20) } else { None })), trgt: if k % 3 == 0 { Some((27, 11, None)) } else { None }, size: [0, 100_000, usize::MAX][k as usize % 3], ..PLAIN }) }
    }
}
/// one byte replaced, inserted or removed after every k bytes
pub fn edit_every(s: &[u8], k: usize) -> Vec<u8> {
    let mut o = vec![];
    for (j, ch) in s.chunks(k).enumerate() {
        match j % 3 { 0 => { o.extend_from_slice(ch); o.push(!ch[0]) } 1 => o.extend_from_slice(&ch[..ch.len() - 1]), _ => { o.extend_from_slice(ch); let l = o.len(); o[l - 1] ^= 0x55 } }
    }
    o
}
