//! Independent model of VCDIFF (RFC 3284, default code table): encoder and strict decoder.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum VI { Add(Vec<u8>), Run(u8, u32), Copy { addr: u64, n: u32, mode: u8 } }
impl VI { pub fn len(&self) -> u64 { match self { VI::Add(b) => b.len() as u64, VI::Run(_, n) => *n as u64, VI::Copy { n, .. } => *n as u64 } } }
#[derive(Clone, Debug)]
pub struct VWin { pub ind: u8, pub seg: (u64, u64), pub insts: Vec<VI> }

pub fn vint(o: &mut Vec<u8>, n: u64) {
    let mut k = 1;
    while k < 10 && n >> (7 * k) != 0 { k += 1 }
    for i in (0..k).rev() { o.push((n >> (7 * i)) as u8 & 127 | if i > 0 { 128 } else { 0 }) }
}

/// (type, size, mode) pairs; type 0 noop 1 add 2 run 3 copy
pub type Half = (u8, u8, u8);
pub fn table() -> Vec<(Half, Half)> {
    const NO: Half = (0, 0, 0);
    let mut t = vec![((2, 0, 0), NO)];
    for s in 0..=17 { t.push(((1, s, 0), NO)) }
    for m in 0..9 { t.push(((3, 0, m), NO)); for s in 4..=18 { t.push(((3, s, m), NO)) } }
    for m in 0..6 { for a in 1..=4 { for s in 4..=6 { t.push(((1, a, 0), (3, s, m))) } } }
    for m in 6..9 { for a in 1..=4 { t.push(((1, a, 0), (3, 4, m))) } }
    for m in 0..9 { t.push(((3, 4, m), (1, 1, 0))) }
    assert_eq!(t.len(), 256);
    t
}

/// The table of the library the translator uses: paired ADD+COPY codes are ordered by the ADD's size
/// before the COPY's mode, where RFC 3284 5.6 orders them by the mode first.
pub fn library_table() -> Vec<(Half, Half)> {
    let mut t = table();
    let mut k = 163;
    for a in 1..=4 { for m in 0..6 { for s in 4..=6 { t[k] = ((1, a, 0), (3, s, m)); k += 1 } } }
    for a in 1..=4 { for m in 6..9 { t[k] = ((1, a, 0), (3, 4, m)); k += 1 } }
    assert_eq!(k, 247);
    t
}

#[derive(Clone)]
struct Cache { near: [u64; 4], next: usize, same: Vec<u64> }
impl Cache {
    fn new() -> Self { Cache { near: [0; 4], next: 0, same: vec![0; 768] } }
    fn update(&mut self, a: u64) { self.near[self.next] = a; self.next = (self.next + 1) % 4; self.same[(a % 768) as usize] = a }
}

pub const MAGIC: [u8; 5] = [0xD6, 0xC3, 0xC4, 0, 0];

/// style 0: sizes always explicit; 1: smallest single opcode; 2: paired opcodes where they exist.
/// None when an instruction's address mode cannot express its address.
pub fn enc_win(w: &VWin, style: u8, tab: &[(Half, Half)]) -> Option<Vec<u8>> { enc_win_how(w, style, tab, How::Rfc) }
/// What an instruction generates at a position in U.
pub fn makes(i: &VI, here: u64, how: How) -> u64 {
    match i { VI::Copy { addr, n, .. } if how != How::Rfc && addr + *n as u64 > here => addr + *n as u64 - here, _ => i.len() }
}
pub fn enc_win_how(w: &VWin, style: u8, tab: &[(Half, Half)], how: How) -> Option<Vec<u8>> {
    let (mut data, mut inst, mut addrs) = (vec![], vec![], vec![]);
    let mut c = Cache::new();
    let mut here = if w.ind == 0 { 0 } else { w.seg.0 };
    let mut target = 0u64;
    let half = |i: &VI| match i { VI::Add(b) => (1u8, b.len() as u64, 0u8), VI::Run(_, n) => (2, *n as u64, 0), VI::Copy { n, mode, .. } => (3, *n as u64, *mode) };
    let mut k = 0;
    while k < w.insts.len() {
        // opcode
        let a = half(&w.insts[k]);
        let b = w.insts.get(k + 1).map(half);
        let same = |h: &Half, x: &(u8, u64, u8)| h.0 == x.0 && h.1 as u64 == x.1 && h.1 != 0 && h.2 == x.2;
        let pair = if style == 2 { b.and_then(|b| tab.iter().position(|(f, s)| same(f, &a) && same(s, &b))) } else { None };
        let take = if let Some(p) = pair { inst.push(p as u8); 2 } else {
            match tab.iter().position(|(f, s)| style > 0 && s.0 == 0 && same(f, &a)) {
                Some(p) => inst.push(p as u8),
                None => { inst.push(tab.iter().position(|(f, s)| s.0 == 0 && f.0 == a.0 && f.1 == 0 && f.2 == a.2).unwrap() as u8); vint(&mut inst, a.1) }
            }
            1
        };
        for i in &w.insts[k..k + take] {
            match i {
                VI::Add(b) => data.extend_from_slice(b),
                VI::Run(b, _) => data.push(*b),
                VI::Copy { addr, mode, .. } => {
                    match *mode {
                        0 => vint(&mut addrs, *addr),
                        1 => vint(&mut addrs, here.checked_sub(*addr)?),
                        m @ 2..=5 => vint(&mut addrs, addr.checked_sub(c.near[m as usize - 2])?),
                        m => {
                            let s = (addr % 768) as usize;
                            if c.same[s] != *addr || s / 256 != m as usize - 6 { return None }
                            addrs.push((s % 256) as u8)
                        }
                    }
                    c.update(*addr);
                }
            }
            let l = makes(i, here, how);
            here += l;
            target += l;
        }
        k += take;
    }
    let mut o = vec![w.ind];
    if w.ind != 0 { vint(&mut o, w.seg.0); vint(&mut o, w.seg.1) }
    let mut body = vec![];
    vint(&mut body, target);
    body.push(0);
    vint(&mut body, data.len() as u64);
    vint(&mut body, inst.len() as u64);
    vint(&mut body, addrs.len() as u64);
    body.extend(data);
    body.extend(inst);
    body.extend(addrs);
    vint(&mut o, body.len() as u64);
    o.extend(body);
    Some(o)
}
pub fn enc(ws: &[VWin], style: u8, tab: &[(Half, Half)]) -> Option<Vec<u8>> {
    let mut o = MAGIC.to_vec();
    for w in ws { o.extend(enc_win(w, style, tab)?) }
    Some(o)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum VBad {
    Eof, Magic, Unsupported, TargetSize, Segment, /// beyond the source, which a translator does not see
    SrcSegment, Address,
    /// sections consumed beyond their ends or not to their ends
    Data, Inst, Addrs,
    /// an integer longer than necessary (not judged)
    NonCanonical,
    IntOver,
    Size,
    Empty,
}
#[derive(Default, Debug, Clone)]
pub struct Feat { pub periodic: bool, pub crossing: bool, /// a paired code other than those the library reads like the RFC
    pub paired: bool, pub windows: usize, /// the repeated length of a window's encoding is not what its parts add up to
    pub length: bool, /// an instruction of length 0
    pub empty: bool }

fn gint(b: &[u8], p: &mut usize, end: usize, eof: VBad) -> Result<(u64, bool), VBad> {
    let mut v: u64 = 0;
    let st = *p;
    loop {
        if *p >= end { return Err(eof) }
        let x = b[*p];
        *p += 1;
        if v >> 57 != 0 { return Err(VBad::IntOver) }
        v = v << 7 | (x & 127) as u64;
        if x < 128 { break }
    }
    // nine digits are 63 bits; anything longer cannot be told from a longer form here
    let canon = { let mut o = vec![]; vint(&mut o, v); o.len() == *p - st };
    if *p - st > 9 { return Err(VBad::IntOver) }
    Ok((v, canon))
}

/// How a delta is read: as RFC 3284 says, or as the library the translator uses reads it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How { Rfc, Dialect, /// the dialect, and the ends of the instruction and address sections are not respected
    Lenient, /// the dialect, and only the lower 32 bits of sizes and addresses count
    Cut }
/// Strict decoder. Dialect: a copy that runs over the end of what exists generates only what lies
/// beyond it (the reading of the library the translator uses), instead of all its length (RFC 3284).
/// A file without windows is reported as Empty.
pub fn decode(b: &[u8], src: &[u8], how: How, tab: &[(Half, Half)], cap: u64) -> (Feat, Result<Vec<u8>, VBad>) {
    let mut ft = Feat::default();
    let r = decode_in(b, src, how, tab, cap, &mut ft);
    (ft, r)
}
fn decode_in(b: &[u8], src: &[u8], how: How, tab: &[(Half, Half)], cap: u64, ft: &mut Feat) -> Result<Vec<u8>, VBad> {
    use VBad::*;
    let (dialect, lenient) = (how != How::Rfc, how == How::Lenient);
    if b.len() < 5 { return Err(Eof) }
    if b[..4] != MAGIC[..4] { return Err(Magic) }
    if b[4] != 0 { return Err(Unsupported) }
    let mut p = 5;
    let mut out: Vec<u8> = vec![];
    while p < b.len() {
        let end = b.len();
        let ind = b[p];
        p += 1;
        if ind > 2 { return Err(Unsupported) }
        let mut canon = true;
        let mut g = |p: &mut usize| -> Result<u64, VBad> { let (v, c) = gint(b, p, end, Eof)?; canon &= c; Ok(v) };
        let seg = if ind != 0 { (g(&mut p)?, g(&mut p)?) } else { (0, 0) };
        let dlen = g(&mut p)?;
        let body = p;
        let tlen = g(&mut p)?;
        if p >= end { return Err(Eof) }
        let dind = b[p];
        p += 1;
        let (dl, il, al) = (g(&mut p)?, g(&mut p)?, g(&mut p)?);
        if !canon { return Err(NonCanonical) }
        if dind != 0 { return Err(Unsupported) }
        let tot = dl.checked_add(il).and_then(|x| x.checked_add(al)).ok_or(IntOver)?;
        if tot > (end - p) as u64 { return Err(Eof) }
        if dlen != (p - body) as u64 + tot { ft.length = true }
        if seg.0.checked_add(tlen).map_or(true, |x| x > u32::MAX as u64) { return Err(Size) }
        if tlen > cap { return Err(Size) }
        let sege = seg.1.checked_add(seg.0).ok_or(Segment)?;
        let segment: Vec<u8> = match ind {
            0 => vec![],
            1 => { if sege > src.len() as u64 { return Err(SrcSegment) } src[seg.1 as usize..sege as usize].to_vec() }
            _ => { if sege > out.len() as u64 { return Err(Segment) } out[seg.1 as usize..sege as usize].to_vec() }
        };
        let (mut d, de) = (p, p + dl as usize);
        let (mut i, ie) = (de, de + il as usize);
        let (mut a, ae) = (ie, ie + al as usize);
        let (ile, ale) = if lenient { (b.len(), b.len()) } else { (ie, ae) };
        let mut u = segment;
        let s = u.len();
        let mut cache = Cache::new();
        while i < ie {
            let op = tab[b[i] as usize];
            if matches!(b[i], 166..=231 | 236..=245) { ft.paired = true }
            i += 1;
            for h in [op.0, op.1] {
                if h.0 == 0 { continue }
                let n = if h.1 == 0 { gint(b, &mut i, ile, Inst)?.0 } else { h.1 as u64 };
                let n = if how == How::Cut { n as u32 as u64 } else { n };
                if u.len() as u64 + n > s as u64 + tlen + if dialect { 1 << 24 } else { 0 } { return Err(TargetSize) }
                let n = n as usize;
                if n == 0 { ft.empty = true }
                match h.0 {
                    1 => { if de - d < n { return Err(Data) } u.extend_from_slice(&b[d..d + n]); d += n }
                    2 => { if d >= de { return Err(Data) } u.extend(std::iter::repeat(b[d]).take(n)); d += 1 }
                    _ => {
                        let here = u.len() as u64;
                        let addr = match h.2 {
                            0 => gint(b, &mut a, ale, Addrs)?.0,
                            1 => here.checked_sub(gint(b, &mut a, ale, Addrs)?.0).ok_or(Address)?,
                            m @ 2..=5 => cache.near[m as usize - 2].checked_add(gint(b, &mut a, ale, Addrs)?.0).ok_or(Address)?,
                            m => { if a >= ale { return Err(Addrs) } let v = b[a] as usize; a += 1; cache.same[(m as usize - 6) * 256 + v] }
                        };
                        if addr >= here && how != How::Cut { return Err(Address) }
                        cache.update(addr);
                        let addr = if how == How::Cut { addr as u32 as u64 } else { addr };
                        if addr >= here { return Err(Address) }
                        let (st, e) = (addr as usize, addr as usize + n);
                        if st < s && e > s { ft.crossing = true }
                        if e > here as usize { ft.periodic = true }
                        let cnt = if dialect && e > here as usize { e - here as usize } else { n };
                        let at = if dialect && e > here as usize { here as usize - (n - cnt) } else { st };
                        for k in 0..cnt { let x = u[at + k]; u.push(x) }
                    }
                }
            }
        }
        if d != de { return Err(Data) }
        if a != ae && !lenient { return Err(Addrs) }
        if (u.len() - s) as u64 != tlen { return Err(TargetSize) }
        if il == 0 { return Err(Unsupported) }
        out.extend_from_slice(&u[s..]);
        ft.windows += 1;
        p = ae;
    }
    if ft.windows == 0 { return Err(Empty) }
    Ok(out)
}
