//! Finite alphabets and their enumeration.
use crate::model::*;

/// mixed radix decoding: index -> one digit per radix (first digit varies fastest)
pub struct Radix(pub Vec<u64>);
impl Radix {
    pub fn total(&self) -> u64 { self.0.iter().product() }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        self.0.iter().map(|r| { let d = i % r; i /= r; d as usize }).collect()
    }
}
/// all strings over `alpha` of length 0..=max, shortest first
#[derive(Clone)]
pub struct Strings { pub alpha: Vec<u8>, pub max: usize }
impl Strings {
    pub fn new(alpha: &[u8], max: usize) -> Self { Strings { alpha: alpha.to_vec(), max } }
    pub fn total(&self) -> u64 { (0..=self.max).map(|l| (self.alpha.len() as u64).pow(l as u32)).sum() }
    pub fn get(&self, mut i: u64) -> Vec<u8> {
        let k = self.alpha.len() as u64;
        let mut l = 0;
        loop { let c = k.pow(l); if i < c { break } i -= c; l += 1 }
        let mut v = vec![0; l as usize];
        for x in v.iter_mut().rev() { *x = self.alpha[(i % k) as usize]; i /= k }
        v
    }
}
/// all sequences of digits below k with length 0..=max
#[derive(Clone)]
pub struct Seqs { pub k: u64, pub max: usize }
impl Seqs {
    pub fn total(&self) -> u64 { (0..=self.max).map(|l| self.k.pow(l as u32)).sum() }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        let mut l = 0;
        loop { let c = self.k.pow(l); if i < c { break } i -= c; l += 1 }
        let mut v = vec![0; l as usize];
        for x in v.iter_mut().rev() { *x = (i % self.k) as usize; i /= self.k }
        v
    }
}
/// fixed incompressible-looking content, a function of (tag, length) with prefix property
pub fn noise(tag: u64, n: usize) -> Vec<u8> {
    let mut s = tag.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        v.extend((z ^ (z >> 31)).to_le_bytes());
    }
    v.truncate(n);
    v
}
/// noise without two equal neighbours in a row of four (never a run)
pub fn text(tag: u64, n: usize) -> Vec<u8> { noise(tag, n).into_iter().map(|b| b'a' + b % 26).collect() }

/// alphabet of operations for small programs over a source of length src_len; output copies are
/// given by a rule resolved against the output position so that every program is valid
#[derive(Clone, Debug)]
pub enum Tok {
    Add(usize),
    Run(u8, u8),
    /// source copy
    D(u64, u16),
    /// output copy of (at most) n bytes from the start plus off
    OStart(u64, u16),
    /// output copy of the last n bytes
    OEnd(u16),
    /// output copy of everything so far (up to 65535)
    OAll,
    /// new section
    Sec,
}
pub struct Build { pub secs: Vec<Vec<ROp>>, pub out: usize }
/// Turns tokens into sections of valid operations. None if a token is not enabled in its state.
pub fn build(toks: &[&Tok], adds_tag: u8) -> Option<Build> {
    let mut b = Build { secs: vec![vec![]], out: 0 };
    let mut ctr = adds_tag;
    for t in toks {
        let op = match t {
            Tok::Add(n) => { let v = (0..*n).map(|k| { ctr = ctr.wrapping_add(1); ctr ^ (k as u8).wrapping_mul(37) }).collect(); ROp::Add(v) }
            Tok::Run(c, n) => ROp::Run(*c, *n),
            Tok::D(a, n) => ROp::CopyD(*a, *n),
            Tok::OStart(off, n) => { if *off + *n as u64 > b.out as u64 { return None } ROp::CopyO(*off, *n) }
            Tok::OEnd(n) => { if *n as usize > b.out { return None } ROp::CopyO((b.out - *n as usize) as u64, *n) }
            Tok::OAll => { if b.out == 0 { return None } let n = b.out.min(65535); ROp::CopyO((b.out - n) as u64, n as u16) }
            Tok::Sec => { b.secs.push(vec![]); continue }
        };
        b.out += op.len();
        b.secs.last_mut().unwrap().push(op);
    }
    Some(b)
}
impl Build {
    pub fn secs(&self, seg: bool, algo: u8) -> Vec<RSec> {
        let n = self.secs.len();
        self.secs.iter().enumerate().map(|(i, o)| RSec { ops: o.clone(), seg, algo, more: i + 1 < n }).collect()
    }
    pub fn flat(&self) -> Vec<ROp> { self.secs.concat() }
}

// ------------------------------------------------------------------------------------- crowds
/// counts of operations or sections around the widths of integers and buffers
pub fn crowd_counts(thorough: bool) -> Vec<usize> {
    let mut v = vec![127, 128, 129, 255, 256, 257, 1023, 4095, 4096, 4097, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131_073];
    if thorough { v.extend([100_000, 131_070, 131_071, 131_072, 196_607, 262_145, 524_289, 1_048_577]) }
    v
}
pub const CROWD_KINDS: u64 = 6;
/// n small operations on a source of 300 bytes
pub fn crowd(kind: usize, n: usize) -> Vec<ROp> {
    let mut out = 0u64;
    (0..n as u64).map(|k| {
        let b = (k.wrapping_mul(0x9E37_79B9) >> 7) as u8;
        let op = match kind {
            0 => ROp::Run(b, 1),
            1 => ROp::Add(vec![b]),
            2 => ROp::CopyD(k * 7 % 290, 2),
            3 => match k % 4 { 0 => ROp::Add(vec![b, !b]), 1 => ROp::Run(b, 1), 2 => ROp::CopyD(k % 299, 1), _ => ROp::CopyO(out / 2, 1) },
            4 => if k < 3 { ROp::Add(vec![b, b ^ 1, b ^ 7]) } else { ROp::CopyO(k * 5 % out, 1) },
            _ => if k == 0 || k + 1 == n as u64 { ROp::Add(noise(k, 70)) } else { ROp::Run((k % 3) as u8, (1 + k % 2) as u8) },
        };
        out += op.len() as u64;
        op
    }).collect()
}
/// n small sections; `k`: which mixture
pub fn crowd_of_secs(k: usize, n: usize, algo: u8) -> Vec<RSec> {
    (0..n).map(|j| {
        let ops = match k {
            0 => vec![],
            1 => vec![ROp::Add(vec![j as u8])],
            2 => vec![ROp::CopyD(j as u64 % 299, 1)],
            _ => match j % 5 { 0 => vec![ROp::Add(vec![j as u8; 3])], 1 => vec![], 2 => vec![ROp::CopyO(j as u64 / 5, 2)], 3 => vec![ROp::Run(j as u8, 2), ROp::CopyD(3, 1)], _ => vec![ROp::CopyD(9, 2)] },
        };
        RSec { ops, seg: k == 3 && j % 3 == 1, algo, more: j + 1 < n }
    }).collect()
}
