//! Independent model of the SMDIFF format: encoder, strict parser and interpreter written from the
//! format description (and the operation byte layout the repository's tests pin), sharing no code with it.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ROp {
    Add(Vec<u8>),
    Run(u8, u8),
    CopyD(u64, u16),
    CopyO(u64, u16),
}
impl ROp {
    pub fn len(&self) -> usize {
        match self { ROp::Add(b) => b.len(), ROp::Run(_, n) => *n as usize, ROp::CopyD(_, n) | ROp::CopyO(_, n) => *n as usize }
    }
    pub fn short(&self) -> String {
        match self {
            ROp::Add(b) if b.len() <= 12 => format!("Add{:?}", b),
            ROp::Add(b) => format!("Add[{}]", b.len()),
            ROp::Run(b, n) => format!("Run({b}x{n})"),
            ROp::CopyD(a, n) => format!("CopyD({a},{n})"),
            ROp::CopyO(a, n) => format!("CopyO({a},{n})"),
        }
    }
}
pub fn show(ops: &[ROp]) -> String {
    let f = |o: &[ROp]| o.iter().map(|o| o.short()).collect::<Vec<_>>().join(" ");
    if ops.len() <= 200 { f(ops) } else { format!("{} .. ({} operations) .. {}", f(&ops[..12]), ops.len(), f(&ops[ops.len() - 6..])) }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RSec { pub ops: Vec<ROp>, pub seg: bool, pub algo: u8, pub more: bool }
impl RSec {
    pub fn out(&self) -> usize { self.ops.iter().map(|o| o.len()).sum() }
    pub fn adds(&self) -> usize { self.ops.iter().map(|o| if let ROp::Add(b) = o { b.len() } else { 0 }).sum() }
}

pub fn uv(out: &mut Vec<u8>, mut n: u64) {
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n == 0 { out.push(b); return }
        out.push(b | 128);
    }
}
pub fn uv_len(n: u64) -> usize { let bits = 64 - n.leading_zeros() as usize; if bits == 0 { 1 } else { bits.div_ceil(7) } }
pub fn zz(n: i64) -> u64 { if n >= 0 { (n as u64) * 2 } else { (n.unsigned_abs() - 1) * 2 + 1 } }
pub fn unzz(z: u64) -> i64 { if z % 2 == 0 { (z / 2) as i64 } else { -((z / 2) as i64) - 1 } }
pub fn delta(cur: u64, tgt: u64) -> i64 { tgt.wrapping_sub(cur) as i64 }

/// the operation list of one section, without header
pub fn enc_body(ops: &[ROp], seg: bool) -> Vec<u8> {
    let mut o = vec![];
    let (mut d, mut t) = (0u64, 0u64);
    let mut tail = vec![];
    for op in ops {
        let ty = match op { ROp::CopyD(..) => 0u8, ROp::CopyO(..) => 1, ROp::Add(_) => 2, ROp::Run(..) => 3 } << 6;
        let n = op.len();
        if n >= 1 && n <= 62 { o.push(ty | n as u8) }
        else if n == 63 { o.push(ty | 63); o.push(1) }
        else { o.push(ty); o.extend((n as u16).to_le_bytes()) }
        match op {
            ROp::Add(b) => if seg { tail.extend_from_slice(b) } else { o.extend_from_slice(b) },
            ROp::Run(b, _) => o.push(*b),
            ROp::CopyD(a, _) => { uv(&mut o, zz(delta(d, *a))); d = *a }
            ROp::CopyO(a, _) => { uv(&mut o, zz(delta(t, *a))); t = *a }
        }
    }
    o.extend(tail);
    o
}
pub fn enc_header(s: &RSec) -> Vec<u8> {
    let mut o = vec![s.algo << 3 | (s.seg as u8) << 6 | (s.more as u8) << 7];
    uv(&mut o, s.ops.len() as u64);
    if s.seg { uv(&mut o, s.adds() as u64); uv(&mut o, (s.out() - s.adds()) as u64) } else { uv(&mut o, s.out() as u64) }
    o
}
/// algo must be 0, 1 (payload as one plain Add/Run patch), 2 (libzstd) or 3 (libbrotli)
pub fn enc_sec(s: &RSec) -> Vec<u8> {
    let mut o = enc_header(s);
    let body = enc_body(&s.ops, s.seg);
    match s.algo {
        0 => o.extend(body),
        1 => {
            let mut ops = vec![];
            for c in body.chunks(65535) { ops.push(ROp::Add(c.to_vec())) }
            o.extend(enc_sec(&RSec { ops, seg: false, algo: 0, more: false }))
        }
        2 => o.extend(zstd::bulk::compress(&body, 3).unwrap()),
        3 => o.extend(brotli_compress(&body)),
        _ => panic!("algo"),
    }
    o
}
pub fn enc_patch(secs: &[RSec]) -> Vec<u8> { secs.iter().flat_map(|s| enc_sec(s)).collect() }
pub fn patch_of(ops: Vec<ROp>, seg: bool) -> Vec<u8> { enc_patch(&[RSec { ops, seg, algo: 0, more: false }]) }

pub fn brotli_compress(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let enc = brotlic::BrotliEncoderOptions::new().quality(brotlic::Quality::new(4).unwrap()).build().unwrap();
    let mut w = brotlic::CompressorWriter::with_encoder(enc, Vec::new());
    w.write_all(b).unwrap();
    w.into_inner().unwrap()
}
/// (decompressed, bytes consumed), using the C library's step interface
pub fn brotli_decompress(b: &[u8], cap: usize) -> Result<(Vec<u8>, usize), String> {
    use brotlic::decode::DecoderInfo;
    let mut d = brotlic::BrotliDecoderOptions::new().large_window_size(true).build().unwrap();
    let mut out = vec![];
    let mut pos = 0;
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let r = d.decompress(&b[pos..], &mut buf).map_err(|e| format!("brotli: {e}"))?;
        pos += r.bytes_read;
        out.extend_from_slice(&buf[..r.bytes_written]);
        if out.len() > cap { return Err("brotli: over cap".into()) }
        match r.info {
            DecoderInfo::Finished => return Ok((out, pos)),
            DecoderInfo::NeedsMoreInput => if pos >= b.len() { return Err("eof".into()) },
            DecoderInfo::NeedsMoreOutput => {}
        }
    }
}
pub fn zstd_decompress(b: &[u8], cap: usize) -> Result<(Vec<u8>, usize), String> {
    let n = zstd::zstd_safe::find_frame_compressed_size(b).map_err(|_| "zstd: bad frame".to_string())?;
    let r = zstd::bulk::decompress(&b[..n], cap + 1).map_err(|e| format!("zstd: {e}"))?;
    Ok((r, n))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad { Eof, Invalid(&'static str) }
type P<T> = Result<T, Bad>;
struct Rd<'a> { b: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    fn u8(&mut self) -> P<u8> { let v = *self.b.get(self.p).ok_or(Bad::Eof)?; self.p += 1; Ok(v) }
    fn take(&mut self, n: usize) -> P<&'a [u8]> {
        if self.b.len() - self.p < n { return Err(Bad::Eof) }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    /// strict: at most ten bytes, value fits 64 bits
    fn uv(&mut self) -> P<u64> {
        let mut v: u128 = 0;
        for k in 0..10 {
            let b = self.u8()?;
            v |= ((b & 127) as u128) << (7 * k);
            if b < 128 {
                return if v > u64::MAX as u128 { Err(Bad::Invalid("varint over 64 bits")) } else { Ok(v as u64) };
            }
        }
        Err(Bad::Invalid("varint longer than ten bytes"))
    }
}
pub const MAXW: u64 = (1 << 24) - 1;
/// Parses the varint at the start of b.
pub fn parse_uv(b: &[u8]) -> P<(u64, usize)> { let mut r = Rd { b, p: 0 }; let v = r.uv()?; Ok((v, r.p)) }

pub struct Hdr { pub algo: u8, pub seg: bool, pub more: bool, pub nops: u64, pub adds: u64, pub out: u64 }
fn parse_header(r: &mut Rd) -> P<Hdr> {
    let c = r.u8()?;
    let (seg, more, algo) = (c & 64 != 0, c & 128 != 0, c >> 3 & 7);
    let nops = r.uv()?;
    let adds = if seg { r.uv()? } else { 0 };
    let rest = r.uv()?;
    let out = adds.checked_add(rest).ok_or(Bad::Invalid("size overflow"))?;
    if out > MAXW { return Err(Bad::Invalid("section over 2^24-1")) }
    if nops > out { return Err(Bad::Invalid("more operations than output bytes")) }
    Ok(Hdr { algo, seg, more, nops, adds, out })
}
fn parse_body(r: &mut Rd, h: &Hdr) -> P<Vec<ROp>> {
    let mut ops = vec![];
    let (mut d, mut t) = (0u64, 0u64);
    let (mut total, mut adds) = (0u64, 0u64);
    let mut pend: Vec<(usize, usize)> = vec![];
    for _ in 0..h.nops {
        let b = r.u8()?;
        let ty = b >> 6;
        let n = match b & 63 {
            0 => { if ty == 3 { return Err(Bad::Invalid("run size")) } let s = r.take(2)?; s[0] as usize | (s[1] as usize) << 8 }
            63 => { if ty == 3 { return Err(Bad::Invalid("run size")) } r.u8()? as usize + 62 }
            n => n as usize,
        };
        if n == 0 { return Err(Bad::Invalid("zero length")) }
        let op = match ty {
            0 => { d = d.wrapping_add(unzz(r.uv()?) as u64); ROp::CopyD(d, n as u16) }
            1 => { t = t.wrapping_add(unzz(r.uv()?) as u64); ROp::CopyO(t, n as u16) }
            2 => { adds += n as u64; if h.seg { pend.push((ops.len(), n)); ROp::Add(vec![]) } else { ROp::Add(r.take(n)?.to_vec()) } }
            _ => ROp::Run(r.u8()?, n as u8),
        };
        total += n as u64;
        if total > h.out { return Err(Bad::Invalid("operations exceed output size")) }
        ops.push(op);
    }
    if total != h.out { return Err(Bad::Invalid("output size")) }
    if h.seg && adds != h.adds { return Err(Bad::Invalid("add bytes")) }
    for (i, n) in pend { ops[i] = ROp::Add(r.take(n)?.to_vec()) }
    Ok(ops)
}
/// One section from the start of b; returns it and the bytes consumed. `comp`: are compressed sections allowed?
pub fn parse_section(b: &[u8], comp: bool) -> P<(RSec, usize)> {
    let mut r = Rd { b, p: 0 };
    let h = parse_header(&mut r)?;
    if h.algo > 3 { return Err(Bad::Invalid("unknown compression")) }
    if h.algo != 0 && !comp { return Err(Bad::Invalid("compressed")) }
    // no valid section body is longer than this
    let cap = (h.out as usize) * 24 + 64;
    let (payload, used): (Vec<u8>, usize) = match h.algo {
        0 => { let ops = parse_body(&mut r, &h)?; return Ok((RSec { ops, seg: h.seg, algo: 0, more: h.more }, r.p)) }
        1 => {
            let (secs, n) = parse_patch(&b[r.p..], false)?;
            // no body is longer than thirteen bytes per operation and the Add bytes
            if secs.iter().map(|s| s.out() as u64).sum::<u64>() > h.out + 13 * h.nops { return Err(Bad::Invalid("nested patch longer than the operations")) }
            (interp(&secs, None).map_err(|_| Bad::Invalid("nested patch"))?, n)
        }
        2 => zstd_decompress(&b[r.p..], cap).map_err(|_| Bad::Invalid("zstd"))?,
        _ => brotli_decompress(&b[r.p..], cap).map_err(|_| Bad::Invalid("brotli"))?,
    };
    let mut r2 = Rd { b: &payload, p: 0 };
    let ops = parse_body(&mut r2, &h)?;
    if r2.p != payload.len() { return Err(Bad::Invalid("payload longer than the operations")) }
    Ok((RSec { ops, seg: h.seg, algo: h.algo, more: h.more }, r.p + used))
}
/// Only the header of the section at the start of b.
pub fn parse_header_of(b: &[u8]) -> P<Hdr> { parse_header(&mut Rd { b, p: 0 }) }
/// All sections up to the terminal one, and the bytes consumed.
pub fn parse_patch(b: &[u8], comp: bool) -> P<(Vec<RSec>, usize)> {
    let mut p = 0;
    let mut v = vec![];
    loop {
        let (s, n) = parse_section(&b[p..], comp)?;
        p += n;
        let more = s.more;
        v.push(s);
        if !more { return Ok((v, p)) }
    }
}
pub fn interp_into(out: &mut Vec<u8>, ops: &[ROp], src: Option<&[u8]>) -> Result<(), &'static str> {
    for op in ops {
        match op {
            ROp::Add(b) => out.extend_from_slice(b),
            ROp::Run(b, n) => out.extend(std::iter::repeat(*b).take(*n as usize)),
            ROp::CopyD(a, n) => {
                let s = src.ok_or("no source")?;
                let e = a.checked_add(*n as u64).ok_or("source address")?;
                if e > s.len() as u64 { return Err("source range") }
                out.extend_from_slice(&s[*a as usize..e as usize]);
            }
            ROp::CopyO(a, n) => {
                let e = a.checked_add(*n as u64).ok_or("output address")?;
                if e > out.len() as u64 { return Err("output range") }
                out.extend_from_within(*a as usize..e as usize);
            }
        }
    }
    Ok(())
}
pub fn interp(secs: &[RSec], src: Option<&[u8]>) -> Result<Vec<u8>, &'static str> {
    let mut out = vec![];
    for s in secs { interp_into(&mut out, &s.ops, src)? }
    Ok(out)
}
/// Structural validity of a parsed patch for a source of the given length (limits, ranges).
pub fn check_ranges(secs: &[RSec], src_len: usize) -> Result<usize, String> {
    let mut pos = 0u64;
    for (i, s) in secs.iter().enumerate() {
        if s.more == (i + 1 == secs.len()) { return Err(format!("terminal mark wrong at section {i} of {}", secs.len())) }
        for (j, op) in s.ops.iter().enumerate() {
            let n = op.len() as u64;
            if n == 0 { return Err(format!("section {i} op {j}: zero length")) }
            match op {
                ROp::Run(_, k) if *k > 62 => return Err(format!("section {i} op {j}: run of {k}")),
                ROp::CopyD(a, k) if a.checked_add(*k as u64).map_or(true, |e| e > src_len as u64) => return Err(format!("section {i} op {j}: source copy {a}+{k} beyond {src_len}")),
                ROp::CopyO(a, k) if a.checked_add(*k as u64).map_or(true, |e| e > pos) => return Err(format!("section {i} op {j}: output copy {a}+{k} beyond {pos}")),
                _ => {}
            }
            pos += n;
        }
    }
    Ok(pos as usize)
}
