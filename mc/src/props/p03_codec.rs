//! P03 wire codec, P04 integers, P09 sections, P19 writer refusals.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use smdiff_common::*;
use std::io::Cursor;

fn check_codec(secs: &[RSec], ctx: &mut Ctx) -> Result<(), String> {
    let want = enc_patch(secs);
    let mut got = vec![];
    for s in secs {
        got.extend(write_sec(s).map_err(|e| format!("writing {} failed: {e}", show(&s.ops)))?);
        ctx.transitions += s.ops.len() as u64 + 1;
    }
    if got != want { return Err(format!("bytes written differ from the format: {} for {:?}", diff(&got, &want), secs.iter().map(|s| (s.seg, show(&s.ops))).collect::<Vec<_>>())) }
    ctx.state(H::new(3).b(&want));
    // the model's own parser must agree with its encoder
    match parse_patch(&want, false) { Ok((p, n)) if p == secs && n == want.len() => {}, x => return Err(format!("model self check: {:?}", x.map(|x| x.1))) }
    // plain reader, with bytes following the patch
    let mut tail = want.clone();
    tail.extend([0x00, 0xff, 0x81]);
    let (r, used) = read_plain(&tail).map_err(|e| format!("reader refuses its own writer's bytes: {e}; {:?}", secs.iter().map(|s| (s.seg, show(&s.ops))).collect::<Vec<_>>()))?;
    if used != want.len() { return Err(format!("reader consumed {used} of {} bytes", want.len())) }
    cmp_secs(&r, secs, "reader")?;
    let d = read_dec(&tail).map_err(|e| format!("decoder's reader refuses: {e}"))?;
    cmp_secs(&d, secs, "decoder's reader")?;
    // section by section, appending into one buffer
    let mut c = Cursor::new(&want[..]);
    let mut buf = vec![];
    for (i, s) in secs.iter().enumerate() {
        let at = buf.len();
        let h = smdiff_reader::read_section(&mut c, &mut buf).map_err(|e| format!("read_section {i}: {e}"))?;
        if buf.len() < at || from_ops(&buf[at..]) != s.ops { return Err(format!("read_section {i} returned {}", show(&from_ops(&buf[at.min(buf.len())..])))) }
        if h.more_sections != s.more || h.format.is_segregated() != s.seg || h.output_size as usize != s.out() || h.num_operations as usize != s.ops.len() { return Err(format!("read_section {i} header {h:?}")) }
    }
    ctx.traces += 1;
    ctx.evals += 4;
    Ok(())
}
pub fn cmp_secs(got: &[(SectionHeader, RSec)], want: &[RSec], who: &str) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{who}: {} sections instead of {}", got.len(), want.len())) }
    for (i, ((h, g), w)) in got.iter().zip(want).enumerate() {
        if g.ops != w.ops { return Err(format!("{who}: section {i} operations {} instead of {}", show(&g.ops), show(&w.ops))) }
        if h.more_sections != w.more || h.format.is_segregated() != w.seg || h.compression_algo != w.algo || h.output_size as usize != w.out() || h.num_operations as usize != w.ops.len() {
            return Err(format!("{who}: section {i} header {h:?} for {} ops, {} out, {} adds", w.ops.len(), w.out(), w.adds()));
        }
    }
    Ok(())
}

const ADDRS: [u64; 24] = [0, 1, 2, 62, 63, 64, 65, 127, 128, 8191, 8192, 16384, 1 << 20, (1 << 20) + 1, 1 << 27, 1 << 31, 1 << 32, 1 << 34, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX];
fn big_add(n: usize) -> ROp { ROp::Add(noise(n as u64, n)) }

fn codec_alphabet() -> Vec<ROp> {
    vec![
        ROp::Add(vec![7]), ROp::Add(vec![1, 2]), big_add(62), big_add(63), big_add(64), big_add(317), big_add(318),
        ROp::Run(0, 1), ROp::Run(255, 62), ROp::Run(9, 3),
        ROp::CopyD(0, 1), ROp::CopyD(5, 63), ROp::CopyD(300, 64), ROp::CopyD(1 << 33, 65535),
        ROp::CopyO(0, 62), ROp::CopyO(70, 63), ROp::CopyO(2, 300), ROp::CopyO(u64::MAX, 65535),
    ]
}
fn section_bodies() -> Vec<Vec<ROp>> {
    vec![
        vec![], vec![ROp::Add(vec![1])], vec![ROp::CopyD(1000, 4)], vec![ROp::CopyO(1000, 4)], vec![ROp::Run(3, 62)],
        vec![ROp::CopyD(1000, 63), ROp::CopyO(1000, 64)], vec![ROp::Add(vec![1, 2, 3]), ROp::CopyD(7, 9), ROp::Add(vec![4, 5])],
        vec![big_add(63), ROp::Run(1, 1), big_add(400), ROp::CopyO(0, 1)], vec![ROp::CopyO(5, 5), ROp::CopyO(5, 5), ROp::CopyD(5, 5)],
        vec![big_add(65535), ROp::CopyD(0, 65535)],
    ]
}

pub fn p03(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // every length of every operation kind, on its own
    let max_add = 65535u64;
    let add_lens: Vec<u64> = if t.thorough() { (1..=max_add).collect() } else { (1..=1200).chain((1200..65535).step_by(509)).chain(65500..=65535).collect() };
    let n1 = add_lens.len() as u64;
    v.push(space("single/add", n1 * 2, move |i, c| {
        let (seg, l) = (i % 2 == 1, add_lens[(i / 2) as usize]);
        c.sample(|| format!("Add of {l} bytes, segregated={seg}"));
        check_codec(&[RSec { ops: vec![big_add(l as usize)], seg, algo: 0, more: false }], c)
    }));
    v.push(space("single/copy", 65535 * 2, |i, c| {
        let l = (i / 2 + 1) as u16;
        let op = if i % 2 == 0 { ROp::CopyD(l as u64 * 3, l) } else { ROp::CopyO(l as u64, l) };
        c.sample(|| op.short());
        check_codec(&[RSec { ops: vec![op], seg: l % 2 == 0, algo: 0, more: false }], c)
    }));
    v.push(space("single/run", 62 * 256, |i, c| {
        let op = ROp::Run((i / 62) as u8, (i % 62 + 1) as u8);
        c.sample(|| op.short());
        check_codec(&[RSec { ops: vec![op], seg: i % 2 == 0, algo: 0, more: false }], c)
    }));
    // sequences over the operation alphabet
    let s = Seqs { k: codec_alphabet().len() as u64, max: t.pick(3, 4) };
    let al = codec_alphabet();
    v.push(space("sequences", s.total() * 2, move |i, c| {
        let ops: Vec<ROp> = s.get(i / 2).iter().map(|d| al[*d].clone()).collect();
        c.sample(|| format!("{} segregated={}", show(&ops), i % 2 == 1));
        check_codec(&[RSec { ops, seg: i % 2 == 1, algo: 0, more: false }], c)
    }));
    // longer sequences over a reduced alphabet: address state and gathered Add bytes
    let al2 = [ROp::Add(vec![1]), big_add(63), ROp::CopyD(9, 4), ROp::CopyD(3, 5), ROp::CopyO(100, 6), ROp::Run(4, 7)];
    let s = Seqs { k: 6, max: t.pick(6, 8) };
    v.push(space("long-sequences", s.total() * 2, move |i, c| {
        let ops: Vec<ROp> = s.get(i / 2).iter().map(|d| al2[*d].clone()).collect();
        c.sample(|| show(&ops));
        check_codec(&[RSec { ops, seg: i % 2 == 1, algo: 0, more: false }], c)
    }));
    // address deltas: all triples of addresses, all assignments of the two address registers
    let r = Radix(vec![ADDRS.len() as u64, ADDRS.len() as u64, ADDRS.len() as u64, 8, 2]);
    v.push(space("address-triples", r.total(), move |i, c| {
        let d = r.get(i);
        let ops: Vec<ROp> = (0..3).map(|k| { let a = ADDRS[d[k]]; if d[3] >> k & 1 == 0 { ROp::CopyD(a, 5) } else { ROp::CopyO(a, 70) } }).collect();
        c.sample(|| show(&ops));
        check_codec(&[RSec { ops, seg: d[4] == 1, algo: 0, more: false }], c)
    }));
    // sections: all sequences of up to 3 (4) sections, all format assignments
    let bodies = section_bodies();
    let s = Seqs { k: bodies.len() as u64 * 2, max: t.pick(3, 4) };
    v.push(space("sections", s.total() - 1, move |i, c| {
        let q = s.get(i + 1);
        let n = q.len();
        let secs: Vec<RSec> = q.iter().enumerate().map(|(k, d)| RSec { ops: bodies[d / 2].clone(), seg: d % 2 == 1, algo: 0, more: k + 1 < n }).collect();
        c.sample(|| format!("{:?}", secs.iter().map(|s| (s.seg, show(&s.ops))).collect::<Vec<_>>()));
        check_codec(&secs, c)
    }));
    // headers alone, at every count-width boundary
    let vals: Vec<u32> = vec![0, 1, 2, 127, 128, 129, 16383, 16384, 65535, 65536, (1 << 21) - 1, 1 << 21, (1 << 24) - 2, (1 << 24) - 1];
    let r = Radix(vec![14, 14, 14, 8, 4]);
    v.push(space("headers", r.total(), move |i, c| {
        let d = r.get(i);
        let (nops, adds, out) = (vals[d[0]], vals[d[1]], vals[d[2]]);
        let (seg, more) = (d[4] & 1 == 1, d[4] & 2 == 2);
        if nops > out || (seg && adds > out) { c.note("infeasible header combinations skipped"); return Ok(()) }
        let h = SectionHeader { compression_algo: d[3] as u8, format: fmt(seg), more_sections: more, num_operations: nops, num_add_bytes: adds, output_size: out };
        let mut b = vec![];
        smdiff_writer::write_section_header(&h, &mut b).map_err(|e| format!("{h:?}: {e}"))?;
        let mut w = vec![(d[3] as u8) << 3 | (seg as u8) << 6 | (more as u8) << 7];
        uv(&mut w, nops as u64);
        if seg { uv(&mut w, adds as u64); uv(&mut w, (out - adds) as u64) } else { uv(&mut w, out as u64) }
        if b != w { return Err(format!("{h:?} written as {b:02x?}, format says {w:02x?}")) }
        let n = b.len();
        b.push(0x55);
        let mut cur = Cursor::new(&b[..]);
        let g = smdiff_reader::read_section_header(&mut cur).map_err(|e| format!("{h:?} does not read back: {e}"))?;
        let mut e = h;
        if !seg { e.num_add_bytes = 0 }
        if g != e || cur.position() as usize != n { return Err(format!("{h:?} reads back as {g:?} using {} of {n}", cur.position())) }
        c.state(H::new(31).b(&w));
        c.transitions += 1;
        c.traces += 1;
        c.evals += 2;
        Ok(())
    }));
    // a full-size section (2^24-1 output bytes) and very many operations
    v.push(space("limits", 8, |i, c| {
        let seg = i % 2 == 1;
        let mut ops: Vec<ROp> = vec![];
        match i / 2 {
            0 => { for k in 0..256u64 { ops.push(ROp::CopyD(k * 65535, 65535)) } ops.push(ROp::Add(noise(1, 255))) }
            1 => { for k in 0..70_000u64 { ops.push(ROp::Run(k as u8, (k % 62 + 1) as u8)) } }
            2 => { for k in 0..256u64 { ops.push(big_add(65535)); if k == 3 { ops.push(ROp::CopyO(3, 255)) } } }
            _ => { for k in 0..40_000u64 { ops.push(ROp::Add(vec![k as u8; (k % 3 + 1) as usize])); ops.push(ROp::CopyO(k * 7 % 1000, 3)) } }
        }
        let secs = [RSec { ops, seg, algo: 0, more: true }, RSec { ops: vec![ROp::CopyD(3, 3)], seg: !seg, algo: 0, more: false }];
        c.sample(|| format!("section of {} operations, {} output bytes", secs[0].ops.len(), secs[0].out()));
        check_codec(&secs, c)
    }));
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * (CROWD_KINDS * 2 + 4), move |i, c| {
        let d = Radix(vec![CROWD_KINDS * 2 + 4, cn]).get(i);
        let n = cc[d[1]];
        if d[0] < 4 { check_codec(&crowd_of_secs(d[0], n, 0), c) } else { check_codec(&[RSec { ops: crowd((d[0] - 4) / 2, n), seg: d[0] % 2 == 1, algo: 0, more: false }], c) }
    }));
    v
}

// ------------------------------------------------------------------------------------------ P04
fn check_u(n: u64, c: &mut Ctx) -> Result<(), String> {
    let mut b = vec![];
    write_u_varint(&mut b, n).map_err(|e| format!("{n}: {e}"))?;
    let mut w = vec![];
    uv(&mut w, n);
    if b != w { return Err(format!("u-varint of {n} is {b:02x?}, expected {w:02x?}")) }
    if u_varint_encode_size(n) != b.len() || b.len() != uv_len(n) { return Err(format!("predicted size of {n}: {}, written {}", u_varint_encode_size(n), b.len())) }
    b.push(0x93);
    let mut cur = Cursor::new(&b[..]);
    let g = read_u_varint(&mut cur).map_err(|e| format!("{n} does not read back: {e}"))?;
    if g != n || cur.position() as usize != w.len() { return Err(format!("{n} reads back as {g} ({} bytes)", cur.position())) }
    for k in 0..w.len() {
        if read_u_varint(&mut &w[..k]).is_ok() { return Err(format!("truncated u-varint {:02x?} of {n} accepted", &w[..k])) }
    }
    // signed view of the same 64 bits
    let s = n as i64;
    if zigzag_encode(s) != zz(s) || zigzag_decode(zz(s)) != s || zigzag_decode(n) != unzz(n) || zigzag_encode(unzz(n)) != n { return Err(format!("zig-zag of {s}: {} / {}", zigzag_encode(s), zigzag_decode(n))) }
    let mut b = vec![];
    write_i_varint(&mut b, s).map_err(|e| format!("{s}: {e}"))?;
    let mut w = vec![];
    uv(&mut w, zz(s));
    if b != w { return Err(format!("i-varint of {s} is {b:02x?}, expected {w:02x?}")) }
    let g = read_i_varint(&mut &b[..]).map_err(|e| format!("{s} does not read back: {e}"))?;
    if g != s { return Err(format!("i-varint {s} reads back as {g}")) }
    c.transitions += 2;
    c.traces += 1;
    c.evals += 6;
    Ok(())
}
fn check_addr(a: u64, b: u64, c: &mut Ctx) -> Result<(), String> {
    let d = diff_addresses_to_i64(a, b);
    if d != delta(a, b) { return Err(format!("difference {a} -> {b} is {d}, expected {}", delta(a, b))) }
    let r = diff_addresses_to_u64(a, d);
    if r != b { return Err(format!("{a} + difference {d} gives {r}, expected {b}")) }
    let x = b as i64; // any difference value
    if diff_addresses_to_u64(a, x) != a.wrapping_add(b) { return Err(format!("address {a} with difference {x} gives {}", diff_addresses_to_u64(a, x))) }
    c.transitions += 2;
    c.evals += 3;
    c.traces += 1;
    Ok(())
}
fn grid() -> Vec<u64> {
    let mut g = vec![];
    for k in 0..64u32 { for d in -3i64..=3 { g.push((1u64 << k).wrapping_add(d as u64)) } }
    for k in 1..=9u32 { for d in -2i64..=2 { for m in [1u64, 3, 127] { g.push((m << (7 * k).min(63)).wrapping_add(d as u64)) } } }
    for d in 0..4 { g.push(u64::MAX - d); g.push(0xAAAA_AAAA_AAAA_AAAA >> d); g.push(0x0123_4567_89AB_CDEF << d) }
    g.sort();
    g.dedup();
    g
}
pub fn p04(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let g = grid();
    let g2 = g.clone();
    v.push(space("values/grid", g.len() as u64, move |i, c| { c.state(H::new(40).u(g[i as usize])); c.sample(|| format!("value {}", g[i as usize])); check_u(g[i as usize], c) }));
    let blk = 1 << 12;
    v.push(space("values/dense", t.pick(1 << 9, 1 << 15), move |i, c| {
        c.sample(|| format!("values {}..{}", i * blk, (i + 1) * blk));
        for n in i * blk..(i + 1) * blk { c.state(H::new(40).u(n)); check_u(n, c)?; check_u(u64::MAX - n, c)?; check_u((1 << 63) - 1 - n, c)?; check_u((1 << 63) + n, c)?; }
        Ok(())
    }));
    let n = g2.len() as u64;
    v.push(space("addresses/grid", n * n, move |i, c| { let (a, b) = (g2[(i % n) as usize], g2[(i / n) as usize]); c.state(H::new(41).u(a).u(b)); c.sample(|| format!("addresses {a} -> {b}")); check_addr(a, b, c) }));
    let m = t.pick(1200, 6000);
    v.push(space("addresses/dense", m, move |i, c| { for b in 0..m { c.state(H::new(41).u(i).u(b)); check_addr(i, b, c)?; check_addr(u64::MAX - i, b, c)?; } Ok(()) }));
    // arbitrary bytes presented as a varint
    let s = Strings::new(&[0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff], t.pick(5, 6));
    v.push(space("bytes/strings", s.total(), move |i, c| check_bytes(&s.get(i), c)));
    // long continuation prefixes with every final byte pair
    v.push(space("bytes/long", 14 * 4 * 65536, |i, c| {
        let (k, fill, tail) = ((i % 14) as usize, [0x80u8, 0x81, 0xff, 0xd5][(i / 14 % 4) as usize], i / 56);
        let mut b = vec![fill; k];
        b.push(tail as u8);
        b.push((tail >> 8) as u8);
        check_bytes(&b, c)
    }));
    // size classes, fixed-width integers, operation flags
    v.push(space("sizes", 65536, |i, c| {
        let n = i as u16;
        let mut b = vec![];
        write_u16(&mut b, n).unwrap();
        if b != [n as u8, (n >> 8) as u8] || read_u16(&mut &b[..]).map_err(|e| e.to_string())? != n { return Err(format!("u16 {n} written as {b:02x?}")) }
        if n < 256 { let mut b = vec![]; write_u8(&mut b, n as u8).unwrap(); if b != [n as u8] || read_u8(&mut &b[..]).map_err(|e| e.to_string())? != n as u8 { return Err(format!("u8 {n}")) } }
        if n > 0 {
            let s = size_routine(n);
            let want = if n <= 62 { 0 } else if n == 63 { 1 } else { 2 };
            if s.size_overhead() != want { return Err(format!("size {n} takes {} extra bytes, the writer's class is {want}", s.size_overhead())) }
            let ok = match s { Size::Done(k) => k as u16 == n, Size::U8And62 => n >= 63 && n <= 317, Size::U16 => true };
            if !ok { return Err(format!("size {n} classified {s:?}")) }
        }
        c.state(H::new(42).u(i));
        c.transitions += 1;
        c.traces += 1;
        c.evals += 1;
        Ok(())
    }));
    v
}
fn check_bytes(b: &[u8], c: &mut Ctx) -> Result<(), String> {
    let mut cur = Cursor::new(b);
    let g = read_u_varint(&mut cur);
    c.sample(|| format!("varint bytes {b:02x?} -> {g:?}"));
    match (parse_uv(b), &g) {
        (Ok((v, n)), Ok(x)) if v == *x && cur.position() as usize == n => {}
        (Err(_), Err(_)) => {}
        (m, _) => return Err(format!("bytes {b:02x?} read as {:?} ({} bytes), format says {m:?}", g.as_ref().map_err(|e| e.to_string()), cur.position())),
    }
    match (parse_uv(b), read_i_varint(&mut &b[..])) {
        (Ok((v, _)), Ok(x)) if unzz(v) == x => {}
        (Err(_), Err(_)) => {}
        (m, g) => return Err(format!("bytes {b:02x?} read as i-varint {:?}, format says {m:?}", g.map_err(|e| e.to_string()))),
    }
    c.state(H::new(43).b(b));
    c.transitions += 1;
    c.traces += 1;
    c.evals += 2;
    Ok(())
}

// ------------------------------------------------------------------------------------------ P09
struct SAdd(&'static [u8]);
impl AddOp for SAdd { fn bytes(&self) -> &[u8] { self.0 } }
static ZEROS: [u8; 65535] = [0; 65535];
fn sop(kind: usize, n: usize) -> Op<SAdd> {
    match kind {
        0 => Op::Copy(Copy { src: CopySrc::Dict, addr: 0, len: n as u16 }),
        1 => Op::Add(SAdd(&ZEROS[..n])),
        2 => Op::Copy(Copy { src: CopySrc::Output, addr: 0, len: n as u16 }),
        _ => Op::Run(Run { byte: 0, len: n as u8 }),
    }
}
fn check_partition(ops: &[Op<SAdd>], max: usize, c: &mut Ctx) -> Result<(), String> {
    let lens = || ops.iter().map(|o| o.oal()).collect::<Vec<_>>();
    let lim = max.clamp(65535, (1 << 24) - 1);
    // model: greedy fill, as a state machine over (bytes in current section)
    let mut want: Vec<(usize, usize)> = vec![];
    let (mut st, mut cur) = (0, 0usize);
    for (i, o) in ops.iter().enumerate() {
        let n = o.oal() as usize;
        if cur + n > lim { want.push((st, i)); st = i; cur = 0 }
        cur += n;
        c.transitions += 1;
        c.state(H::new(9).u(cur as u64).u(lim as u64).u(want.len() as u64));
    }
    want.push((st, ops.len()));
    let got = smdiff_writer::make_sections(ops, max);
    if got.len() != want.len() { return Err(format!("{} sections instead of {} for max {max}, lengths {:?}", got.len(), want.len(), shorten(&lens()))) }
    let base = ops.as_ptr();
    for (k, ((s, h), (a, b))) in got.iter().zip(&want).enumerate() {
        let off = (s.as_ptr() as usize - base as usize) / std::mem::size_of::<Op<SAdd>>();
        if (!s.is_empty() && off != *a) || s.len() != b - a { return Err(format!("section {k} covers {off}..{} instead of {a}..{b}, max {max}, lengths {:?}", off + s.len(), shorten(&lens()))) }
        let out: usize = s.iter().map(|o| o.oal() as usize).sum();
        let adds: usize = s.iter().filter(|o| o.is_add()).map(|o| o.oal() as usize).sum();
        if h.num_operations as usize != s.len() || h.output_size as usize != out || h.num_add_bytes as usize != adds || out > lim { return Err(format!("section {k} header {h:?}, true counts {} {out} {adds}, limit {lim}", s.len())) }
        if h.more_sections != (k + 1 < want.len()) || h.compression_algo != 0 { return Err(format!("section {k} of {} header {h:?}", want.len())) }
    }
    c.traces += 1;
    c.evals += 1;
    Ok(())
}
fn shorten(v: &[u16]) -> String { if v.len() <= 24 { format!("{v:?}") } else { format!("{:?}.. ({} ops) ..{:?}", &v[..4], v.len(), &v[v.len() - 8..]) } }
const MAXES: [usize; 21] = [0, 1, 65534, 65535, 65536, 65537, 98303, 131069, 131070, 131071, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 31) + 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 70_000, 1 << 40, 1 << 63, (1 << 63) + (1 << 24), usize::MAX];
pub fn p09(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let al: [(usize, usize); 9] = [(0, 1), (1, 2), (3, 62), (0, 32767), (1, 32768), (2, 65534), (1, 65535), (0, 65535), (1, 1)];
    let s = Seqs { k: 9, max: t.pick(5, 6) };
    v.push(space("sequences", s.total() * MAXES.len() as u64, move |i, c| {
        let q = s.get(i / MAXES.len() as u64);
        let m = MAXES[(i % MAXES.len() as u64) as usize];
        let ops: Vec<_> = q.iter().map(|d| sop(al[*d].0, al[*d].1)).collect();
        c.sample(|| format!("lengths {:?}, max {m}", q.iter().map(|d| al[*d].1).collect::<Vec<_>>()));
        check_partition(&ops, m, c)
    }));
    // full-size sections: 256 operations of 65535 bytes leave 255 bytes
    let tails = [(0usize, 1usize), (1, 62), (0, 193), (1, 254), (2, 255), (1, 256), (0, 65535)];
    let s = Seqs { k: 7, max: t.pick(3, 4) };
    let mx = [(1usize << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 32) + 5, (1 << 48) + (1 << 23), usize::MAX, 1 << 23, 65535 * 256, 65535 * 256 - 1, 65535 * 256 + 1];
    v.push(space("full-sections", s.total() * 3 * mx.len() as u64, move |i, c| {
        let r = Radix(vec![mx.len() as u64, 3]);
        let d = r.get(i % r.total());
        let q = s.get(i / r.total());
        let mut ops: Vec<_> = (0..[255, 256, 512][d[1]]).map(|k| sop(k % 2, 65535)).collect();
        ops.extend(q.iter().map(|x| sop(tails[*x].0, tails[*x].1)));
        check_partition(&ops, mx[d[0]], c)
    }));
    // many small operations, all section phases
    v.push(space("small-ops", 62 * 70, |i, c| {
        let (step, max) = ((i % 62 + 1) as usize, 65535 + (i / 62) as usize);
        let ops: Vec<_> = (0..(200_000 / step)).map(|k| sop(if k % 3 == 0 { 1 } else { 3 }, step)).collect();
        check_partition(&ops, max, c)
    }));
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * 6 * MAXES.len() as u64, move |i, c| {
        let d = Radix(vec![MAXES.len() as u64, 6, cn]).get(i);
        let n = cc[d[2]];
        let ops: Vec<_> = (0..n).map(|k| match d[1] { 0 => sop(1, 1), 1 => sop(3, 2), 2 => sop(0, 1), 3 => sop(2, 129), 4 => sop(k % 3, 1 + k % 300), _ => sop(if k == n / 2 { 1 } else { 2 }, if k == n / 2 { 65535 } else { 1 }) }).collect();
        check_partition(&ops, MAXES[d[0]], c)
    }));
    v
}

// ------------------------------------------------------------------------------------------ P19
pub fn p19(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let al = vec![ROp::Add(vec![1]), ROp::Add(vec![1, 2, 3]), big_add(64), ROp::Run(1, 1), ROp::Run(2, 62), ROp::CopyD(1, 2), ROp::CopyO(1, 2), ROp::CopyD(0, 65535)];
    let s = Seqs { k: al.len() as u64, max: t.pick(3, 4) };
    const PERT: [i64; 9] = [0, 1, -1, 2, -2, 3, 62, -62, 65535];
    let r = Radix(vec![PERT.len() as u64, PERT.len() as u64, PERT.len() as u64, 2]);
    v.push(space("perturbed-headers", s.total() * r.total(), move |i, c| {
        let ops: Vec<ROp> = s.get(i / r.total()).iter().map(|d| al[*d].clone()).collect();
        let d = r.get(i % r.total());
        let seg = d[3] == 1;
        let sec = RSec { ops, seg, algo: 0, more: false };
        let mut h = header(&sec);
        let set = |f: &mut u32, p: i64| -> bool { let n = *f as i64 + p; if n < 0 { return false } *f = n as u32; true };
        if !(set(&mut h.num_operations, PERT[d[0]]) && set(&mut h.output_size, PERT[d[1]]) && set(&mut h.num_add_bytes, PERT[d[2]])) { c.note("negative counts skipped"); return Ok(()) }
        check_refuse(&sec, &h, c)
    }));
    // operation counts and sizes over the section limit
    v.push(space("oversize", 6 * 2, |i, c| {
        let extra = [0usize, 255, 256, 257, 65535, 1][(i / 2) as usize];
        let mut ops: Vec<ROp> = (0..256u64).map(|_| ROp::CopyD(0, 65535)).collect();
        if extra > 0 { ops.push(ROp::CopyD(0, extra as u16)) }
        let sec = RSec { ops, seg: i % 2 == 1, algo: 0, more: false };
        let h = header(&sec);
        c.sample(|| format!("section of {} output bytes", sec.out()));
        check_refuse(&sec, &h, c)
    }));
    // the true count times/plus values that agree only in a narrower integer
    v.push(space("narrowing", 4 * 8 * 2, |i, c| {
        let seg = i % 2 == 1;
        let ops = match i / 2 % 4 { 0 => vec![ROp::Add(vec![5; 9])], 1 => vec![ROp::Run(1, 2), ROp::Add(vec![1])], 2 => vec![ROp::CopyD(4, 300), ROp::Add(vec![2; 64])], _ => vec![] };
        let sec = RSec { ops, seg, algo: 0, more: false };
        let mut h = header(&sec);
        match i / 8 { 0 => h.num_operations += 256, 1 => h.num_operations += 65536, 2 => h.output_size += 256, 3 => h.output_size += 65536, 4 => h.num_add_bytes += 256, 5 => h.num_add_bytes += 65536, 6 => h.output_size += 1 << 24, _ => h.output_size |= 1 << 31 }
        check_refuse(&sec, &h, c)
    }));
    // equal totals from different operations: swapping bytes between Add and the rest must be noticed
    v.push(space("agreeing", 4096 * 2, |i, c| {
        let seg = i % 2 == 1;
        let k = (i / 2) as usize;
        let ops = vec![ROp::Add(vec![1; k % 16 + 1]), ROp::Run(3, (k / 16 % 16 + 1) as u8), ROp::CopyO(0, (k / 256 + 1) as u16)];
        let sec = RSec { ops, seg, algo: 0, more: k % 2 == 1 };
        check_refuse(&sec, &header(&sec), c)
    }));
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * CROWD_KINDS * 2 * 7, move |i, c| {
        let d = Radix(vec![2, 7, CROWD_KINDS, cn]).get(i);
        let sec = RSec { ops: crowd(d[2], cc[d[3]]), seg: d[0] == 1, algo: 0, more: false };
        let mut h = header(&sec);
        match d[1] {
            0 => {}
            1 => h.num_operations += 1, 2 => h.num_operations -= 1,
            3 => h.output_size += 1, 4 => h.output_size -= 1,
            5 => h.num_add_bytes += 1, _ => { if h.num_add_bytes == 0 { return Ok(()) } h.num_add_bytes -= 1 }
        }
        check_refuse(&sec, &h, c)
    }));
    // operations no section can have: without length, or longer than their kind can be, under every header that may be made of them
    let al: Vec<ROp> = vec![ROp::Run(7, 0), ROp::Run(7, 1), ROp::Run(7, 62), ROp::Run(7, 63), ROp::Run(7, 64), ROp::Run(7, 255), ROp::CopyD(3, 0), ROp::CopyD(3, 65535), ROp::CopyO(0, 0), ROp::CopyO(0, 1),
        ROp::Add(vec![]), ROp::Add(vec![9]), ROp::Add(noise(1, 65535)), ROp::Add(noise(2, 65536)), ROp::Add(noise(3, 65537)), ROp::Add(noise(4, 65536 * 2)), ROp::Add(noise(5, 65536 * 3 + 63))];
    let s = Seqs { k: al.len() as u64, max: t.pick(3, 4) };
    v.push(space("lengths", s.total() * 6, move |i, c| {
        let d = s.get(i / 6);
        if d.len() > 3 && d.iter().filter(|k| **k >= 13).count() > 1 { return Ok(()) }
        let sec = RSec { ops: d.iter().map(|k| al[*k].clone()).collect(), seg: i % 2 == 1, algo: 0, more: false };
        let ops = to_ops(&sec.ops);
        let h = match i / 2 % 3 {
            0 => header(&sec),
            1 => { let n = |add: bool| ops.iter().filter(|o| !add || o.is_add()).map(|o| o.oal() as u32).sum(); SectionHeader { num_operations: ops.len() as u32, num_add_bytes: n(true), output_size: n(false), ..header(&sec) } }
            _ => { let m = catch(|| smdiff_writer::make_sections(&ops, usize::MAX).into_iter().map(|s| s.1).collect::<Vec<_>>()).map_err(|e| format!("{e} dividing {}", show(&sec.ops)))?; match &m[..] { [one] => one.set_format(fmt(sec.seg)), _ => return Ok(()) } }
        };
        let ok = sec.ops.iter().all(|o| match o { ROp::Run(_, n) => (1..=62).contains(n), ROp::Add(b) => (1..=65535).contains(&b.len()), ROp::CopyD(_, n) | ROp::CopyO(_, n) => *n > 0 });
        let mut b = vec![];
        let r = catch(|| smdiff_writer::write_ops(&ops, &h, &mut b)).map_err(|e| format!("{e} writing {} under {h:?}", show(&sec.ops)))?;
        c.eval(!ok, H::new(192).u(i));
        match (ok, r) {
            (true, Err(e)) => Err(format!("valid operations are refused: {e}; {} under {h:?}", show(&sec.ops))),
            (false, Ok(())) => Err(format!("operations that cannot be expressed are written: {} under {h:?}", show(&sec.ops))),
            _ => Ok(()),
        }
    }));
    // headers no section can have
    let g = [0u32, 1, 2, 127, 128, 65535, (1 << 24) - 1];
    let r = Radix(vec![256, 7, 7, 3, 4, 2]);
    v.push(space("headers", r.total(), move |i, c| {
        let d = r.get(i);
        let (algo, adds, out) = (d[0] as u8, g[d[1]], g[d[2]]);
        let base = SectionHeader::new([0, 1, 300][d[3]], adds, out).set_format(fmt(d[4] & 1 == 1)).set_more_sections(d[4] & 2 == 2);
        let h = if d[5] == 1 { base.set_compression_algo(algo) } else { SectionHeader { compression_algo: algo, ..base } };
        let expressible = h.compression_algo <= 7 && (d[4] & 1 == 0 || adds <= out);
        if d[5] == 1 && algo <= 7 && h.compression_algo != algo { return Err(format!("setting compression {algo} makes it {}", h.compression_algo)) }
        let mut b = vec![];
        let r = catch(|| smdiff_writer::write_section_header(&h, &mut b)).map_err(|e| format!("{e}: {h:?}"))?;
        c.eval(!expressible, H::new(190).u(i));
        c.sample(|| format!("{h:?} -> {:?}", r.as_ref().map_err(|e| e.to_string())));
        match (expressible, r) {
            (false, Ok(())) => Err(format!("{h:?} is written as {b:02x?}")),
            (false, Err(_)) => Ok(()),
            (true, Err(e)) => Err(format!("{h:?} is refused: {e}")),
            (true, Ok(())) => {
                let mut want = vec![h.compression_algo << 3 | (d[4] as u8 & 1) << 6 | (d[4] as u8 & 2) << 6];
                uv(&mut want, h.num_operations as u64);
                if d[4] & 1 == 1 { uv(&mut want, adds as u64); uv(&mut want, (out - adds) as u64) } else { uv(&mut want, out as u64) }
                if b != want { return Err(format!("{h:?} is written as {b:02x?} instead of {want:02x?}")) }
                Ok(())
            }
        }
    }));
    v
}
fn check_refuse(sec: &RSec, h: &SectionHeader, c: &mut Ctx) -> Result<(), String> {
    let agree = h.num_operations as usize == sec.ops.len() && h.output_size as usize == sec.out() && (!sec.seg || h.num_add_bytes as usize == sec.adds()) && sec.out() < 1 << 24;
    let mut b = vec![];
    let ops = to_ops(&sec.ops);
    let r = smdiff_writer::write_ops(&ops, h, &mut b);
    c.sample(|| format!("{} with header {h:?} -> {:?}", if sec.ops.len() < 8 { show(&sec.ops) } else { format!("{} ops", sec.ops.len()) }, r.as_ref().map_err(|e| e.to_string())));
    c.eval(!agree, H::new(19).u(sec.seg as u64).b(&b).u(h.num_operations as u64).u(h.output_size as u64).u(h.num_add_bytes as u64));
    match (agree, r) {
        (true, Ok(())) => { if b != enc_body(&sec.ops, sec.seg) { return Err("bytes differ from the format".into()) } Ok(()) }
        (false, Err(_)) => Ok(()),
        (true, Err(e)) => Err(format!("refused although header and operations agree: {e}; {} {h:?}", show(&sec.ops))),
        (false, Ok(())) => Err(format!("accepted although they disagree: {} ops, {} out, {} adds; {h:?}", sec.ops.len(), sec.out(), sec.adds())),
    }
}
