//! P05 meaning of a patch, P17 iterators, P18 headers and statistics, P20 slices.
use super::p03_codec::cmp_secs;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use std::io::Cursor;

fn src128k() -> &'static [u8] {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    S.get_or_init(|| noise(78, 65536 * 2))
}
pub fn src300() -> Vec<u8> { noise(77, 300) }

fn apply_sink(patch: &[u8], src: Option<&[u8]>, init: Vec<u8>) -> Result<Vec<u8>, String> {
    let mut p = Cursor::new(patch);
    let mut out = Cursor::new(init);
    match src {
        Some(s) => smdiff_decoder::apply_patch(&mut p, Some(&mut Cursor::new(s)), &mut out),
        None => smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut p, None, &mut out),
    }.map_err(|e| e.to_string())?;
    Ok(out.into_inner())
}
/// The real decoder against the interpreter, on one patch and source.
pub fn check_meaning(secs: &[RSec], src: Option<&[u8]>, c: &mut Ctx) -> Result<(), String> {
    let mut out = vec![];
    let mut bad = None;
    for s in secs {
        for op in &s.ops {
            c.transitions += 1;
            if let Err(e) = interp_into(&mut out, std::slice::from_ref(op), src) { bad = Some(e); break }
            // long outputs are told apart by length and last bytes
            c.state(H::new(5).b(&out[out.len().saturating_sub(5000)..]).u(out.len() as u64).u(src.map_or(0, |s| s.len() as u64 + 1)));
        }
        if bad.is_some() { break }
    }
    let patch = enc_patch(secs);
    let desc = || format!("{:?} on a source of {:?} bytes", secs.iter().map(|s| (s.seg, s.algo, show(&s.ops))).collect::<Vec<_>>(), src.map(|s| s.len()));
    c.sample(|| format!("{} -> {}", desc(), bad.map(|b| b.to_string()).unwrap_or(format!("{} bytes", out.len()))));
    c.evals += 1;
    c.traces += 1;
    match (bad, apply_sink(&patch, src, vec![])) {
        (None, Ok(o)) => {
            if o != out { return Err(format!("wrong output ({}) for {}", diff(&o, &out), desc())) }
            c.outcome(H::new(50).b(&o));
            Ok(())
        }
        (None, Err(e)) => Err(format!("refused although valid: {e}; {}", desc())),
        (Some(b), Ok(o)) => Err(format!("accepted ({} bytes out) although invalid ({b}): {}", o.len(), desc())),
        (Some(b), Err(_)) => {
            c.note("refused programs");
            // the same must hold when the sink has old content that an illegal copy could pick up
            match apply_sink(&patch, src, vec![0xEE; 400]) { Ok(_) => Err(format!("accepted with a pre-filled sink although invalid ({b}): {}", desc())), Err(_) => Ok(()) }
        }
    }
}

fn toks(src: u64) -> Vec<Tok> {
    let mut v = vec![Tok::Add(1), Tok::Add(3), Tok::Run(0xAA, 1), Tok::Run(0x55, 5), Tok::Sec, Tok::OStart(0, 1), Tok::OStart(0, 3), Tok::OStart(1, 2), Tok::OEnd(1), Tok::OEnd(2), Tok::OAll];
    if src > 0 { v.extend([Tok::D(0, 1), Tok::D(src - 1, 1), Tok::D(0, src.min(5) as u16), Tok::D(src / 2, 2)]) }
    v
}
/// raw operations, including illegal addresses; resolved against nothing
fn raw_ops(src: u64) -> Vec<ROp> {
    let mut v = vec![ROp::Add(vec![1, 2]), ROp::Run(9, 3)];
    for a in [0, 1, src.saturating_sub(1), src, src + 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX] {
        v.push(ROp::CopyD(a, 1));
        v.push(ROp::CopyD(a, 4));
    }
    for a in [0u64, 1, 2, 3, 4, 5, 6, 8, 9, 10, 1 << 32, 1 << 63, u64::MAX - 3, u64::MAX] {
        v.push(ROp::CopyO(a, 1));
        v.push(ROp::CopyO(a, 3));
    }
    v
}
pub fn p05(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for (name, src) in [("empty", vec![]), ("5", noise(5, 5)), ("300", src300())] {
        let ts = toks(src.len() as u64);
        let s = Seqs { k: ts.len() as u64, max: t.pick(5, 6) };
        let src2 = src.clone();
        v.push(space(format!("programs/src-{name}"), s.total() * 2, move |i, c| {
            let q = s.get(i / 2);
            let tk: Vec<&Tok> = q.iter().map(|d| &ts[*d]).collect();
            let Some(b) = build(&tk, 0) else { c.note("token not enabled"); return Ok(()) };
            check_meaning(&b.secs(i % 2 == 1, 0), Some(&src2), c)
        }));
        let raw = raw_ops(src.len() as u64);
        let s = Seqs { k: raw.len() as u64, max: 3 };
        // section split bits and formats
        v.push(space(format!("addresses/src-{name}"), s.total() * 4, move |i, c| {
            let q = s.get(i / 4);
            let (split, seg) = (i & 1 == 1, i & 2 == 2);
            let ops: Vec<ROp> = q.iter().map(|d| raw[*d].clone()).collect();
            let secs = if split {
                let n = ops.len().max(1);
                (0..n).map(|k| RSec { ops: ops.get(k..k + 1).unwrap_or(&[]).to_vec(), seg, algo: 0, more: k + 1 < n }).collect()
            } else { vec![RSec { ops, seg, algo: 0, more: false }] };
            check_meaning(&secs, Some(&src), c)
        }));
    }
    // no source at all
    let mut ts = toks(0);
    ts.push(Tok::D(0, 1));
    let s = Seqs { k: ts.len() as u64, max: t.pick(5, 6) };
    v.push(space("programs/no-source", s.total() * 2, move |i, c| {
        let q = s.get(i / 2);
        let tk: Vec<&Tok> = q.iter().map(|d| &ts[*d]).collect();
        let Some(b) = build(&tk, 9) else { return Ok(()) };
        check_meaning(&b.secs(i % 2 == 1, 0), None, c)
    }));
    // a nested compressed section may not refer to any source
    v.push(space("nested-needs-source", 4, |i, c| {
        let mut p = enc_header(&RSec { ops: vec![ROp::Add(vec![1, 2])], seg: false, algo: 1, more: false });
        // the nested patch tries to copy its 3 bytes (0x82 1 2) from a source
        let nested = match i { 0 => vec![ROp::CopyD(0, 3)], 1 => vec![ROp::Add(vec![0x82]), ROp::CopyD(0, 2)], 2 => vec![ROp::CopyO(0, 3)], _ => vec![ROp::Add(vec![0x82, 1, 2])] };
        p.extend(patch_of(nested, false));
        let src = [0x82u8, 1, 2, 3];
        c.evals += 1; c.traces += 1; c.transitions += 2;
        for s in [None, Some(&src[..])] {
            match (i, apply_sink(&p, s, vec![])) {
                (3, Ok(o)) if o == [1, 2] => {}
                (0..=2, Err(_)) => {}
                (_, r) => return Err(format!("nested section {i}: {r:?}")),
            }
        }
        Ok(())
    }));
    // boundary sizes: long operations, sections ends, copies reaching into earlier sections
    let lens: Vec<usize> = vec![1, 62, 63, 64, 317, 318, 4096, 8191, 8192, 65534, 65535];
    let n = lens.len() as u64;
    let r = Radix(vec![n, n, n, 2, 3]);
    v.push(space("boundary-lengths", r.total(), move |i, c| {
        let d = r.get(i);
        let (a, b, e) = (lens[d[0]], lens[d[1]], lens[d[2]]);
        let src = noise(3, 70000);
        let mut ops = vec![ROp::Add(noise(9, a)), ROp::CopyD((70000 - b) as u64, b as u16)];
        let tot = a + b;
        let k = e.min(tot);
        ops.push(ROp::CopyO((tot - k) as u64, k as u16));
        ops.push(ROp::CopyO(0, 1.max(k / 2) as u16));
        ops.push(ROp::Run(7, 62));
        let secs: Vec<RSec> = match d[4] {
            0 => vec![RSec { ops, seg: d[3] == 1, algo: 0, more: false }],
            1 => { let t = ops.split_off(2); vec![RSec { ops, seg: d[3] == 1, algo: 0, more: true }, RSec { ops: t, seg: d[3] == 0, algo: 0, more: false }] }
            _ => { let m = ops.len(); ops.into_iter().enumerate().map(|(j, o)| RSec { ops: vec![o], seg: (j + d[3]) % 2 == 1, algo: 0, more: j + 1 < m }).collect() }
        };
        check_meaning(&secs, Some(&src), c)
    }));
    // every length of every operation
    v.push(space("every-length", 65535 * 3, |i, c| {
        let n = (i / 3 + 1) as u16;
        let ops = match i % 3 {
            0 => vec![ROp::CopyD(n as u64 / 2, n), ROp::Add(vec![1]), ROp::CopyO(1, n)],
            1 => vec![ROp::Add(noise(3, n as usize)), ROp::CopyD(65536 * 2 - n as u64, n)],
            _ => vec![ROp::CopyD(65536 - n as u64 / 3, n), ROp::CopyO(0, n), ROp::Run(5, (n % 62 + 1) as u8)],
        };
        check_meaning(&[RSec { ops, seg: i % 2 == 1, algo: 0, more: false }], Some(src128k()), c)
    }));
    // many operations in a section: batches of one kind, of equal and of alternating content
    let r = Radix(vec![6, 5, 4, 2]);
    v.push(space("many-operations", r.total(), move |i, c| {
        let d = r.get(i);
        let n = [60, 1056, 1057, 1058, 2115, 9000][d[0]];
        let mut ops = vec![ROp::Add(noise(1, 70))];
        for k in 0..n as u64 {
            ops.push(match d[1] { 0 => ROp::Run(7, 62), 1 => ROp::Run((k / 1500) as u8, 62), 2 => ROp::Add(noise(k, 63)), 3 => ROp::CopyD(k % 200, 64), _ => ROp::CopyO(k, 65) });
            if d[2] == 1 && k % 1100 == 1099 || d[2] == 2 && k % 7 == 6 { ops.push(ROp::CopyO(k, 3)) }
        }
        if d[2] == 3 { ops.push(ROp::CopyD(3, 3)); ops.push(ROp::CopyO(0, 65535.min(n * 62) as u16)) }
        check_meaning(&[RSec { ops, seg: d[3] == 1, algo: 0, more: false }], Some(&src300()), c)
    }));
    // outputs over several full sections (addresses above 2^24)
    v.push(space("over-16MiB", t.pick(2, 4), |i, c| {
        let src = noise(11, 65535 * 4);
        let mut secs = vec![];
        for s in 0..3u64 {
            let mut ops = vec![];
            for k in 0..256u64 {
                ops.push(match (k + s + i) % 3 { 0 => ROp::CopyD((k % 4) * 65535, 65535), 1 if s > 0 => ROp::CopyO((s - 1) * 16776960 + k * 65535, 65535), _ => ROp::CopyD(k, 65535) });
            }
            if i % 2 == 1 { ops.push(ROp::Add(noise(s, 255))) }
            secs.push(RSec { ops, seg: i >= 2, algo: 0, more: s < 2 });
        }
        check_meaning(&secs, Some(&src), c)
    }).serial());
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * CROWD_KINDS * 2, move |i, c| {
        let d = Radix(vec![2, CROWD_KINDS, cn]).get(i);
        check_meaning(&[RSec { ops: crowd(d[1], cc[d[2]]), seg: d[0] == 1, algo: 0, more: false }], Some(&src300()), c)
    }));
    let cc = crowd_counts(t.thorough());
    v.push(space("crowds of sections", cn * 4, move |i, c| check_meaning(&crowd_of_secs(i as usize % 4, cc[i as usize / 4], 0), Some(&src300()), c)));
    v.extend(super::wide::p05(t));
    v
}

// ------------------------------------------------------------------------------------------ P17
fn small_sections() -> Vec<Vec<ROp>> {
    vec![vec![], vec![ROp::Add(vec![1, 2])], vec![ROp::CopyD(3, 4), ROp::Run(7, 9)], vec![ROp::CopyO(0, 1), ROp::Add(vec![9; 70]), ROp::CopyD(1, 300)]]
}
fn secs_from(q: &[usize], algo: u8) -> Vec<RSec> {
    let b = small_sections();
    let n = q.len();
    q.iter().enumerate().map(|(k, d)| RSec { ops: b[d / 2].clone(), seg: d % 2 == 1, algo, more: k + 1 < n }).collect()
}
trait It { fn step(&mut self, owned: bool) -> Option<Result<(RSec, smdiff_common::SectionHeader), String>>; }
impl<R: std::io::Read> It for smdiff_reader::SectionIterator<R> {
    fn step(&mut self, owned: bool) -> Option<Result<(RSec, smdiff_common::SectionHeader), String>> {
        if owned { self.next().map(|r| r.map(|(o, h)| (sec_of(&h, &o), h)).map_err(|e| e.to_string())) }
        else { self.next_borrowed().map(|r| r.map(|(o, h)| (sec_of(&h, o), h)).map_err(|e| e.to_string())) }
    }
}
impl<R: std::io::Read + std::io::Seek> It for smdiff_decoder::reader::SectionIterator<R> {
    fn step(&mut self, owned: bool) -> Option<Result<(RSec, smdiff_common::SectionHeader), String>> {
        if owned { self.next().map(|r| r.map(|(o, h)| (sec_of(&h, &o), h)).map_err(|e| e.to_string())) }
        else { self.next_borrowed().map(|r| r.map(|(o, h)| (sec_of(&h, o), h)).map_err(|e| e.to_string())) }
    }
}
/// expected: the sections of `good`, then (if `then_err`) one error, then None for ever
fn drive(it: &mut dyn It, modes: u64, good: &[RSec], then_err: bool, who: &str, c: &mut Ctx) -> Result<(), String> {
    let mut errs = 0;
    for k in 0..good.len() + 4 {
        let owned = modes >> (k % 64) & 1 == 1;
        c.transitions += 1;
        c.state(H::new(17).u(k as u64).u(if k < 63 { modes & ((1 << (k + 1)) - 1) } else { modes }).u(good.len() as u64).u(then_err as u64).u(errs));
        match it.step(owned) {
            Some(Ok((s, h))) if k < good.len() => {
                if s.ops != good[k].ops || s.more != good[k].more || s.seg != good[k].seg { return Err(format!("{who}: step {k} gives {} instead of {}", show(&s.ops), show(&good[k].ops))) }
                if h.output_size as usize != good[k].out() { return Err(format!("{who}: step {k} header {h:?}")) }
            }
            Some(Err(e)) if k < good.len() => return Err(format!("{who}: step {k}: error {e}")),
            Some(Err(_)) if then_err && k == good.len() => { errs += 1 }
            Some(Ok((s, _))) => return Err(format!("{who}: a section ({}) after the end/error, step {k} of {}", show(&s.ops), good.len())),
            Some(Err(e)) => return Err(format!("{who}: error instead of end at step {k} of {}: {e}", good.len())),
            None if k < good.len() => return Err(format!("{who}: ended at step {k} of {}", good.len())),
            None if then_err && k == good.len() => return Err(format!("{who}: no error reported at step {k}")),
            None => {}
        }
    }
    c.traces += 1;
    c.evals += 1;
    Ok(())
}
pub fn p17(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let maxs = t.pick(3, 4);
    let s = Seqs { k: 8, max: maxs };
    let tails: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff; 3], patch_of(vec![ROp::Add(vec![5])], false)];
    let (s1, tl) = (s.clone(), tails.clone());
    v.push(space("plain", (s.total() - 1) * 4 * 8, move |i, c| {
        let (m, tn, q) = (i % 8, (i / 8 % 4) as usize, s1.get(i / 32 + 1));
        let secs = secs_from(&q, 0);
        let mut p = enc_patch(&secs);
        let n = p.len();
        p.extend_from_slice(&tl[tn]);
        c.sample(|| format!("{} sections, owned-mask {m:03b}, {} trailing bytes", secs.len(), tl[tn].len()));
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, m | m << 3, &secs, false, "reader", c)?;
        let pos = it.into_inner().position() as usize;
        if pos != n { return Err(format!("reader left its source at {pos}, terminal section ends at {n}")) }
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, m | m << 3, &secs, false, "decoder reader", c)
    }));
    // one section damaged: the sections before it are delivered, then one error, then the end
    let s2 = s.clone();
    v.push(space("damaged", (s.total() - 1) * 4 * 4 * 8, move |i, c| {
        let (m, at, kind, q) = (i % 8, (i / 8 % 4) as usize, i / 32 % 4, s2.get(i / 128 + 1));
        let secs = secs_from(&q, 0);
        if at >= secs.len() { c.note("no such section"); return Ok(()) }
        let mut p = vec![];
        for (k, s) in secs.iter().enumerate() {
            let mut e = enc_sec(s);
            if k == at {
                match kind {
                    0 => { p.extend(&e[..e.len() - 1]); break } // cut short, nothing follows
                    1 => { // claims more operations than there are output bytes
                        let out = s.out();
                        e = vec![e[0] & !64 & !128 | 128];
                        uv(&mut e, 2); uv(&mut e, out as u64 + 5);
                        e.extend(enc_body(&[ROp::Add(vec![1]), ROp::Add(vec![2])], false));
                    }
                    2 => { e = vec![e[0] & 128, 1, 1, 0xC0, 0, 0] } // run of size class 0
                    _ => { e = vec![e[0] & 128, 1, 1, 0x80, 0, 0] } // zero-length Add
                }
            }
            p.extend(e);
        }
        if kind == 0 && p.len() == secs[..at].iter().map(|s| enc_sec(s).len()).sum::<usize>() + enc_sec(&secs[at]).len() { return Ok(()) }
        c.sample(|| format!("{} sections, damage {kind} at {at}, owned-mask {m:03b}", secs.len()));
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, m | m << 3, &secs[..at], true, "reader", c)?;
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, m | m << 3, &secs[..at], true, "decoder reader", c)
    }));
    // compressed sections through the decoder's iterator
    let s3 = Seqs { k: 8, max: 2 };
    v.push(space("compressed", (s3.total() - 1) * 3 * 4 * 8, move |i, c| {
        let (m, algo, tn, q) = (i % 8, (i / 8 % 3 + 1) as u8, (i / 24 % 4) as usize, s3.get(i / 96 + 1));
        let secs = secs_from(&q, algo);
        let mut p = enc_patch(&secs);
        p.extend_from_slice(&tails[tn]);
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, m | m << 3, &secs, false, "decoder reader", c)
    }));
    // sections of many operations and of large ones, last or not, with and without something after them
    const COUNTS: [usize; 24] = [1, 2, 60, 62, 63, 64, 127, 128, 129, 255, 256, 257, 600, 1000, 1024, 2500, 4095, 4096, 4097, 5000, 9000, 16384, 65536, 70001];
    let r = Radix(vec![2, 4, 3, 2, 6, COUNTS.len() as u64]);
    v.push(space("large", r.total(), move |i, c| {
        let d = r.get(i);
        let n = COUNTS[d[5]];
        let mut out = 0;
        let big: Vec<ROp> = (0..n).map(|k| {
            let op = match if d[4] == 5 { 4 - k % 5 } else { d[4] } {
                0 => ROp::Run(k as u8, 1 + (k % 62) as u8),
                1 => ROp::Add(vec![k as u8; 1 + k % 3]),
                2 => ROp::CopyD((k * 77 % 5000) as u64, 1 + (k % 90) as u16),
                3 => if out == 0 { ROp::Run(3, 9) } else { ROp::CopyO((k as u64 * 31) % out, 1) },
                _ => ROp::Add(vec![k as u8; if n > 300 { 30 } else { 50_000 }]),
            };
            out += op.len() as u64;
            op
        }).collect();
        if out >= 1 << 24 { c.note("section too large"); return Ok(()) }
        let (seg, small) = (d[3] == 1, vec![ROp::CopyD(3, 4), ROp::Add(vec![1, 2]), ROp::Run(7, 9)]);
        let mut secs: Vec<RSec> = match d[2] { 0 => vec![big], 1 => vec![small, big], _ => vec![big.clone(), small.clone(), big] }.into_iter().map(|ops| RSec { ops, seg, algo: 0, more: true }).collect();
        secs.last_mut().unwrap().more = false;
        let mut p = enc_patch(&secs);
        let end = p.len();
        match d[1] { 0 => {} 1 => p.push(0x80), 2 => p.extend([0u8; 100]), _ => p.extend((0..20_000).map(|k| (k * 7) as u8)) }
        c.sample(|| format!("{n} operations, {} sections, {} bytes after them", secs.len(), p.len() - end));
        c.max("operations in a section", n as i64);
        c.nontrivial += 1;
        let modes = if d[0] == 0 { 0 } else { 0b1010 };
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, modes, &secs, false, "reader", c)?;
        let pos = it.into_inner().position() as usize;
        if pos != end { return Err(format!("reader left its source at {pos}, terminal section of {n} operations ends at {end}")) }
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, modes, &secs, false, "decoder reader", c)?;
        // section by section
        let (mut r, mut at) = (Cursor::new(&p[..]), 0);
        for s in &secs {
            let mut ops = vec![];
            smdiff_reader::read_section(&mut r, &mut ops).map_err(|e| format!("read_section: {e}"))?;
            at += enc_sec(s).len();
            if r.position() as usize != at { return Err(format!("read_section left its source at {}, the section of {} operations ends at {at}", r.position(), s.ops.len())) }
        }
        Ok(())
    }));
    // patches of many sections
    v.push(space("many-sections", 64, |i, c| {
        let n = 1 + (i as usize % 16) * 17;
        let secs = secs_from(&(0..n).map(|k| (k * 7 + i as usize / 16) % 8).collect::<Vec<_>>(), 0);
        let p = enc_patch(&secs);
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, 0x5A5A5A5A5A5A5A5A >> (i % 3), &secs, false, "reader", c)?;
        let (r, used) = read_plain(&p)?;
        cmp_secs(&r, &secs, "reader")?;
        if used != p.len() { return Err(format!("used {used} of {}", p.len())) }
        cmp_secs(&read_dec(&p)?, &secs, "decoder reader")
    }));
    // the same with compressed sections: the frame or what is in it is damaged
    let s4 = Seqs { k: 8, max: 3 };
    v.push(space("damaged-compressed", (s4.total() - 1) * 3 * 3 * 8 * 8, move |i, c| {
        let d = Radix(vec![8, 8, 3, 3, s4.total() - 1]).get(i);
        let (m, kind, at, algo, q) = (d[0] as u64, d[1], d[2], d[3] as u8 + 1, s4.get(d[4] as u64 + 1));
        let mut secs = secs_from(&q, algo);
        if at >= secs.len() { c.note("no such section"); return Ok(()) }
        // sections that are not compressed, or otherwise, among them
        for k in 0..secs.len() { if (k + d[4]) % 3 == 2 { secs[k].algo = ((k + d[4]) % 4) as u8 } }
        if secs[at].algo == 0 { secs[at].algo = algo }
        let good = secs.clone();
        let mut p = vec![];
        for (k, s) in good.iter().enumerate() {
            let e = enc_sec(s);
            if k != at { p.extend(e); continue }
            let pack = |data: Vec<u8>| -> Vec<u8> { let mut o = enc_header(s); match s.algo { 1 => o.extend(patch_of(if data.is_empty() { vec![] } else { vec![ROp::Add(data)] }, false)), 2 => o.extend(zstd::bulk::compress(&data, 3).unwrap()), _ => o.extend(brotli_compress(&data)) } o };
            let mut body = enc_body(&s.ops, s.seg);
            match kind {
                0 => { p.extend(&e[..e.len() - 1]); break }
                1 => { p.extend(enc_header(s)); p.extend([0xff; 6]) }
                2 => { body.push(0x41); p.extend(pack(body)) }
                3 => { let mut e = e; e[0] = e[0] & !0x38 | 0x20; p.extend(e) }
                4 => { if body.pop().is_none() { return Ok(()) } p.extend(pack(body)) }
                5 => { let mut h = vec![e[0] & !64]; uv(&mut h, s.ops.len() as u64); uv(&mut h, s.out() as u64 + 1); h.extend(&e[enc_header(s).len()..]); if s.seg { return Ok(()) } p.extend(h) }
                6 => { let mut h = vec![e[0] & !64]; uv(&mut h, s.ops.len() as u64 + 1); uv(&mut h, s.out() as u64 + 1); h.extend(&e[enc_header(s).len()..]); if s.seg { return Ok(()) } p.extend(h) }
                _ => { p.extend(enc_header(s)); break }
            }
        }
        // bytes that would go on as sections
        if kind != 0 && kind != 7 { p.extend(enc_patch(&secs_from(&[1, 2], 0))) }
        match parse_patch(&p, true) { Err(_) => {} Ok(_) => { c.note("damage that is not judged"); return Ok(()) } }
        c.sample(|| format!("{} sections, algorithm {}, damage {kind} at {at}, owned-mask {m:03b}", good.len(), good[at].algo));
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, m | m << 3 | m << 6, &good[..at], true, "decoder reader", c)
    }));
    // patches of very many sections, and sections of very many operations
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * (4 + CROWD_KINDS) * 3, move |i, c| {
        let d = Radix(vec![3, 4 + CROWD_KINDS, cn]).get(i);
        let n = cc[d[2]];
        let secs = if d[1] < 4 { crowd_of_secs(d[1], n, 0) } else {
            let s = |k: usize, n, more| RSec { ops: crowd((d[1] - 4 + k) % CROWD_KINDS as usize, n), seg: k % 2 == 1, algo: 0, more };
            vec![s(0, n, true), s(1, 3, true), s(2, n, true), s(3, 0, true), s(4, 2, false)]
        };
        let p = enc_patch(&secs);
        let m = [0, u64::MAX, 0x5A5A5A5A5A5A5A5A][d[0]];
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, m, &secs, false, "reader", c)?;
        let pos = it.into_inner().position() as usize;
        if pos != p.len() { return Err(format!("reader left its source at {pos}, terminal section ends at {}", p.len())) }
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p[..]));
        drive(&mut it, m, &secs, false, "decoder reader", c)?;
        // without its end
        if d[0] == 0 || secs.len() < 2 { return Ok(()) }
        let good = secs.len() - 1;
        let cut = enc_sec(&secs[good]).len();
        let cut = p.len() - if cut > 1 { 1 } else { cut };
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&p[..cut]));
        drive(&mut it, m, &secs[..good], true, "reader", c)?;
        let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p[..cut]));
        drive(&mut it, m, &secs[..good], true, "decoder reader", c)
    }));
    v
}

// ------------------------------------------------------------------------------------------ P18
fn check_headers(secs: &[RSec], c: &mut Ctx) -> Result<(), String> {
    let p = enc_patch(secs);
    let d = || format!("{:?}", secs.iter().map(|s| (s.seg, s.algo, show(&s.ops))).collect::<Vec<_>>());
    c.sample(d);
    c.state(H::new(18).b(&p));
    c.transitions += secs.iter().map(|s| s.ops.len() as u64 + 1).sum::<u64>();
    let see = |h: &smdiff_common::SectionHeader, s: &RSec, want: &RSec, who: &str| -> Result<(), String> {
        if s.ops != want.ops { return Err(format!("{who}: operations {} for {}", show(&s.ops), d())) }
        if !header_matches(h, want) { return Err(format!("{who}: header {h:?} for {} ops, {} Add bytes, {} output bytes: {}", want.ops.len(), want.adds(), want.out(), d())) }
        // the header is good for writing the section again
        let ops = to_ops(&s.ops);
        let mut b = vec![];
        let mut h2 = *h;
        h2.compression_algo = 0;
        smdiff_writer::write_section_header(&h2, &mut b).map_err(|e| format!("{who}: header cannot be written again: {e}"))?;
        smdiff_writer::write_ops(&ops, &h2, &mut b).map_err(|e| format!("{who}: operations cannot be written under the header read: {e}"))?;
        let w = enc_sec(&RSec { algo: 0, ..want.clone() });
        if b != w { return Err(format!("{who}: rewriting gives other bytes: {}", diff(&b, &w))) }
        Ok(())
    };
    if secs.iter().all(|s| s.algo == 0) {
        let (r, _) = read_plain(&p)?;
        if r.len() != secs.len() { return Err(format!("{} sections read of {}", r.len(), secs.len())) }
        for ((h, s), w) in r.iter().zip(secs) { see(h, s, w, "reader")? }
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&p[..]));
        for w in secs { let (o, h) = it.next_borrowed().ok_or("end")?.map_err(|e| e.to_string())?; let s = sec_of(&h, o); see(&h, &s, w, "reader (borrowed)")? }
        // into one shared buffer
        let mut cur = Cursor::new(&p[..]);
        let mut buf = vec![];
        for w in secs { let at = buf.len(); let h = smdiff_reader::read_section(&mut cur, &mut buf).map_err(|e| e.to_string())?; let s = sec_of(&h, &buf[at..]); see(&h, &s, w, "read_section")? }
        c.evals += 3;
    }
    let r = read_dec(&p)?;
    if r.len() != secs.len() { return Err(format!("{} sections read of {}", r.len(), secs.len())) }
    for ((h, s), w) in r.iter().zip(secs) { see(h, s, w, "decoder reader")? }
    let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&p[..]));
    for w in secs { let (o, h) = it.next_borrowed().ok_or("end")?.map_err(|e| e.to_string())?; let s = sec_of(&h, o); see(&h, &s, w, "decoder reader (borrowed)")? }
    // extraction
    let (ex, st) = smdiff_merger::extract_patch_instructions(Cursor::new(&p[..])).map_err(|e| format!("extraction: {e}; {}", d()))?;
    let flat: Vec<ROp> = secs.iter().flat_map(|s| s.ops.clone()).collect();
    if from_ops(&ex.iter().map(|e| e.1.clone()).collect::<Vec<_>>()) != flat { return Err(format!("extraction gives other operations for {}", d())) }
    let mut pos = 0u64;
    for (k, (o, op)) in ex.iter().enumerate() {
        if *o != pos { return Err(format!("extraction: operation {k} at {o}, true offset {pos}; {}", d())) }
        pos += op.oal() as u64;
    }
    let mut w = [0usize; 8];
    for o in &flat {
        let n = o.len();
        match o { ROp::Add(_) => { w[0] += n; w[3] += 1 } ROp::Run(..) => { w[1] += n; w[4] += 1 } ROp::CopyD(..) => { w[2] += n; w[5] += 1 } ROp::CopyO(..) => { w[2] += n; w[6] += 1 } }
        w[7] += n;
    }
    let g = [st.add_bytes, st.run_bytes, st.copy_bytes, st.add_cnt, st.run_cnt, st.copy_d_cnt, st.copy_o_cnt, st.output_size];
    if g != w { return Err(format!("statistics {st:?}, true [add, run, copy bytes, add, run, copy_d, copy_o counts, output] {w:?}; {}", d())) }
    if st.has_copy() != (w[2] > 0) { return Err("has_copy disagrees".into()) }
    c.evals += 3;
    c.traces += 1;
    Ok(())
}
pub fn p18(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let ts = vec![Tok::Add(1), Tok::Add(2), Tok::Add(64), Tok::Run(3, 1), Tok::Run(4, 62), Tok::D(0, 1), Tok::D(9, 63), Tok::D(7, 300), Tok::OStart(0, 1), Tok::OAll, Tok::Sec];
    let s = Seqs { k: ts.len() as u64, max: t.pick(4, 5) };
    let (t1, s1) = (ts.clone(), s.clone());
    v.push(space("programs", s.total() * 2, move |i, c| {
        let q = s1.get(i / 2);
        let tk: Vec<&Tok> = q.iter().map(|d| &t1[*d]).collect();
        let Some(b) = build(&tk, 3) else { return Ok(()) };
        check_headers(&b.secs(i % 2 == 1, 0), c)
    }));
    let s2 = Seqs { k: ts.len() as u64, max: t.pick(2, 3) };
    v.push(space("compressed-programs", s2.total() * 6, move |i, c| {
        let q = s2.get(i / 6);
        let tk: Vec<&Tok> = q.iter().map(|d| &ts[*d]).collect();
        let Some(b) = build(&tk, 3) else { return Ok(()) };
        check_headers(&b.secs(i % 2 == 1, (i / 2 % 3 + 1) as u8), c)
    }));
    // large Add totals and mixed formats and algorithms over sections
    let r = Radix(vec![4, 2, 4, 2, 5]);
    v.push(space("mixed-sections", r.total(), move |i, c| {
        let d = r.get(i);
        let n = [1, 63, 1000, 65535, 30000][d[4]];
        let secs = vec![
            RSec { ops: vec![ROp::Add(noise(1, n)), ROp::Run(1, 5), ROp::Add(noise(2, n))], seg: d[1] == 1, algo: d[0] as u8, more: true },
            RSec { ops: vec![ROp::CopyO(0, n as u16), ROp::Add(noise(3, 70))], seg: d[3] == 1, algo: d[2] as u8, more: false },
        ];
        check_headers(&secs, c)
    }));
    v.extend(super::wide::p18(t));
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * (CROWD_KINDS * 2 + 4) * 2, move |i, c| {
        let d = Radix(vec![2, CROWD_KINDS * 2 + 4, cn]).get(i);
        let (n, algo) = (cc[d[2]], d[0] as u8 * 2);
        if d[1] < 4 { if algo > 0 && n > 5000 { return Ok(()) } check_headers(&crowd_of_secs(d[1], n, algo), c) }
        else { check_headers(&[RSec { ops: crowd((d[1] - 4) / 2, n), seg: d[1] % 2 == 1, algo, more: false }], c) }
    }));
    v
}

// ------------------------------------------------------------------------------------------ P20
fn sparse(ops: &[ROp]) -> Vec<smdiff_merger::SparseOp> {
    let mut p = 0u64;
    ops.iter().map(|o| { let r = (p, to_op(o)); p += o.len() as u64; r }).collect()
}
fn bytes_of(ops: &[smdiff_merger::SparseOp], src: &[u8], full: &[u8]) -> Result<Vec<u8>, String> {
    // output copies refer to the full output
    let mut o = vec![];
    for (_, op) in ops {
        match from_op(op) {
            ROp::CopyO(a, n) => o.extend_from_slice(full.get(a as usize..a as usize + n as usize).ok_or("output copy out of range")?),
            x => interp_into(&mut o, &[x], Some(src))?,
        }
    }
    Ok(o)
}
fn check_slices(ops: &[ROp], src: &[u8], c: &mut Ctx) -> Result<(), String> {
    use smdiff_merger::*;
    let d = || show(ops);
    c.sample(d);
    let full = { let mut o = vec![]; interp_into(&mut o, ops, Some(src)).map_err(|e| e.to_string())?; o };
    let sp = sparse(ops);
    let n = full.len() as u64;
    for pos in 0..n + 3 {
        let want = sp.iter().position(|(o, op)| *o <= pos && pos < *o + op.oal() as u64);
        let g = find_controlling_op(&sp, pos);
        if g != want { return Err(format!("operation producing position {pos}: {g:?} instead of {want:?} in {}", d())) }
        c.evals += 1;
    }
    for st in 0..n + 2 {
        for len in 1..=(n + 2).saturating_sub(st).max(1) {
            c.transitions += 1;
            c.state(H::new(20).b(&full).u(st).u(len).u(sp.len() as u64));
            let g = get_exact_slice(&sp, st, len as u32);
            c.evals += 1;
            if st + len > n {
                if let Some(g) = g { return Err(format!("slice {st}+{len} beyond the output of {n} bytes returned {} ops in {}", g.len(), d())) }
                continue;
            }
            let Some(g) = g else { return Err(format!("no slice for {st}+{len} in {}", d())) };
            let mut p = st;
            for (o, op) in &g {
                if *o != p { return Err(format!("slice {st}+{len}: operation at {o}, expected {p}, in {}", d())) }
                if op.oal() == 0 { return Err(format!("slice {st}+{len}: empty operation in {}", d())) }
                p += op.oal() as u64;
            }
            let b = bytes_of(&g, src, &full)?;
            if b != full[st as usize..(st + len) as usize] { return Err(format!("slice {st}+{len} produces {:02x?} instead of {:02x?} in {}", abbrev(&b), abbrev(&full[st as usize..(st + len) as usize]), d())) }
        }
    }
    let de = deref_copy_o(sp.clone());
    let mut p = 0;
    for (o, op) in &de {
        if *o != p || op.oal() == 0 { return Err(format!("dereferenced: operation at {o} (expected {p}), length {} in {}", op.oal(), d())) }
        if matches!(from_op(op), ROp::CopyO(..)) { return Err(format!("output copy left after dereferencing {}", d())) }
        p += op.oal() as u64;
    }
    let b = bytes_of(&de, src, &full)?;
    if b != full { return Err(format!("dereferenced list produces other bytes ({}) for {}", diff(&b, &full), d())) }
    c.evals += 1;
    c.traces += 1;
    Ok(())
}
/// the same for a long list: every pair of these positions
fn check_points(ops: &[ROp], src: &[u8], pts: Vec<i64>, c: &mut Ctx) -> Result<(), String> {
    c.sample(|| show(ops));
    let full = { let mut o = vec![]; interp_into(&mut o, ops, Some(src)).map_err(|e| format!("generator: {e}"))?; o };
    let sp = sparse(ops);
    let mut pts: Vec<usize> = pts.into_iter().filter(|x| *x >= 0 && *x <= full.len() as i64).map(|x| x as usize).collect();
    pts.sort(); pts.dedup();
    for st in &pts {
        let f = smdiff_merger::find_controlling_op(&sp, *st as u64);
        let w = sp.iter().position(|(o, op)| *o as usize <= *st && *st < *o as usize + op.oal() as usize);
        if f != w { return Err(format!("position {st}: {f:?} instead of {w:?} in {}", show(ops))) }
        for en in &pts {
            if en <= st || en - st > 65535 && sp.len() < 100 { continue }
            c.transitions += 1; c.evals += 1;
            let g = smdiff_merger::get_exact_slice(&sp, *st as u64, (en - st) as u32).ok_or_else(|| format!("no slice {st}..{en} in {}", show(ops)))?;
            let mut p = *st as u64;
            for (o, op) in &g { if *o != p || op.oal() == 0 { return Err(format!("slice {st}..{en}: operation at {o}, expected {p}; {}", show(ops))) } p += op.oal() as u64; }
            let b = bytes_of(&g, src, &full)?;
            if b != full[*st..*en] { return Err(format!("slice {st}..{en} differs: {} in {}", diff(&b, &full[*st..*en]), show(ops))) }
        }
    }
    let de = smdiff_merger::deref_copy_o(sp);
    if bytes_of(&de, src, &full)? != full || de.iter().any(|x| matches!(from_op(&x.1), ROp::CopyO(..))) { return Err(format!("dereferencing {}", show(ops))) }
    c.state(H::new(21).b(&full));
    c.traces += 1;
    Ok(())
}
pub fn p20(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let ts = vec![Tok::Add(1), Tok::Add(2), Tok::Add(3), Tok::Run(7, 1), Tok::Run(8, 3), Tok::D(0, 1), Tok::D(2, 3), Tok::OStart(0, 1), Tok::OStart(1, 2), Tok::OEnd(2), Tok::OEnd(3), Tok::OAll];
    let s = Seqs { k: ts.len() as u64, max: t.pick(4, 6) };
    v.push(space("programs", s.total(), move |i, c| {
        let q = s.get(i);
        let tk: Vec<&Tok> = q.iter().map(|d| &ts[*d]).collect();
        let Some(b) = build(&tk, 3) else { return Ok(()) };
        check_slices(&b.flat(), &noise(1, 9), c)
    }));
    // nested output copies, deeper
    let ts = vec![Tok::Add(2), Tok::D(1, 2), Tok::OStart(0, 2), Tok::OStart(1, 3), Tok::OEnd(3), Tok::OAll];
    let s = Seqs { k: ts.len() as u64, max: t.pick(5, 7) };
    v.push(space("nested-copies", s.total(), move |i, c| {
        let q = s.get(i);
        let tk: Vec<&Tok> = q.iter().map(|d| &ts[*d]).collect();
        let Some(b) = build(&tk, 3) else { return Ok(()) };
        if b.out > 40 { c.note("over 40 bytes"); return Ok(()) }
        check_slices(&b.flat(), &noise(1, 9), c)
    }));
    // long operations: ranges at all boundaries +-2
    let lens = [1usize, 62, 63, 255, 256, 257, 65279, 65280, 65534, 65535];
    let r = Radix(vec![10, 10, 10, 3]);
    v.push(space("long-operations", r.total(), move |i, c| {
        let d = r.get(i);
        let src = noise(4, 70000);
        let (a, b, e) = (lens[d[0]], lens[d[1]], lens[d[2]]);
        let ops = match d[3] {
            0 => vec![ROp::Add(noise(1, a)), ROp::CopyD(7, b as u16), ROp::Add(noise(2, e))],
            1 => vec![ROp::CopyD(100, a as u16), ROp::Run(5, 62.min(b) as u8), ROp::CopyD(70000 - e as u64, e as u16)],
            _ => vec![ROp::CopyD(100, a as u16), ROp::Add(noise(3, b)), ROp::CopyO((a + b - e.min(a + b)) as u64, e.min(a + b).min(65535) as u16)],
        };
        let ends: Vec<(u64, u64)> = sparse(&ops).iter().map(|(o, op)| (*o, *o + op.oal() as u64)).collect();
        let mut pts = vec![];
        for (x, y) in ends { for dlt in [-2i64, -1, 0, 1, 2, 62, 255, 256, 257] { for b in [x, y] { pts.push(b as i64 + dlt) } } }
        check_points(&ops, &src, pts, c)
    }));
    // lists of very many operations: ranges over any number of them
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * CROWD_KINDS, move |i, c| {
        let n = cc[(i / CROWD_KINDS) as usize];
        let ops = crowd((i % CROWD_KINDS) as usize, n);
        let out: usize = ops.iter().map(|o| o.len()).sum();
        let mut pts = vec![0, 1, 2, 3];
        for x in [out, out / 2, n / 2, 70, 256, 65535, 65536, 32768] { pts.extend([x as i64 - 1, x as i64, x as i64 + 1]) }
        check_points(&ops, &src300(), pts, c)
    }));
    // copies of ranges over very many operations, which dereferencing replaces by them
    let cc = crowd_counts(t.thorough());
    v.push(space("copies of crowds", cn * CROWD_KINDS, move |i, c| {
        let n = cc[(i / CROWD_KINDS) as usize];
        let mut ops = crowd((i % CROWD_KINDS) as usize, n);
        let out: usize = ops.iter().map(|o| o.len()).sum();
        let m = out.min(65535);
        ops.extend([ROp::CopyO((out - m) as u64, m as u16), ROp::CopyO(0, (m - 1) as u16), ROp::CopyO((out / 3) as u64, (m / 2) as u16)]);
        let tot: usize = ops.iter().map(|o| o.len()).sum();
        let pts = [0, out, out + m, tot].iter().flat_map(|x| [*x as i64 - 1, *x as i64 + 1]).collect();
        check_points(&ops, &src300(), pts, c)
    }));
    // skip/trunc on single operations
    v.push(space("skip-trunc", 4 * 300, |i, c| {
        use smdiff_merger::MergeOp;
        let n = (i / 4 + 1) as u16;
        let src = noise(2, 700);
        let op = match i % 4 { 0 => ROp::Add(noise(1, n as usize)), 1 => if n <= 62 { ROp::Run(9, n as u8) } else { return Ok(()) }, 2 => ROp::CopyD(5, n), _ => ROp::CopyO(3, n) };
        let full: Vec<u8> = bytes_of(&[(0, to_op(&op))], &src, &src)?;
        for a in 0..n as u32 {
            let mut x = to_op(&op); x.skip(a);
            let mut y = to_op(&op); y.trunc(a);
            c.evals += 2; c.transitions += 2;
            if x.oal() as u32 != n as u32 - a || bytes_of(&[(0, x.clone())], &src, &src)? != full[a as usize..] { return Err(format!("skipping {a} of {}: {x:?}", op.short())) }
            if y.oal() as u32 != n as u32 - a || bytes_of(&[(0, y.clone())], &src, &src)? != full[..n as usize - a as usize] { return Err(format!("truncating {a} of {}: {y:?}", op.short())) }
        }
        c.traces += 1;
        Ok(())
    }));
    v.extend(super::wide::p20(t));
    v
}
