//! P13: secondary compression changes nothing but the bytes.
use super::p01_encode::*;
use super::p03_codec::cmp_secs;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::*;
use smdiff_encoder::writer::section_writer;
use smdiff_encoder::SecondaryCompression;
use std::io::Cursor;

type Comp = Option<SecondaryCompression>;
fn check(secs: &[RSec], comps: &[Comp], label: &dyn Fn() -> String, c: &mut Ctx) -> Result<(), String> {
    let d = || format!("{} sections {:?}", label(), secs.iter().map(|s| (s.seg, s.algo, { let mut x = show(&s.ops); x.truncate(120); x })).collect::<Vec<_>>());
    let mut p = vec![];
    let mut buf = vec![];
    for (s, comp) in secs.iter().zip(comps) {
        let mut h = header(s);
        h.compression_algo = 0;
        catch(|| section_writer(comp, h, &mut p, &to_ops(&s.ops), &mut buf)).map_err(|e| format!("{e}; {}", d()))?.map_err(|e| format!("writing fails: {e}; {}", d()))?;
        c.transitions += 1;
    }
    check_bytes(&p, secs, label, c)
}
/// The bytes of a patch of these sections.
fn check_bytes(p: &[u8], secs: &[RSec], label: &dyn Fn() -> String, c: &mut Ctx) -> Result<(), String> {
    let d = || format!("{} sections {:?}", label(), secs.iter().map(|s| (s.seg, s.algo, { let mut x = show(&s.ops); x.truncate(120); x })).collect::<Vec<_>>());
    c.evals += 1;
    c.traces += 1;
    c.state(H::new(13).b(p));
    c.sample(|| d());
    // valid for an independent parser
    let (m, used) = parse_patch(p, true).map_err(|e| format!("not a valid patch: {e:?}; {}", d()))?;
    if used != p.len() { return Err(format!("{} bytes after the patch; {}", p.len() - used, d())) }
    if m != secs { return Err(format!("the sections written are {:?}; {}", m.iter().map(|s| (s.seg, s.algo, show(&s.ops))).collect::<Vec<_>>(), d())) }
    // the decoder gets the same, with and without bytes that follow
    let r = catch(|| read_dec(p)).map_err(|e| format!("{e} reading; {}", d()))?.map_err(|e| format!("reading back fails: {e}; {}", d()))?;
    cmp_secs(&r, secs, "decoder's reader").map_err(|e| format!("{e}; {}", d()))?;
    let mut tail = p.to_vec();
    tail.extend([0x81, 0x28, 0xb5, 0x2f, 0xfd, 0, 1, 2]);
    let r = catch(|| read_dec(&tail)).map_err(|e| format!("{e} reading with bytes following; {}", d()))?.map_err(|e| format!("reading back with bytes following fails: {e}; {}", d()))?;
    cmp_secs(&r, secs, "decoder's reader, with bytes following").map_err(|e| format!("{e}; {}", d()))?;
    let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(p));
    for s in secs {
        let Some(Ok((ops, h))) = it.next_borrowed() else { return Err(format!("next_borrowed fails; {}", d())) };
        if from_ops(ops) != s.ops || !header_matches(&h, s) { return Err(format!("next_borrowed returns {h:?} {}; {}", show(&from_ops(ops)), d())) }
    }
    // the same operations for the merger
    let (x, _) = smdiff_merger::extract_patch_instructions(Cursor::new(p)).or_else(|e| if interp(secs, Some(&[0; 400])).is_err() { Ok((vec![], Default::default())) } else { Err(format!("extracting fails: {e}; {}", d())) })?;
    if interp(secs, Some(&[0; 400])).is_ok() {
        let flat: Vec<ROp> = secs.iter().flat_map(|s| s.ops.clone()).collect();
        if x.iter().map(|o| from_op(&o.1)).collect::<Vec<_>>() != flat { return Err(format!("the merger extracts other operations; {}", d())) }
        let src = noise(77, 400);
        let want = interp(secs, Some(&src)).unwrap();
        match apply(p, Some(&src)) {
            Ok(o) if o == want => c.outcome(H::new(131).b(&o)),
            Ok(o) => return Err(format!("another output ({}); {}", diff(&o, &want), d())),
            Err(e) => return Err(format!("applying fails: {e}; {}", d())),
        }
    }
    Ok(())
}
fn mk(ops: Vec<ROp>, seg: bool, sec: &Sec, more: bool) -> RSec { RSec { ops, seg, algo: match sec { Sec::None => 0, Sec::Smdiff(_) => 1, Sec::Zstd(_) => 2, Sec::Brotli(_) => 3 }, more } }
fn body(k: usize) -> Vec<ROp> {
    match k {
        0 => vec![],
        1 => vec![ROp::Add(vec![1])],
        2 => vec![ROp::Add(noise(1, 300)), ROp::CopyD(7, 63)],
        3 => vec![ROp::Add(vec![b'a'; 500]), ROp::Run(3, 62), ROp::Add(b"abcabcabcabc".repeat(9))],
        4 => (0..40).map(|k| if k % 2 == 0 { ROp::CopyD(k * 9, 3) } else { ROp::Add(vec![k as u8, 1, 2]) }).collect(),
        _ => vec![ROp::Add(noise(2, 9000)), ROp::Add(text(3, 5000))],
    }
}
const S4: [Sec; 4] = [Sec::None, Sec::Smdiff(3), Sec::Zstd(3), Sec::Brotli(5)];
pub fn p13(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // every sequence of algorithms and bodies
    let s = Seqs { k: 4 * 5, max: t.pick(3, 4) };
    v.push(space("sequences", s.total(), move |i, c| {
        let q = s.get(i);
        if q.is_empty() { return Ok(()) }
        let secs: Vec<RSec> = q.iter().enumerate().map(|(k, d)| mk(body(d / 4), (i + k as u64) % 2 == 1, &S4[d % 4], k + 1 < q.len())).collect();
        check(&secs, &q.iter().map(|d| S4[d % 4].make()).collect::<Vec<_>>(), &String::new, c)
    }));
    let s = Seqs { k: 4, max: t.pick(6, 8) };
    v.push(space("algorithms", s.total() * 3, move |i, c| {
        let q = s.get(i / 3);
        if q.is_empty() { return Ok(()) }
        let secs: Vec<RSec> = q.iter().enumerate().map(|(k, d)| mk(body([3, 4, k % 5][(i % 3) as usize]), (i + k as u64) % 2 == 1, &S4[*d], k + 1 < q.len())).collect();
        check(&secs, &q.iter().map(|d| S4[*d].make()).collect::<Vec<_>>(), &String::new, c)
    }));
    // every program over operations of every width, copies as far from each other as addresses can be
    let mut al: Vec<ROp> = vec![ROp::Run(7, 1), ROp::Run(0, 62), ROp::Add(noise(5, 1)), ROp::Add(noise(6, 63)), ROp::Add(noise(7, 318))];
    for a in [0u64, 70, 1 << 20, (1 << 32) + 5, 1 << 47, (1 << 62) - 1] { for n in [1u16, 63, 318] { if n == 1 || a == 0 || t.thorough() { al.push(ROp::CopyD(a, n)); al.push(ROp::CopyO(a, n)); } } }
    let s = Seqs { k: al.len() as u64, max: t.pick(3, 4) };
    v.push(space("programs", s.total() * 3, move |i, c| {
        let ops: Vec<ROp> = s.get(i / 3).iter().map(|k| al[*k].clone()).collect();
        let sec = &S4[(i % 3) as usize + 1];
        let secs = [mk(ops.clone(), i / 3 % 2 == 1, sec, true), mk(ops, i / 3 % 2 == 0, sec, false)];
        check(&secs, &[sec.make(), sec.make()], &String::new, c)
    }));
    // every size of section data, small ones one by one and around every block and buffer size
    let mut sizes: Vec<usize> = (1..t.pick(700, 3000)).collect();
    for b in [4096usize, 8192, 16384, 32768, 65535, 65536, 1 << 17, 1 << 18, (1 << 18) + (1 << 16), 1 << 19, 1 << 20, 1 << 21] {
        let w = t.pick(6, 24);
        let w = if b > 1 << 18 { w / 3 } else { w };
        sizes.extend(b - w..=b + w);
    }
    if t.thorough() { sizes.extend([(1 << 22) - 1, 1 << 22, (1 << 22) + 1, (1 << 23) + 5, 15_000_000]) }
    let n = sizes.len() as u64;
    v.push(space("sizes", n * 3 * 3, move |i, c| {
        let d = Radix(vec![3, 3, n]).get(i);
        // section data of exactly this size: one operation byte and size, and the bytes
        let size = sizes[d[2]];
        let content = |k: usize, n: usize| match d[1] { 0 => noise(k as u64, n), 1 => b"0123456789".repeat(n / 10 + 1)[..n].to_vec(), _ => { let mut x = noise(k as u64, n / 2); x.resize(n, b'x'); x } };
        let (mut ops, mut left) = (vec![], size);
        while left > 0 {
            let k = if left <= 63 { left - 1 } else if left == 65 { 62 } else if left <= 65538 { left - if left - 3 > 63 { 3 } else { 2 } } else { 65535 };
            let k = k.max(1).min(65535);
            let k = if k == 63 && left != 65 { 63 } else { k };
            ops.push(ROp::Add(content(ops.len(), k)));
            let used = enc_body(&ops[ops.len() - 1..], false).len();
            left = left.saturating_sub(used);
        }
        c.max("section data bytes", enc_body(&ops, false).len() as i64);
        let seg = i % 2 == 1;
        let sec = &S4[d[0] + 1];
        let small = body(4);
        let secs = [mk(ops, seg, sec, true), mk(small.clone(), !seg, sec, true), mk(small, seg, &Sec::None, false)];
        check(&secs, &[sec.make(), sec.make(), None], &|| format!("section data of {size} bytes;"), c)
    }));
    // sections that begin at every position of the reader's buffer
    v.push(space("alignment", t.pick(40, 400) * 3 * 4, move |i, c| {
        let d = Radix(vec![3, 4, t.pick(40, 400)]).get(i);
        let first = 8192 - 20 + d[2];
        let sec = &S4[d[0] + 1];
        let secs = [mk(vec![ROp::Add(noise(9, first - 7))], false, &Sec::None, true), mk(body(d[1] + 1), false, sec, true), mk(body(2), true, sec, false)];
        check(&secs, &[None, sec.make(), sec.make()], &|| format!("first section of {first} bytes;"), c)
    }));
    // SMDIFF section data held by an inner patch of any sections, formats and operations
    let r = Radix(vec![t.pick(6, 8), 4, 3, 2, t.pick(4, 6)]);
    v.push(space("inner-patches", r.total() * 32, move |i, c| {
        let (part, i) = (i % 32, i / 32);
        let d = r.get(i);
        let ops = inner_ops(d[0]);
        let seg = d[3] == 1;
        let sec = RSec { ops, seg, algo: 1, more: true };
        let Some(p) = inner_patch(&enc_body(&sec.ops, seg), d[1], d[2], part) else { return Ok(()) };
        let mut b = enc_header(&sec);
        b.extend(p);
        let n = 1 + d[4] % 3;
        let mut secs = vec![];
        let mut bytes = vec![];
        for k in 0..n {
            let mut s = sec.clone();
            s.more = k + 1 < n || d[4] >= 3;
            let mut x = b.clone();
            if !s.more { x[0] &= 0x7f }
            bytes.extend(x);
            secs.push(s);
        }
        if d[4] >= 3 { let s = RSec { ops: vec![ROp::Add(vec![1, 2])], seg: false, algo: [0, 2, 3][d[4] % 3], more: false }; bytes.extend(enc_sec(&s)); secs.push(s) }
        if d[4] >= 3 && secs.len() < 2 { return Ok(()) }
        check_bytes(&bytes, &secs, &|| format!("inner patch {d:?} divided as {part:05b}"), c)
    }));
    // section data compressed by someone else: every window, checksum, size field and division into blocks
    let r = Radix(vec![4, 18, 2, 3, 8]);
    v.push(space("foreign-zstd", r.total(), move |i, c| {
        let d = r.get(i);
        let sec = RSec { ops: body([2, 3, 4, 5][d[0]]), seg: d[4] % 2 == 1, algo: 2, more: true };
        let data = enc_body(&sec.ops, sec.seg);
        let mut z = enc_header(&sec);
        z.extend(foreign_zstd(&data, 10 + d[1] as u32, d[2] == 1, d[3], d[4] as u64));
        let last = RSec { ops: vec![ROp::Add(vec![1, 2])], seg: false, algo: [0, 2, 3][d[3]], more: false };
        z.extend(enc_sec(&last));
        check_bytes(&z, &[sec, last], &|| format!("zstd frame {d:?};"), c)
    }));
    let r = Radix(vec![4, 15, 3, 8]);
    v.push(space("foreign-brotli", r.total(), move |i, c| {
        let d = r.get(i);
        let sec = RSec { ops: body([2, 3, 4, 5][d[0]]), seg: d[3] % 2 == 1, algo: 3, more: true };
        let data = enc_body(&sec.ops, sec.seg);
        let mut z = enc_header(&sec);
        z.extend(foreign_brotli(&data, 10 + d[1] as u8, [0, 5, 11][d[2]], d[3] as u64));
        let last = RSec { ops: vec![ROp::Add(vec![1, 2])], seg: false, algo: [0, 2, 3][d[2]], more: false };
        z.extend(enc_sec(&last));
        check_bytes(&z, &[sec, last], &|| format!("brotli stream {d:?};"), c)
    }));
    // section data over the limit of one section: the data takes several inner sections
    v.push(space("over-one-section", t.pick(6, 18), move |i, c| {
        let d = Radix(vec![3, 2, 3]).get(i);
        let lim = MAXW as usize;
        let body: Vec<ROp> = match d[2] {
            0 => { let n = noise(70, lim); n.chunks(65535).map(|c| ROp::Add(c.to_vec())).collect() }
            1 => { let n = noise(71, lim - 100); n.chunks(40).map(|c| ROp::Add(c.to_vec())).collect() }
            _ => { let n = text(72, 60_000); let mut left = lim; let mut o = vec![]; while left > 0 { let k = left.min(60_000); o.push(ROp::Add(n[..k].to_vec())); left -= k } o }
        };
        let sec = &S4[d[0] + 1];
        let small = super::p13_comp::body(4);
        let secs = [mk(body, d[1] == 1, sec, true), mk(small, false, sec, false)];
        check(&secs, &[sec.make(), sec.make()], &|| format!("section data over the limit of a section, {d:?};"), c)
    }));
    // every level and option
    let zl: Vec<i32> = (-7..=22).chain([-100, -1000]).collect();
    let nz = zl.len() as u64;
    v.push(space("zstd-levels", nz * 6 * 2, move |i, c| {
        let d = Radix(vec![2, 6, nz]).get(i);
        let comp = Some(SecondaryCompression::Zstd { level: zl[d[2]] });
        let s = Sec::Zstd(0);
        let secs = [mk(body(d[1]), d[0] == 1, &s, true), mk(body(4), true, &s, false)];
        check(&secs, &[comp.clone(), comp], &|| format!("zstd level {};", zl[d[2]]), c)
    }));
    v.push(space("smdiff-levels", 10 * 6 * 2, |i, c| {
        let d = Radix(vec![2, 6, 10]).get(i);
        let s = Sec::Smdiff(d[2]);
        let secs = [mk(body(d[1]), d[0] == 1, &s, true), mk(body(4), true, &s, false)];
        check(&secs, &[s.make(), s.make()], &|| format!("smdiff level {};", d[2]), c)
    }));
    let r = Radix(vec![12, 4, 4, 3, 3]);
    v.push(space("brotli-options", r.total(), move |i, c| {
        use smdiff_encoder::brotli::*;
        let d = r.get(i);
        let mut o = BrotliEncoderOptions::new();
        o.quality(Quality::new(d[0] as u8).unwrap());
        o.window_size(WindowSize::new([10, 16, 22, 24][d[1]]).unwrap());
        if d[2] > 0 { o.block_size(BlockSize::new([16, 20, 24][d[2] - 1]).unwrap()); }
        o.mode([CompressionMode::Generic, CompressionMode::Text, CompressionMode::Font][d[3]]);
        let s = Sec::Brotli(0);
        let comp = Some(SecondaryCompression::Brotli { options: o });
        let secs = [mk(body([0, 3, 5][d[4]]), d[4] == 1, &s, true), mk(body(4), true, &s, false)];
        check(&secs, &[comp.clone(), comp], &|| format!("brotli options {d:?};"), c)
    }));
    // every further option of brotli changes nothing but the bytes; those that no stream, no stream of RFC 7932 or no
    // stream of its own can have may be refused instead
    let used = |o: &brotlic::BrotliEncoderOptions, standard: bool, seg: bool, k: usize, label: &dyn Fn() -> String, c: &mut Ctx| -> Result<(), String> {
        let s = Sec::Brotli(0);
        let comp = Some(SecondaryCompression::Brotli { options: o.clone() });
        let secs = [mk(body([0, 3, 5][k]), seg, &s, true), mk(body(4), true, &s, false)];
        if o.build().is_ok() && standard { return check(&secs, &[comp.clone(), comp], label, c) }
        let (mut p, mut buf, mut refused) = (vec![], vec![], 0);
        for s in &secs {
            let mut h = header(s);
            h.compression_algo = 0;
            c.evals += 1;
            c.transitions += 1;
            refused += catch(|| section_writer(&comp, h, &mut p, &to_ops(&s.ops), &mut buf)).map_err(|e| format!("{e}; {}", label()))?.is_err() as usize;
        }
        let cfg = smdiff_encoder::EncoderConfig::default().set_sec_comp(comp.unwrap());
        let r = catch(|| encode(None, b"some target some target", &cfg)).map_err(|e| format!("{e}; {}", label()))?;
        if r.is_err() != (refused > 0) || refused == 1 { return Err(format!("options are refused for some sections only; {}", label())) }
        if refused > 0 { c.note("options refused"); return Ok(()) }
        if apply(&r.unwrap(), None).ok().as_deref() != Some(b"some target some target") { return Err(format!("an encode cannot be decoded; {}", label())) }
        check_bytes(&p, &secs, label, c)
    };
    fn window(o: &mut brotlic::BrotliEncoderOptions, k: usize) { match k { 0 => {} 1..=3 => { o.window_size(brotlic::WindowSize::new([10, 16, 24][k - 1]).unwrap()); } _ => { o.large_window_size(brotlic::LargeWindowSize::new([11, 18, 24, 25, 26, 30][k - 4]).unwrap()); } } }
    let r = Radix(vec![2, 3, 6, 6, 9, 10]);
    v.push(space("brotli-distances", r.total(), move |i, c| {
        let d = r.get(i);
        let mut o = brotlic::BrotliEncoderOptions::new();
        o.quality(brotlic::Quality::new([0, 1, 3, 5, 9, 11][d[2]]).unwrap());
        window(&mut o, d[5]);
        if d[3] > 0 { o.postfix_bits(d[3] as u32 - 1); }
        if d[4] > 0 { o.direct_distance_codes([0, 1, 4, 8, 15, 16, 60, 120][d[4] - 1]); }
        used(&o, d[5] < 4, d[0] == 1, d[1], &|| format!("brotli options {d:?};"), c)
    }));
    let r = Radix(vec![2, 3, 4, 7, 3, 3, 10]);
    v.push(space("brotli-streams", r.total(), move |i, c| {
        let d = r.get(i);
        let mut o = brotlic::BrotliEncoderOptions::new();
        o.quality(brotlic::Quality::new([0, 2, 5, 10][d[2]]).unwrap());
        window(&mut o, d[6]);
        if d[3] > 0 { o.stream_offset([0, 1, 100, 1 << 20, 1 << 30, (1 << 30) + 1][d[3] - 1]); }
        if d[4] > 0 { o.disable_context_modeling(d[4] == 1); }
        if d[5] > 0 { o.size_hint([0, u32::MAX][d[5] - 1]); }
        let label = || format!("brotli options {d:?};");
        used(&o, d[6] < 4 && d[3] < 2, d[0] == 1, d[1], &label, c)
    }));
    // the whole encoder with and without, many sections
    let r = Radix(vec![3, 4, 2, 3, t.pick(5, 8)]);
    v.push(space("encoder", r.total(), move |i, c| {
        let d = r.get(i);
        let tr = match d[4] {
            0 => noise(60, 200_000),
            1 => text(61, 150_000),
            2 => vec![b'q'; 300_000],
            3 => (0..20u64).flat_map(|k| [noise(62, 9000), noise(63 + k, 700)].concat()).collect::<Vec<u8>>(),
            4 => vec![],
            5 => noise(64, 65535 * 5),
            6 => text(65, 65535 * 4 + 1),
            _ => (0..50_000u32).flat_map(|k| k.to_be_bytes()).collect::<Vec<u8>>(),
        };
        let src = noise(62, 30_000);
        let sec = [[Sec::Smdiff(1), Sec::Smdiff(3), Sec::Smdiff(9)], [Sec::Zstd(1), Sec::Zstd(3), Sec::Zstd(19)], [Sec::Brotli(0), Sec::Brotli(5), Sec::Brotli(11)]][d[0]][d[3]];
        let cfg = Cfg { seg: d[2] == 1, size: [65535, 70_000, 131_072, usize::MAX][d[1]], trgt: if d[4] == 2 { Some((27, 11, None)) } else { None }, ..PLAIN };
        let (a, b) = (encode(Some(&src), &tr, &cfg.make()), encode(Some(&src), &tr, &Cfg { sec, ..cfg }.make()));
        let (a, b) = (a.map_err(|e| e.to_string())?, b.map_err(|e| format!("{e}; {cfg:?} {sec:?}"))?);
        let l = || format!("encoding with {sec:?} under {cfg:?}, target {}", d[4]);
        c.evals += 1; c.traces += 1; c.transitions += 2;
        c.state(H::new(132).b(&b));
        let ra = read_dec(&a).map_err(|e| format!("{e}; {}", l()))?;
        let rb = read_dec(&b).map_err(|e| format!("{e}; {}", l()))?;
        if ra.len() > 2 { c.note("encodings of more than two sections") }
        let want: Vec<RSec> = ra.into_iter().map(|(_, mut s)| { s.algo = match sec { Sec::Smdiff(_) => 1, Sec::Zstd(_) => 2, _ => 3 }; s }).collect();
        cmp_secs(&rb, &want, "compressed").map_err(|e| format!("{e}; {}", l()))
    }));
    // a call that failed leaves nothing behind in the shared buffer: the sink fails at each of its writes
    v.push(space("after-failure", 4 * 6 * 2 * 4 * 6, |i, c| {
        let d = Radix(vec![4, 6, 2, 4, 6]).get(i);
        let s = mk(body(d[1]), d[2] == 1, &S4[d[0]], false);
        let first = mk(body(d[4]), d[2] == 0, &S4[d[3]], true);
        let write = |s: &RSec, a: usize, w: &mut dyn std::io::Write, buf: &mut Vec<u8>| { let mut h = header(s); h.compression_algo = 0; section_writer(&S4[a].make(), h, &mut { w }, &to_ops(&s.ops), buf) };
        let (mut want, mut b) = (vec![], vec![]);
        write(&s, d[0], &mut want, &mut b).map_err(|e| e.to_string())?;
        c.state(H::new(133).b(&want));
        for k in 0..40usize {
            let mut buf = vec![];
            let mut bad = Failing { left: k, hit: false };
            let _ = write(&first, d[3], &mut bad, &mut buf);
            let mut got = vec![];
            write(&s, d[0], &mut got, &mut buf).map_err(|e| format!("writing after a failure: {e}"))?;
            c.evals += 1; c.traces += 1; c.transitions += 2;
            if got != want { return Err(format!("after a write that failed at call {k}, the section is written as other bytes ({}): {:?} after {:?}", diff(&got, &want), show(&s.ops), show(&first.ops))) }
            if !bad.hit { break }
        }
        Ok(())
    }));
    let (cc, cn) = (crowd_counts(t.thorough()), crowd_counts(t.thorough()).len() as u64);
    v.push(space("crowds", cn * CROWD_KINDS * 3, move |i, c| {
        let d = Radix(vec![3, CROWD_KINDS, cn]).get(i);
        let sec = S4[d[0] + 1];
        let n = cc[d[2]];
        let secs = [mk(crowd(d[1], n), i % 2 == 1, &sec, true), mk(crowd((d[1] + 1) % 6, 5), i % 2 == 0, &sec, false)];
        check(&secs, &[sec.make(), sec.make()], &|| format!("{sec:?}"), c)
    }));
    v
}
fn inner_ops(k: usize) -> Vec<ROp> {
    match k {
        0 => vec![ROp::Add(vec![5, 6, 7])],
        1 => vec![ROp::CopyD(3, 4), ROp::Add(vec![1, 2, 1, 2, 1, 2]), ROp::Run(9, 3)],
        2 => vec![ROp::Add(vec![8; 40]), ROp::CopyO(0, 12), ROp::Add(vec![8; 20])],
        3 => (0..12).map(|k| if k % 2 == 0 { ROp::CopyD(k * 9, 3) } else { ROp::Add(vec![k as u8, 1, 2]) }).collect(),
        4 => vec![ROp::Add(noise(1, 300)), ROp::Run(0, 62)],
        5 => vec![ROp::CopyD(0, 20), ROp::CopyD(0, 20), ROp::CopyD(0, 20), ROp::CopyD(0, 20)],
        6 => vec![ROp::Add(text(3, 70)), ROp::Add(text(3, 70)), ROp::Add(text(3, 70))],
        _ => vec![ROp::Run(1, 1)],
    }
}
/// A plain patch that generates `data`, cut at the places chosen by the bits of `part` (of five possible ones).
/// style 0: adds, 1: repeats as output copies of what any section before generated, 2: as runs and adds, 3: copies byte by byte
fn inner_patch(data: &[u8], style: usize, formats: usize, part: u64) -> Option<Vec<u8>> {
    let n = data.len();
    if n < 2 && part > 0 { return None }
    let mut cuts: Vec<usize> = (0..5).filter(|k| part >> k & 1 == 1).map(|k| (k + 1) * n / 6).collect();
    cuts.push(n);
    let mut secs: Vec<RSec> = vec![];
    let mut at = 0;
    for (k, end) in cuts.iter().enumerate() {
        let mut ops = vec![];
        let mut p = at;
        while p < *end {
            let left = end - p;
            // the longest earlier occurrence
            let best = (0..p).map(|s| { let l = (0..left.min(p - s)).take_while(|x| data[s + x] == data[p + x]).count(); (l, s) }).max_by_key(|x| (x.0, std::cmp::Reverse(x.1))).unwrap_or((0, 0));
            let run = data[p..*end].iter().take_while(|b| **b == data[p]).count().min(62);
            if style == 1 && best.0 >= 2 || style == 3 && best.0 >= 1 {
                let l = if style == 3 { best.0.min(3) } else { best.0 };
                ops.push(ROp::CopyO(best.1 as u64, l as u16)); p += l;
            } else if style >= 1 && run >= 2 { ops.push(ROp::Run(data[p], run as u8)); p += run }
            else if style == 0 { ops.push(ROp::Add(data[p..*end].to_vec())); p = *end }
            else { ops.push(ROp::Add(vec![data[p]])); p += 1 }
        }
        at = *end;
        secs.push(RSec { ops, seg: match formats { 0 => false, 1 => true, _ => k % 2 == 1 }, algo: 0, more: k + 1 < cuts.len() });
    }
    assert_eq!(interp(&secs, None).ok()?, data);
    Some(enc_patch(&secs))
}
struct Failing { left: usize, hit: bool }
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 { self.hit = true; return Err(std::io::Error::other("planned")) }
        self.left -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn pieces(data: &[u8], part: u64) -> Vec<&[u8]> {
    let mut cuts: Vec<usize> = (0..3).filter(|k| part >> k & 1 == 1).map(|k| (k + 1) * data.len() / 4).collect();
    cuts.push(data.len());
    let mut at = 0;
    cuts.iter().map(|e| { let x = &data[at..*e]; at = *e; x }).collect()
}
/// size: 0 neither known nor told, 1 known and told, 2 known and not told; a block ends at each of the chosen places
fn foreign_zstd(data: &[u8], window_log: u32, checksum: bool, size: usize, part: u64) -> Vec<u8> {
    use std::io::Write;
    let mut e = zstd::Encoder::new(Vec::new(), 3).unwrap();
    e.set_parameter(zstd::zstd_safe::CParameter::WindowLog(window_log)).unwrap();
    e.include_checksum(checksum).unwrap();
    if size > 0 { e.set_pledged_src_size(Some(data.len() as u64)).unwrap() }
    e.include_contentsize(size == 1).unwrap();
    for p in pieces(data, part) { e.write_all(p).unwrap(); e.flush().unwrap(); }
    e.finish().unwrap()
}
fn foreign_brotli(data: &[u8], window: u8, quality: u8, part: u64) -> Vec<u8> {
    use brotlic::*;
    use std::io::Write;
    let o = BrotliEncoderOptions::new().quality(Quality::new(quality).unwrap()).window_size(WindowSize::new(window).unwrap()).build().unwrap();
    let mut w = CompressorWriter::with_encoder(o, Vec::new());
    for p in pieces(data, part) { w.write_all(p).unwrap(); w.flush().unwrap(); }
    w.into_inner().unwrap()
}
