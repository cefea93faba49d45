//! P15: shared and repeated content is found. Every case knows which bytes of its target are new;
//! the patch may take those, an allowance per edit, and the framing.
use super::p01_encode::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use std::sync::Arc;

/// allowance per piece that has to be referred to or spelled out
const EDIT: usize = 16;
const FRAME: usize = 16;

fn lev(l: usize, trgt: bool, src: bool) -> Cfg {
    let mut c = Cfg::level(l, trgt);
    if !src { c = c.no_src() }
    c
}
struct Case { trgt: Vec<u8>, fresh: usize, pieces: usize }
fn check(src: Option<&[u8]>, k: &Case, cfg: &Cfg, label: &'static str, c: &mut Ctx) -> Result<(), String> {
    // one reference per 65535 bytes copied
    let pieces = k.pieces + k.trgt.len() / 65535;
    let sects = k.trgt.len() / cfg.size.clamp(65535, MAXW as usize) + 1;
    let bound = k.fresh + pieces * EDIT + FRAME * sects;
    let n = crate::sut::encode(src, &k.trgt, &cfg.make()).map(|p| p.len()).unwrap_or(0);
    c.max(label, ((n as i64 - k.fresh as i64 - (FRAME * sects) as i64) * 10) / pieces.max(1) as i64);
    decide(Which::Size, src, &k.trgt, cfg, Some(bound), c)
}

/// Like `check` for a family of cases, where the sampling of the source may miss a piece now and then:
/// what is spent above the bounds may be at most `share` percent of the whole family's targets.
fn check_all(src: Option<&[u8]>, ks: impl Iterator<Item = Case>, cfg: &Cfg, share: usize, label: &'static str, c: &mut Ctx) -> Result<(), String> {
    let (mut total, mut over, mut worst) = (0usize, 0usize, (0usize, vec![]));
    for k in ks {
        let sects = k.trgt.len() / cfg.size.clamp(65535, MAXW as usize) + 1;
        let bound = k.fresh + (k.pieces + k.trgt.len() / 65535) * EDIT + FRAME * sects;
        let n = decide_size(src, &k.trgt, cfg, c)?;
        total += k.trgt.len();
        let o = n.saturating_sub(bound);
        over += o;
        if o > worst.0 { worst = (o, k.trgt) }
    }
    c.max(label, (over * 1000 / total.max(1)) as i64);
    if over * 100 > total * share {
        return Err(format!("{over} bytes are spent above the bounds on a family of targets of {total} bytes together (allowed: {share}%); worst: {} bytes on target {} under {cfg:?}", worst.0, crate::sut::abbrev(&worst.1)));
    }
    Ok(())
}
fn decide_size(src: Option<&[u8]>, trgt: &[u8], cfg: &Cfg, c: &mut Ctx) -> Result<usize, String> {
    decide(Which::Size, src, trgt, cfg, None, c)?;
    crate::sut::encode(src, trgt, &cfg.make()).map(|p| p.len()).map_err(|e| e.to_string())
}

pub fn p15(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // ------------------------------------------------ edit scripts against a source
    let b: Arc<Vec<Vec<u8>>> = Arc::new((0..4).map(|k| noise(900 + k, 700)).collect());
    let src: Arc<Vec<u8>> = Arc::new(b.concat());
    let depth = t.pick(4, 5);
    let s = Seqs { k: 9, max: depth };
    let (b1, s1) = (b.clone(), src.clone());
    v.push(space("block-moves", s.total() * 20, move |i, c| {
        let q = s.get(i / 20);
        let mut k = Case { trgt: vec![], fresh: 0, pieces: 0 };
        for (j, d) in q.iter().enumerate() {
            k.pieces += 1;
            match d {
                0..=3 => k.trgt.extend_from_slice(&b1[*d]),
                4 => k.trgt.extend_from_slice(&b1[0][..350]),
                5 => k.trgt.extend_from_slice(&b1[2][350..]),
                6 => { k.trgt.extend(noise(950 + j as u64, 30)); k.fresh += 30 }
                7 => { k.trgt.push(b'!'); k.fresh += 1 }
                _ => k.trgt.extend(vec![b'z'; 200]),
            }
        }
        let l = (i % 10) as usize;
        check(Some(&s1), &k, &lev(l, i / 10 % 2 == 1, true), "bytes per ten edits, block moves", c)
    }));
    // blocks of the source with short things between and around them
    let sh: Arc<Vec<u8>> = Arc::new(noise(930, 1000));
    let lazies = [None, Some(0), Some(4), Some(12), Some(45)];
    for (name, depth, nc) in [("short-pieces", 3, 4 * 5 * 2 * 2u64), ("short-pieces/deep", t.pick(4, 5), 8)] {
        let s = Seqs { k: 12, max: depth };
        let sh = sh.clone();
        v.push(space(name, s.total() * nc, move |i, c| {
            let d = Radix(if nc == 8 { vec![2, 2, 2, 1] } else { vec![4, 5, 2, 2] }).get(i % nc);
            let mut k = Case { trgt: vec![], fresh: 0, pieces: 0 };
            for (j, x) in s.get(i / nc).iter().enumerate() {
                k.pieces += 1;
                let f: Vec<u8> = match x {
                    0 => { k.trgt.extend_from_slice(&sh[100..400]); continue }
                    1 => { k.trgt.extend_from_slice(&sh[500..800]); continue }
                    2..=4 => noise(940 + j as u64, [1, 3, 8][*x - 2]),
                    5..=8 => vec![b'z'; [4, 6, 8, 11][*x - 5]],
                    // words that come again
                    9 => b"repeat".to_vec(),
                    10 => b"nine byte".to_vec(),
                    _ => sh[450..462].to_vec(),
                };
                k.fresh += f.len();
                k.trgt.extend(f);
            }
            let mut cfg = if nc == 8 { lev([0, 9][d[0]], d[2] == 1, true) } else { lev([0, 3, 6, 9][d[0]], d[2] == 1, true) };
            cfg.lazy = if nc == 8 { [None, Some(4)][d[1]] } else { lazies[d[1]] };
            cfg.naive = d[3] == 1;
            check(Some(&sh), &k, &cfg, "bytes per ten edits, short pieces", c)
        }));
    }
    // every single edit of a source, at every position, at every level
    let base: Arc<Vec<u8>> = Arc::new(noise(960, 800));
    let (b2, b3) = (base.clone(), base.clone());
    v.push(space("single-edits", 5 * 20, move |i, c| {
        let d = Radix(vec![20, 5]).get(i);
        let l = d[0] % 10;
        let short = 2 * reach(l);
        let b = &b2;
        let it = (0..=800usize).map(|p| {
            let mut tr = b.to_vec();
            let mut fresh = 0;
            match d[1] {
                0 => { tr.insert(p, b'!'); fresh = 1 }
                1 => { let p = p.min(799); tr.remove(p); }
                2 => { let p = p.min(799); tr[p] ^= 0x20; fresh = 1 }
                3 => { tr.splice(p..p, noise(961, 25)); fresh = 25 }
                _ => { tr.drain(p..(p + 25).min(800)); }
            }
            // what is left on either side of the edit may be too short to be found
            if p < short { fresh += p }
            if 800 - p < short { fresh += 800 - p }
            Case { trgt: tr, fresh, pieces: 3 }
        });
        check_all(Some(b), it, &lev(l, d[0] >= 10, true), 7, "permille over, single edits", c)
    }));
    // pairs of edits on a grid
    v.push(space("edit-pairs", 9 * 4, move |i, c| {
        let d = Radix(vec![4, 3, 3]).get(i);
        let l = [0, 3, 6, 9][d[0]];
        let short = 2 * reach(l);
        let b = &b3;
        let it = (0..41 * 41usize).filter(|g| g % 41 < g / 41).map(|g| {
            let (p, q) = (g % 41 * 20, g / 41 * 20);
            let mut tr = b.to_vec();
            let mut fresh = 0;
            for (pos, kind) in [(q, d[1]), (p, d[2])] {
                match kind { 0 => { tr.insert(pos, b'!'); fresh += 1 } 1 => { tr.drain(pos..(pos + 5).min(800)); } _ => { let e = (pos + 3).min(800); tr.splice(pos..e, noise(962, 7)); fresh += 7 } }
            }
            if q - p < short { fresh += q - p }
            if p < short { fresh += p }
            if 800 - q < short { fresh += 800 - q }
            Case { trgt: tr, fresh, pieces: 4 }
        });
        check_all(Some(b), it, &lev(l, false, true), 1, "permille over, edit pairs", c)
    }));
    // identity, prefix, suffix and doubling for every small length
    v.push(space("whole-files", t.pick(3, 8) * 5 * 20, |i, c| {
        let d = Radix(vec![20, 5]).get(i);
        let (l, tm) = (d[0] % 10, d[0] >= 10);
        let short = 2 * reach(l);
        let f = |m: usize| if m < short { m } else { 0 };
        for n in (i / 100 * 500 + 1) as usize..(i / 100 * 500 + 501) as usize {
            let s = noise(970, n);
            let k = match d[1] {
                0 => Case { trgt: s.clone(), fresh: f(n), pieces: 1 },
                1 => Case { trgt: s[..n / 2].to_vec(), fresh: f(n / 2), pieces: 1 },
                2 => Case { trgt: s[n.min(5)..].to_vec(), fresh: f(n - n.min(5)), pieces: 1 },
                3 => Case { trgt: s.repeat(2), fresh: 2 * f(n), pieces: 2 },
                _ => Case { trgt: [&noise(971, 40)[..], &s].concat(), fresh: 40 + f(n), pieces: 2 },
            };
            check(Some(&s), &k, &lev(l, tm, true), "bytes per ten edits, whole files", c)?;
        }
        Ok(())
    }));
    // every second half, third and so on of a source
    v.push(space("suffixes", 20 * 6, |i, c| {
        let d = Radix(vec![20, 6]).get(i);
        let n = [1000usize, 1100, 2047, 2500, 5000, 8191][d[1]];
        let l = d[0] % 10;
        let s = noise(972, n);
        check_all(Some(&s), (1..n / 20).map(|x| n - x * 20).map(|at| Case { trgt: s[at..].to_vec(), fresh: if n - at < 60 * (reach(l) - 20) { n - at } else { 0 }, pieces: 1 }), &lev(l, d[0] >= 10, true), 1, "permille over, suffixes", c)
    }));
    // unrelated content costs its length
    v.push(space("unrelated", 600 * 20, |i, c| {
        let n = [1, 7, 130, 997][(i / 20 % 4) as usize] * (i / 80) as usize;
        let k = Case { trgt: noise(980, n), fresh: n, pieces: n / 65535 };
        check(Some(&noise(981, 3000)), &k, &lev((i % 10) as usize, i / 10 % 2 == 1, true), "bytes per ten edits, unrelated", c)
    }));
    // ------------------------------------------------ repetitions inside the target
    let s = Seqs { k: 7, max: t.pick(5, 6) };
    v.push(space("repeats", s.total() * 10, move |i, c| {
        let q = s.get(i / 10);
        let mut k = Case { trgt: vec![], fresh: 0, pieces: 0 };
        let mut seen = [false; 4];
        for (j, d) in q.iter().enumerate() {
            k.pieces += 1;
            match d {
                0..=3 => { let n = [500, 120, 260, 64][*d]; k.trgt.extend(noise(1100 + *d as u64, n)); if !seen[*d] { seen[*d] = true; k.fresh += n } }
                4 => { k.trgt.extend(&noise(1100, 500)[100..420]); if !seen[0] { k.fresh += 320 } }
                5 => { k.trgt.extend(noise(1150 + j as u64, 10)); k.fresh += 10 }
                _ => k.trgt.extend(vec![b'y'; 100]),
            }
        }
        // a part of block 0 seen before the whole of it is only partly new then
        check(None, &k, &lev((i % 10) as usize, true, false), "bytes per ten edits, repeats", c)
    }));
    // a word repeated n times: at most a short reference per repetition
    v.push(space("periodic", 40 * 12 * 10, |i, c| {
        let d = Radix(vec![10, 40, 12]).get(i);
        let (p, n) = (d[1] * 5 + 5, d[2] * 37 + 2);
        let u = noise(1200, p);
        let tr: Vec<u8> = u.iter().copied().cycle().take(p * n).collect();
        let k = Case { trgt: tr, fresh: p, pieces: 2 + n / 2 };
        check(None, &k, &lev(d[0], true, false), "bytes per ten edits, periodic", c)
    }));
    // repeats at larger distances and sizes
    v.push(space("far-repeats", 8 * 10, |i, c| {
        let d = Radix(vec![10, 8]).get(i);
        let n = [2000usize, 20_000, 65_535, 65_536, 100_000, 300_000, 700_000, 1_500_000][d[1]];
        let a = noise(1300, n);
        let tr = [&a[..], b"--", &a].concat();
        let k = Case { trgt: tr, fresh: n + n / 500 + 2, pieces: 3 + n / 20_000 };
        check(None, &k, &lev(d[0], true, false), "bytes per ten edits, far repeats", c)
    }));
    // a block that is repeated after each of its words occurred again elsewhere: the longest of the
    // candidates counts, as many of them as the level looks at (33 at level 9 down to 5 at level 2, and
    // a quarter of these while a match is held)
    v.push(space("decoys", 8 * 7 * 3 * 4 * 3, |i, c| {
        let d = Radix(vec![8, 7, 3, 4, 3]).get(i);
        let (l, rounds) = (d[0] + 2, d[1] + 1);
        if rounds + 1 > ((1 + 32 * l / 9) / 4).max(2) { return Ok(()) }
        let (gap, n) = ([1usize, 5, 17][d[2]], [60usize, 150, 400, 1000][d[3]]);
        let block = noise(1500 + d[4] as u64, n);
        let mut tail = block.clone();
        for r in 0..rounds {
            for at in 0..n - 3 {
                tail.extend(&block[at..at + 4]);
                tail.extend(noise(1600 + (r * 1000 + at) as u64, gap));
            }
        }
        let mut tr = noise(1550, tail.len() + n);
        tr.extend(tail);
        let cfg = lev(l, true, d[4] == 2);
        let once = decide_size(None, &tr, &cfg, c)?;
        tr.extend(&block);
        let sects = tr.len() / MAXW as usize + 1;
        let k = Case { trgt: tr, fresh: once - FRAME * sects, pieces: 4 };
        check(None, &k, &cfg, "bytes per ten edits, decoys", c)
    }));
    // the naive tests: what follows (precedes) the source at the start (end) of the target, with and without source matching
    v.push(space("naive", 10 * 2 * 8 * t.pick(9, 12), move |i, c| {
        let d = Radix(vec![10, 2, 8, t.pick(9, 12)]).get(i);
        let n = [60usize, 120, 200, 333, 1000, 4099, 20_000, 65_535, 70_000, 131_072, 300_000, 1_000_000][d[3]];
        let s = noise(1350, n);
        let (l, sm) = (d[0], d[1] == 1);
        let mut cfg = lev(l, true, sm);
        cfg.naive = true;
        let h = n / 2;
        let (tr, fresh): (Vec<u8>, usize) = match d[2] {
            0 => ([&s[..], b"-", &s[..h]].concat(), 1),
            1 => ([&s[..], b"--+", &s[n / 4..]].concat(), 3),
            2 => ([&s[..], &noise(1351, 100), &s[n / 3..n - n / 8], &noise(1351, 100)].concat(), 100),
            3 => ([&s[..], &s].concat(), 0),
            4 => ([&noise(1351, 100)[..], &s].concat(), 100),
            5 => ([&noise(1351, 100)[..], b"!", &noise(1351, 100), &s].concat(), 101),
            6 => ([&s[..], &vec![7; 500]].concat(), 0),
            _ => ([&vec![7; 500][..], b"abc", &s].concat(), 3),
        };
        // target matching alone looks back from where the naive tests stopped as far as half of what is left
        let (tr, fresh, pieces) = if sm { (tr, fresh, 4) } else {
            let (q, new) = if d[2] % 2 == 0 || n > 150_000 { (n / (4 + d[2]), 3 * (n / (4 + d[2]))) } else { (n / (1 + d[2] / 2), 8 * n) };
            ([&s[..], &noise(1350, 7)[..d[2] % 4], &s[n - q..], &noise(1352, new)].concat(), new + 4 + 40 + n / 300, 4 + n / 20_000 + new / 65535)
        };
        let short = if sm { 2 * reach(l) } else { 0 };
        check(Some(&s), &Case { trgt: tr, fresh: fresh + if n / 3 < short { n } else { 0 }, pieces }, &cfg, "bytes per ten edits, naive tests", c)
    }));
    // ------------------------------------------------ runs
    v.push(space("runs", 3000 * 8, |i, c| {
        let d = Radix(vec![8, 3000]).get(i);
        let n = d[1] + 1;
        let (pre, post) = ([0usize, 3, 40, 0][d[0] % 4], [0usize, 0, 5, 30][d[0] % 4]);
        let tr = [&noise(1400, pre)[..], &vec![0u8; n], &noise(1401, post)].concat();
        let k = Case { trgt: tr, fresh: pre + post, pieces: 2 };
        check(Some(b"unrelated source"), &k, &lev(3, d[0] >= 4, true), "bytes per ten edits, runs", c)
    }));
    v.push(space("long-runs", 9 * 4, |i, c| {
        let n = [3000usize, 60_000, 65_535, 65_536, 131_070, 200_000, 1 << 20, 5_000_000, 20_000_000][(i / 4) as usize];
        let k = Case { trgt: vec![1u8; n], fresh: 0, pieces: 6 };
        check(Some(b"unrelated"), &k, &Cfg { size: if i % 2 == 0 { usize::MAX } else { 100_000 }, ..lev(if i % 4 < 2 { 3 } else { 9 }, i % 4 >= 2, true) }, "bytes per ten edits, long runs", c)
    }));
    // ------------------------------------------------ large sources, windows that slide
    v.push(space("large-sources", t.pick(12, 40), |i, c| {
        let n = [1_500_000usize, 3_000_000][(i % 2) as usize];
        let s = noise(1500 + i, n);
        let gap = [100_000usize, 30_000, 250_001][(i / 2 % 3) as usize];
        let tr = edit_every(&s, gap);
        let cfg = Cfg { src: Some(([18, 26, 2, 9][(i / 3 % 4) as usize], if i / 6 % 2 == 0 { Some(1 << 20) } else { None })), trgt: if i % 5 == 4 { Some((27, 11, None)) } else { None }, ..PLAIN };
        let k = Case { trgt: tr, fresh: n / gap + 1, pieces: 2 * (n / gap + 1) };
        check(Some(&s), &k, &cfg, "bytes per ten edits, large sources", c)
    }));
    // pieces taken from all over a source, in orders that no window follows, for sources of every size
    // below that of the default window
    let sizes: Vec<usize> = t.pick(vec![70_000, 300_000, 1_100_000, 2_500_000, 4_300_000, 6_000_000, 9_000_000, 17_000_000], vec![70_000, 300_000, 1_100_000, 2_500_000, 4_300_000, 6_000_000, 9_000_000, 17_000_000, 30_000_000, 34_000_000, 50_000_000, 66_000_000]);
    v.push(space("scattered-pieces", sizes.len() as u64 * 3 * 3 * 5, move |i, c| {
        let d = Radix(vec![5, 3, 3, sizes.len() as u64]).get(i);
        let l = [0, 2, 4, 7, 9][d[0]];
        // the table may hold as few as one of seven positions
        let (n, len) = (sizes[d[3]], [40 * reach(l) - 780, 3000, 10_000][d[2]]);
        let s = noise(1600 + d[3] as u64, n);
        let m = 60usize.min(n / len);
        let mut tr = vec![];
        for j in 0..m {
            let j = match d[1] { 0 => m - 1 - j, 1 => j * 7 % m, _ => [j / 2, m - 1 - j / 2][j % 2] };
            let at = j * (n / m) + j * 13 % 97 % (n / m - len + 1);
            tr.extend_from_slice(&s[at..at + len]);
        }
        let k = Case { trgt: tr, fresh: 0, pieces: 2 * m };
        check(Some(&s), &k, &lev(l, (i / 15 + i) % 2 == 1, true), "bytes per ten edits, scattered pieces", c)
    }));
    // ------------------------------------------------ nothing expands
    let s = Strings::new(b"ab", t.pick(10, 13));
    v.push(space("tiny", s.total() * 11 * MATCHERS, move |i, c| {
        let cfg = matcher((i % MATCHERS) as usize);
        let i = i / MATCHERS;
        let trgt = s.get(i / 11);
        let src = related(&trgt, (i % 11) as usize);
        decide(Which::Size, src.as_deref(), &trgt, &cfg, None, c)
    }));
    let s = Strings::new(b"abc", t.pick(7, 9));
    v.push(space("tiny-3", s.total() * MATCHERS, move |i, c| {
        let trgt = s.get(i / MATCHERS);
        decide(Which::Size, Some(b"abcabcacbacb"), &trgt, &matcher((i % MATCHERS) as usize), None, c)
    }));
    v
}
/// content shorter than this on its own may be missed at a level: the step between hashed source
/// positions (26 at level 0 down to 2 at level 9), plus the hash, plus the end of the source that is not hashed
pub fn reach(level: usize) -> usize { 26 - 24 * level / 9 + 20 }
