//! Exhaustive enumeration engine: a property is a list of finite spaces, each a function from an
//! index to one execution (or a group of executions) with its verdict. Every index of every space
//! is run; indices are distributed over threads, and a failing index is its own replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64) } }
    fn write_u64(&mut self, n: u64) { self.0 = n }
}
pub type Set = HashSet<u64, BuildHasherDefault<IdHash>>;
const SET_CAP: usize = 3_000_000;

/// 64-bit mixing hash over byte strings and integers (for counting distinct states only).
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new(tag: u64) -> H { H(0x9E3779B97F4A7C15 ^ tag.wrapping_mul(0xD6E8FEB86659FD93)) }
    pub fn u(mut self, n: u64) -> H {
        let mut z = self.0 ^ n.wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        self.0 = z ^ (z >> 31);
        self
    }
    pub fn b(self, s: &[u8]) -> H {
        let mut h = self.u(s.len() as u64);
        let mut ch = s.chunks_exact(8);
        for c in &mut ch { h = h.u(u64::from_le_bytes(c.try_into().unwrap())) }
        let mut t = 0u64;
        for x in ch.remainder() { t = t << 8 | *x as u64 }
        h.u(t)
    }
}

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
    pub states: Set,
    pub outcomes: Set,
    pub capped: bool,
    pub want_sample: bool,
    pub samples: Vec<String>,
    pub notes: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, i64>,
}
impl Ctx {
    pub fn state(&mut self, h: H) {
        if self.states.len() < SET_CAP { self.states.insert(h.0); } else { self.capped = true }
    }
    pub fn outcome(&mut self, h: H) {
        if self.outcomes.len() < SET_CAP { self.outcomes.insert(h.0); } else { self.capped = true }
    }
    /// one execution of the code under test; `nontrivial` by the property's rule
    pub fn eval(&mut self, nontrivial: bool, outcome: H) {
        self.evals += 1;
        if nontrivial { self.nontrivial += 1; self.outcome(outcome) }
    }
    pub fn notes(&mut self, k: &'static str, n: u64) { *self.notes.entry(k).or_insert(0) += n }
    pub fn note(&mut self, k: &'static str) { *self.notes.entry(k).or_insert(0) += 1 }
    pub fn max(&mut self, k: &'static str, v: i64) { let e = self.maxes.entry(k).or_insert(i64::MIN); *e = v.max(*e) }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample { self.want_sample = false; self.samples.push(f()) }
    }
    fn absorb(&mut self, o: Ctx) {
        self.evals += o.evals;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.nontrivial += o.nontrivial;
        self.capped |= o.capped;
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.samples.extend(o.samples);
        for (k, v) in o.maxes { self.max(k, v) }
        for (k, v) in o.notes { *self.notes.entry(k).or_insert(0) += v }
    }
}

pub type CaseFn = Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync>;
pub struct Space {
    pub name: String,
    pub n: u64,
    pub f: CaseFn,
    pub serial: bool,
}
pub fn space(name: impl Into<String>, n: u64, f: impl Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync + 'static) -> Space {
    Space { name: name.into(), n, f: Box::new(f), serial: false }
}
impl Space { pub fn serial(mut self) -> Self { self.serial = true; self } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level { Exploration, Fault, Model }
pub struct Prop {
    pub id: &'static str,
    pub level: Level,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Space>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn thorough(self) -> bool { self == Tier::Thorough }
    pub fn pick<T>(self, q: T, t: T) -> T { if self.thorough() { t } else { q } }
}

// ---------------------------------------------------------------- panics
thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let mut m = m; m.truncate(400);
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
    }));
}
/// Runs f; a panic becomes Err(description).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

// ---------------------------------------------------------------- shared slots (crash attribution)
pub const NSLOT: usize = 64;
#[repr(C)]
pub struct Slot { pub active: AtomicU64, pub space: AtomicU64, pub index: AtomicU64, pub start_ms: AtomicU64 }
pub fn map_slots(path: &str, create: bool) -> &'static [Slot] {
    let len = NSLOT * std::mem::size_of::<Slot>();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).expect("slots file");
    if create { f.set_len(len as u64).unwrap(); }
    use std::os::fd::AsRawFd;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const Slot, NSLOT)
    }
}

// ---------------------------------------------------------------- known findings
pub struct Known { pub prop: String, pub pat: String, pub text: String }
pub fn load_known(root: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
        for l in s.lines() {
            // known: property=P14 match="substring" text
            if let Some(r) = l.strip_prefix("known: property=") {
                let (prop, rest) = r.split_once(' ').unwrap_or((r, ""));
                if let Some(m) = rest.strip_prefix("match=\"") {
                    if let Some((pat, text)) = m.split_once('"') {
                        v.push(Known { prop: prop.into(), pat: pat.into(), text: text.trim().into() });
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- running
pub struct Violation { pub space: String, pub index: u64, pub msg: String }
pub struct RunOut {
    pub ctx: Ctx,
    pub violations: Vec<Violation>,
    pub known_hits: BTreeMap<usize, (u64, String)>,
    pub per_space: Vec<(String, u64, f64)>,
    pub planned: u64,
    pub executed: u64,
}

pub fn run_one(sp: &Space, i: u64, ctx: &mut Ctx) -> Result<(), String> {
    match catch(|| (sp.f)(i, ctx)) { Ok(r) => r, Err(p) => Err(p) }
}

pub fn run(prop: &Prop, tier: Tier, slots: &'static [Slot], known: &[Known], on_hang: Arc<dyn Fn(Violation) + Send + Sync>) -> RunOut {
    let t0 = Instant::now();
    let limit_ms: u64 = std::env::var("SMC_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(100_000);
    // building the spaces runs code under test too, which may not come back
    let built = Arc::new(AtomicBool::new(false));
    {
        let (built, on_hang) = (built.clone(), on_hang.clone());
        std::thread::spawn(move || {
            while !built.load(SeqCst) {
                if t0.elapsed().as_millis() as u64 > 3 * limit_ms {
                    on_hang(Violation { space: "(construction)".into(), index: 0, msg: format!("no answer within {} ms (hang)", 3 * limit_ms) });
                }
                std::thread::sleep(Duration::from_millis(250));
            }
        });
    }
    let spaces: Arc<Vec<Space>> = Arc::new((prop.spaces)(tier));
    built.store(true, SeqCst);
    let mut out = RunOut { ctx: Ctx::default(), violations: vec![], known_hits: BTreeMap::new(), per_space: vec![], planned: 0, executed: 0 };
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16);
    {
        let spaces = spaces.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = t0.elapsed().as_millis() as u64;
            for s in slots {
                if s.active.load(SeqCst) == 1 {
                    let (sp, ix, st) = (s.space.load(SeqCst), s.index.load(SeqCst), s.start_ms.load(SeqCst));
                    if now.saturating_sub(st) > limit_ms && s.active.load(SeqCst) == 1 && s.index.load(SeqCst) == ix && s.start_ms.load(SeqCst) == st {
                        on_hang(Violation { space: spaces[sp as usize].name.clone(), index: ix, msg: format!("no answer within {limit_ms} ms (hang)") });
                    }
                }
            }
        });
    }
    for (si, sp) in spaces.iter().enumerate() {
        let ts = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let nth = if sp.serial { 1 } else { nthreads.min(sp.n.max(1) as usize) };
        let chunk = (sp.n / (nth as u64 * 64)).clamp(1, 4096);
        let coll: Mutex<(Vec<Ctx>, Vec<Violation>, BTreeMap<usize, (u64, String)>, u64)> = Mutex::new((vec![], vec![], BTreeMap::new(), 0));
        let sample_at = [0u64, sp.n / 2, sp.n.saturating_sub(1)];
        std::thread::scope(|sc| {
            for t in 0..nth {
                let (next, stop, coll, slot) = (&next, &stop, &coll, &slots[t]);
                let known = &known;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut ctx = Ctx::default();
                    let mut viol = vec![];
                    let mut hits: BTreeMap<usize, (u64, String)> = BTreeMap::new();
                    let mut done = 0u64;
                    'o: loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= sp.n { break }
                        for i in a..(a + chunk).min(sp.n) {
                            if stop.load(Relaxed) { break 'o }
                            slot.space.store(si as u64, Relaxed);
                            slot.index.store(i, Relaxed);
                            slot.start_ms.store(t0.elapsed().as_millis() as u64, Relaxed);
                            slot.active.store(1, SeqCst);
                            ctx.want_sample = sample_at.contains(&i);
                            let r = run_one(sp, i, &mut ctx);
                            slot.active.store(0, SeqCst);
                            done += 1;
                            if let Err(msg) = r {
                                if let Some(k) = known.iter().position(|k| k.prop == prop.id && msg.contains(&k.pat)) {
                                    let e = hits.entry(k).or_insert((0, format!("{}#{}: {}", sp.name, i, msg)));
                                    e.0 += 1;
                                    continue;
                                }
                                viol.push(Violation { space: sp.name.clone(), index: i, msg });
                                stop.store(true, Relaxed);
                                break 'o;
                            }
                        }
                    }
                    let mut c = coll.lock().unwrap();
                    c.0.push(ctx);
                    c.1.extend(viol);
                    c.3 += done;
                    for (k, v) in hits { let e = c.2.entry(k).or_insert((0, v.1)); e.0 += v.0; }
                }).expect("thread");
            }
        });
        let (ctxs, mut viol, hits, done) = coll.into_inner().unwrap();
        for c in ctxs { out.ctx.absorb(c) }
        for (k, v) in hits { let e = out.known_hits.entry(k).or_insert((0, v.1)); e.0 += v.0; }
        viol.sort_by_key(|v| v.index);
        out.planned += sp.n;
        out.executed += done;
        out.per_space.push((sp.name.clone(), done, ts.elapsed().as_secs_f64()));
        out.violations.extend(viol);
        if std::env::var("SMC_VERBOSE").is_ok() {
            for (k, m) in &out.ctx.maxes { eprintln!("    max {k}: {m}") }
            eprintln!("[{:7.2}s] {:40} {:>10} cases {:7.2}s", t0.elapsed().as_secs_f64(), sp.name, done, ts.elapsed().as_secs_f64());
        }
        if !out.violations.is_empty() { break }
    }
    out
}

// ---------------------------------------------------------------- json
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_evidence(root: &str, prop: &Prop, tier: Tier, seed: u64, out: &RunOut, wall: f64) {
    let c = &out.ctx;
    let mut s = String::new();
    let lvl = match prop.level { Level::Exploration => "exploration", Level::Fault => "fault_enumeration", Level::Model => "model_checking" };
    s.push_str(&format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n", js(prop.id), js(if tier.thorough() { "thorough" } else { "quick" }), seed, js(lvl)));
    let mut f: Vec<String> = vec![];
    match prop.level {
        Level::Model => {
            f.push(format!("  \"states\": {}", c.states.len()));
            f.push(format!("  \"transitions\": {}", c.transitions));
            f.push(format!("  \"traces_validated_against_impl\": {}", c.traces));
        }
        _ => {
            f.push(format!("  \"evaluations\": {}", c.evals));
            f.push(format!("  \"distinct_nontrivial\": {}", c.outcomes.len()));
        }
    }
    f.push(format!("  \"rule\": {}", js(prop.rule)));
    f.push(format!("  \"exhaustive\": {}", out.executed == out.planned));
    f.push(format!("  \"cases_planned\": {}", out.planned));
    f.push(format!("  \"cases_executed\": {}", out.executed));
    if prop.level == Level::Model {
        if c.evals > 0 { f.push(format!("  \"executions_of_the_code\": {}", c.evals)); }
        if !c.outcomes.is_empty() { f.push(format!("  \"distinct_observed_outcomes\": {}", c.outcomes.len())); }
    } else if c.nontrivial > 0 {
        f.push(format!("  \"nontrivial_evaluations\": {}", c.nontrivial));
    }
    f.push(format!("  \"distinct_sets_capped\": {}", c.capped));
    let mut ps = vec![];
    for (n, k, t) in &out.per_space { ps.push(format!("{{\"space\": {}, \"cases\": {}, \"wall_s\": {:.3}}}", js(n), k, t)) }
    f.push(format!("  \"spaces\": [{}]", ps.join(", ")));
    if !c.maxes.is_empty() {
        let v: Vec<String> = c.maxes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        f.push(format!("  \"maxima\": {{{}}}", v.join(", ")));
    }
    if !c.notes.is_empty() {
        let v: Vec<String> = c.notes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        f.push(format!("  \"counters\": {{{}}}", v.join(", ")));
    }
    let smp: Vec<String> = c.samples.iter().take(60).map(|s| { let mut s = s.clone(); if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k); s.push_str("...") } js(&s) }).collect();
    f.push(format!("  \"samples\": [{}]", smp.join(",\n    ")));
    s.push_str(&f.join(",\n"));
    s.push_str("\n },\n");
    let a: Vec<String> = prop.assumptions.iter().map(|a| js(a)).collect();
    s.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
    s.push_str(&format!(" \"violations\": {},\n \"wall_s\": {:.3}\n}}\n", out.violations.len(), wall));
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{dir}/{}.json.tmp", prop.id);
    let mut fh = std::fs::File::create(&tmp).expect("evidence");
    fh.write_all(s.as_bytes()).unwrap();
    drop(fh);
    std::fs::rename(&tmp, format!("{dir}/{}.json", prop.id)).unwrap();
}
