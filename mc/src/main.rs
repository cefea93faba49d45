//! smc: bounded exhaustive model checking of the smdiff crates against an independent model of the format.
mod alloc;
mod clock;
mod engine;
mod gen;
mod model;
mod step;
mod props;
mod sut;
mod vcd;
mod vio;

use engine::*;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

struct Args { tier: Tier, seed: u64, root: String, rest: Vec<String> }
fn args() -> Args {
    let mut a = Args {
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        root: "/verif".into(),
        rest: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.tier = if it.next().as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
            "--seed" => a.seed = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            "--root" => a.root = it.next().unwrap(),
            _ => a.rest.push(x),
        }
    }
    a
}

/// The code under test may print; its standard output goes to an unlinked scratch file so that it can
/// neither fake nor hide a verdict line. Returns the real stdout.
fn divert_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let saved = libc::dup(1);
        let mut tmpl = *b"/tmp/smc-out-XXXXXX\0";
        let fd = libc::mkstemp(tmpl.as_mut_ptr() as *mut libc::c_char);
        assert!(fd >= 0);
        libc::unlink(tmpl.as_ptr() as *const libc::c_char);
        libc::dup2(fd, 1);
        libc::close(fd);
        std::fs::File::from_raw_fd(saved)
    }
}
/// Bytes the code under test has written to standard output so far.
pub fn stdout_len() -> u64 {
    unsafe { libc::lseek(1, 0, libc::SEEK_END).max(0) as u64 }
}

fn write_replay(root: &str, id: &str, tier: Tier, v: &Violation) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let safe: String = v.space.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let p = format!("{dir}/{id}-{safe}-{}.json", v.index);
    let t = if tier.thorough() { "thorough" } else { "quick" };
    let s = format!("{{\"property\": {}, \"tier\": {}, \"space\": {}, \"index\": {}, \"message\": {}, \"run\": {}}}\n",
        js(id), js(t), js(&v.space), v.index, js(&v.msg), js(&format!("/verif/check.sh replay {p}")));
    let _ = std::fs::write(&p, s);
    p
}
fn jget(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{k}\":"))? + k.len() + 3;
    let r = s[i..].trim_start();
    if let Some(r) = r.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c { '"' => return Some(o), '\\' => o.push(it.next()?), c => o.push(c) }
        }
        None
    } else {
        Some(r.chars().take_while(|c| c.is_ascii_digit()).collect())
    }
}

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) })
}

fn worker(a: &Args) -> i32 {
    let prop = find(&a.rest[1]);
    let slots = map_slots(&a.rest[2], false);
    let mut so = divert_stdout();
    install_hook();
    let t0 = Instant::now();
    let known = load_known(&a.root);
    let guard = Arc::new(Mutex::new(()));
    let hang: Arc<dyn Fn(Violation) + Send + Sync> = {
        let (g, root, tier, id) = (guard.clone(), a.root.clone(), a.tier, prop.id);
        let so = Mutex::new(so.try_clone().unwrap());
        Arc::new(move |v: Violation| {
            let _g = g.lock().unwrap();
            let p = write_replay(&root, id, tier, &v);
            let mut so = so.lock().unwrap();
            let _ = writeln!(so, "  {}#{}: {}\nVIOLATION property={} replay={}", v.space, v.index, v.msg, id, p);
            let _ = so.flush();
            unsafe { libc::_exit(1) }
        })
    };
    // building the spaces runs code under test too (baselines, fixtures)
    let out = match catch(|| run(prop, a.tier, slots, &known, hang)) {
        Ok(o) => o,
        Err(m) => RunOut { ctx: Ctx::default(), violations: vec![Violation { space: "(construction)".into(), index: 0, msg: m }],
            known_hits: Default::default(), per_space: vec![], planned: 0, executed: 0 },
    };
    let _g = guard.lock().unwrap();
    write_evidence(&a.root, prop, a.tier, a.seed, &out, t0.elapsed().as_secs_f64());
    for (i, k) in known.iter().enumerate() {
        if k.prop != prop.id { continue }
        match out.known_hits.get(&i) {
            Some((n, ex)) => { let _ = writeln!(so, "KNOWN-FINDING: property={} {} [{} case(s), e.g. {}]", k.prop, k.text, n, ex); }
            None if out.violations.is_empty() => { let _ = writeln!(so, "note: listed finding for {} did not show in this run: {}", k.prop, k.text); }
            None => {}
        }
    }
    let _ = writeln!(so, "{}: {} spaces, {} of {} cases, {} executions, {} distinct states, {} transitions, {:.1}s", prop.id, out.per_space.len(),
        out.executed, out.planned, out.ctx.evals, out.ctx.states.len(), out.ctx.transitions, t0.elapsed().as_secs_f64());
    if out.violations.is_empty() {
        return 0;
    }
    let v = &out.violations[0];
    let p = write_replay(&a.root, prop.id, a.tier, v);
    let mut m = v.msg.clone();
    if m.len() > 1500 { let mut k = 1500; while !m.is_char_boundary(k) { k -= 1 } m.truncate(k) }
    let _ = writeln!(so, "  {}#{}: {}\nVIOLATION property={} replay={}", v.space, v.index, m, prop.id, p);
    1
}

fn case(id: &str, tier: Tier, space: &str, index: u64) -> i32 {
    let prop = find(id);
    let mut so = divert_stdout();
    install_hook();
    let r = catch(|| {
        let spaces = (prop.spaces)(tier);
        let Some(sp) = spaces.iter().find(|s| s.name == space) else { return Err(format!("no such space: {space}")) };
        let mut ctx = Ctx { want_sample: true, ..Default::default() };
        std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
                let r = run_one(sp, index, &mut ctx);
                for s in &ctx.samples { eprintln!("case: {s}") }
                r
            }).unwrap().join().unwrap()
        })
    });
    let r = match r { Ok(r) => r, Err(e) => Err(e) };
    match r {
        Ok(()) => { let _ = writeln!(so, "holds: {id} {space}#{index}"); 0 }
        Err(m) => { let _ = writeln!(so, "fails: {id} {space}#{index}: {m}"); 1 }
    }
}

/// Supervisor: runs the exploration in a child process, so that an abort or crash of the code under
/// test becomes a verdict about the case that was running.
fn check(a: &Args) -> i32 {
    let id = a.rest[1].clone();
    let prop = find(&id);
    let t0 = Instant::now();
    let slotfile = format!("/tmp/smc-slots-{}-{}", id, std::process::id());
    let slots = map_slots(&slotfile, true);
    let exe = std::env::current_exe().unwrap();
    let tier = if a.tier.thorough() { "thorough" } else { "quick" };
    let st = std::process::Command::new(&exe).args(["worker", &id, &slotfile, "--tier", tier, "--seed", &a.seed.to_string(), "--root", &a.root]).status();
    let _ = std::fs::remove_file(&slotfile);
    let st = match st { Ok(s) => s, Err(e) => { eprintln!("cannot run worker: {e}"); return 2 } };
    match st.code() {
        Some(0) => return 0,
        Some(1) => return 1,
        _ => {}
    }
    eprintln!("worker ended abnormally ({:?}, signal {:?}); attributing", st.code(), st.signal());
    let spaces = match catch(|| (prop.spaces)(a.tier)) { Ok(s) => s, Err(_) => vec![] };
    for s in slots {
        if s.active.load(std::sync::atomic::Ordering::SeqCst) != 1 { continue }
        let (si, ix) = (s.space.load(std::sync::atomic::Ordering::SeqCst) as usize, s.index.load(std::sync::atomic::Ordering::SeqCst));
        let Some(sp) = spaces.get(si) else { continue };
        let o = std::process::Command::new(&exe).args(["case", &id, &sp.name, &ix.to_string(), "--tier", tier, "--root", &a.root]).output();
        let Ok(o) = o else { continue };
        if o.status.code() == Some(0) { continue }
        let v = Violation { space: sp.name.clone(), index: ix, msg: format!("process ended abnormally (code {:?}, signal {:?}): {}", o.status.code(), o.status.signal(), String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or("")) };
        let p = write_replay(&a.root, &id, a.tier, &v);
        let out = RunOut { ctx: Ctx::default(), violations: vec![Violation { space: v.space.clone(), index: ix, msg: v.msg.clone() }], known_hits: Default::default(), per_space: vec![], planned: 0, executed: 0 };
        write_evidence(&a.root, prop, a.tier, a.seed, &out, t0.elapsed().as_secs_f64());
        println!("  {}#{}: {}\nVIOLATION property={} replay={}", v.space, v.index, v.msg, id, p);
        return 1;
    }
    eprintln!("the abnormal end could not be attributed to a case");
    3
}

fn main() {
    let a = args();
    let code = match a.rest.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("worker") => worker(&a),
        Some("case") => case(&a.rest[1], a.tier, &a.rest[2], a.rest[3].parse().unwrap()),
        Some("replay") => {
            let s = std::fs::read_to_string(&a.rest[1]).expect("replay file");
            let tier = if jget(&s, "tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            case(&jget(&s, "property").unwrap(), tier, &jget(&s, "space").unwrap(), jget(&s, "index").unwrap().parse().unwrap())
        }
        Some("ops") => { let mut so = divert_stdout(); install_hook(); props::p08_io::ops_cmd(&a.rest[1], &mut so); 0 }
        Some("list") => { for p in props::ALL { println!("{}", p.id) } 0 }
        _ => { eprintln!("usage: smc check|case|replay|list"); 2 }
    };
    std::process::exit(code);
}
