//! Searches for inputs on which upon and the independent reference disagree.
//!   vxr search ID SEED SECONDS OUTDIR   -> summary on stdout; a report in OUTDIR when something is found
//!   vxr one ID CASE                     -> runs a single case
mod diff;
mod gen;
mod refimpl;
mod special;
use gen::{Cfg, Rng};
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
fn cfg(id: &str) -> Cfg {
    let b = Cfg::base();
    match id {
        "C01" => Cfg { odd_text: 12, tiny_syntax: 75, tiny_source: 50, alt_syntax: 60, blocks: 3, depth: 1, templates: 0, ..b },
        "C02" => Cfg { odd_text: 12, tiny_syntax: 20, tiny_source: 20, mutate: 70, alt_syntax: 40, ..b },
        "C03" => Cfg { odd_text: 12, text: 10, emit: 2, comment: 4, trim: 45, mutate: 20, blocks: 5, alt_syntax: 30, tiny_syntax: 15, calls: 5, ..b },
        "C04" => Cfg { mutate: 75, iff: 5, forr: 3, with: 3, text: 2, calls: 3, lits: 40, deep_paths: 5, templates: 0, ..b },
        "C05" => Cfg { iff: 5, forr: 4, with: 3, depth: 4, mutate: 0, calls: 10, good_paths: 97, deep_paths: 20, text: 4, wild: 1, ..b },
        "C06" => Cfg { iff: 3, forr: 4, with: 4, incl: 4, depth: 3, mutate: 3, templates: 3, ..b },
        "C07" => Cfg { with: 6, forr: 5, incl: 4, text: 1, mutate: 0, emit: 6, calls: 8, lits: 12, templates: 3, depth: 4, good_paths: 95, deep_paths: 15, wild: 1, ..b },
        "C08" => Cfg { deep_paths: 65, good_paths: 85, emit: 8, lits: 5, calls: 8, mutate: 3, ..b },
        "C09" => Cfg { big: 4, forr: 9, emit: 5, iff: 3, text: 2, mutate: 0, calls: 6, good_paths: 96, wild: 1, ..b },
        "C10" => Cfg { iff: 9, text: 5, lits: 30, calls: 12, mutate: 0, ..b },
        "C11" => Cfg { wild_lits: 70, lits: 95, calls: 15, iff: 0, forr: 0, with: 1, incl: 0, mutate: 15, templates: 0, blocks: 2, ..b },
        "C12" => Cfg { big: 8, incl: 8, limits: 80, templates: 4, mutate: 0, depth: 2, iff: 1, good_paths: 98, calls: 3, lits: 60, wild: 1, ..b },
        "C13" => Cfg { odd_text: 12, mutate: 60, text: 6, alt_syntax: 30, templates: 3, calls: 30, ..b },
        "C18" => Cfg { odd_text: 12, alt_syntax: 90, tiny_syntax: 25, trim: 30, mutate: 25, templates: 1, ..b },
        _ => b,
    }
}
/// Ok((weight, key)): weight 0 = trivial case; the key identifies the generated case
fn run_case(id: &str, case: u64) -> Result<(usize, u64), String> {
    let mut r = Rng::new(case);
    let gen_share = match id { "C14" => 40, "C15" | "C16" | "C17" => 0, "C18" => 80, _ => 100 };
    if !r.p(gen_share) { return special::run(id, &mut r).map(|w| (w, case)); }
    let c = diff::gen_case(&mut r, &cfg(id));
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    diff::show(&c).hash(&mut h);
    let key = h.finish();
    diff::check(&c, id == "C13").map(|w| (w, key)).map_err(|(_, t)| t)
}
fn report(dir: &str, id: &str, case: u64, text: &str) -> String {
    let path = format!("{dir}/{id}.txt");
    let body = format!("property        {id}\ncase            {case}\nreplay with     vxr one {id} {case}   (built from /verif/replay against /repo)\n\n{text}");
    std::fs::write(&path, &body).unwrap();
    path
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "one" => {
            let (id, case) = (a[2].clone(), a[3].parse().unwrap());
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || std::panic::catch_unwind(|| run_case(&id, case)).unwrap_or_else(|p| Err(format!("panicked: {}", panic_text(p))))).unwrap();
            let t0 = Instant::now();
            while !h.is_finished() {
                if t0.elapsed().as_secs() > 30 { println!("does not terminate"); std::process::exit(1); }
                std::thread::sleep(Duration::from_millis(5));
            }
            match h.join().unwrap() { Ok(_) => println!("agrees"), Err(t) => { println!("{t}"); std::process::exit(1); } }
        }
        "stats" => {
            let mut m = std::collections::BTreeMap::new();
            for i in 0..3000 {
                let c = diff::gen_case(&mut Rng::new(i), &cfg(&a[2]));
                *m.entry(match diff::run_ref(&c).out { diff::Out::Ok(s) if s.len() < 4 => "ok, short".to_string(), diff::Out::Ok(_) => "ok, long".to_string(), diff::Out::Err { stage, kind, .. } => format!("{} {kind}", &stage[..6]), _ => String::new() }).or_insert(0) += 1;
            }
            println!("{} {m:?}", a[2]);
        }
        "time" => {
            let case = diff::gen_case(&mut { let mut r = Rng::new(a[3].parse().unwrap()); r.p(100); r }, &cfg(&a[2]));
            println!("main {} bytes, {} templates, mode {}, limits {:?} {:?}", case.main.len(), case.named.len(), case.mode, case.engine_depth, case.render_depth);
            println!("{:.600}", case.main);
            let t = Instant::now(); let x = diff::run_real(&case); println!("real {:?} {:.300}", t.elapsed(), format!("{x:?}"));
            let t = Instant::now(); let x = diff::run_ref(&case).out; println!("ref {:?} {:.300}", t.elapsed(), format!("{x:?}"));
        }
        "show" => {
            let mut r = Rng::new(a[3].parse().unwrap());
            let c = diff::gen_case(&mut r, &cfg(&a[2]));
            println!("{}reference       {:?}\nreal            {:?}", diff::show(&c), diff::run_ref(&c).out, diff::run_real(&c));
        }
        "work" => work(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        "search" => search(&a[2], &a[3], &a[4], &a[5]),
        _ => std::process::exit(2),
    }
}
const THREADS: u64 = 8;
/// outer process: survives a crash of the worker and finds the case that caused it
fn search(id: &str, seed: &str, secs: &str, dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let me = std::env::current_exe().unwrap();
    let out = std::process::Command::new(&me).args(["work", id, seed, secs, dir]).output().unwrap();
    print!("{}", String::from_utf8_lossy(&out.stdout));
    match out.status.code() {
        Some(c @ (0 | 1)) => std::process::exit(c),
        _ => {
            let b = std::fs::read(format!("{dir}/{id}.cases")).unwrap_or_default();
            for w in b.chunks(8) {
                let case = u64::from_le_bytes(w.try_into().unwrap());
                let one = std::process::Command::new(&me).args(["one", id, &case.to_string()]).output().unwrap();
                if one.status.code() != Some(0) {
                    let what = if one.status.code() == Some(1) { String::from_utf8_lossy(&one.stdout).to_string() } else { format!("the process dies: {:?}\n", one.status) };
                    let mut r = Rng::new(case);
                    let extra = if ["C14", "C15", "C16", "C17"].contains(&id) { String::new() } else { r.p(100); diff::show(&diff::gen_case(&mut r, &cfg(id))) };
                    println!("FOUND {}", report(dir, id, case, &format!("{extra}{what}")));
                    std::process::exit(1);
                }
            }
            println!("CRASH {:?} {}", out.status, String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or(""));
            std::process::exit(3);
        }
    }
}
fn work(id: &str, seed: u64, secs: u64, dir: &str) {
    let found: Arc<Mutex<Option<(u64, String)>>> = Arc::default();
    let stop = Arc::new(AtomicBool::new(false));
    let log = Arc::new(std::fs::File::create(format!("{dir}/{id}.cases")).unwrap());
    let now: Arc<Vec<AtomicU64>> = Arc::new((0..THREADS).map(|_| Default::default()).collect());
    let direct = ["C14", "C15", "C16", "C17"].contains(&id);
    let t0 = Instant::now();
    let mut hs = vec![];
    for t in 0..THREADS {
        let (found, stop, log, now, id) = (found.clone(), stop.clone(), log.clone(), now.clone(), id.to_string());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let (mut n, mut seen) = (0u64, HashSet::new());
            diff::SLOT.set(t as usize);
            let mut i = t;
            while !stop.load(Relaxed) {
                let case = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i)).u() >> 1;
                i += THREADS;
                log.write_all_at(&case.to_le_bytes(), t * 8).unwrap();
                now[t as usize].store(case, Relaxed);
                if direct { diff::mark(diff::ms()); }
                let r = std::panic::catch_unwind(|| run_case(&id, case)).unwrap_or_else(|p| Err(format!("panicked: {}", panic_text(p))));
                diff::mark(0);
                n += 1;
                match r {
                    Ok((w, key)) => { if w > 0 && seen.len() < 2_000_000 { seen.insert(key); } }
                    Err(text) => { let mut f = found.lock().unwrap(); if f.is_none() { *f = Some((case, text)); } stop.store(true, Relaxed); }
                }
            }
            (n, seen)
        }).unwrap());
    }
    let mut hung = None;
    while t0.elapsed().as_secs() < secs && !stop.load(Relaxed) {
        std::thread::sleep(Duration::from_millis(20));
        for (s, b) in now.iter().zip(&diff::SINCE) { let b = b.load(Relaxed); if b > 0 && diff::ms() > b + 25_000 { hung = Some(s.load(Relaxed)); } }
        if hung.is_some() { break; }
    }
    stop.store(true, Relaxed);
    if let Some(case) = hung {
        println!("FOUND {}", report(dir, id, case, "does not terminate within 25 s\n"));
        std::process::exit(1);
    }
    // a case may still be shrinking or stuck
    let t1 = Instant::now();
    while hs.iter().any(|h| !h.is_finished()) && t1.elapsed().as_secs() < 30 { std::thread::sleep(Duration::from_millis(10)); }
    if let Some(k) = hs.iter().enumerate().position(|(k, h)| !h.is_finished() && diff::SINCE[k].load(Relaxed) > 0) {
        let f = found.lock().unwrap().take();
        let (case, text) = f.unwrap_or((now[k].load(Relaxed), "does not terminate within 30 s\n".into()));
        println!("FOUND {}", report(dir, id, case, &text));
        std::process::exit(1);
    }
    let (mut n, mut w) = (0, HashSet::new());
    for h in hs { if !h.is_finished() { continue; } let (a, b) = h.join().unwrap(); n += a; w.extend(b); }
    println!("EVALUATIONS {n} NONTRIVIAL {}", w.len());
    for k in 0..3u64 {
        let case = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k)).u() >> 1;
        println!("SAMPLE {case}");
    }
    let f = found.lock().unwrap().take();
    if let Some((case, text)) = f { println!("FOUND {}", report(dir, id, case, &text)); std::process::exit(1); }
}
