mod m;
mod rng;
#[macro_use]
mod ctx;
mod geo;
mod world;
mod crowd;
mod props;

use ctx::*;
use rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

const CPU_LIMIT_S: f64 = 60.0;

fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
fn case_rng(seed: u64, id: &str, case: u64) -> Rng { Rng::new(mix(seed ^ fnv(id)) ^ mix(case.wrapping_mul(0x9e3779b97f4a7c15))) }

enum Outcome { Ok, Viol(String), Harness(String) }

fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, case: u64) -> Outcome {
    ctx.case = case;
    ctx.log.clear();
    *LAST_PANIC.lock().unwrap() = None;
    let mut rng = case_rng(seed, p.id, case);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (p.run)(ctx, &mut rng)));
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => Outcome::Viol(m),
        Err(_) => {
            let (file, msg) = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or((String::new(), "?".into()));
            if file.starts_with("src/") || file.contains("harness/src") || file.is_empty() {
                Outcome::Harness(format!("harness panicked: {} {}", file, msg))
            } else {
                Outcome::Viol(format!("the library panicked in valid use: {} at {}", msg, file))
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o
}
fn line(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n") }
fn unline(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some(x) => o.push(x), None => {} } } else { o.push(c) } }
    o
}

fn worker(p: &Prop, thorough: bool, seed: u64, k: u64, n: u64, cases: u64, cap: f64, out: &str) {
    let t0 = Instant::now();
    let mut ctx = Ctx::default();
    ctx.thorough = thorough;
    let mut text = String::new();
    let mut viols = 0;
    let mut done = 0u64;
    let prog = std::fs::File::create(format!("{}.prog", out)).unwrap();
    let mut case = k;
    while case < cases {
        if t0.elapsed().as_secs_f64() > cap { let _ = writeln!(text, "CAPPED"); break; }
        use std::os::unix::fs::FileExt;
        let _ = prog.write_at(&case.to_le_bytes(), 0);
        match run_case(p, &mut ctx, seed, case) {
            Outcome::Ok => {}
            Outcome::Viol(m) => {
                viols += 1;
                let _ = writeln!(text, "VIOL {} {}\u{1}{}", case, line(&m), line(&ctx.log.join("\n")));
            }
            Outcome::Harness(m) => { let _ = writeln!(text, "HERR {} {}", case, line(&m)); viols += 1; }
        }
        done += 1;
        case += n;
        if viols >= 3 { break; }
    }
    for (k, v) in &ctx.counts { let _ = writeln!(text, "COUNT {} {}", v, k); }
    for (k, v) in &ctx.maxima { let _ = writeln!(text, "MAX {} {}", v, k); }
    for s in &ctx.samples { let _ = writeln!(text, "SAMPLE {}", line(s)); }
    for h in &ctx.hashes { let _ = writeln!(text, "HASH {:x}", h); }
    let _ = writeln!(text, "CASES {}", done);
    let _ = writeln!(text, "DONE");
    std::fs::write(out, text).unwrap();
}

fn cpu_s(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 14 { return 0.0; }
    (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
}

fn known_findings(root: &str, id: &str) -> Vec<String> {
    // lines: "property=C01 sig=<text contained in the violation message>"; "fixed:" lines suppress nothing
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    t.lines().filter(|l| l.starts_with(&format!("property={} sig=", id))).map(|l| l.splitn(2, "sig=").nth(1).unwrap().to_string()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|info| {
        let file = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or("?".into());
        if let Ok(mut g) = LAST_PANIC.lock() { if g.is_none() { *g = Some((file, msg)); } }
    }));
    let all = props::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => { for p in &all { println!("{}", p.id); } }
        Some("worker") => {
            let p = all.iter().find(|p| p.id == args[2]).unwrap();
            worker(p, args[3] == "thorough", args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap(), args[7].parse().unwrap(), args[8].parse().unwrap(), &args[9]);
        }
        Some("case") => {
            // mon case ID TIER SEED CASE: verbose re-run of one case, on stderr
            let p = all.iter().find(|p| p.id == args[2]).unwrap();
            let mut ctx = Ctx::default();
            ctx.thorough = args[3] == "thorough";
            ctx.verbose = true;
            let o = run_case(p, &mut ctx, args[4].parse().unwrap(), args[5].parse().unwrap());
            eprintln!("counts: {:?}", ctx.counts);
            match o {
                Outcome::Ok => { eprintln!("HELD"); }
                Outcome::Viol(m) => { eprintln!("VIOLATED: {}", m); std::process::exit(1); }
                Outcome::Harness(m) => { eprintln!("HARNESS: {}", m); std::process::exit(2); }
            }
        }
        Some("run") => std::process::exit(run(&all, &args[2], &args[3], &args[4])),
        _ => { eprintln!("usage: mon run ID TIER ROOT | case ID TIER SEED CASE | list"); std::process::exit(2); }
    }
}

fn run(all: &[Prop], id: &str, tier: &str, root: &str) -> i32 {
    let p = match all.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cases = if thorough { p.thorough } else { p.quick };
    if let Some(c) = std::env::var("MON_CASES").ok().and_then(|s| s.parse().ok()) { cases = c; }
    if let Some(c) = std::env::var("MON_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) { cases = ((cases as f64 * c) as u64).max(1); }
    let cap: f64 = if thorough { 780.0 } else { 240.0 };
    let n: u64 = std::env::var("MON_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let scratch = format!("{}/target/run-{}-{}", root, id, std::process::id());
    let _ = std::fs::create_dir_all(&scratch);
    let _ = std::fs::create_dir_all(format!("{}/evidence/replays", root));
    let mut kids = Vec::new();
    for k in 0..n {
        let out = format!("{}/w{}", scratch, k);
        let c = Command::new(&exe)
            .args(&["worker", id, tier, &seed.to_string(), &k.to_string(), &n.to_string(), &cases.to_string(), &cap.to_string(), &out])
            .stdout(Stdio::null()).stderr(Stdio::null()).stdin(Stdio::null()).spawn().unwrap();
        kids.push((c, out, u64::MAX, 0.0f64, false, None::<String>));
    }
    let mut trouble: Vec<(u64, String, bool)> = Vec::new(); // (case, message, is a hang or crash of the code under test)
    loop {
        let mut alive = false;
        for (c, out, last, cpu0, finished, _note) in kids.iter_mut() {
            if *finished { continue; }
            let cur = std::fs::read(format!("{}.prog", out)).ok().and_then(|b| if b.len() >= 8 { let mut a = [0u8; 8]; a.copy_from_slice(&b[..8]); Some(u64::from_le_bytes(a)) } else { None }).unwrap_or(u64::MAX);
            match c.try_wait() {
                Ok(Some(st)) => {
                    *finished = true;
                    if !std::path::Path::new(out.as_str()).exists() {
                        // a signal other than a kill from outside is the code under test crashing (abort, stack overflow)
                        let sig = std::os::unix::process::ExitStatusExt::signal(&st);
                        trouble.push((cur, format!("worker ended abnormally ({}) in case {}", st, cur), match sig { Some(9) | Some(15) | None => false, _ => true }));
                    }
                }
                _ => {
                    alive = true;
                    let cpu = cpu_s(c.id());
                    if cur != *last { *last = cur; *cpu0 = cpu; }
                    else if cpu - *cpu0 > CPU_LIMIT_S {
                        let _ = c.kill();
                        let _ = c.wait();
                        *finished = true;
                        trouble.push((cur, format!("a call did not return within {} s of CPU time in case {}", CPU_LIMIT_S, cur), true));
                    }
                }
            }
        }
        if !alive { break; }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, f64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples = Vec::new();
    let mut viols: Vec<(u64, String, String)> = Vec::new();
    let mut herr = Vec::new();
    let mut done = 0u64;
    let mut capped = false;
    for (_, out, ..) in &kids {
        let t = std::fs::read_to_string(out).unwrap_or_default();
        for l in t.lines() {
            let mut it = l.splitn(3, ' ');
            match it.next().unwrap_or("") {
                "COUNT" => { let v: u64 = it.next().unwrap().parse().unwrap(); *counts.entry(it.next().unwrap().to_string()).or_insert(0) += v; }
                "MAX" => { let v: f64 = it.next().unwrap().parse().unwrap(); let e = maxima.entry(it.next().unwrap().to_string()).or_insert(v); if v > *e { *e = v } }
                "SAMPLE" => { if samples.len() < 4 { samples.push(unline(&l[7..])); } }
                "HASH" => { if let Ok(h) = u64::from_str_radix(it.next().unwrap(), 16) { hashes.insert(h); } }
                "CASES" => { done += it.next().unwrap().parse::<u64>().unwrap(); }
                "VIOL" => {
                    let c: u64 = it.next().unwrap().parse().unwrap();
                    let rest = it.next().unwrap_or("");
                    let mut parts = rest.splitn(2, '\u{1}');
                    viols.push((c, unline(parts.next().unwrap_or("")), unline(parts.next().unwrap_or(""))));
                }
                "HERR" => herr.push(unline(&l[5..])),
                "CAPPED" => capped = true,
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let mut inconclusive: Vec<String> = herr.clone();
    for (case, msg, hang) in trouble {
        if hang && p.hang_violates { viols.push((case, msg, String::new())); } else { inconclusive.push(msg); }
    }
    let known = known_findings(root, id);
    let mut known_hit: Vec<String> = Vec::new();
    let mut real: Vec<(u64, String, String)> = Vec::new();
    viols.sort();
    for v in viols {
        if let Some(k) = known.iter().find(|k| v.1.contains(k.as_str())) { if !known_hit.contains(k) { known_hit.push(k.clone()); } } else { real.push(v); }
    }
    if real.is_empty() {
        for (k, per1000) in p.min {
            let need = per1000 * done / 1000;
            let have = counts.get(*k).cloned().unwrap_or(0);
            if have < need { inconclusive.push(format!("coverage too thin: {} = {} < {}", k, have, need)); }
        }
        if done == 0 || hashes.is_empty() { inconclusive.push("nothing was observed".into()); }
    }
    // evidence
    let mut e = String::new();
    let _ = write!(e, "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [", id, tier, seed, done, hashes.len(), esc(p.rule));
    for (i, s) in samples.iter().enumerate() { let _ = write!(e, "{}\n   \"{}\"", if i > 0 { "," } else { "" }, esc(s)); }
    let _ = write!(e, "\n  ],\n  \"observed\": {{");
    for (i, (k, v)) in counts.iter().enumerate() { let _ = write!(e, "{}\n   \"{}\": {}", if i > 0 { "," } else { "" }, esc(k), v); }
    let _ = write!(e, "\n  }},\n  \"largest_deviation_seen\": {{");
    for (i, (k, v)) in maxima.iter().enumerate() { let _ = write!(e, "{}\n   \"{}\": {}", if i > 0 { "," } else { "" }, esc(k), if v.is_finite() { format!("{:e}", v) } else { "null".into() }); }
    let _ = write!(e, "\n  }},\n  \"stopped_by_time_cap\": {}\n }},\n \"assumptions\": [", capped);
    for (i, s) in p.assume.iter().enumerate() { let _ = write!(e, "{}\n  \"{}\"", if i > 0 { "," } else { "" }, esc(s)); }
    let _ = write!(e, "\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), real.len());
    let _ = std::fs::write(format!("{}/evidence/{}.json", root, id), e);
    for k in &known_hit { println!("KNOWN-FINDING: property={} {}", id, k); }
    println!("{} {}: {} cases, {} distinct non-trivial, {:.1} s", id, tier, done, hashes.len(), t0.elapsed().as_secs_f64());
    for (k, v) in &counts { println!("  {} = {}", k, v); }
    for (k, v) in &maxima { println!("  max {} = {:e}", k, v); }
    if !real.is_empty() {
        for (case, msg, log) in real.iter().take(5) {
            let f = format!("evidence/replays/{}-{}-{}.json", id, seed, case);
            let _ = std::fs::write(format!("{}/{}", root, f), format!("{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"case\": {}, \"message\": \"{}\", \"trace\": \"{}\"}}\n", id, tier, seed, case, esc(msg), esc(log)));
            println!("  case {}: {}", case, msg);
            println!("VIOLATION property={} replay={}", id, f);
        }
        let _ = std::io::stdout().flush();
        return 1;
    }
    if !inconclusive.is_empty() {
        for m in &inconclusive { println!("INCONCLUSIVE: {}", m); }
        return 2;
    }
    0
}
