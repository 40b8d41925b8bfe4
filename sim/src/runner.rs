//! Seeded search over runs: parent and worker processes, minimisation, replay
//! files and the evidence file.

use crate::cx::{mix, Cx, Rng, Viol, R};
use crate::guard;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Cx) -> R,
    /// runs in the quick tier
    pub quick: u64,
    /// executed once per check, before the search: known findings and fixed scenarios
    pub fixed: Option<fn() -> R<Vec<String>>>,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const VERIF: &str = env!("CARGO_MANIFEST_DIR");
fn root() -> String {
    VERIF.trim_end_matches("/sim").to_string()
}
pub const QUICK_CAP: u64 = 150;
pub const THOROUGH_CAP: u64 = 600;
const WORKERS: u64 = 8;

pub fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    let mut h = mix(base);
    for c in id.bytes() {
        h = mix(h ^ c as u64);
    }
    mix(h ^ mix(i))
}

pub struct Done {
    pub cx: Cx,
    pub viol: Option<Viol>,
}
/// One simulated run.
pub fn exec(p: &Prop, mut cx: Cx) -> Done {
    *guard::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut cx)));
    let viol = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let i = guard::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            match i {
                Some(i) if i.in_real => Some(Viol {
                    class: "panic".into(),
                    msg: format!("the code under test panicked at {}: {}", i.place, i.msg),
                }),
                i => Some(Viol { class: "harness-panic".into(), msg: format!("{:?}", i) }),
            }
        }
    };
    Done { cx, viol }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn oneline(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\r' { ' ' } else { c }).collect()
}

/// worker <id> <base> <w> <n> <total> <dir> <cap-secs>
pub fn worker(p: &Prop, base: u64, w: u64, nw: u64, total: u64, dir: &str, cap: u64) -> i32 {
    guard::start_watchdog();
    let cur = fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/{}.cur", dir, w)).unwrap();
    let limit = fs::File::open(format!("{}/limit", dir)).unwrap();
    let t0 = Instant::now();
    let mut pairs: Vec<u8> = Vec::new();
    let mut shapes: std::collections::HashSet<u64> = Default::default();
    let (mut runs, mut nontrivial, mut sim_us, mut events, mut checks, mut nf) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
    let mut code = 0;
    let mut capped = 0;
    let mut i = w;
    while i < total {
        if runs % 16 == 0 && t0.elapsed().as_secs() >= cap {
            capped = 1;
            break;
        }
        let mut b = [0u8; 8];
        if limit.read_at(&mut b, 0).unwrap_or(0) == 8 && u64::from_le_bytes(b) <= i {
            break;
        }
        cur.write_at(&i.to_le_bytes(), 0).unwrap();
        guard::RUN_NO.fetch_add(1, Relaxed);
        let d = exec(p, Cx::from_seed(seed_of(base, p.id, i)));
        runs += 1;
        sim_us += d.cx.sim_us;
        events += d.cx.events;
        checks += d.cx.checks;
        nf += d.cx.nfaults;
        pairs.extend_from_slice(&i.to_le_bytes());
        pairs.extend_from_slice(&d.cx.hash().to_le_bytes());
        let nt = d.cx.nfaults > 0 && d.cx.checks > 0;
        pairs.push(nt as u8);
        nontrivial += nt as u64;
        shapes.insert(d.cx.shape());
        for (k, n) in &d.cx.faults.0 {
            let e = faults.entry(k).or_default();
            e.0 += n;
            e.1 += 1;
        }
        for (k, n) in &d.cx.probes.0 {
            let e = probes.entry(k).or_default();
            e.0 += n;
            e.1 += 1;
        }
        if let Some(v) = d.viol {
            let mut f = fs::File::create(format!("{}/{}.viol", dir, w)).unwrap();
            writeln!(f, "{}\n{}\n{}", i, v.class, oneline(&v.msg)).unwrap();
            let tape: Vec<String> = d.cx.tape.iter().map(|x| x.to_string()).collect();
            writeln!(f, "{}", tape.join(" ")).unwrap();
            let spans: Vec<String> = d.cx.spans.iter().map(|x| format!("{}-{}", x.0, x.1)).collect();
            writeln!(f, "{}", spans.join(" ")).unwrap();
            code = if v.class == "harness-panic" { 2 } else { 1 };
            break;
        }
        i += nw;
    }
    // the reporting below must not count as a hanging run
    guard::RUN_NO.store(0, Relaxed);
    fs::write(format!("{}/{}.pairs", dir, w), &pairs).unwrap();
    let mut sh: Vec<u8> = Vec::new();
    for s in shapes {
        sh.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(format!("{}/{}.shapes", dir, w), &sh).unwrap();
    let mut o = String::new();
    o.push_str(&format!("n {} {} {} {} {} {} {}\n", runs, nontrivial, sim_us, events, checks, nf, capped));
    for (k, (n, r)) in faults {
        o.push_str(&format!("f {} {} {}\n", k, n, r));
    }
    for (k, (n, r)) in probes {
        o.push_str(&format!("p {} {} {}\n", k, n, r));
    }
    fs::write(format!("{}/{}.out", dir, w), o).unwrap();
    code
}

#[derive(Default)]
pub struct Sum {
    pub n: [u64; 7],
    pub faults: BTreeMap<String, (u64, u64)>,
    pub probes: BTreeMap<String, (u64, u64)>,
    pub distinct: u64,
    pub distinct_nontrivial: u64,
    pub shapes: u64,
    pub pairs: Vec<(u64, u64)>,
    /// run index, class, message, tape, spans
    pub viol: Option<Found>,
    pub harness: Option<String>,
    pub wall: f64,
}
#[derive(Default)]
pub struct Found {
    pub i: u64,
    pub class: String,
    pub msg: String,
    pub tape: Option<(Vec<u64>, Vec<(usize, usize)>)>,
    /// seeds of runs to execute first, in the same process, when the code under
    /// test carries state from one run to the next
    pub history: Option<Vec<u64>>,
}

pub fn search(p: &Prop, base: u64, total: u64, nw: u64, cap: u64) -> Sum {
    let dir = format!("{}/target/run-{}-{}", root(), p.id, std::process::id());
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let limit = fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/limit", dir)).unwrap();
    limit.write_at(&u64::MAX.to_le_bytes(), 0).unwrap();
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let mut kids: Vec<(u64, Option<Child>)> = (0..nw)
        .map(|w| {
            let c = Command::new(&exe)
                .args(["worker", p.id, &base.to_string(), &w.to_string(), &nw.to_string(), &total.to_string(), &dir, &cap.to_string()])
                .stdin(Stdio::null())
                .spawn()
                .unwrap();
            (w, Some(c))
        })
        .collect();
    let mut s = Sum::default();
    let mut best: Option<Found> = None;
    let better = |f: Found, best: &mut Option<Found>| {
        if best.as_ref().map_or(true, |b| f.i < b.i) {
            limit.write_at(&f.i.to_le_bytes(), 0).unwrap();
            *best = Some(f);
        }
    };
    while kids.iter().any(|k| k.1.is_some()) {
        for (w, slot) in kids.iter_mut() {
            let st = match slot {
                Some(c) => match c.try_wait().unwrap() {
                    Some(st) => st,
                    None => continue,
                },
                None => continue,
            };
            *slot = None;
            let cur = fs::read(format!("{}/{}.cur", dir, w)).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
            match (st.code(), st.signal()) {
                (Some(0), _) => {}
                (Some(1), _) | (Some(2), _) => match fs::read_to_string(format!("{}/{}.viol", dir, w)) {
                    Ok(t) => {
                        let l: Vec<&str> = t.lines().collect();
                        let f = Found {
                            i: l[0].parse().unwrap(),
                            class: l[1].to_string(),
                            msg: l[2].to_string(),
                            history: None,
                            tape: Some((
                                nums(l[3]),
                                l[4].split_whitespace()
                                    .map(|x| {
                                        let (a, b) = x.split_once('-').unwrap();
                                        (a.parse().unwrap(), b.parse().unwrap())
                                    })
                                    .collect(),
                            )),
                        };
                        if st.code() == Some(2) {
                            s.harness = Some(format!("run {}: {}", f.i, f.msg));
                            limit.write_at(&0u64.to_le_bytes(), 0).unwrap();
                        } else {
                            better(f, &mut best);
                        }
                    }
                    Err(_) => s.harness = Some(format!("worker {} exited with {:?}", w, st)),
                },
                (Some(guard::HANG_EXIT), _) if cur.is_some() => better(
                    Found { i: cur.unwrap(), class: "hang".into(), msg: "a call into the code under test did not return".into(), ..Default::default() },
                    &mut best,
                ),
                (_, Some(sig)) if cur.is_some() && (sig == libc_sigabrt() || sig == 11 || sig == 4 || sig == 7 || sig == 8) => better(
                    Found {
                        i: cur.unwrap(),
                        class: "crash".into(),
                        msg: format!("the process running the code under test died with signal {} (stack overflow, abort or runaway memory)", sig),
                        ..Default::default()
                    },
                    &mut best,
                ),
                _ => s.harness = Some(format!("worker {} exited with {:?}", w, st)),
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    s.wall = t0.elapsed().as_secs_f64();
    let mut hs: Vec<(u64, bool)> = Vec::new();
    let mut shapes: Vec<u64> = Vec::new();
    for w in 0..nw {
        if let Ok(t) = fs::read_to_string(format!("{}/{}.out", dir, w)) {
            for l in t.lines() {
                let x: Vec<&str> = l.split_whitespace().collect();
                match x[0] {
                    "n" => {
                        for k in 0..7 {
                            s.n[k] += x[k + 1].parse::<u64>().unwrap();
                        }
                    }
                    k => {
                        let m = if k == "f" { &mut s.faults } else { &mut s.probes };
                        let e = m.entry(x[1].to_string()).or_default();
                        e.0 += x[2].parse::<u64>().unwrap();
                        e.1 += x[3].parse::<u64>().unwrap();
                    }
                }
            }
        }
        if let Ok(b) = fs::read(format!("{}/{}.pairs", dir, w)) {
            for c in b.chunks(17) {
                let i = u64::from_le_bytes(c[..8].try_into().unwrap());
                let h = u64::from_le_bytes(c[8..16].try_into().unwrap());
                s.pairs.push((i, h));
                hs.push((h, c[16] != 0));
            }
        }
        if let Ok(b) = fs::read(format!("{}/{}.shapes", dir, w)) {
            shapes.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    hs.sort_unstable();
    hs.dedup_by_key(|x| x.0);
    s.distinct = hs.len() as u64;
    s.distinct_nontrivial = hs.iter().filter(|x| x.1).count() as u64;
    shapes.sort_unstable();
    shapes.dedup();
    s.shapes = shapes.len() as u64;
    s.pairs.sort_unstable();
    s.viol = best;
    let _ = fs::remove_dir_all(&dir);
    s
}
fn libc_sigabrt() -> i32 {
    6
}
fn nums(l: &str) -> Vec<u64> {
    l.split_whitespace().map(|x| x.parse().unwrap()).collect()
}

pub fn check(p: &Prop, tier: &str) -> i32 {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (total, cap) = if tier == "thorough" { (p.quick.saturating_mul(1000), THOROUGH_CAP) } else { (p.quick, QUICK_CAP) };
    let total = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let cap = std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    println!("property {} tier {} seed {} runs {} (wall cap {} s)", p.id, tier, base, total, cap);
    if let Err(e) = crate::crypto::self_test() {
        eprintln!("harness self-test failed: {}", e);
        return 2;
    }
    let mut fixed_viol = None;
    if let Some(f) = p.fixed {
        match f() {
            Ok(lines) => lines.iter().for_each(|l| println!("{}", l)),
            Err(v) => fixed_viol = Some(v),
        }
    }
    let s = search(p, base, total, WORKERS, cap);
    if let Some(h) = s.harness {
        eprintln!("harness failure: {}", h);
        return 2;
    }
    let mut code = 0;
    let mut vline = String::new();
    if let Some(f) = &s.viol {
        code = 1;
        println!("run {} (seed {:#x}) violates {}: [{}] {}", f.i, seed_of(base, p.id, f.i), p.id, f.class, f.msg);
        // VERIF_FAST: for mutation campaigns, where only the verdict counts
        let path = if std::env::var("VERIF_FAST").is_ok() { "-".to_string() } else { report(p, base, f) };
        vline = format!("VIOLATION property={} replay={}", p.id, path);
    }
    if let (Some(v), 0) = (fixed_viol, code) {
        code = 1;
        println!("fixed scenario of {}: [{}] {}", p.id, v.class, v.msg);
        let _ = fs::create_dir_all(format!("{}/replays", root()));
        let path = format!("{}/replays/{}-{}.replay", root(), p.id, v.class);
        write_replay(&path, p, &Found { class: v.class, msg: v.msg, ..Default::default() }, 0, &[], 0, &[]);
        vline = format!("VIOLATION property={} replay={}", p.id, path);
    }
    evidence(p, tier, base, &s, code);
    println!(
        "{} runs, {} distinct event sequences, {} non-trivial, {:.1} s, {} faults injected, {} checks",
        s.n[0], s.distinct, s.n[1], s.wall, s.n[5], s.n[4]
    );
    if code == 1 {
        println!("{}", vline);
    }
    code
}

fn evidence(p: &Prop, tier: &str, base: u64, s: &Sum, viols: i32) {
    // sample traces: the first runs of this search, executed again with tracing on
    let mut samples = Vec::new();
    for i in 0..2u64.min(s.n[0]) {
        if s.viol.as_ref().map_or(false, |f| f.i <= i) {
            break;
        }
        let mut cx = Cx::from_seed(seed_of(base, p.id, i));
        cx.tracing = true;
        let d = exec(p, cx);
        let log: Vec<String> = d.cx.log.iter().take(30).map(|l| format!("\"{}\"", esc(&l.chars().take(300).collect::<String>()))).collect();
        samples.push(format!(
            "{{\"run\":{},\"seed\":\"{:#x}\",\"events\":{},\"hash\":\"{:#x}\",\"trace_head\":[{}]}}",
            i,
            seed_of(base, p.id, i),
            d.cx.events,
            d.cx.hash(),
            log.join(",")
        ));
    }
    let obj = |m: &BTreeMap<String, (u64, u64)>| {
        m.iter().map(|(k, (n, r))| format!("\"{}\":{{\"times\":{},\"runs\":{}}}", k, n, r)).collect::<Vec<_>>().join(",")
    };
    let list = |l: &[&str]| l.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",");
    let per_h = if s.wall > 0.0 { (s.n[0] as f64 / s.wall * 3600.0) as u64 } else { 0 };
    let o = format!(
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\n\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\n\"rule\":\"{}\",\n\"samples\":[{}],\n\"simulated_runs\":{},\"seeds_per_hour\":{},\"simulated_seconds\":{:.3},\"simulator_events\":{},\"oracle_checks\":{},\n\"faults_injected_total\":{},\"faults\":{{{}}},\n\"situations_reached\":{{{}}},\n\"distinct_event_sequences\":{},\"distinct_shapes\":{},\"measure\":\"distinct_event_sequences: runs with pairwise different hashes over every simulator event (kind and arguments, in order); distinct_shapes: different sequences of (event kind, magnitude) over the first 64 events\",\n\"workers_stopped_by_wall_cap\":{},\n\"real_components\":[{}],\"stub_components\":[{}]}},\n\"assumptions\":[{}],\n\"wall_s\":{:.3},\"violations\":{}}}\n",
        p.id,
        tier,
        base,
        s.n[0],
        s.distinct_nontrivial,
        esc(&format!("{} A run is one seed. It counts as non-trivial when at least one fault was injected into it and at least one oracle comparison was made; it counts as distinct when its event hash differs from every other run's.", p.rule)),
        samples.join(",\n"),
        s.n[0],
        per_h,
        s.n[2] as f64 / 1e6,
        s.n[3],
        s.n[4],
        s.n[5],
        obj(&s.faults),
        obj(&s.probes),
        s.distinct,
        s.shapes,
        s.n[6],
        list(p.real),
        list(p.stub),
        list(p.assumptions),
        s.wall,
        viols
    );
    let dir = format!("{}/evidence", root());
    let _ = fs::create_dir_all(&dir);
    fs::write(format!("{}/{}.json", dir, p.id), o).unwrap();
}

/// Minimises, writes the replay file, and replays it in a fresh process.
fn report(p: &Prop, base: u64, f: &Found) -> String {
    let dir = format!("{}/replays", root());
    let _ = fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:x}.replay", dir, p.id, seed_of(base, p.id, f.i));
    let exe = std::env::current_exe().unwrap();
    let seed = seed_of(base, p.id, f.i);
    let crashy = f.tape.is_none();
    let (tape, spans) = match &f.tape {
        Some(t) => t.clone(),
        None => (record_tape(&exe, p, seed), Vec::new()),
    };
    write_replay(&path, p, f, seed, &tape, 0, &[]);
    if crashy {
        let best = shrink_outside(&exe, p, f, &path, tape, spans);
        write_replay(&path, p, f, seed, &best, 0, &["(the run ends the process, so there is no trace: replay it under a debugger)".to_string()]);
    } else {
        let spath = format!("{}.spans", path);
        fs::write(&spath, spans.iter().map(|x| format!("{}-{}", x.0, x.1)).collect::<Vec<_>>().join(" ")).unwrap();
        let mut c = Command::new(&exe).args(["shrink", &path, &spath]).stdin(Stdio::null()).spawn().unwrap();
        wait_for(&mut c, Duration::from_secs(90));
        let _ = fs::remove_file(&spath);
    }
    let reproduces = || {
        let mut c = Command::new(&exe).args(["replay", &path]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        wait_for(&mut c, Duration::from_secs(60)) == Some(1)
    };
    let mut st = reproduces();
    if !st && !crashy {
        // the minimised run leans on what earlier executions left behind: try the run as found,
        // then with more and more of the runs its process had executed before it
        let (tape, _) = f.tape.clone().unwrap();
        let mut n = 0u64;
        loop {
            let first = f.i - (f.i / WORKERS).min(n) * WORKERS;
            let h: Vec<u64> = (0..).map(|k| first + k * WORKERS).take_while(|k| *k < f.i).map(|k| seed_of(base, p.id, k)).collect();
            let all = first < WORKERS;
            let g = Found { i: f.i, class: f.class.clone(), msg: f.msg.clone(), tape: None, history: Some(h) };
            write_replay(&path, p, &g, seed, &tape, 0, &[format!("(preceded by {} runs in the same process)", n)]);
            st = reproduces();
            if st || all || n > 200_000 {
                break;
            }
            n = if n == 0 { 1 } else { n * 4 };
        }
    }
    println!("replay in a fresh process: {}", if st { "reproduced" } else { "NOT reproduced" });
    path
}
fn wait_for(c: &mut Child, d: Duration) -> Option<i32> {
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return st.code();
        }
        if t.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}
fn record_tape(exe: &std::path::Path, p: &Prop, seed: u64) -> Vec<u64> {
    let f = format!("{}/target/tape-{}", root(), std::process::id());
    let mut c = Command::new(exe)
        .args(["record", p.id, &seed.to_string(), &f])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    wait_for(&mut c, Duration::from_secs(40));
    let b = fs::read(&f).unwrap_or_default();
    let _ = fs::remove_file(&f);
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

pub fn write_replay(path: &str, p: &Prop, f: &Found, seed: u64, tape: &[u64], hash: u64, log: &[String]) {
    let mut o = String::new();
    o.push_str("stunsim-replay 1\n");
    if let Some(h) = &f.history {
        o.push_str(&format!("history {}\n", h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    }
    o.push_str(&format!("property {}\nclass {}\nmessage {}\nrun {}\nseed {:#x}\nhash {:#x}\n", p.id, f.class, oneline(&f.msg), f.i, seed, hash));
    o.push_str(&format!("tape {}\n", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    o.push_str(&format!("# replay with: {}/check.sh replay {}\n# trace of the minimised run:\n", root(), path));
    for l in log {
        o.push_str(&format!("# {}\n", oneline(l)));
    }
    fs::write(path, o).unwrap();
}
pub struct Replay {
    pub prop: String,
    pub class: String,
    pub msg: String,
    pub i: u64,
    pub seed: u64,
    pub hash: u64,
    pub tape: Vec<u64>,
    pub history: Vec<u64>,
}
pub fn read_replay(path: &str) -> Replay {
    let t = fs::read_to_string(path).expect("replay file");
    let g = |k: &str| {
        t.lines().find(|l| l.starts_with(&format!("{} ", k))).map(|l| l[k.len() + 1..].to_string()).unwrap_or_default()
    };
    let hx = |s: String| u64::from_str_radix(s.trim_start_matches("0x"), 16).unwrap_or(0);
    Replay {
        prop: g("property"),
        class: g("class"),
        msg: g("message"),
        i: g("run").parse().unwrap_or(0),
        seed: hx(g("seed")),
        hash: hx(g("hash")),
        tape: nums(&g("tape")),
        history: nums(&g("history")),
    }
}

/// Runs the tape; exit 1 when it violates its property in the recorded way.
pub fn replay(p: &Prop, r: &Replay, path: &str) -> i32 {
    guard::start_watchdog_for(&r.class);
    guard::RUN_NO.store(1, Relaxed);
    if r.class.starts_with("fixed-") {
        return match p.fixed.map(|f| f()) {
            Some(Err(v)) => {
                println!("[{}] {}", v.class, v.msg);
                println!("VIOLATION property={} replay={}", p.id, path);
                1
            }
            _ => 0,
        };
    }
    for h in &r.history {
        guard::RUN_NO.fetch_add(1, Relaxed);
        exec(p, Cx::from_seed(*h));
    }
    let mut cx = Cx::from_tape(r.tape.clone());
    cx.tracing = true;
    let d = exec(p, cx);
    for l in &d.cx.log {
        println!("{}", l);
    }
    match d.viol {
        Some(v) if v.class == r.class => {
            println!("[{}] {}", v.class, v.msg);
            if r.hash != 0 && r.hash != d.cx.hash() {
                println!("note: same violation, but the event hash differs from the recorded one");
            }
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        Some(v) => {
            println!("another violation: [{}] {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn candidates(tape: &[u64], spans: &[(usize, usize)], phase: u32, step: &mut usize, rng: &mut Rng) -> Option<Vec<u64>> {
    let _ = rng;
    match phase {
        // drop whole operations, biggest first
        0 => {
            let (a, b) = *spans.get(*step)?;
            *step += 1;
            if b > tape.len() {
                return candidates(tape, spans, phase, step, rng);
            }
            let mut t = tape[..a].to_vec();
            t.extend_from_slice(&tape[b..]);
            Some(t)
        }
        // drop blocks of choices
        1 => {
            let mut size = 64usize;
            let mut k = *step;
            loop {
                let blocks = tape.len() / size.max(1) + 1;
                if k < blocks {
                    let a = k * size;
                    let b = (a + size).min(tape.len());
                    *step += 1;
                    if a >= tape.len() {
                        return candidates(tape, spans, phase, step, rng);
                    }
                    let mut t = tape[..a].to_vec();
                    t.extend_from_slice(&tape[b..]);
                    return Some(t);
                }
                k -= blocks;
                if size == 1 {
                    return None;
                }
                size /= 4;
            }
        }
        // zero spans of choices
        2 => {
            let n = tape.len();
            let size = 16;
            let blocks = n / size + 1;
            let k = *step;
            *step += 1;
            if k >= blocks {
                return None;
            }
            let mut t = tape.to_vec();
            let (a, b) = (k * size, ((k + 1) * size).min(n));
            if t[a..b].iter().all(|x| *x == 0) {
                return candidates(tape, spans, phase, step, rng);
            }
            t[a..b].iter_mut().for_each(|x| *x = 0);
            Some(t)
        }
        // make single choices smaller
        _ => {
            let n = tape.len();
            let k = *step / 3;
            let how = *step % 3;
            *step += 1;
            if k >= n {
                return None;
            }
            if tape[k] == 0 {
                *step = (k + 1) * 3;
                return candidates(tape, spans, phase, step, rng);
            }
            let mut t = tape.to_vec();
            t[k] = match how {
                0 => 0,
                1 => t[k] / 2,
                _ => t[k] - 1,
            };
            Some(t)
        }
    }
}

/// shrink <replay> <spans>: in-process minimisation, keeps the violation class
pub fn shrink(p: &Prop, r: &Replay, path: &str, spath: &str) -> i32 {
    guard::start_watchdog();
    let t0 = Instant::now();
    let mut tape = r.tape.clone();
    let mut spans: Vec<(usize, usize)> = fs::read_to_string(spath)
        .unwrap_or_default()
        .split_whitespace()
        .map(|x| {
            let (a, b) = x.split_once('-').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect();
    let mut execs = 0u64;
    let mut rng = Rng::new(1);
    let mut best: Option<Found> = None;
    let budget = Duration::from_secs(20);
    let mut round = 0;
    'outer: loop {
        let before = (tape.len(), tape.iter().filter(|x| **x != 0).count());
        for phase in 0..4 {
            let mut step = 0;
            spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
            spans.dedup();
            while let Some(t) = candidates(&tape, &spans, phase, &mut step, &mut rng) {
                if t0.elapsed() > budget || execs > 20_000 {
                    break 'outer;
                }
                execs += 1;
                guard::RUN_NO.fetch_add(1, Relaxed);
                let d = exec(p, Cx::from_tape(t));
                if let Some(v) = d.viol {
                    if v.class == r.class {
                        // trailing zeros need not be stored
                        let mut nt = d.cx.tape.clone();
                        while nt.last() == Some(&0) {
                            nt.pop();
                        }
                        let key = |t: &Vec<u64>| (t.len(), t.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>(), t.iter().fold(0u128, |a, x| a + *x as u128));
                        if key(&nt) < key(&tape) {
                            tape = nt;
                            spans = d.cx.spans.clone();
                            spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
                            best = Some(Found { i: r.i, class: v.class, msg: v.msg, ..Default::default() });
                            if phase < 2 {
                                // positions moved
                                step = step.saturating_sub(1);
                            }
                        }
                    }
                }
            }
        }
        round += 1;
        let after = (tape.len(), tape.iter().filter(|x| **x != 0).count());
        if before == after || round > 12 {
            break;
        }
    }
    let f = best.unwrap_or(Found { i: r.i, class: r.class.clone(), msg: r.msg.clone(), ..Default::default() });
    let mut cx = Cx::from_tape(tape.clone());
    cx.tracing = true;
    let d = exec(p, cx);
    println!("minimised to {} choices, {} events, {} faults, with {} executions", tape.len(), d.cx.events, d.cx.nfaults, execs);
    let f = match d.viol {
        Some(v) => Found { i: r.i, class: v.class, msg: v.msg, ..Default::default() },
        None => f,
    };
    println!("minimised: [{}] {}", f.class, f.msg);
    write_replay(path, p, &f, r.seed, &tape, d.cx.hash(), &d.cx.log);
    0
}

/// Minimisation of runs that end the process: every candidate in a process of its own.
fn shrink_outside(exe: &std::path::Path, p: &Prop, f: &Found, path: &str, mut tape: Vec<u64>, spans: Vec<(usize, usize)>) -> Vec<u64> {
    let t0 = Instant::now();
    let cand = format!("{}.cand", path);
    let mut rng = Rng::new(1);
    'o: for phase in 1..4 {
        let mut step = 0;
        while let Some(t) = candidates(&tape, &spans, phase, &mut step, &mut rng) {
            if t0.elapsed() > Duration::from_secs(45) {
                break 'o;
            }
            write_replay(&cand, p, f, 0, &t, 0, &[]);
            let mut c = Command::new(exe).args(["replay", &cand]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            let st = wait_for(&mut c, Duration::from_secs(10));
            if st == Some(1) {
                let smaller = t.len() < tape.len() || t < tape;
                if smaller {
                    tape = t;
                    if phase < 2 {
                        step = step.saturating_sub(1);
                    }
                }
            }
        }
    }
    let _ = fs::remove_file(&cand);
    tape
}

/// Is the finding listed (as not repaired) in the committed file?
pub fn known_finding(prop: &str, id: &str) -> bool {
    let t = fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root())).unwrap_or_default();
    t.lines().any(|l| l.starts_with(&format!("known: property={} id={} ", prop, id)))
}
