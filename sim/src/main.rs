//! stunsim: deterministic simulation of programs built on stun_codec.
//!
//!   stunsim check <ID> <quick|thorough>
//!   stunsim replay <file>
//!   stunsim determinism [runs]
//!   stunsim list

#[macro_use]
mod cx;
mod crypto;
mod drive;
mod fork;
mod gen;
mod guard;
mod net;
mod refstun;
mod runner;
#[macro_use]
mod sets;
mod w_enc;
mod w_fuse;
mod w_hooks;
mod w_inst;
mod w_net;
mod w_parts;
mod w_relay;
mod w_sec;
mod w_stream;

use cx::Cx;
use runner::Prop;

#[global_allocator]
static ALLOC: guard::Counting = guard::Counting;

fn props() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(w_stream::props());
    v.extend(w_enc::props());
    v.extend(w_net::props());
    v.extend(w_sec::props());
    v.extend(w_relay::props());
    v.extend(w_hooks::props());
    v.extend(w_inst::props());
    v.sort_by_key(|p| p.id);
    v
}
fn find(id: &str) -> Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            std::process::exit(2);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    guard::install_hook();
    guard::small_stack();
    if std::env::var("STUNSIM_LOUD").is_ok() {
        guard::QUIET.store(false, std::sync::atomic::Ordering::Relaxed);
    }
    let code = match s(1).as_str() {
        "check" => runner::check(&find(&s(2)), &s(3)),
        "worker" => runner::worker(&find(&s(2)), n(3), n(4), n(5), n(6), &s(7), n(8)),
        "shrink" => {
            let r = runner::read_replay(&s(2));
            runner::shrink(&find(&r.prop), &r, &s(2), &s(3))
        }
        "replay" => {
            let r = runner::read_replay(&s(2));
            if r.class == "hang" || r.class == "crash" {
                // the run ends its process: give it one of its own
                let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay-inner", &s(2)]).status().unwrap();
                if st.code() == Some(0) {
                    0
                } else {
                    println!("[{}] the process ended with {:?}", r.class, st);
                    println!("VIOLATION property={} replay={}", r.prop, s(2));
                    1
                }
            } else {
                runner::replay(&find(&r.prop), &r, &s(2))
            }
        }
        "replay-inner" => {
            let r = runner::read_replay(&s(2));
            runner::replay(&find(&r.prop), &r, &s(2))
        }
        "record" => {
            guard::start_watchdog();
            guard::RUN_NO.store(1, std::sync::atomic::Ordering::Relaxed);
            let mut cx = Cx::from_seed(n(3));
            cx.sink = std::fs::File::create(s(4)).ok();
            runner::exec(&find(&s(2)), cx);
            0
        }
        "one" => {
            // one <ID> <run index>: trace of one run of the search
            let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut cx = Cx::from_seed(runner::seed_of(base, &s(2), n(3)));
            cx.tracing = true;
            let d = runner::exec(&find(&s(2)), cx);
            for l in &d.cx.log {
                println!("{}", l);
            }
            println!("{:?}", d.viol);
            0
        }
        "determinism" => determinism(n(2).max(200)),
        "list" => {
            for p in props() {
                println!("{} {}", p.id, p.quick);
            }
            0
        }
        _ => {
            eprintln!("usage: stunsim check <ID> <quick|thorough> | replay <file> | determinism [runs] | list");
            2
        }
    };
    std::process::exit(code);
}

/// Every property's runs, executed twice, in different processes with different
/// worker counts: the event hashes must be the same.
fn determinism(runs: u64) -> i32 {
    let mut bad = 0;
    for p in props() {
        for base in [1u64, 2, 77] {
            let a = runner::search(&p, base, runs, 8, 600);
            let b = runner::search(&p, base, runs, 3, 600);
            let same = a.pairs == b.pairs && a.viol.is_none() && b.viol.is_none() && a.harness.is_none();
            println!("{} seed {}: {} runs twice, {}", p.id, base, a.pairs.len(), if same { "identical" } else { "DIFFERENT" });
            bad += !same as i32;
        }
    }
    (bad > 0) as i32
}
