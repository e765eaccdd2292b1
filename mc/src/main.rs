#![allow(dead_code)]
//! zmc: bounded exhaustive checking of the zarr crate.
mod eng;
mod mem;
mod sys;
mod util;

mod p_build;
mod p_conc;
mod p_data;
mod sched;
mod hist;
mod p_hist;
mod p_fault;
mod p_geom;
mod p_meta;
mod p_nd;
mod p_path;
mod p_pure;
mod p_robust;
mod p_safe;
mod p_stream;
mod p_tree;
mod selftest;

use eng::{Ctx, Shm, Viol};
use std::time::{Duration, Instant};

type Check = fn(&Ctx) -> (&'static str, bool);

fn registry() -> Vec<(&'static str, Check)> {
    vec![
        ("C01", p_data::c01 as Check),
        ("C02", p_data::c02),
        ("C03", p_path::c03),
        ("C04", p_geom::c04),
        ("C05", p_geom::c05),
        ("C06", p_nd::c06),
        ("C07", p_nd::c07),
        ("C08", p_meta::c08),
        ("C09", p_meta::c09),
        ("C10", p_data::c10),
        ("C11", p_tree::c11),
        ("C12", p_tree::c12),
        ("C13", p_tree::c13),
        ("C14", p_tree::c14),
        ("C15", p_path::c15),
        ("C16", p_meta::c16),
        ("C17", p_meta::c17),
        ("C18", p_safe::c18),
        ("C19", p_fault::c19),
        ("C20", p_fault::c20),
        ("C21", p_robust::c21),
        ("C22", p_fault::c22),
        ("C23", p_robust::c23),
        ("C24", p_conc::c24),
        ("C25", p_conc::c25),
        ("C26", p_conc::c26),
        ("C27", p_conc::c27),
        ("C28", p_hist::c28),
        ("C29", p_hist::c29),
        ("C30", p_robust::c30),
        ("C31", p_robust::c31),
        ("C32", p_safe::c32),
        ("C33", p_pure::c33),
        ("C34", p_build::c34),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough") == Ok(true);
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1u64);
    let (id, replay) = match (args.get(1).map(|s| s.as_str()), args.get(2)) {
        (Some("check"), Some(id)) => (id.clone(), args.get(3).cloned()),
        (Some("replay"), Some(p)) => {
            let s = std::fs::read_to_string(p).expect("read replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("parse replay file");
            (
                v["property"].as_str().unwrap().to_string(),
                Some(v["case"].as_str().unwrap().to_string()),
            )
        }
        (Some("trace"), _) => {
            let s = util::make_scratch();
            util::set_scratch(&s);
            sys::allow(vec![s.clone()], &s);
            selftest::trace();
            util::remove_scratch(&s);
            return;
        }
        (Some("list"), _) => {
            for (n, _) in registry() {
                println!("{}", n);
            }
            return;
        }
        _ => {
            eprintln!("usage: zmc check ID | replay FILE | list");
            std::process::exit(2);
        }
    };
    let check = match registry().into_iter().find(|(n, _)| *n == id) {
        Some((_, c)) => c,
        None => {
            eprintln!("no check for {}", id);
            std::process::exit(2);
        }
    };
    let scratch = util::make_scratch();
    let code = supervise(&id, check, thorough, seed, replay, &scratch);
    util::remove_scratch(&scratch);
    std::process::exit(code);
}

fn child(
    id: &str,
    check: Check,
    thorough: bool,
    seed: u64,
    replay: Option<String>,
    shm: Shm,
    scratch: &str,
) -> i32 {
    util::install_panic_hook();
    unsafe { libc::umask(0o022) };
    let v = eng::verif_dir();
    util::set_scratch(scratch);
    sys::allow(vec![scratch.to_string(), format!("{}/evidence", v), "/dev/null".into()], scratch);
    let known = eng::load_known(&format!("{}/known_findings.txt", v));
    let ctx = Ctx::new(id, thorough, seed, replay, known, shm);
    let (level, exhaustive) = check(&ctx);
    ctx.finish(level, exhaustive)
}

enum End {
    Exit(i32),
    Died(String, Vec<String>),
}

fn run_child(
    id: &str,
    check: Check,
    thorough: bool,
    seed: u64,
    replay: Option<String>,
    shm: &Shm,
    scratch: &str,
    hang: u64,
) -> End {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    shm.clear();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        let code = std::panic::catch_unwind(|| {
            child(id, check, thorough, seed, replay, Shm(shm.0), scratch)
        })
        .unwrap_or_else(|_| {
            eprintln!("{}: the check itself panicked: {}", id, util::last_panic());
            3
        });
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(code) };
    }
    let mut last = vec![(0u64, Instant::now()); eng::SLOTS];
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            if libc::WIFEXITED(st) {
                return End::Exit(libc::WEXITSTATUS(st));
            }
            let sig = libc::WTERMSIG(st);
            let cases = (0..eng::SLOTS).filter_map(|w| shm.peek(w).1).collect();
            return End::Died(format!("the process died of signal {}", sig), cases);
        }
        for w in 0..eng::SLOTS {
            let (t, c) = shm.peek(w);
            if t != last[w].0 || c.is_none() {
                last[w] = (t, Instant::now());
            } else if last[w].1.elapsed() > Duration::from_secs(hang) {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                return End::Died(format!("no progress for {} s", hang), vec![c.unwrap()]);
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(
    id: &str,
    check: Check,
    thorough: bool,
    seed: u64,
    replay: Option<String>,
    scratch: &str,
) -> i32 {
    let shm = Shm::new();
    match run_child(id, check, thorough, seed, replay, &shm, scratch, 120) {
        End::Exit(c) => c,
        End::Died(why, cases) => {
            eprintln!("{}: {}; re-running {} case(s) alone", id, why, cases.len());
            for c in cases {
                util::empty_scratch(scratch);
                if let End::Died(why2, _) =
                    run_child(id, check, thorough, seed, Some(c.clone()), &shm, scratch, 60)
                {
                    eng::write_evidence(
                        id,
                        &serde_json::json!({
                            "property": id, "tier": if thorough {"thorough"} else {"quick"},
                            "seed": seed, "level": "exploration",
                            "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                                "rule": "the run ended early: a case ended the process",
                                "samples": [c.clone()], "exhaustive": false},
                            "wall_s": 0.0, "violations": 1}),
                    );
                    eng::report_violations(id, &[Viol { desc: c, detail: why2 }]);
                    return 1;
                }
            }
            eprintln!("{}: could not be reproduced by one case", id);
            3
        }
    }
}
