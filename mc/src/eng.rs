//! Engine: case bookkeeping, parallel enumeration, violations, evidence.
//!
//! The engine runs in a child process.  The parent (see `main.rs`) watches it
//! so that a case that aborts or hangs the process is identified, re-run alone
//! and reported, instead of ending the check without a verdict.
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub const SLOTS: usize = 16;
pub const SLOT: usize = 1 << 16;

/// Shared with the supervising parent: what each worker is doing right now.
pub struct Shm(pub *mut u8);
unsafe impl Sync for Shm {}
unsafe impl Send for Shm {}
impl Shm {
    pub fn new() -> Shm {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shm(p as *mut u8)
    }
    fn tick(&self, w: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(w * SLOT) as *const AtomicU64) }
    }
    fn len(&self, w: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(w * SLOT + 8) as *const AtomicU64) }
    }
    pub fn begin(&self, w: usize, desc: &str) {
        let b = desc.as_bytes();
        let n = b.len().min(SLOT - 16);
        self.len(w).store(0, SeqCst);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(w * SLOT + 16), n) };
        self.len(w).store(n as u64, SeqCst);
        self.tick(w).fetch_add(1, SeqCst);
    }
    pub fn end(&self, w: usize) {
        self.len(w).store(0, SeqCst);
        self.tick(w).fetch_add(1, SeqCst);
    }
    pub fn touch(&self, w: usize) {
        self.tick(w).fetch_add(1, SeqCst);
    }
    pub fn clear(&self) {
        for w in 0..SLOTS {
            self.len(w).store(0, SeqCst);
        }
    }
    pub fn peek(&self, w: usize) -> (u64, Option<String>) {
        let t = self.tick(w).load(SeqCst);
        let n = self.len(w).load(SeqCst) as usize;
        if n == 0 || n > SLOT - 16 {
            return (t, None);
        }
        let s = unsafe { std::slice::from_raw_parts(self.0.add(w * SLOT + 16), n) };
        (t, Some(String::from_utf8_lossy(s).into_owned()))
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub desc: String,
    pub detail: String,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(2, ' ');
                let property = it.next().unwrap_or("").to_string();
                let rest = it.next().unwrap_or("");
                if let Some(r) = rest.strip_prefix("signature=[") {
                    if let Some(k) = r.find(']') {
                        v.push(Known {
                            property,
                            signature: r[..k].to_string(),
                            what: r[k + 1..].trim().to_string(),
                        });
                    }
                }
            }
        }
    }
    v
}

/// How a case ended: not failed, and whether it counted as non-trivial.
pub type CaseResult = Result<bool, String>;

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub workers: usize,
    pub replay: Option<String>,
    pub shm: Shm,
    pub start: Instant,
    pub evals: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub stop: AtomicBool,
    distinct: Vec<Mutex<HashSet<u64>>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    pub viol: Mutex<Vec<Viol>>,
    known: Vec<Known>,
    known_hits: Mutex<BTreeMap<String, (String, u64, String)>>,
    notes: Mutex<Map<String, Value>>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
}

thread_local! {
    pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

/// Run code under test; a panic becomes `Err(message)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let l = crate::util::last_panic();
        if l.is_empty() {
            format!("panicked: {}", panic_msg(&*e))
        } else {
            format!("panicked: {}", l)
        }
    })
}

impl Ctx {
    pub fn new(
        id: &str,
        thorough: bool,
        seed: u64,
        replay: Option<String>,
        known: Vec<Known>,
        shm: Shm,
    ) -> Ctx {
        let workers = std::env::var("ZMC_WORKERS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
            })
            .clamp(1, SLOTS - 1);
        Ctx {
            id: id.into(),
            thorough,
            seed,
            workers,
            replay,
            shm,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            outcomes: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            viol: Mutex::new(vec![]),
            known: known.into_iter().filter(|k| k.property == id).collect(),
            known_hits: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(Map::new()),
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
        }
    }

    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.notes.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn add_note(&self, k: &str, n: u64) {
        let mut m = self.notes.lock().unwrap();
        let c = m.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        m.insert(k.into(), json!(c + n));
    }
    pub fn outcome(&self, o: impl Into<String>) {
        *self.outcomes.lock().unwrap().entry(o.into()).or_insert(0) += 1;
    }
    pub fn merge_outcomes(&self, m: &BTreeMap<String, u64>) {
        let mut g = self.outcomes.lock().unwrap();
        for (k, v) in m {
            *g.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn count(&self, desc: &str, nontrivial: bool) {
        self.evals.fetch_add(1, Relaxed);
        if nontrivial {
            let h = hash64(&desc);
            self.distinct[(h % 64) as usize].lock().unwrap().insert(h);
        }
    }
    pub fn count_distinct(&self, desc: &str) {
        let h = hash64(&desc);
        self.distinct[(h % 64) as usize].lock().unwrap().insert(h);
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|k| k.signature == sig)
    }
    /// Report a violation that matches a signature of the known-findings file
    /// as that finding, and any other as a violation.
    pub fn violation_sig(&self, sig: &str, desc: &str, detail: &str) {
        if let Some(k) = self.known.iter().find(|k| k.signature == sig) {
            let mut h = self.known_hits.lock().unwrap();
            let e = h
                .entry(sig.to_string())
                .or_insert((k.what.clone(), 0, format!("{} :: {}", desc, detail)));
            e.1 += 1;
            return;
        }
        self.violation(desc, detail);
    }
    pub fn violation(&self, desc: &str, detail: &str) {
        let mut v = self.viol.lock().unwrap();
        if v.len() < 50 {
            v.push(Viol {
                desc: desc.into(),
                detail: detail.into(),
            });
        }
        if v.len() >= 10 {
            self.stop.store(true, Relaxed);
        }
    }

    /// A failed case; "SIG[...] detail" carries a signature.
    pub fn verdict(&self, desc: &str, e: &str) {
        match e.split_once("SIG[").and_then(|r| r.1.split_once("] ")) {
            Some((sig, d)) => self.violation_sig(sig, desc, d),
            None => self.violation(desc, e),
        }
    }

    /// Run one case.  `desc` identifies it uniquely (it is the replay key).
    pub fn case(&self, desc: impl Into<String>, body: impl FnOnce() -> CaseResult) {
        if self.stopped() {
            return;
        }
        let desc = desc.into();
        if let Some(r) = &self.replay {
            if *r != desc {
                return;
            }
        }
        let w = WORKER.with(|w| w.get());
        self.shm.begin(w, &desc);
        let r = guard(body);
        self.shm.end(w);
        let n = self.evals.load(Relaxed);
        match r {
            Ok(Ok(nt)) => {
                self.count(&desc, nt);
                if nt && (n < 3 || n.is_power_of_two()) {
                    self.sample(json!(desc));
                }
            }
            Ok(Err(e)) => {
                self.count(&desc, true);
                self.verdict(&desc, &e)
            }
            Err(e) => {
                self.count(&desc, true);
                self.violation(&desc, &e)
            }
        }
    }

    /// Run `f` on every item on all workers.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        let n = self.workers.min(items.len().max(1));
        std::thread::scope(|s| {
            for w in 0..n {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        WORKER.with(|c| c.set(w + 1));
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || self.stopped() {
                                break;
                            }
                            f(&items[i]);
                        }
                    })
                    .unwrap();
            }
        });
    }

    pub fn finish(&self, level: &str, exhaustive: bool) -> i32 {
        let viol = self.viol.lock().unwrap().clone();
        let distinct: usize = self.distinct.iter().map(|m| m.lock().unwrap().len()).sum();
        let evals = self.evals.load(Relaxed);
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(evals));
        cov.insert("distinct_nontrivial".into(), json!(distinct));
        cov.insert("rule".into(), json!(*self.rule.lock().unwrap()));
        if level == "model_checking" {
            cov.insert("states".into(), json!(self.states.load(Relaxed)));
            cov.insert("transitions".into(), json!(self.transitions.load(Relaxed)));
            cov.insert(
                "traces_validated_against_impl".into(),
                json!(self.traces.load(Relaxed)),
            );
        }
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        cov.insert(
            "exhaustive".into(),
            json!(exhaustive && !self.stopped() && !self.replaying()),
        );
        let oc = self.outcomes.lock().unwrap().clone();
        cov.insert("distinct_outcomes".into(), json!(oc.len()));
        let top: BTreeMap<_, _> = oc.iter().take(60).map(|(k, v)| (k.clone(), *v)).collect();
        cov.insert("outcomes".into(), json!(top));
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let hits = self.known_hits.lock().unwrap().clone();
        if !hits.is_empty() {
            cov.insert(
                "known_findings_seen".into(),
                json!(hits
                    .iter()
                    .map(|(k, v)| json!({"signature": k, "times": v.1, "first": v.2}))
                    .collect::<Vec<_>>()),
            );
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": Value::Object(cov),
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        if !self.replaying() {
            write_evidence(&self.id, &ev);
        }
        println!(
            "{}: evaluations={} distinct_nontrivial={} states={} transitions={} wall={:.1}s",
            self.id,
            evals,
            distinct,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        for (sig, (what, n, _)) in &hits {
            println!(
                "KNOWN-FINDING: property={} {} [{}; {} cases]",
                self.id, what, sig, n
            );
        }
        if viol.is_empty() {
            if evals == 0 && !self.replaying() {
                eprintln!("{}: nothing was explored", self.id);
                return 3;
            }
            0
        } else {
            report_violations(&self.id, &viol);
            1
        }
    }
}

pub fn verif_dir() -> String {
    std::env::var("ZMC_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn write_evidence(id: &str, ev: &Value) {
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}.json", dir, id);
    std::fs::write(&p, serde_json::to_string_pretty(ev).unwrap() + "\n").expect("write evidence");
}

pub fn report_violations(id: &str, viol: &[Viol]) {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    for (i, v) in viol.iter().enumerate().take(5) {
        let p = format!("{}/{}-{}.json", dir, id, i);
        let _ = std::fs::write(
            &p,
            serde_json::to_string_pretty(
                &json!({"property": id, "case": v.desc, "detail": v.detail,
                "replay": format!("cd /verif && ./check.sh replay {}", p)}),
            )
            .unwrap(),
        );
        println!("  case: {}", trunc(&v.desc, 1500));
        println!("  what: {}", trunc(&v.detail, 1500));
        println!("VIOLATION property={} replay={}", id, p);
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.into()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    }
}
