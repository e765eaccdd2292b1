//! Stateless exploration of thread schedules of the real code.
//!
//! The threads are real threads running the library; every call they make to
//! the file system (or to the in-memory store) is a scheduling point.  Exactly
//! one thread runs between two points.  A depth-first search re-executes the
//! program from its initial state once per schedule; sleep sets leave out
//! schedules that only swap neighbouring independent calls, the beginning and
//! the end of operations counting as dependent on each other, so that every
//! order of the calls that could be observed is executed.
use crate::eng::*;
use crate::hist::*;
use crate::sys::*;
use crate::util::*;
use std::collections::HashMap;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub struct Op<H, R> {
    pub name: String,
    pub f: Arc<dyn Fn(&H) -> R + Send + Sync>,
}
impl<H, R> Clone for Op<H, R> {
    fn clone(&self) -> Self {
        Op { name: self.name.clone(), f: self.f.clone() }
    }
}
pub fn op<H, R>(name: impl Into<String>, f: impl Fn(&H) -> R + Send + Sync + 'static) -> Op<H, R> {
    Op { name: name.into(), f: Arc::new(f) }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub tid: usize,
    pub call: Call,
    /// Begins an operation.
    pub first: bool,
    /// Ends one (or is an event of its own).
    pub last: bool,
    pub at: u64,
}

pub struct Done<R> {
    pub thread: usize,
    pub index: usize,
    pub start: u64,
    pub end: u64,
    pub res: Result<R, String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Complete,
    /// All that could go on has been covered by another schedule.
    Covered,
    Deadlock,
    TooLong,
}

pub struct Exec<R> {
    pub ops: Vec<Done<R>>,
    pub after: Image,
    pub end: End,
    nodes: Vec<Node>,
    /// (who waited for a lock, held by whom)
    pub waits: Vec<(usize, usize)>,
    /// Times of the events announced with `point`.
    pub points: Vec<(String, u64)>,
    lost: bool,
}
impl<R> Exec<R> {
    pub fn schedule(&self) -> String {
        self.nodes.iter().map(|n| n.chosen.to_string()).collect()
    }
    pub fn trace(&self) -> String {
        self.nodes.iter().filter_map(|n| n.step.as_ref()).map(|s| format!("T{} {}", s.tid, s.call.show())).collect::<Vec<_>>().join("; ")
    }
    /// The calls made, in order.
    pub fn steps(&self) -> impl Iterator<Item = &Step> {
        self.nodes.iter().filter_map(|n| n.step.as_ref())
    }
    pub fn point(&self, name: &str) -> Option<u64> {
        self.points.iter().find(|p| p.0 == name).map(|p| p.1)
    }
}

#[derive(Clone, Debug)]
struct Node {
    enabled: Vec<usize>,
    sleep: Vec<Step>,
    chosen: usize,
    preempt: bool,
    step: Option<Step>,
    /// Explored before, in the search.
    done: Vec<Step>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Running,
    Ready,
    Done,
    /// Granted, and not seen for a long time.
    Lost,
}

struct SState {
    st: Vec<St>,
    pending: Vec<Option<Call>>,
    in_op: Vec<bool>,
    started: Vec<u64>,
    last_step: Vec<Option<usize>>,
    grant: Option<usize>,
    clock: u64,
    plan: Vec<usize>,
    /// Sleep set of the last node of the plan.
    sleep: Vec<Step>,
    nodes: Vec<Node>,
    locks: HashMap<(u64, u64), Vec<(i32, usize, bool)>>,
    /// Not to be tried again before a lock is released.
    failed: Vec<bool>,
    waits: Vec<(usize, usize)>,
    points: Vec<(String, u64)>,
    end: Option<End>,
    abort: bool,
    sleeping: bool,
    lost: bool,
    tids: Vec<i64>,
}

/// How often a thread of this process has slept, if it sleeps now (and is not
/// merely short of processor time).
fn asleep(tid: i64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).ok()?;
    let field = |n: &str| s.lines().find_map(|l| l.strip_prefix(n)).map(|v| v.trim().to_string());
    if !field("State:")?.starts_with('S') {
        return None;
    }
    field("voluntary_ctxt_switches:")?.parse().ok()
}

/// Held (shared) by every execution; alone by those that are looked at again
/// because a thread waited where the scheduler can not see it: that could
/// have been for another execution in this process.
static WORLDS: std::sync::RwLock<()> = std::sync::RwLock::new(());
/// How often that happened.
static AGAIN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub struct Sched {
    s: Mutex<SState>,
    cv: Vec<Condvar>,
    main: Condvar,
}

fn ino(fd: i32) -> Option<(u64, u64)> {
    unsafe {
        let mut b: libc::stat = std::mem::zeroed();
        if libc::syscall(libc::SYS_fstat, fd, &mut b as *mut libc::stat) != 0 {
            return None;
        }
        Some((b.st_dev as u64, b.st_ino as u64))
    }
}

fn blocking_lock(c: &Call) -> bool {
    c.kind == Kind::Flock && c.flags & libc::LOCK_NB == 0 && c.flags & 7 != 8 && c.fd >= 0
}

impl SState {
    /// The other holders of a lock that a pending call waits for.
    fn blockers(&self, t: usize) -> Vec<usize> {
        let c = match &self.pending[t] {
            Some(c) if blocking_lock(c) => c,
            _ => return vec![],
        };
        let ex = c.flags & libc::LOCK_EX != 0;
        match ino(c.fd).and_then(|i| self.locks.get(&i)) {
            Some(v) => v.iter().filter(|(fd, _, e)| *fd != c.fd && (ex || *e)).map(|x| x.1).collect(),
            None => vec![],
        }
    }
    /// Choose who goes on. All threads are waiting or done.
    fn decide(&mut self) {
        self.grant = None;
        if self.abort || self.end.is_some() {
            return;
        }
        let n = self.st.len();
        if self.st.iter().all(|s| *s == St::Done) {
            self.end = Some(End::Complete);
            return;
        }
        let mut enabled = vec![];
        for t in 0..n {
            if self.st[t] != St::Ready {
                continue;
            }
            let b = self.blockers(t);
            if b.is_empty() && !self.failed[t] {
                enabled.push(t);
            } else {
                for h in b {
                    if !self.waits.contains(&(t, h)) {
                        self.waits.push((t, h));
                    }
                }
            }
        }
        let finish = |s: &mut SState, e: End| {
            s.end = Some(e);
            s.abort = true;
        };
        if enabled.is_empty() {
            if self.st.contains(&St::Lost) {
                return;
            }
            return finish(self, End::Deadlock);
        }
        if self.nodes.len() > 3000 {
            return finish(self, End::TooLong);
        }
        let i = self.nodes.len();
        let last = self.nodes.last().map(|n| n.chosen);
        // what slept before and does not depend on the last step still sleeps
        let sleep: Vec<Step> = if !self.sleeping || i + 1 < self.plan.len() {
            vec![]
        } else if i + 1 == self.plan.len() || self.plan.is_empty() && i == 0 {
            self.sleep.clone()
        } else {
            let p = self.nodes.last().unwrap();
            match &p.step {
                Some(st) => p.sleep.iter().filter(|z| z.tid != st.tid && !dependent(z, st)).cloned().collect(),
                None => vec![],
            }
        };
        let asleep = |t: usize| sleep.iter().any(|z| z.tid == t);
        let chosen = match self.plan.get(i) {
            Some(t) if enabled.contains(t) => *t,
            _ => match last {
                Some(l) if enabled.contains(&l) && !asleep(l) => l,
                _ => match enabled.iter().find(|t| !asleep(**t)) {
                    Some(t) => *t,
                    None => return finish(self, End::Covered),
                },
            },
        };
        let preempt = matches!(last, Some(l) if l != chosen && enabled.contains(&l));
        self.nodes.push(Node { enabled, sleep, chosen, preempt, step: None, done: vec![] });
        self.grant = Some(chosen);
    }
    fn quiescent(&self) -> bool {
        !self.st.contains(&St::Running)
    }
}

/// Whether swapping two neighbouring calls could be noticed.
pub fn dependent(a: &Step, b: &Step) -> bool {
    if a.first && b.last || a.last && b.first {
        return true;
    }
    // the store is looked at where the program announces an event
    let point = |c: &Call| c.path.starts_with("point:");
    if point(&a.call) && b.call.mutates() || point(&b.call) && a.call.mutates() {
        return true;
    }
    conflict(&a.call, &b.call)
}

fn conflict(a: &Call, b: &Call) -> bool {
    use Kind::*;
    // (an empty second path is none; an empty first path is the root of a store)
    let below = |x: &str, y: &str| y.is_empty() || x == y || x.starts_with(y) && x.as_bytes()[y.len()] == b'/';
    let trim = |x: &str| x.trim_end_matches('/').to_string();
    let list = |c: &Call| {
        let mut v = vec![trim(&c.path)];
        if !c.path2.is_empty() {
            v.push(trim(&c.path2));
        }
        v
    };
    let (pa, pb) = (list(a), list(b));
    let same = || pa.iter().any(|x| pb.contains(x));
    let related = || pa.iter().any(|x| pb.iter().any(|y| below(x, y) || below(y, x)));
    // locks only meet locks and their release
    let lock = |k: Kind| matches!(k, Flock | Close);
    if lock(a.kind) || lock(b.kind) {
        return lock(a.kind) && lock(b.kind) && same();
    }
    if !a.mutates() && !b.mutates() {
        return false;
    }
    // contents only meet contents (and opening, which may truncate)
    let data = |k: Kind| matches!(k, Write | Read | Trunc | Seek | Sync | Fstat | Attr);
    if data(a.kind) || data(b.kind) {
        return same();
    }
    related()
}

struct Th<'a> {
    s: &'a Sched,
    t: usize,
    again: std::cell::Cell<bool>,
}

impl Sched {
    fn new(n: usize, plan: Vec<usize>, sleep: Vec<Step>, sleeping: bool) -> Sched {
        Sched {
            s: Mutex::new(SState {
                st: vec![St::Running; n],
                pending: vec![None; n],
                in_op: vec![false; n],
                started: vec![0; n],
                last_step: vec![None; n],
                grant: None,
                clock: 0,
                plan,
                sleep,
                nodes: vec![],
                locks: HashMap::new(),
                failed: vec![false; n],
                waits: vec![],
                points: vec![],
                end: None,
                abort: false,
                sleeping,
                lost: false,
                tids: vec![0; n],
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            main: Condvar::new(),
        }
    }
    fn wake(&self, s: &SState) {
        match s.grant {
            Some(g) => self.cv[g].notify_all(),
            None => {
                for c in &self.cv {
                    c.notify_all();
                }
            }
        }
        self.main.notify_all();
    }
    fn pre(&self, t: usize, c: &Call) -> Act {
        let mut s = self.s.lock().unwrap();
        if !s.abort && (c.path.contains('~') || c.kind == Kind::Read && c.fd < 0) {
            // bytes that nobody else can see, or a copy taken before
            return Act::Go;
        }
        if s.abort {
            return if c.kind == Kind::Close { Act::Go } else { Act::Fail(libc::EIO) };
        }
        s.pending[t] = Some(c.clone());
        s.st[t] = St::Ready;
        if s.quiescent() && s.grant.is_none_or(|g| g == t) {
            s.decide();
            self.wake(&s);
        }
        while s.grant != Some(t) && !s.abort {
            s = self.cv[t].wait(s).unwrap();
        }
        if s.abort {
            s.st[t] = St::Running;
            return if c.kind == Kind::Close { Act::Go } else { Act::Fail(libc::EIO) };
        }
        s.st[t] = St::Running;
        s.pending[t] = None;
        let first = !s.in_op[t];
        s.clock += 1;
        if first {
            s.in_op[t] = true;
            s.started[t] = s.clock;
        }
        let mut st = Step { tid: t, call: c.clone(), first, last: false, at: s.clock };
        if c.kind == Kind::Sync && c.path.starts_with("point:") {
            st.first = true;
            st.last = true;
            let now = s.clock;
            s.points.push((c.path["point:".len()..].to_string(), now));
        }
        let i = s.nodes.len() - 1;
        s.nodes[i].step = Some(st);
        s.last_step[t] = Some(i);
        Act::Go
    }
    fn post(&self, t: usize, c: &Call, ret: i64, err: i32) -> bool {
        let mut s = self.s.lock().unwrap();
        match c.kind {
            Kind::Flock if ret == 0 => {
                if let Some(i) = ino(c.fd) {
                    let v = s.locks.entry(i).or_default();
                    v.retain(|x| x.0 != c.fd);
                    if c.flags & 8 == 0 {
                        v.push((c.fd, t, c.flags & libc::LOCK_EX != 0));
                    } else {
                        s.failed.iter_mut().for_each(|f| *f = false);
                    }
                }
            }
            Kind::Flock if ret < 0 && err == libc::EWOULDBLOCK && blocking_lock(c) && !s.abort => {
                s.failed[t] = true;
                return true;
            }
            Kind::Close => {
                for v in s.locks.values_mut() {
                    v.retain(|x| x.0 != c.fd);
                }
                s.failed.iter_mut().for_each(|f| *f = false);
            }
            _ => {}
        }
        false
    }
    fn begin(&self, t: usize) -> bool {
        let mut s = self.s.lock().unwrap();
        s.in_op[t] = false;
        s.last_step[t] = None;
        !s.abort
    }
    fn end_op(&self, t: usize) -> (u64, u64, bool) {
        let mut s = self.s.lock().unwrap();
        s.clock += 1;
        let now = s.clock;
        if let Some(i) = s.last_step[t] {
            if let Some(st) = s.nodes[i].step.as_mut() {
                st.last = true;
            }
        }
        let start = if s.in_op[t] { s.started[t] } else { now };
        s.in_op[t] = false;
        (start, now, !s.abort)
    }
    fn exit(&self, t: usize) {
        let mut s = self.s.lock().unwrap();
        s.st[t] = St::Done;
        if s.quiescent() && s.grant.is_none_or(|g| g == t) {
            s.decide();
        }
        self.wake(&s);
    }
}

impl Hook for Th<'_> {
    fn pre(&self, c: &Call) -> Act {
        self.s.pre(self.t, c)
    }
    fn post(&self, c: &Call, ret: i64, err: i32) {
        self.again.set(self.s.post(self.t, c, ret, err));
    }
    fn retry(&self) -> bool {
        self.again.get()
    }
}

/// An event of the program itself, at which others may run.
pub fn point(name: &str) {
    let _ = soft(Kind::Sync, &format!("point:{}", name), 0, 0, |_| Ok(()), |_| 0);
}

type Job = Box<dyn FnOnce() + Send + 'static>;

/// Threads that are used for many executions.
struct Pool {
    slots: Arc<Vec<(Mutex<(Option<Job>, bool, bool)>, Condvar)>>,
    threads: Vec<std::thread::JoinHandle<()>>,
}
impl Pool {
    fn new(n: usize) -> Pool {
        let slots: Arc<Vec<(Mutex<(Option<Job>, bool, bool)>, Condvar)>> = Arc::new((0..n).map(|_| Default::default()).collect());
        let threads = (0..n)
            .map(|t| {
                let slots = slots.clone();
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || loop {
                        let (m, c) = &slots[t];
                        let mut g = m.lock().unwrap();
                        while g.0.is_none() && !g.2 {
                            g = c.wait(g).unwrap();
                        }
                        let Some(job) = g.0.take() else { return };
                        drop(g);
                        job();
                        m.lock().unwrap().1 = false;
                        c.notify_all();
                    })
                    .unwrap()
            })
            .collect();
        Pool { slots, threads }
    }
    /// Run all jobs while `f` runs, and wait for them.
    fn run<'a>(&self, jobs: Vec<Box<dyn FnOnce() + Send + 'a>>, f: impl FnOnce()) {
        for (t, j) in jobs.into_iter().enumerate() {
            // all jobs have ended when this returns
            let j: Job = unsafe { std::mem::transmute(j) };
            let mut g = self.slots[t].0.lock().unwrap();
            g.0 = Some(j);
            g.1 = true;
            self.slots[t].1.notify_all();
        }
        struct Wait<'b>(&'b Pool);
        impl Drop for Wait<'_> {
            fn drop(&mut self) {
                for (m, c) in self.0.slots.iter() {
                    let mut g = m.lock().unwrap();
                    while g.1 {
                        g = c.wait(g).unwrap();
                    }
                }
            }
        }
        let _w = Wait(self);
        f();
    }
}
impl Drop for Pool {
    fn drop(&mut self) {
        for (m, c) in self.slots.iter() {
            m.lock().unwrap().2 = true;
            c.notify_all();
        }
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
    }
}

/// Run the programs once under a schedule.
fn execute<B: Back, R: Send>(pool: &Pool, img: &Image, progs: &[Vec<Op<B::H, R>>], shared: bool, plan: &[usize], sleep: &[Step], sleeping: bool) -> Exec<R>
where
    B::H: Sync + Send,
{
    let n = progs.len();
    let sched = Sched::new(n, plan.to_vec(), sleep.to_vec(), sleeping);
    let (ops, after) = B::run(img, |h| {
        let hs: Vec<Option<B::H>> = (0..n).map(|_| if shared { None } else { Some(B::again(h)) }).collect();
        let out: Mutex<Vec<Done<R>>> = Mutex::new(vec![]);
        let w = WORKER.with(|w| w.get());
        let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (t, prog) in progs.iter().enumerate() {
            let h = hs[t].as_ref().unwrap_or(h);
            let (sched, out) = (&sched, &out);
            jobs.push(Box::new(move || {
                WORKER.with(|c| c.set(w));
                sched.s.lock().unwrap().tids[t] = unsafe { libc::syscall(libc::SYS_gettid) };
                let th = Th { s: sched, t, again: Default::default() };
                for (i, o) in prog.iter().enumerate() {
                    if !sched.begin(t) {
                        break;
                    }
                    let r = with_hook(&th, || guard(|| (o.f)(h)));
                    let (start, end, valid) = sched.end_op(t);
                    if valid {
                        out.lock().unwrap().push(Done { thread: t, index: i, start, end, res: r });
                    }
                }
                sched.exit(t);
            }));
        }
        pool.run(jobs, || {
            // watch for threads that wait where the scheduler can not see it
            let mut s = sched.s.lock().unwrap();
            let mut seen = (usize::MAX, 0, vec![]);
            let mut still = 0;
            loop {
                if s.end.is_some() || s.st.iter().all(|x| *x == St::Done) {
                    break;
                }
                let (g, to) = sched.main.wait_timeout(s, Duration::from_millis(20)).unwrap();
                s = g;
                if !to.timed_out() || s.end.is_some() {
                    still = 0;
                    continue;
                }
                let sleeps: Vec<Option<u64>> =
                    s.st.iter().zip(&s.tids).filter(|(x, _)| **x != St::Done).map(|(_, t)| if *t == 0 { None } else { asleep(*t) }).collect();
                let now = (s.nodes.len(), s.clock, sleeps);
                still = if now == seen && now.2.iter().all(|x| x.is_some()) { still + 1 } else { 0 };
                seen = now;
                if still >= 5 {
                    still = 0;
                    s.lost = true;
                    if s.st.iter().any(|x| *x == St::Running) {
                        for x in s.st.iter_mut() {
                            if *x == St::Running {
                                *x = St::Lost;
                            }
                        }
                        s.grant = None;
                        s.decide();
                    } else {
                        s.end = Some(End::Deadlock);
                        s.abort = true;
                    }
                    sched.wake(&s);
                }
            }
            if s.abort {
                sched.wake(&s);
            }
        });
        out.into_inner().unwrap()
    });
    let s = sched.s.into_inner().unwrap();
    Exec { ops, after, end: s.end.unwrap_or(End::Complete), nodes: s.nodes, waits: s.waits, points: s.points, lost: s.lost }
}

/// Keeps this thread (and those it starts) on one processor, so that handing
/// over is cheap.
struct Pinned(libc::cpu_set_t);
impl Pinned {
    fn new(w: usize) -> Option<Pinned> {
        unsafe {
            let mut old: libc::cpu_set_t = std::mem::zeroed();
            let size = std::mem::size_of::<libc::cpu_set_t>();
            if libc::sched_getaffinity(0, size, &mut old) != 0 {
                return None;
            }
            let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &old)).collect();
            if cpus.is_empty() {
                return None;
            }
            let mut one: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpus[w % cpus.len()], &mut one);
            if libc::sched_setaffinity(0, size, &one) != 0 {
                return None;
            }
            Some(Pinned(old))
        }
    }
}
impl Drop for Pinned {
    fn drop(&mut self) {
        unsafe {
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &self.0);
        }
    }
}

pub struct Program<B: Back, R> {
    pub name: String,
    pub img: Image,
    pub threads: Vec<Vec<Op<B::H, R>>>,
    /// One handle for all threads, or one each.
    pub shared: bool,
    /// All schedules, or those with at most this many preemptions.
    pub bound: Option<usize>,
}

/// Execute all schedules of a program and judge every one.
pub fn explore_schedules<B: Back, R: Send>(ctx: &Ctx, p: &Program<B, R>, limit: u64, judge: &dyn Fn(&Exec<R>) -> CaseResult)
where
    B::H: Sync + Send,
{
    if ctx.stopped() {
        return;
    }
    let name = format!(
        "{} {} [{}]{}{}",
        B::NAME,
        p.name,
        p.threads.iter().map(|t| t.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join("; ")).collect::<Vec<_>>().join(" || "),
        if p.shared { "" } else { " own handles" },
        p.bound.map(|b| format!(" up to {} preemptions", b)).unwrap_or_default(),
    );
    let verdict = |x: &Exec<R>| -> CaseResult {
        let tr = || format!(" [{}]", trunc(&x.trace(), 3000));
        if x.end == End::Deadlock {
            return Err(format!("the threads wait for each other{}", tr()));
        }
        for o in &x.ops {
            if let Err(e) = &o.res {
                return Err(format!("{} in thread {}{}", e, o.thread, tr()));
            }
        }
        judge(x).map_err(|e| format!("{}{}", e, tr()))
    };
    let w = WORKER.with(|w| w.get());
    let _pin = Pinned::new(w);
    let pool = Pool::new(p.threads.len());
    if let Some(r) = &ctx.replay {
        if let Some(sch) = r.strip_prefix(&format!("{} schedule=", name)) {
            let plan: Vec<usize> = sch.chars().filter_map(|c| c.to_digit(10)).map(|x| x as usize).collect();
            ctx.shm.begin(0, r);
            let x = execute::<B, R>(&pool, &p.img, &p.threads, p.shared, &plan, &[], false);
            ctx.shm.end(0);
            ctx.count(r, true);
            if let Err(e) = verdict(&x) {
                ctx.verdict(r, &e);
            }
        }
        return;
    }
    ctx.states.fetch_add(1, Relaxed);
    let sleeping = p.bound.is_none();
    let mut stack: Vec<Node> = vec![];
    let mut sleep: Vec<Step> = vec![];
    let mut runs = 0u64;
    let mut bad = 0;
    // schedules with waits that can not be seen cost time
    let mut waited = 0;
    loop {
        let plan: Vec<usize> = stack.iter().map(|n| n.chosen).collect();
        ctx.shm.begin(w, &format!("{} schedule={}", name, plan.iter().map(|x| x.to_string()).collect::<String>()));
        let mut x = {
            let _shared = WORLDS.read().unwrap_or_else(|e| e.into_inner());
            execute::<B, R>(&pool, &p.img, &p.threads, p.shared, &plan, &sleep, sleeping)
        };
        if x.lost || x.end == End::Deadlock {
            let _alone = WORLDS.write().unwrap_or_else(|e| e.into_inner());
            ctx.add_note("schedules_run_again_alone", 1);
            x = execute::<B, R>(&pool, &p.img, &p.threads, p.shared, &plan, &sleep, sleeping);
            let often = AGAIN.fetch_add(1, Relaxed) > 200;
            if x.lost || often {
                waited += if often { 10 } else { 1 };
            }
        }
        ctx.shm.end(w);
        runs += 1;
        ctx.transitions.fetch_add(x.nodes.len() as u64, Relaxed);
        if x.lost {
            ctx.add_note("schedules_with_invisible_waits", 1);
        }
        let lost = x.lost;
        match x.end {
            End::Covered => {}
            End::TooLong => ctx.add_note("schedules_cut_short", 1),
            _ => {
                ctx.traces.fetch_add(1, Relaxed);
                let desc = format!("{} schedule={}", name, x.schedule());
                if runs == 1 {
                    // the same schedule again gives the same calls
                    let _shared = WORLDS.read().unwrap_or_else(|e| e.into_inner());
                    let y = execute::<B, R>(&pool, &p.img, &p.threads, p.shared, &x.nodes.iter().map(|n| n.chosen).collect::<Vec<_>>(), &[], false);
                    if y.trace() != x.trace() {
                        ctx.add_note("programs_not_replayed_exactly", 1);
                    } else {
                        ctx.add_note("programs_replayed_exactly", 1);
                    }
                }
                ctx.count(&desc, x.waits.len() + x.nodes.iter().filter(|n| n.preempt).count() > 0);
                if runs.is_power_of_two() && runs > 3 {
                    ctx.sample(serde_json::json!(desc));
                }
                if let Err(e) = verdict(&x) {
                    ctx.verdict(&desc, &e);
                    if !e.starts_with("SIG[") {
                        bad += 1;
                    }
                }
            }
        }
        // the new part of the execution becomes part of the search
        for (i, mut n) in x.nodes.into_iter().enumerate() {
            if i < stack.len() {
                if n.step.is_some() {
                    stack[i].step = n.step;
                }
            } else {
                n.done.clear();
                stack.push(n);
            }
        }
        if bad >= 2 || ctx.stopped() {
            return;
        }
        if std::env::var("ZMC_RUNS").is_ok() && (runs % 200 == 0 || ctx.traces.load(Relaxed) % 500 == 0) {
            eprintln!("{:?} {} {} {}", ctx.start.elapsed(), ctx.traces.load(Relaxed), runs, name);
        }
        if runs >= limit || waited >= 10 {
            ctx.add_note("programs_cut_at_the_schedule_limit", 1);
            return;
        }
        // backtrack
        let mut found = false;
        while let Some(mut n) = stack.pop() {
            if let Some(s) = n.step.take() {
                n.done.push(s);
            } else {
                // it was chosen but never ran
                n.done.push(Step { tid: n.chosen, call: Call { kind: Kind::Sync, path: String::new(), path2: String::new(), fd: -1, len: 0, flags: 0 }, first: true, last: true, at: 0 });
            }
            let used = stack.iter().filter(|m| m.preempt).count();
            let last = stack.last().map(|m| m.chosen);
            let next = n.enabled.iter().copied().find(|t| {
                if n.done.iter().any(|d| d.tid == *t) || n.sleep.iter().any(|d| d.tid == *t) {
                    return false;
                }
                let pre = matches!(last, Some(l) if l != *t && n.enabled.contains(&l));
                p.bound.is_none_or(|b| used + pre as usize <= b)
            });
            if let Some(t) = next {
                n.chosen = t;
                n.preempt = matches!(last, Some(l) if l != t && n.enabled.contains(&l));
                if sleeping {
                    sleep = n.sleep.iter().chain(n.done.iter()).cloned().collect();
                }
                stack.push(n);
                found = true;
                break;
            }
        }
        if !found {
            if !lost {
                ctx.add_note("programs_explored_completely", 1);
            }
            return;
        }
    }
}

/// Whether the operations could have happened one at a time: `apply` gives the
/// possible next states, or none if the result does not fit.
pub fn linearizable<R, S: Clone>(ops: &[Done<R>], init: &S, apply: &dyn Fn(&S, &Done<R>) -> Vec<S>, ok: &dyn Fn(&S) -> bool) -> bool {
    fn go<R, S: Clone>(ops: &[Done<R>], used: u32, s: &S, apply: &dyn Fn(&S, &Done<R>) -> Vec<S>, ok: &dyn Fn(&S) -> bool) -> bool {
        if used.count_ones() as usize == ops.len() {
            return ok(s);
        }
        for (i, o) in ops.iter().enumerate() {
            if used >> i & 1 == 1 {
                continue;
            }
            // everything that ended before it began has to come first
            if ops.iter().enumerate().any(|(j, p)| used >> j & 1 == 0 && j != i && p.end < o.start) {
                continue;
            }
            for n in apply(s, o) {
                if go(ops, used | 1 << i, &n, apply, ok) {
                    return true;
                }
            }
        }
        false
    }
    go(ops, 0, init, apply, ok)
}
