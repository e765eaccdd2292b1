//! Explicit-state exploration of operation histories on the real code.
//!
//! A state is what the store holds (every key or file with its bytes) together
//! with the reference model's state.  From every reachable state up to the
//! depth every operation of the alphabet is executed on the real code, on a
//! store restored to that state, and compared with the model; states seen
//! before are not expanded again.
use crate::eng::*;
use crate::mem::Mem;
use crate::util::*;
use std::collections::HashSet;
use std::hash::Hash;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use zarr::prelude::*;
use zarr::storage::*;

pub type Image = Snap;

/// A store that can be put into any state.
pub trait Back: Send + Sync + 'static {
    const NAME: &'static str;
    type H: HierarchyReader + HierarchyWriter + HierarchyLister + ReadableStore + WriteableStore + ListableStore;
    fn run<R>(img: &Image, f: impl FnOnce(&Self::H) -> R) -> (R, Image);
    fn empty() -> Image;
    /// Another handle of the same store.
    fn again(h: &Self::H) -> Self::H;
}

pub struct MemB;
impl Back for MemB {
    const NAME: &'static str = "mem";
    type H = Mem;
    fn run<R>(img: &Image, f: impl FnOnce(&Mem) -> R) -> (R, Image) {
        let h = Mem::new();
        *h.map.lock().unwrap() = files(img);
        let r = f(&h);
        let img = h.snap().into_iter().map(|(k, v)| (k, Some(v))).collect();
        (r, img)
    }
    fn empty() -> Image {
        Image::new()
    }
    fn again(h: &Mem) -> Mem {
        h.clone()
    }
}

pub struct FsB;
pub fn restore(d: &Dir, img: &Image) {
    std::fs::create_dir_all(&d.base).unwrap();
    for (k, v) in img {
        let p = d.base.join(k);
        match v {
            None => std::fs::create_dir_all(p).unwrap(),
            Some(b) => std::fs::write(p, b).unwrap(),
        }
    }
}
impl Back for FsB {
    const NAME: &'static str = "fs";
    type H = zarr::store::filesystem::FilesystemHierarchy;
    fn run<R>(img: &Image, f: impl FnOnce(&Self::H) -> R) -> (R, Image) {
        let d = Dir::new();
        restore(&d, img);
        let r = f(&d.open());
        let s = d.snap();
        (r, s)
    }
    fn empty() -> Image {
        let d = Dir::new();
        d.create();
        d.snap()
    }
    fn again(h: &Self::H) -> Self::H {
        let uri = h.uri("").unwrap();
        zarr::store::filesystem::FilesystemHierarchy::open(uri.trim_start_matches("file://")).unwrap()
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct State<M> {
    pub model: M,
    pub img: Image,
}

/// Explore all histories of up to `depth` operations.  `step` runs one
/// operation on the real code and returns the next state, or what is wrong.
pub fn explore<M: Clone + Eq + Hash + Send + Sync>(
    ctx: &Ctx,
    name: &str,
    init: State<M>,
    nops: usize,
    depth: usize,
    show: &(dyn Fn(usize) -> String + Sync),
    step: &(dyn Fn(&State<M>, usize) -> Result<State<M>, String> + Sync),
) {
    if ctx.stopped() {
        return;
    }
    let prefix = format!("{}: ", name);
    let describe = |p: &[u16]| {
        format!(
            "{}ops={} [{}]",
            prefix,
            p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            p.iter().map(|x| show(*x as usize)).collect::<Vec<_>>().join("; ")
        )
    };
    if let Some(r) = &ctx.replay {
        let Some(rest) = r.strip_prefix(&prefix).and_then(|r| r.strip_prefix("ops=")) else { return };
        let list: Vec<usize> = rest
            .split(' ')
            .next()
            .unwrap()
            .split(',')
            .filter_map(|x| x.parse().ok())
            .collect();
        let mut s = init;
        ctx.shm.begin(0, r);
        for op in list {
            match guard(|| step(&s, op)).and_then(|r| r) {
                Ok(n) => s = n,
                Err(e) => {
                    ctx.verdict(r, &e);
                    break;
                }
            }
        }
        ctx.shm.end(0);
        ctx.count(r, true);
        return;
    }
    let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let visit = |s: &State<M>| {
        let h = hash64(s);
        seen[(h % 64) as usize].lock().unwrap().insert(h)
    };
    visit(&init);
    ctx.states.fetch_add(1, Relaxed);
    let mut frontier: Vec<(Arc<State<M>>, Vec<u16>)> = vec![(Arc::new(init), vec![])];
    for lvl in 0..depth {
        let next: Mutex<Vec<(Arc<State<M>>, Vec<u16>)>> = Mutex::new(vec![]);
        // one item per state and operation, so that all workers are used
        let items: Vec<(usize, usize)> =
            (0..frontier.len()).flat_map(|i| (0..nops).map(move |o| (i, o))).collect();
        ctx.par(&items, |(i, op)| {
            let (s, path) = &frontier[*i];
            let mut p = path.clone();
            p.push(*op as u16);
            let w = WORKER.with(|w| w.get());
            let desc = describe(&p);
            ctx.shm.begin(w, &desc);
            let r = guard(|| step(s, *op)).and_then(|r| r);
            ctx.shm.end(w);
            ctx.transitions.fetch_add(1, Relaxed);
            ctx.evals.fetch_add(1, Relaxed);
            match r {
                Err(e) => ctx.verdict(&desc, &e),
                Ok(n) => {
                    let new = visit(&n);
                    if new {
                        let k = ctx.states.fetch_add(1, Relaxed);
                        ctx.count_distinct(&desc);
                        if k.is_power_of_two() {
                            ctx.sample(serde_json::json!(desc));
                        }
                    }
                    if new && lvl + 1 < depth {
                        next.lock().unwrap().push((Arc::new(n), p));
                    } else {
                        // the history ends here: it has been compared with the model throughout
                        ctx.traces.fetch_add(1, Relaxed);
                    }
                }
            }
        });
        if ctx.stopped() {
            return;
        }
        frontier = next.into_inner().unwrap();
        if frontier.is_empty() && lvl + 1 < depth {
            // no new states: all histories of any length are covered
            ctx.add_note("state_spaces_closed", 1);
            return;
        }
        frontier.sort_by(|a, b| a.1.cmp(&b.1));
    }
}

/// All sequences of `depth` operations, each through either of two handles that
/// stay open, both of which have to show the model's state after every step:
/// whatever a handle remembers is never out of date.  And the same with handles
/// of two hierarchies, which have nothing to do with each other.
pub fn alternate<B: Back, M: Clone + Send + Sync>(
    ctx: &Ctx,
    name: &str,
    img: &Image,
    model: &M,
    nops: usize,
    depth: usize,
    show: &(dyn Fn(usize) -> String + Sync),
    apply: &(dyn Fn(&B::H, &M, usize) -> Result<M, String> + Sync),
    observe: &(dyn Fn(&B::H, &M) -> Result<(), String> + Sync),
) {
    let items: Vec<usize> = (0..nops.pow(depth as u32)).collect();
    ctx.par(&items, |i| {
        let seq: Vec<usize> = (0..depth).map(|k| i / nops.pow(k as u32) % nops).collect();
        for mask in 0..1usize << (depth - 1) {
            // the first step is by the first handle
            let who = |k: usize| if k > 0 && mask >> (k - 1) & 1 == 1 { 1 } else { 0 };
            let text: Vec<String> = seq.iter().enumerate().map(|(k, o)| format!("{}:{}", who(k), show(*o))).collect();
            let run = |hs: [&B::H; 2], apart: bool| -> Result<(), String> {
                // with two hierarchies, each has a state of its own
                let mut ms = [model.clone(), model.clone()];
                let all = |ms: &[M; 2]| {
                    observe(hs[0], &ms[0]).map_err(|e| format!(" through the first handle: {}", e))?;
                    observe(hs[1], &ms[1]).map_err(|e| format!(" through the second handle: {}", e))
                };
                all(&ms).map_err(|e| format!("at first{}", e))?;
                for (k, o) in seq.iter().enumerate() {
                    let w = who(k);
                    ms[w] = apply(hs[w], &ms[w], *o).map_err(|e| format!("step {}: {}", k + 1, e))?;
                    if !apart {
                        ms[1 - w] = ms[w].clone();
                    }
                    all(&ms).map_err(|e| format!("after step {}{}", k + 1, e))?;
                }
                Ok(())
            };
            ctx.case(format!("two handles {} {}: {}", B::NAME, name, text.join("; ")), || {
                B::run(img, |h| run([h, &B::again(h)], false)).0?;
                ctx.transitions.fetch_add(depth as u64, Relaxed);
                ctx.traces.fetch_add(1, Relaxed);
                Ok(true)
            });
            if mask == 0 {
                continue;
            }
            ctx.case(format!("two hierarchies {} {}: {}", B::NAME, name, text.join("; ")), || {
                B::run(img, |h| B::run(img, |other| run([h, other], true)).0).0?;
                ctx.transitions.fetch_add(depth as u64, Relaxed);
                ctx.traces.fetch_add(1, Relaxed);
                Ok(true)
            });
        }
    });
}
