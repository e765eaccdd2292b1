//! C28 the chunk map, C29 the key-value store.
use crate::eng::*;
use crate::hist::*;
use crate::mem::Mem;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::atomic::Ordering::Relaxed;
use zarr::chunk::VecDataChunk;
use zarr::ndarray::BoundingBox;
use zarr::prelude::*;
use zarr::storage::*;
use zarr::ArrayMetadata;

// ------------------------------------------------------------------- C28

#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct Chunks {
    arrays: BTreeSet<usize>,
    /// (array, position) -> elements
    map: BTreeMap<(usize, usize), Vec<u8>>,
}

/// A set of arrays of one shape, the positions that matter, and contents.
struct World28 {
    name: String,
    arrays: Vec<&'static str>,
    m: M,
    pos: Vec<Vec<u64>>,
    contents: Vec<Vec<u8>>,
    /// Region writes: offset, shape, first value.
    regions: Vec<(Vec<u64>, Vec<usize>, u8)>,
    removals: bool,
}

#[derive(Clone, Debug)]
enum Op28 {
    Write(usize, usize, usize),
    Delete(usize, usize),
    Region(usize, usize),
    Remove(usize),
    Create(usize),
}

impl World28 {
    fn ops(&self) -> Vec<Op28> {
        let mut v = vec![];
        for a in 0..self.arrays.len() {
            for p in 0..self.pos.len() {
                for c in 0..self.contents.len() {
                    v.push(Op28::Write(a, p, c));
                }
                v.push(Op28::Delete(a, p));
            }
            for r in 0..self.regions.len() {
                v.push(Op28::Region(a, r));
            }
            if self.removals {
                v.push(Op28::Remove(a));
                v.push(Op28::Create(a));
            }
        }
        v
    }
    fn show(&self, o: &Op28) -> String {
        match o {
            Op28::Write(a, p, c) => format!("write({:?},{:?},#{})", self.arrays[*a], self.pos[*p], c),
            Op28::Delete(a, p) => format!("delete({:?},{:?})", self.arrays[*a], self.pos[*p]),
            Op28::Region(a, r) => format!("region({:?},{:?}+{:?})", self.arrays[*a], self.regions[*r].0, self.regions[*r].1),
            Op28::Remove(a) => format!("remove({:?})", self.arrays[*a]),
            Op28::Create(a) => format!("create({:?})", self.arrays[*a]),
        }
    }
    fn region_data(&self, r: usize) -> ndarray::ArrayD<u8> {
        let (_, s, v) = &self.regions[r];
        let n: usize = s.iter().product();
        ndarray::ArrayD::from_shape_vec(s.clone(), (0..n).map(|i| v.wrapping_add(i as u8)).collect()).unwrap()
    }
    /// Linear index within a chunk of an offset inside it (row major).
    fn linear(&self, c: &[u64]) -> usize {
        let mut i = 0;
        for (d, x) in c.iter().enumerate() {
            i = i * self.m.chunk[d] as usize + *x as usize;
        }
        i
    }
    fn model(&self, t: &Chunks, o: &Op28) -> Option<Chunks> {
        let mut n = t.clone();
        let below = |a: usize, b: usize| {
            let (a, b) = (self.arrays[a], self.arrays[b]);
            a.is_empty() || a == b || b.starts_with(&format!("{}/", a))
        };
        match o {
            Op28::Write(a, ..) | Op28::Region(a, _) | Op28::Delete(a, _) if !t.arrays.contains(a) => return None,
            Op28::Write(a, p, c) => {
                n.map.insert((*a, *p), self.contents[*c].clone());
            }
            Op28::Delete(a, p) => {
                n.map.remove(&(*a, *p));
            }
            Op28::Region(a, r) => {
                let (off, _, _) = &self.regions[*r];
                let size: usize = self.m.chunk.iter().map(|x| *x as usize).product();
                for (idx, v) in self.region_data(*r).indexed_iter() {
                    let idx: Vec<usize> = (0..off.len()).map(|d| idx[d]).collect();
                    let at: Vec<u64> = off.iter().zip(&idx).map(|(o, i)| o + *i as u64).collect();
                    let pos: Vec<u64> = at.iter().zip(&self.m.chunk).map(|(x, c)| x / *c as u64).collect();
                    let inner: Vec<u64> = at.iter().zip(&self.m.chunk).map(|(x, c)| x % *c as u64).collect();
                    let p = self.pos.iter().position(|q| *q == pos).expect("region within the positions");
                    n.map.entry((*a, p)).or_insert_with(|| vec![0; size])[self.linear(&inner)] = *v;
                }
            }
            Op28::Remove(a) => {
                n.arrays.retain(|b| !below(*a, *b));
                n.map.retain(|(b, _), _| !below(*a, *b));
            }
            Op28::Create(a) => {
                if t.arrays.contains(a) {
                    return None;
                }
                n.arrays.insert(*a);
            }
        }
        Some(n)
    }
    fn exec<H: HierarchyWriter>(&self, h: &H, m: &ArrayMetadata, o: &Op28) -> Result<(), String> {
        let s = |e: std::io::Error| format!("{} fails: {}", self.show(o), e);
        match o {
            Op28::Write(a, p, c) => <u8 as Elem>::wr(h, self.arrays[*a], m, &self.pos[*p], &self.contents[*c]).map_err(s),
            Op28::Delete(a, p) => match h.delete_chunk(self.arrays[*a], m, &self.pos[*p]).map_err(s)? {
                true => Ok(()),
                false => Err(format!("{} answers false", self.show(o))),
            },
            Op28::Region(a, r) => <u8 as Elem>::nd_wr(h, self.arrays[*a], m, &self.regions[*r].0, self.region_data(*r).view()).map_err(s),
            Op28::Remove(a) => h.remove(self.arrays[*a]).map_err(s),
            Op28::Create(a) => h.create_array(self.arrays[*a], m).map_err(s),
        }
    }
    fn observe<H: HierarchyReader>(&self, h: &H, m: &ArrayMetadata, t: &Chunks) -> Result<(), String> {
        let mut buf: VecDataChunk<u8> = vchunk(&vec![7; self.m.chunk.len()], vec![99; 3]);
        for (a, name) in self.arrays.iter().enumerate() {
            for (p, pos) in self.pos.iter().enumerate() {
                let want = t.map.get(&(a, p));
                let what = |s: &str| format!("{}({:?},{:?})", s, name, pos);
                let got = <u8 as Elem>::rd(h, name, m, pos).map_err(|e| format!("{}: {}", what("read_chunk"), e))?;
                match (&got, want) {
                    (None, None) => {}
                    (Some((q, d)), Some(w)) if q == pos && d == w => {}
                    (Some((q, d)), w) => {
                        return Err(format!("{} is {} elements at {:?} beginning {:?}, not {:?}", what("read_chunk"), d.len(), q, &d[..d.len().min(4)], w.map(|w| w[..w.len().min(4)].to_vec())))
                    }
                    (None, _) => return Err(format!("{} finds no chunk", what("read_chunk"))),
                }
                let r = <u8 as Elem>::rd_into(h, name, m, pos, &mut buf).map_err(|e| format!("{}: {}", what("read_chunk_into"), e))?;
                if r.is_some() != want.is_some() {
                    return Err(format!("{} is {:?}", what("read_chunk_into"), r));
                }
                if let Some(w) = want {
                    let (q, d) = chunk_parts(&buf);
                    if q != *pos || d != *w {
                        return Err(format!("{} reads {} elements at {:?}, beginning {:?}", what("read_chunk_into"), d.len(), q, &d[..d.len().min(4)]));
                    }
                }
            }
            // all of it as one region
            if t.arrays.contains(&a) && self.m.shape.iter().product::<u64>() <= 4096 {
                let n = self.m.shape.len();
                let b = BoundingBox::new(gc(&vec![0; n]), gc(&self.m.shape));
                let d = <u8 as Elem>::nd_rd(h, name, m, &b).map_err(|e| format!("read_ndarray({:?}): {}", name, e))?;
                for (p, pos) in self.pos.iter().enumerate() {
                    let size: usize = self.m.chunk.iter().map(|x| *x as usize).product();
                    for i in 0..size {
                        let mut rest = i;
                        let mut at = vec![0usize; n];
                        let mut inside = true;
                        for k in (0..n).rev() {
                            let c = self.m.chunk[k] as usize;
                            at[k] = pos[k] as usize * c + rest % c;
                            rest /= c;
                            inside &= (at[k] as u64) < self.m.shape[k];
                        }
                        let want = t.map.get(&(a, p)).map_or(0, |w| w[i]);
                        if inside && d[&at[..]] != want {
                            return Err(format!("read_ndarray({:?}): {:?} is {}, not {}", name, at, d[&at[..]], want));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn explore28<B: Back>(ctx: &Ctx, w: &World28, depth: usize) {
    let ops = w.ops();
    let m = w.m.build();
    let mut model = Chunks::default();
    let (_, img) = B::run(&B::empty(), |h| {
        for (a, n) in w.arrays.iter().enumerate() {
            h.create_array(n, &m).unwrap();
            model.arrays.insert(a);
        }
    });
    let step = |s: &State<Chunks>, o: usize| -> Result<State<Chunks>, String> {
        let Some(n) = w.model(&s.model, &ops[o]) else { return Ok(s.clone()) };
        let (r, img) = B::run(&s.img, |h| {
            w.exec(h, &m, &ops[o])?;
            w.observe(h, &m, &n)
        });
        r?;
        // and through a handle opened afterwards
        B::run(&img, |h| w.observe(h, &m, &n)).0.map_err(|e| format!("after reopening: {}", e))?;
        Ok(State { model: n, img })
    };
    explore(ctx, &format!("{} {}", B::NAME, w.name), State { model, img }, ops.len(), depth, &|i| w.show(&ops[i]), &step);
}

/// All sequences of `depth` operations on one pair of handles.
fn sequences28(ctx: &Ctx, w: &World28, depth: usize) {
    let ops = w.ops();
    let m = w.m.build();
    let n = ops.len().pow(depth as u32);
    let items: Vec<usize> = (0..n).collect();
    ctx.par(&items, |i| {
        let seq: Vec<usize> = (0..depth).map(|k| i / ops.len().pow(k as u32) % ops.len()).collect();
        let mut t = Chunks { arrays: (0..w.arrays.len()).collect(), ..Default::default() };
        // sequences with an operation that does not apply are shorter ones
        let mut states = vec![];
        for o in &seq {
            match w.model(&t, &ops[*o]) {
                Some(n) => t = n,
                None => return,
            }
            states.push(t.clone());
        }
        for mask in 0..1usize << (depth - 1) {
            let who = |k: usize| k > 0 && mask >> (k - 1) & 1 == 1;
            let text: Vec<String> = seq.iter().enumerate().map(|(k, o)| format!("{}:{}", who(k) as u8, w.show(&ops[*o]))).collect();
            ctx.case(format!("handles {}: {}", w.name, text.join("; ")), || {
                let d = Dir::new();
                let h = d.create();
                for a in &w.arrays {
                    h.create_array(a, &m).map_err(|e| e.to_string())?;
                }
                let other = d.open();
                let clone = h.clone();
                for (k, o) in seq.iter().enumerate() {
                    w.exec(if who(k) { &other } else { &h }, &m, &ops[*o]).map_err(|e| format!("step {}: {}", k + 1, e))?;
                    w.observe(&other, &m, &states[k]).map_err(|e| format!("after step {}, the second handle: {}", k + 1, e))?;
                    w.observe(&h, &m, &states[k]).map_err(|e| format!("after step {}, the first handle: {}", k + 1, e))?;
                }
                w.observe(&clone, &m, states.last().unwrap()).map_err(|e| format!("a cloned handle: {}", e))?;
                ctx.transitions.fetch_add(depth as u64, Relaxed);
                ctx.traces.fetch_add(1, Relaxed);
                Ok(true)
            });
        }
    });
}

fn worlds28(t: bool) -> Vec<(World28, usize, usize)> {
    let mut v = vec![];
    let small = |name: &str, arrays: Vec<&'static str>, m: M, pos: Vec<Vec<u64>>, contents: Vec<Vec<u8>>, regions, removals| World28 { name: name.into(), arrays, m, pos, contents, regions, removals };
    v.push((
        small("1d", vec!["a", "ab", "a/b"], M::new(&[4], &[2], "u1"), vec![vec![0], vec![1]], vec![vec![1, 2], vec![3, 4]], vec![(vec![1], vec![2], 5)], true),
        if t { 6 } else { 4 },
        if t { 4 } else { 2 },
    ));
    v.push((
        small("root", vec!["", "a"], M::new(&[3], &[2], "u1"), vec![vec![0], vec![1]], vec![vec![1, 2]], vec![(vec![1], vec![1], 5), (vec![0], vec![3], 9)], true),
        if t { 12 } else { 5 },
        if t { 7 } else { 3 },
    ));
    v.push((
        small("0d", vec!["", "a", "a/b"], M::new(&[], &[], "u1"), vec![vec![]], vec![vec![1], vec![2]], vec![(vec![], vec![], 5)], true),
        if t { 20 } else { 6 },
        if t { 5 } else { 3 },
    ));
    for sep in ["/", ".", "-"] {
        v.push((
            small(
                &format!("2d sep={:?}", sep),
                vec!["a"],
                M::new(&[24, 24], &[2, 2], "u1").sep(sep),
                vec![vec![1, 0], vec![1, 1], vec![11, 0], vec![1, 10], vec![0, 11], vec![1, 11], vec![11, 1]],
                vec![vec![1, 2, 3, 4]],
                vec![(vec![1, 22], vec![2, 2], 50)],
                false,
            ),
            if t { 20 } else { 5 },
            if t { 5 } else { 2 },
        ));
    }
    v.push((
        small("deep", vec!["a", "a/c", "a/c/d", "b.x/y"], M::new(&[2, 2], &[1, 2], "u1"), vec![vec![0, 0], vec![1, 0]], vec![vec![8, 9]], vec![(vec![0, 1], vec![2, 1], 3)], true),
        if t { 6 } else { 4 },
        if t { 4 } else { 2 },
    ));
    // chunks whose stored sizes differ, with every codec
    for c in CODECS {
        let n = 3000;
        let m = M::new(&[2 * n as u64], &[n], "u1").codec(&codec(c));
        let k = ["mix", "zero", "runs"].iter().map(|k| content::<u8>(k, n as usize)).collect();
        v.push((small(&format!("big {}", c), vec!["a"], m, vec![vec![0], vec![1]], k, vec![(vec![n as u64 - 1], vec![2], 200)], true), if t { 7 } else { 3 }, if t { 4 } else { 2 }));
    }
    v
}

pub fn c28(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one state per (world, store, what is stored); from every reachable state every chunk write, deletion, region write, array removal and creation \
         runs on the real code, after which every chunk of every array, by three ways of reading and through a reopened handle, is compared with a map; \
         and one case per sequence of operations, each through either of two handles that stay open, observed through both and a clone",
    );
    let t = ctx.thorough;
    for (w, depth, seq) in worlds28(t) {
        explore28::<MemB>(ctx, &w, depth + 2);
        explore28::<FsB>(ctx, &w, depth - if t { 0 } else { 1 });
        sequences28(ctx, &w, seq);
    }
    ("model_checking", true)
}

// ------------------------------------------------------------------- C29

type KV = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Debug)]
enum Op29 {
    Set(&'static str, usize, usize),
    Erase(&'static str),
    Prefix(&'static str),
}

fn norm(k: &str) -> String {
    k.trim_matches('/').to_string()
}
fn value29(i: usize) -> Vec<u8> {
    match i {
        0 => vec![],
        1 => b"short".to_vec(),
        // longer than one buffer of any layer
        2 => (0..9001u32).map(|i| (i * i >> 3) as u8).collect(),
        _ => b"other, somewhat longer".to_vec(),
    }
}
/// The value in pieces, so that buffers are filled and flushed in different ways.
fn pieces(v: &[u8], how: usize) -> Vec<&[u8]> {
    match how {
        0 => vec![v],
        1 => v.chunks(v.len() / 2 + 1).collect(),
        _ => v.chunks(4096.min(v.len() / 3 + 1)).collect(),
    }
}

fn run29<H: WriteableStore>(h: &H, o: &Op29) -> std::io::Result<bool> {
    match o {
        Op29::Set(k, v, how) => h
            .set(k, |mut w| {
                let v = value29(*v);
                for p in pieces(&v, *how) {
                    w.write_all(p)?;
                }
                if *how != 1 {
                    w.flush()?;
                }
                Ok(())
            })
            .map(|_| true),
        Op29::Erase(k) => h.erase(k),
        Op29::Prefix(k) => h.erase_prefix(k),
    }
}
fn model29(t: &KV, o: &Op29) -> KV {
    let mut n = t.clone();
    match o {
        Op29::Set(k, v, _) => {
            n.insert(norm(k), value29(*v));
        }
        Op29::Erase(k) => {
            n.remove(&norm(k));
        }
        Op29::Prefix(k) => {
            let p = format!("{}/", norm(k));
            n.retain(|q, _| !q.starts_with(&p));
        }
    }
    n
}
fn show29(o: &Op29) -> String {
    match o {
        Op29::Set(k, v, how) => format!("set({:?},{} bytes,{})", k, value29(*v).len(), ["whole", "in parts unflushed", "in parts"][*how]),
        Op29::Erase(k) => format!("erase({:?})", k),
        Op29::Prefix(k) => format!("erase_prefix({:?})", k),
    }
}

/// The keys below a prefix, with what the prefix was spelled as.
fn expect_list(t: &KV, prefix: &str) -> BTreeSet<String> {
    let p = norm(prefix);
    t.keys().filter(|k| p.is_empty() || k.starts_with(&format!("{}/", p))).cloned().collect()
}

fn observe29<H: ReadableStore + ListableStore>(h: &H, t: &KV, keys: &[&str], prefixes: &[&str], img: Option<&Image>, known: &mut Vec<String>) -> Result<(), String> {
    let mut all: BTreeSet<String> = keys.iter().map(|k| k.to_string()).collect();
    all.extend(t.keys().cloned());
    for k in &all {
        let want = t.get(&norm(k));
        let e = h.exists(k).map_err(|e| format!("exists({:?}): {}", k, e))?;
        if e != want.is_some() {
            return Err(format!("exists({:?}) is {}", k, e));
        }
        let got = match h.get(k).map_err(|e| format!("get({:?}): {}", k, e))? {
            None => None,
            Some(mut r) => {
                let mut v = vec![];
                r.read_to_end(&mut v).map_err(|e| format!("reading {:?}: {}", k, e))?;
                Some(v)
            }
        };
        if got.as_ref() != want {
            return Err(format!("get({:?}) is {:?} bytes, not {:?}, or other bytes", k, got.map(|v| v.len()), want.map(|v| v.len())));
        }
    }
    let once = |what: String, got: Vec<String>, want: BTreeSet<String>| -> Result<(), String> {
        let mut s: Vec<String> = got.iter().map(|k| k.trim_start_matches('/').to_string()).collect();
        s.sort();
        if s != want.iter().cloned().collect::<Vec<_>>() {
            return Err(format!("{} is {:?}, not {:?}", what, got, want));
        }
        for k in &got {
            if !h.exists(k).map_err(|e| e.to_string())? {
                return Err(format!("{} names {:?}, which does not exist", what, k));
            }
        }
        Ok(())
    };
    once("list()".into(), h.list().map_err(|e| format!("list(): {}", e))?, expect_list(t, ""))?;
    for p in prefixes {
        let l = h.list_prefix(p).map_err(|e| format!("list_prefix({:?}): {}", p, e))?;
        if let Some(k) = l.iter().find(|k| !k.starts_with(p)) {
            return Err(format!("list_prefix({:?}) yields {:?}, which does not begin with it", p, k));
        }
        once(format!("list_prefix({:?})", p), l, expect_list(t, p))?;
        let (ks, ps) = h.list_dir(p).map_err(|e| format!("list_dir({:?}): {}", p, e))?;
        let below = expect_list(t, p);
        let skip = if norm(p).is_empty() { 0 } else { norm(p).len() + 1 };
        let level: BTreeSet<String> = below.iter().filter(|k| !k[skip..].contains('/')).cloned().collect();
        let subs: BTreeSet<String> = below.iter().filter_map(|k| k[skip..].find('/').map(|i| k[..skip + i + 1].to_string())).collect();
        once(format!("list_dir({:?}).0", p), ks, level)?;
        let mut s: Vec<String> = ps.iter().map(|k| k.trim_start_matches('/').to_string()).collect();
        s.sort();
        let want: Vec<String> = subs.iter().cloned().collect();
        if s != want {
            let text = format!("list_dir({:?}).1 is {:?}, not {:?}", p, ps, want);
            let rest: Vec<String> = s.iter().filter(|k| subs.contains(*k) || !img.map_or(false, |i| hollow(i, k.trim_end_matches('/')))).cloned().collect();
            if rest != want {
                return Err(text);
            }
            known.push(format!("SIG[list_dir names an empty directory] {}", text));
        }
    }
    Ok(())
}
fn hollow(img: &Image, d: &str) -> bool {
    matches!(img.get(d), Some(None)) && !img.iter().any(|(k, v)| v.is_some() && k.starts_with(&format!("{}/", d)))
}

fn world29(keys: &[&'static str], prefixes: &[&'static str], values: &[usize], hows: &[usize]) -> Vec<Op29> {
    let mut v = vec![];
    for k in keys {
        for x in values {
            for how in hows {
                if *how == 0 || *x == 2 {
                    v.push(Op29::Set(k, *x, *how));
                }
            }
        }
        v.push(Op29::Erase(k));
    }
    for p in prefixes {
        if !norm(p).is_empty() {
            v.push(Op29::Prefix(p));
        }
    }
    v
}

/// A key that needs a directory where there is a key, or the other way round.
fn conflicts(img: &Image, k: &str) -> bool {
    let k = norm(k);
    matches!(img.get(&k), Some(None)) || img.iter().any(|(q, v)| v.is_some() && k.starts_with(&format!("{}/", q)))
}

fn fs29(ctx: &Ctx, name: &str, keys: &[&'static str], prefixes: &[&'static str], values: &[usize], hows: &[usize], depth: usize) {
    let ops = world29(keys, prefixes, values, hows);
    let start = FsB::empty();
    let model: KV = files(&start);
    let step = |s: &State<KV>, i: usize| -> Result<State<KV>, String> {
        let o = &ops[i];
        let mut n = model29(&s.model, o);
        let clash = matches!(o, Op29::Set(k, ..) if conflicts(&s.img, k));
        let mut known = vec![];
        let (r, img) = FsB::run(&s.img, |h| run29(h, o));
        match &r {
            Ok(true) if clash && files(&img) != n => return Err(format!("{} succeeds, but is not stored", show29(o))),
            Ok(true) => {}
            Ok(false) => return Err(format!("{} answers false", show29(o))),
            Err(e) if !clash => return Err(format!("{} fails: {}", show29(o), e)),
            Err(_) => {
                // a file system has no file and directory of one name
                n = s.model.clone();
                if img != s.img {
                    return Err(format!("{} fails and leaves a change: {}", show29(o), snap_diff(&s.img, &img)));
                }
            }
        }
        if files(&img) != n {
            return Err(format!("after {} the files are {:?}", show29(o), files(&img).keys().collect::<Vec<_>>()));
        }
        let (r, after) = FsB::run(&img, |h| observe29(h, &n, keys, prefixes, Some(&img), &mut known));
        r?;
        if after != img {
            return Err(format!("looking at the store changed it: {}", snap_diff(&img, &after)));
        }
        for k in known {
            ctx.verdict(&format!("{} after {}", s.img.keys().cloned().collect::<Vec<_>>().join(","), show29(o)), &k);
        }
        Ok(State { model: n, img })
    };
    explore(ctx, &format!("fs {}", name), State { model, img: start }, ops.len(), depth, &|i| show29(&ops[i]), &step);
}

/// The listing functions every store inherits, with every order of answers.
fn mem29(ctx: &Ctx, keys: &[&'static str], prefixes: &[&'static str]) {
    let all: Vec<u32> = (0..1u32 << keys.len()).collect();
    ctx.par(&all, |set| {
        for order in 0..24 {
            ctx.case(format!("mem keys={:b} of {:?} order={}", set, keys, order), || {
                let h = Mem::new();
                let mut t = KV::new();
                for (i, k) in keys.iter().enumerate() {
                    if set >> i & 1 == 1 {
                        h.put(k, k.as_bytes());
                        t.insert(norm(k), k.as_bytes().to_vec());
                    }
                }
                h.order.store(order, Relaxed);
                observe29(&h, &t, keys, prefixes, None, &mut vec![])?;
                Ok(*set != 0)
            });
        }
    });
}

/// Sequences on one handle, observed through it and another.
fn sequences29(ctx: &Ctx, name: &str, keys: &[&'static str], prefixes: &[&'static str], values: &[usize], depth: usize) {
    let ops = world29(keys, prefixes, values, &[0]);
    let n = ops.len().pow(depth as u32);
    let items: Vec<usize> = (0..n).collect();
    ctx.par(&items, |i| {
        let seq: Vec<usize> = (0..depth).map(|k| i / ops.len().pow(k as u32) % ops.len()).collect();
        for mask in 0..1usize << (depth - 1) {
            let who = |k: usize| k > 0 && mask >> (k - 1) & 1 == 1;
            let text: Vec<String> = seq.iter().enumerate().map(|(k, o)| format!("{}:{}", who(k) as u8, show29(&ops[*o]))).collect();
            ctx.case(format!("handles {}: {}", name, text.join("; ")), || {
                let d = Dir::new();
                let h = d.create();
                let other = d.open();
                let mut t = files(&d.snap());
                for (k, o) in seq.iter().enumerate() {
                    let o = &ops[*o];
                    let clash = matches!(o, Op29::Set(k, ..) if conflicts(&d.snap(), k));
                    match run29(if who(k) { &other } else { &h }, o) {
                        Ok(true) => t = model29(&t, o),
                        Ok(false) => return Err(format!("{} answers false", show29(o))),
                        Err(_) if clash => {}
                        Err(e) => return Err(format!("{} fails: {}", show29(o), e)),
                    }
                    let img = d.snap();
                    for x in [&h, &other] {
                        observe29(x, &t, keys, prefixes, Some(&img), &mut vec![])?;
                    }
                }
                ctx.transitions.fetch_add(depth as u64, Relaxed);
                ctx.traces.fetch_add(1, Relaxed);
                Ok(true)
            });
        }
    });
}

pub fn c29(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one state per stored directory tree; from every reachable state every set, erase and prefix erase of an alphabet of keys, values, ways of writing and prefixes runs on the real store, \
         after which getting, testing and listing every key and prefix is compared with a map; every sequence of a smaller alphabet through two handles that stay open; every set of keys with every order of answers for the inherited listing functions",
    );
    ctx.assume("a key which is also a prefix of other keys may be refused (with an error that changes nothing); the empty prefix is not erased; prefixes are whole path components");
    let t = ctx.thorough;
    let keys = ["a", "ab", "d/a", "d/e/a", "d/e.f"];
    let prefixes = ["", "/", "a", "d", "d/", "/d", "/d/", "d/e", "d/e/", "nope", "d/e.f", "nope/x/"];
    fs29(ctx, "tree", &keys, &prefixes, &[0, 1], &[0], if t { 20 } else { 3 });
    fs29(ctx, "conflicts", &["d", "d/e", "d/e/a", "/d/f"], &["d", "d/e", "d/e/a", "d/f/"], &[1], &[0], if t { 20 } else { 8 });
    fs29(ctx, "values", &["a", "d/b"], &["d", "/"], &[0, 1, 2, 3], &[0, 1, 2], if t { 20 } else { 8 });
    fs29(ctx, "odd names", &["zarr.json.x", "x.", ".y", "a b/\u{e9}", "/d.json/.tmp", "c\nd/x"], &["/", "d.json", "a b/", "x.", "c\nd"], &[1], &[0], if t { 20 } else { 4 });
    fs29(ctx, "hierarchy", &["/meta/root.array.json", "/meta/root/a.array.json", "/data/root/a/c0", "/data/root/a/c0/1", "/data/root/ab/c"], &["/meta/root", "/data/root/a", "/data/root", "meta", "/data/root/a/"], &[1], &[0], if t { 20 } else { 6 });
    mem29(ctx, &["a", "ab", "d/a", "d/e/a", "d/e.f", "d/e/b", "f/g/h", "b"], &["", "/", "a", "d", "d/", "/d", "/d/", "d/e", "d/e/", "nope", "d/e.f"]);
    sequences29(ctx, "pairs", &["a", "d/a", "d/e/a"], &["d", "d/e", "/"], &[0, 2], if t { 5 } else { 4 });
    ("model_checking", true)
}
