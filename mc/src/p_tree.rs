//! C11 attributes, C12 existence, C13 listing, C14 slashes.
use crate::eng::*;
use crate::hist::*;
use crate::mem::Mem;
use crate::p_meta::{attr_values, cut, same_document};
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::sync::atomic::Ordering::Relaxed;
use zarr::prelude::*;
use zarr::storage::*;

/// The reference: explicit nodes and chunks.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Tree {
    /// path -> (array metadata index or group, attributes as JSON text)
    pub nodes: BTreeMap<String, (Option<u8>, String)>,
    pub chunks: BTreeMap<(String, u64), u8>,
}
impl Tree {
    pub fn below(p: &str, q: &str) -> bool {
        p.is_empty() || q == p || q.starts_with(&format!("{}/", p))
    }
    pub fn implied(&self, p: &str) -> bool {
        p.is_empty() || self.nodes.keys().any(|q| q != p && Tree::below(p, q))
    }
    pub fn children(&self, p: &str) -> Vec<String> {
        let mut s = BTreeSet::new();
        for q in self.nodes.keys() {
            if q != p && Tree::below(p, q) {
                let r = if p.is_empty() { q } else { &q[p.len() + 1..] };
                s.insert(r.split('/').next().unwrap().to_string());
            }
        }
        s.into_iter().collect()
    }
    fn remove(&mut self, p: &str) {
        self.nodes.retain(|q, _| !Tree::below(p, q));
        self.chunks.retain(|(q, _), _| !Tree::below(p, q));
    }
}

#[derive(Clone)]
pub enum Op {
    Group(String),
    Array(String, u8),
    Remove(String),
    RemoveAll,
    Attrs(String, Value),
    Attr(String, String, Value),
    Chunk(String, u64, u8),
    Erase(String, u64),
}
impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Group(p) => format!("create_group({:?})", p),
            Op::Array(p, k) => format!("create_array({:?},m{})", p, k),
            Op::Remove(p) => format!("remove({:?})", p),
            Op::RemoveAll => "remove_all".into(),
            Op::Attrs(p, v) => format!("set_attributes({:?},{})", p, cut(&v.to_string())),
            Op::Attr(p, k, v) => format!("set_attribute({:?},{:?},{})", p, k, cut(&v.to_string())),
            Op::Chunk(p, i, v) => format!("write_chunk({:?},{},{})", p, i, v),
            Op::Erase(p, i) => format!("delete_chunk({:?},{})", p, i),
        }
    }
}

pub fn metas(k: u8) -> M {
    match k {
        0 => M::new(&[4], &[2], "u1"),
        _ => M::new(&[8], &[2], "u1").fill(json!(9)).codec(&codec("gzip")),
    }
}

pub fn exec<H: HierarchyWriter>(h: &H, op: &Op) -> io::Result<()> {
    match op {
        Op::Group(p) => h.create_group(p),
        Op::Array(p, k) => h.create_array(p, &metas(*k).build()),
        Op::Remove(p) => h.remove(p),
        Op::RemoveAll => h.remove_all(),
        Op::Attrs(p, v) => h.set_attributes(p, v.as_object().unwrap().clone()),
        Op::Attr(p, k, v) => h.set_attribute(p, k.clone(), v.clone()),
        Op::Chunk(p, i, v) => <u8 as Elem>::wr(h, p, &metas(0).build(), &[*i], &[*v, *v]),
        Op::Erase(p, i) => h.delete_chunk(p, &metas(0).build(), &[*i]).and_then(|b| {
            if b {
                Ok(())
            } else {
                Err(io::Error::new(io::ErrorKind::Other, "delete_chunk answered false"))
            }
        }),
    }
}

/// The model's step: the next state, and whether the call has to succeed
/// (None: either is fine, the state follows what the call reports).
fn model(t: &Tree, op: &Op) -> (Tree, Option<bool>) {
    let mut n = t.clone();
    match op {
        Op::Group(p) => match t.nodes.get(p) {
            Some((Some(_), _)) => (n, Some(false)),
            Some(_) => (n, Some(true)),
            None => {
                n.nodes.insert(p.clone(), (None, "{}".into()));
                (n, Some(true))
            }
        },
        Op::Array(p, k) => {
            if t.nodes.contains_key(p) {
                return (n, Some(false));
            }
            n.nodes.insert(p.clone(), (Some(*k), "{}".into()));
            // an implied group may or may not count as a node here
            let implied = !p.is_empty() && t.implied(p) || p.is_empty() && !t.nodes.is_empty();
            (n, if implied { None } else { Some(true) })
        }
        Op::Remove(p) => {
            n.remove(p);
            let there = t.nodes.contains_key(p);
            (n, if there { Some(true) } else { None })
        }
        Op::RemoveAll => {
            n.remove("");
            (n, Some(true))
        }
        Op::Attrs(..) | Op::Attr(..) => {
            let (p, add) = match op {
                Op::Attrs(p, v) => (p, v.as_object().unwrap().clone()),
                Op::Attr(p, k, v) => (p, std::iter::once((k.clone(), v.clone())).collect::<Map<_, _>>()),
                _ => unreachable!(),
            };
            match n.nodes.get_mut(p) {
                None => (n, Some(false)),
                Some((_, a)) => {
                    let mut m: Map<String, Value> = serde_json::from_str(a).unwrap();
                    for (k, v) in add {
                        m.insert(k, v);
                    }
                    *a = Value::Object(m).to_string();
                    (n, Some(true))
                }
            }
        }
        Op::Chunk(p, i, v) => {
            n.chunks.insert((p.clone(), *i), *v);
            (n, Some(true))
        }
        Op::Erase(p, i) => {
            n.chunks.remove(&(p.clone(), *i));
            (n, Some(true))
        }
    }
}

/// Every file the model says there is, and nothing else.
fn check_files(t: &Tree, img: &Image) -> Result<(), String> {
    let mut left = files(img);
    left.remove("zarr.json");
    for (p, (kind, attrs)) in &t.nodes {
        let k = match (kind, p.is_empty()) {
            (Some(_), true) => "meta/root.array.json".into(),
            (None, true) => "meta/root.group.json".into(),
            (Some(_), false) => format!("meta/root/{}.array.json", p),
            (None, false) => format!("meta/root/{}.group.json", p),
        };
        let b = left.remove(&k).ok_or(format!("{} is not stored", k))?;
        let doc: Value = serde_json::from_slice(&b).map_err(|e| format!("{} is not JSON: {}", k, e))?;
        let want: Value = serde_json::from_str(attrs).unwrap();
        match kind {
            Some(i) => {
                let mut m = metas(*i);
                m.attrs = want;
                same_document(&doc, &m).map_err(|e| format!("{}: {}", k, e))?;
            }
            None => {
                if doc != json!({"extensions": [], "attributes": want}) {
                    return Err(format!("{} holds {}", k, cut(&doc.to_string())));
                }
            }
        }
    }
    for ((p, i), v) in &t.chunks {
        let k = if p.is_empty() { format!("data/root/c{}", i) } else { format!("data/root/{}/c{}", p, i) };
        if left.remove(&k) != Some(vec![*v, *v]) {
            return Err(format!("chunk {} is not stored as written", k));
        }
    }
    if let Some(k) = left.keys().next() {
        return Err(format!("{} is left in the store", k));
    }
    Ok(())
}

fn observe<H: HierarchyReader>(h: &H, t: &Tree, universe: &[String], positions: &[u64]) -> Result<(), String> {
    for p in universe {
        let node = t.nodes.get(p);
        let open = node.is_none() && t.implied(p);
        let e = h.exists(p).map_err(|e| format!("exists({:?}): {}", p, e))?;
        if !open && e != node.is_some() {
            return Err(format!("exists({:?}) is {}", p, e));
        }
        let is_array = matches!(node, Some((Some(_), _)));
        let a = h.array_exists(p).map_err(|e| format!("array_exists({:?}): {}", p, e))?;
        if a != is_array {
            return Err(format!("array_exists({:?}) is {}", p, a));
        }
        match (h.list_attributes(p), node) {
            (Ok(m), Some((_, a))) => {
                if Value::Object(m.clone()) != serde_json::from_str::<Value>(a).unwrap() {
                    return Err(format!("the attributes of {:?} are {}, not {}", p, cut(&json!(m).to_string()), cut(a)));
                }
            }
            (Err(e), Some(_)) => return Err(format!("list_attributes({:?}): {}", p, e)),
            (Ok(m), None) if !open => return Err(format!("list_attributes({:?}) of no node is {}", p, json!(m))),
            _ => {}
        }
        match (h.get_array_metadata(p), node) {
            (Ok(m), Some((Some(k), a))) => {
                let mut want = metas(*k);
                want.attrs = serde_json::from_str(a).unwrap();
                same_document(&serde_json::to_value(&m).unwrap(), &want).map_err(|e| format!("metadata of {:?}: {}", p, e))?;
            }
            (Err(e), Some((Some(_), _))) => return Err(format!("get_array_metadata({:?}): {}", p, e)),
            (Ok(_), _) => return Err(format!("get_array_metadata({:?}) of no array succeeds", p)),
            _ => {}
        }
        let m = metas(0).build();
        for i in positions {
            let c = <u8 as Elem>::rd(h, p, &m, &[*i]).map_err(|e| format!("read_chunk({:?},{}): {}", p, i, e))?;
            let want = t.chunks.get(&(p.clone(), *i)).map(|v| vec![*v, *v]);
            if c.clone().map(|c| c.1) != want {
                return Err(format!("chunk {} of {:?} reads {:?}, not {:?}", i, p, c, want));
            }
        }
    }
    Ok(())
}

/// Directories of an image with no file below them.
fn hollow(img: &Image, d: &str) -> bool {
    matches!(img.get(d), Some(None)) && !img.iter().any(|(k, v)| v.is_some() && k.starts_with(&format!("{}/", d)))
}

fn check_list<H: HierarchyLister>(h: &H, t: &Tree, img: &Image, p: &str) -> Result<(), String> {
    let got = h.list_nodes(p).map_err(|e| format!("list_nodes({:?}): {}", p, e))?;
    let want = t.children(p);
    if got == want {
        return Ok(());
    }
    let dir = |n: &str| if p.is_empty() { format!("meta/root/{}", n) } else { format!("meta/root/{}/{}", p, n) };
    let rest: Vec<String> = got.iter().filter(|n| want.contains(n) || !hollow(img, &dir(n))).cloned().collect();
    let text = format!("list_nodes({:?}) is {:?}, not {:?}", p, got, want);
    let mut sorted = got.clone();
    sorted.sort();
    if rest == want && sorted == got {
        return Err(format!("SIG[list_nodes names an empty directory] {}", text));
    }
    Err(text)
}

fn families() -> Vec<Vec<&'static str>> {
    vec![
        vec!["", "a", "a/b"],
        vec!["a", "ab", "a/b"],
        vec!["a", "a.b", "a/b"],
        vec!["a", "a.array", "a.group"],
        vec!["x", "x/a", "x/ab"],
        vec!["a", "a.json", "a.array.json"],
        vec!["é", "é/ü", "e\u{301}"],
        vec![".h", ".h/.i", "h."],
        vec!["a/b/c/d", "a/b", "a"],
        vec!["a b", "a b/c d", "a"],
        vec!["meta", "data/root", "root"],
        vec!["a", "a/b.c", "a/b.d"],
        vec!["", "array", "group/json"],
        vec!["zarr.json", "a..b", "a..b/..c"],
    ]
}

fn alphabet(fam: &[&str], rich: bool) -> Vec<Op> {
    let mut v = vec![Op::RemoveAll];
    for p in fam {
        let p = p.to_string();
        v.push(Op::Group(p.clone()));
        v.push(Op::Array(p.clone(), 0));
        v.push(Op::Remove(p.clone()));
        v.push(Op::Attrs(p.clone(), json!({"k": 1})));
        v.push(Op::Chunk(p.clone(), 1, 7));
        // paths that spell something of the node
        for q in [format!("{}/c1", p), format!("{}.array.json", p)] {
            if !p.is_empty() && !fam.contains(&&q[..]) {
                v.push(Op::Remove(q));
            }
        }
        if rich {
            v.push(Op::Array(p.clone(), 1));
            v.push(Op::Attr(p.clone(), "k".into(), json!(null)));
            v.push(Op::Erase(p.clone(), 1));
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Nodes,
    List,
}

fn run_tree<B: Back>(ctx: &Ctx, what: What, fam: &[&str], rich: bool, depth: usize) {
    let ops = alphabet(fam, rich);
    let mut universe: BTreeSet<String> = fam.iter().map(|s| s.to_string()).collect();
    for p in fam {
        // every ancestor, and names near by
        let mut q = *p;
        while let Some(i) = q.rfind('/') {
            q = &q[..i];
            universe.insert(q.into());
        }
        if !p.is_empty() {
            universe.insert(format!("{}.array", p));
            universe.insert(format!("{}.array.json", p));
            universe.insert(format!("{}/zz", p));
            universe.insert(p[..p.len() - p.chars().last().unwrap().len_utf8()].trim_end_matches('/').to_string());
        }
    }
    universe.insert("".into());
    universe.retain(|p| !p.split('/').any(|c| c == "." || c == ".."));
    let universe: Vec<String> = universe.into_iter().collect();
    let groups: Vec<String> = universe.clone();
    let step = |s: &State<Tree>, op: usize| -> Result<State<Tree>, String> {
        let op = &ops[op];
        if let Op::Chunk(p, ..) = op {
            // only arrays have chunks
            if !matches!(s.model.nodes.get(p), Some((Some(_), _))) {
                return Ok(s.clone());
            }
        }
        let (next, must) = model(&s.model, op);
        let (r, img) = B::run(&s.img, |h| {
            let r = exec(h, op);
            let t = match (must, &r) {
                (Some(true), Err(e)) => return Err(format!("{} fails: {}", op.show(), e)),
                (Some(false), Ok(())) => return Err(format!("{} succeeds", op.show())),
                (Some(false), _) | (None, Err(_)) => &s.model,
                _ => &next,
            };
            if what == What::Nodes {
                observe(h, t, &universe, &[0, 1])?;
            }
            Ok((t.clone(), r.is_ok()))
        });
        let (t, ok) = r?;
        if !ok && files(&img) != files(&s.img) {
            return Err(format!("{} failed and changed the store: {}", op.show(), snap_diff(&s.img, &img)));
        }
        if what == What::Nodes {
            check_files(&t, &img)?;
        } else {
            for k in 0..if B::NAME == "mem" { 6 } else { 1 } {
                for g in &groups {
                    if matches!(t.nodes.get(g), Some((None, _))) || t.nodes.get(g).is_none() && t.implied(g) {
                        let r = if B::NAME == "mem" {
                            let h = Mem::new();
                            *h.map.lock().unwrap() = files(&img);
                            h.order.store(k, Relaxed);
                            check_list(&h, &t, &img, g)
                        } else {
                            B::run(&img, |h| check_list(h, &t, &img, g)).0
                        };
                        match r {
                            // reported, and the history goes on
                            Err(e) if e.starts_with("SIG[") && ctx.is_known(e[4..].split(']').next().unwrap()) => {
                                ctx.verdict(&format!("{} after {}", s.model.nodes.keys().cloned().collect::<Vec<_>>().join(","), op.show()), &e)
                            }
                            r => r?,
                        }
                    }
                }
            }
        }
        Ok(State { model: t, img })
    };
    explore(
        ctx,
        &format!("{} {:?}{}", B::NAME, fam, if rich { " rich" } else { "" }),
        State { model: Tree::default(), img: B::empty() },
        ops.len(),
        depth,
        &|i| ops[i].show(),
        &step,
    );
}

fn small_alphabet(what: What, fam: &[&str]) -> Vec<Op> {
    let mut ops = vec![];
    for p in fam {
        let p = p.to_string();
        ops.push(Op::Group(p.clone()));
        ops.push(Op::Array(p.clone(), 0));
        ops.push(Op::Remove(p.clone()));
        if what == What::Nodes {
            ops.push(Op::Attrs(p.clone(), json!({"k": 1})));
            ops.push(Op::Chunk(p.clone(), 1, 7));
        }
    }
    ops
}

/// Sequences of operations through two handles that stay open.
fn handles_tree<B: Back>(ctx: &Ctx, what: What, fam: &[&str], init: &[Op], ops: &[Op], depth: usize) {
    let mut start = Tree::default();
    let (_, img) = B::run(&B::empty(), |h| {
        for o in init {
            exec(h, o).unwrap();
            start = model(&start, o).0;
        }
    });
    let universe: Vec<String> = fam.iter().map(|s| s.to_string()).collect();
    alternate::<B, Tree>(
        ctx,
        &format!("{:?} {:?}", fam, init.iter().map(|o| o.show()).collect::<Vec<_>>()),
        &img,
        &start,
        ops.len(),
        depth,
        &|i| ops[i].show(),
        &|h, t, i| {
            let op = &ops[i];
            if let Op::Chunk(p, ..) = op {
                if !matches!(t.nodes.get(p), Some((Some(_), _))) {
                    return Ok(t.clone());
                }
            }
            let (next, must) = model(t, op);
            match (must, exec(h, op)) {
                (Some(true), Err(e)) => Err(format!("{} fails: {}", op.show(), e)),
                (Some(false), Ok(())) => Err(format!("{} succeeds", op.show())),
                (Some(false), _) | (None, Err(_)) => Ok(t.clone()),
                _ => Ok(next),
            }
        },
        &|h, t| {
            if what == What::Nodes {
                return observe(h, t, &universe, &[1]);
            }
            for g in std::iter::once("").chain(fam.iter().copied()) {
                if matches!(t.nodes.get(g), Some((None, _))) || t.nodes.get(g).is_none() && t.implied(g) {
                    let got = h.list_nodes(g).map_err(|e| format!("list_nodes({:?}): {}", g, e))?;
                    let want = t.children(g);
                    // (the file system store also names empty directories, which the histories above judge)
                    if want.iter().any(|n| !got.contains(n)) || B::NAME == "mem" && got != want {
                        return Err(format!("list_nodes({:?}) is {:?}, not {:?}", g, got, want));
                    }
                }
            }
            Ok(())
        },
    );
}

pub fn c12(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one state per (family of node paths, store, what is stored); from every reachable state every creation, \
         removal, attribute update and chunk write or deletion on every path of the family runs on the real code, and \
         the return value, the exact set of stored files with their contents, and every existence question about \
         the family and its neighbours are compared with the model; one case per sequence of operations of a smaller alphabet, \
         each through either of two handles that stay open, of one hierarchy or of two, compared with the model through both",
    );
    ctx.assume("whether an implied group counts as existing, and what removing a node that does not exist returns, is left open");
    let t = ctx.thorough;
    for (i, fam) in families().iter().enumerate() {
        run_tree::<MemB>(ctx, What::Nodes, fam, t || i == 1, 30);
        run_tree::<FsB>(ctx, What::Nodes, fam, false, if t { 30 } else { 3 });
        if t {
            run_tree::<FsB>(ctx, What::Nodes, fam, true, 5);
        }
    }
    for fam in [vec!["", "a"], vec!["a", "a/b"], vec!["a", "ab"]] {
        handles_tree::<MemB>(ctx, What::Nodes, &fam, &[], &small_alphabet(What::Nodes, &fam), if t { 4 } else { 3 });
        handles_tree::<FsB>(ctx, What::Nodes, &fam, &[], &small_alphabet(What::Nodes, &fam), if t { 4 } else { 3 });
    }
    if t {
        for fam in [vec!["", "a", "a/b", "a/b/c"], vec!["a", "ab", "a/b", "ab/b"], vec!["a", "a.b", "a/b", "a.b/c"], vec!["x/y", "x/y/z", "x", "y"]] {
            run_tree::<MemB>(ctx, What::Nodes, &fam, false, 40);
            run_tree::<FsB>(ctx, What::Nodes, &fam, false, 5);
        }
    }
    ("model_checking", true)
}

// ------------------------------------------------------------------- C13

fn combos(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                let from = v.last().map_or(0, |l| l + 1);
                (from..n).map(move |i| {
                    let mut w = v.clone();
                    w.push(i);
                    w
                }).collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

pub fn c13(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (set of nodes from a list of adversarial names, their kinds, suffix, store) with every order of the store's \
         answers, each group listed under it; and one state per reachable hierarchy of a family of paths under creation and removal",
    );
    ctx.assume("listing an array or a path that is not a node is left open");
    let t = ctx.thorough;
    let names = [
        "a", "ab", "a.b", "a/b", "a/b/c", "a/ba", "a.array", "a.group", "a.array.json", "array.json", "array", "json", ".array", "é", "é/ü", "a b", "b.c.d/e", "A", "\u{10ffff}/x", "0",
    ];
    let sizes: &[usize] = if t { &[0, 1, 2, 3, 4] } else { &[0, 1, 2, 3] };
    let mut items: Vec<(Vec<usize>, u32)> = vec![];
    for k in sizes {
        for c in combos(names.len(), *k) {
            for kinds in 0..1u32 << k {
                items.push((c.clone(), kinds));
            }
        }
    }
    let build = |h: &dyn Fn(&str, bool) -> io::Result<()>, c: &[usize], kinds: u32| -> Result<Tree, String> {
        let mut t = Tree::default();
        for (j, i) in c.iter().enumerate() {
            let arr = kinds >> j & 1 == 1;
            h(names[*i], arr).map_err(|e| format!("creating {:?}: {}", names[*i], e))?;
            t.nodes.insert(names[*i].into(), (arr.then_some(0), "{}".into()));
        }
        Ok(t)
    };
    // a child of "a.array.json" would be a directory where the document of "a" is a file
    for suffix in [".json", ".v3.json", "json", "", ".array.json", ".x"] {
        if suffix != ".json" && !t {
            // fewer sets for the other suffixes
        }
        ctx.par(&items, |(c, kinds)| {
            if suffix != ".json" && c.len() > if t { 3 } else { 2 } {
                return;
            }
            ctx.case(format!("mem suffix={:?} nodes={:?} kinds={:b}", suffix, c.iter().map(|i| names[*i]).collect::<Vec<_>>(), kinds), || {
                let h = Mem::with_suffix(suffix);
                let m = metas(0).build();
                let tree = build(&|p, arr| if arr { h.create_array(p, &m) } else { h.create_group(p) }, c, *kinds)?;
                // keys that are no documents
                if c.len() < 3 {
                    let s = suffix.trim_start_matches('.');
                    for k in ["notes.txt", "a.array", "aarray.json", "a.array.jsonx", "b.array.json.tmp", "c.json", "d.arrays.json"] {
                        let k = k.to_string();
                        if !(k.ends_with(&format!(".array.{}", s)) || k.ends_with(&format!(".group.{}", s))) {
                            h.put(&format!("meta/root/{}", k), b"x");
                        }
                    }
                }
                let mut groups: BTreeSet<String> = std::iter::once(String::new()).collect();
                for p in tree.nodes.keys() {
                    let mut q = &p[..];
                    while let Some(i) = q.rfind('/') {
                        q = &q[..i];
                        groups.insert(q.into());
                    }
                    groups.insert(p.clone());
                }
                groups.retain(|g| !matches!(tree.nodes.get(g), Some((Some(_), _))));
                for g in &groups {
                    // orders: every permutation of up to four answers
                    for k in 0..if g.is_empty() { 24 } else { 6 } {
                        h.order.store(k, Relaxed);
                        check_list(&h, &tree, &Image::new(), g).map_err(|e| format!("order {}: {}", k, e))?;
                    }
                }
                Ok(!c.is_empty())
            });
        });
    }
    ctx.par(&items, |(c, kinds)| {
        if c.len() > if t { 3 } else { 2 } {
            return;
        }
        ctx.case(format!("fs nodes={:?} kinds={:b}", c.iter().map(|i| names[*i]).collect::<Vec<_>>(), kinds), || {
            let d = Dir::new();
            let h = d.create();
            let m = metas(0).build();
            let tree = build(&|p, arr| if arr { h.create_array(p, &m) } else { h.create_group(p) }, c, *kinds)?;
            d.put("meta/root/notes.txt", b"x");
            d.put("meta/root/aarray.json", b"x");
            let img = d.snap();
            for g in tree.nodes.keys().cloned().chain(["".to_string(), "é".into(), "a".into()]) {
                let implied = tree.implied(&g);
                match tree.nodes.get(&g) {
                    Some((None, _)) => {}
                    None if implied => {}
                    _ => continue,
                }
                check_list(&h, &tree, &img, &g)?;
            }
            Ok(!c.is_empty())
        });
    });
    // many children
    for n in [100usize, 1000] {
        ctx.case(format!("mem {} children", n), || {
            let h = Mem::new();
            let mut tree = Tree::default();
            for i in 0..n {
                let p = format!("g/{}", i);
                h.create_group(&p).map_err(|e| e.to_string())?;
                tree.nodes.insert(p, (None, "{}".into()));
            }
            for k in [0, 1, 99, 12345678901] {
                h.order.store(k, Relaxed);
                check_list(&h, &tree, &Image::new(), "g")?;
            }
            Ok(true)
        });
    }
    for fam in families() {
        run_tree::<MemB>(ctx, What::List, &fam, false, 30);
        run_tree::<FsB>(ctx, What::List, &fam, false, if t { 30 } else { 3 });
    }
    for fam in [vec!["", "a/b"], vec!["a", "a/b"], vec!["a", "ab", "a/b/c"]] {
        handles_tree::<MemB>(ctx, What::List, &fam, &[], &small_alphabet(What::List, &fam), if t { 4 } else { 3 });
        handles_tree::<FsB>(ctx, What::List, &fam, &[], &small_alphabet(What::List, &fam), if t { 4 } else { 3 });
    }
    ("model_checking", true)
}

// ------------------------------------------------------------------- C11

#[derive(Clone, PartialEq, Eq, Hash)]
struct AttrModel {
    /// path -> attributes as JSON text
    attrs: BTreeMap<String, String>,
}

struct AttrWorld {
    name: &'static str,
    /// key -> document at the start
    docs: Vec<(&'static str, &'static str, String)>,
    updates: Vec<Value>,
    paths: Vec<&'static str>,
}

fn attr_worlds(t: bool) -> Vec<AttrWorld> {
    let mut rich = M::new(&[5, u64::MAX], &[2, 3], ">f8").fill(json!("NaN")).codec(&codec("xz")).order('F').sep(".");
    rich.ext = json!([{"extension": "e", "must_understand": false, "configuration": {"attributes": {"k": 0}}}]);
    rich.attrs = json!({"k": {"x": [1, {"y": null}]}, "other": [1, 2.5, "é\n"]});
    let arr = metas(0);
    let g = json!({"extensions": [], "attributes": {}}).to_string();
    let mut w = vec![];
    let small: Vec<Value> = vec![
        json!({}), json!({"k": 1}), json!({"k": null}), json!({"k": {"x": 1}}), json!({"k": {"y": 2}}), json!({"l": [1], "k": 1}), json!({"attributes": {"k": 5}}), json!({"": ""}),
    ];
    w.push(AttrWorld {
        name: "api",
        docs: vec![("g", "meta/root/g.group.json", g.clone()), ("g/a", "meta/root/g/a.array.json", arr.json().to_string())],
        updates: if t { small.clone() } else { small[..6].to_vec() },
        paths: vec!["g", "g/a"],
    });
    w.push(AttrWorld {
        name: "root",
        docs: vec![("", "meta/root.group.json", g.clone()), ("a", "meta/root/a.array.json", rich.json().to_string()), ("ab", "meta/root/ab.array.json", arr.json().to_string())],
        updates: vec![json!({"k": 1}), json!({"k": [null, {}]}), json!({"shape": [1], "data_type": "x"}), json!({"z": "y".repeat(9000)}), json!({"z": 0})],
        paths: vec!["", "a"],
    });
    w.push(AttrWorld {
        name: "foreign",
        docs: vec![
            ("p", "meta/root/p.array.json", serde_json::to_string_pretty(&{
                let mut d = rich.json();
                d["custom"] = json!({"attributes": {"k": 1}, "n": [1, 2.25, u64::MAX, i64::MIN, true, null, "\u{1}"]});
                d
            }).unwrap()),
            ("q", "meta/root/q.group.json", " {\"zzz\": 1, \"extensions\": [], \"aaa\": {\"k\": []}}\n".into()),
            ("r/s", "meta/root/r/s.group.json", g.clone()),
        ],
        updates: vec![json!({}), json!({"k": 1}), json!({"k": false, "other": {}}), json!({"custom": null})],
        paths: vec!["p", "q", "r", "r/s", "nope", "p/nope", "", "p.array.json", "meta/root/p"],
    });
    w.push(AttrWorld {
        name: "sizes",
        docs: vec![("g", "meta/root/g.group.json", g.clone())],
        updates: [0usize, 1, 8100, 8191, 8192, 8193, 70_000].iter().map(|n| json!({"s": "é".repeat(*n / 2), "t": n})).chain(std::iter::once(json!({"s": null}))).collect(),
        paths: vec!["g"],
    });
    let mut vals = attr_values();
    vals.extend(small);
    w.push(AttrWorld {
        name: "values",
        docs: vec![("g", "meta/root/g.group.json", g), ("a", "meta/root/a.array.json", arr.json().to_string())],
        updates: vals,
        paths: vec!["g"],
    });
    w
}

fn run_attrs<B: Back>(ctx: &Ctx, w: &AttrWorld, depth: usize) {
    let base: BTreeMap<String, Value> = w.docs.iter().map(|(p, _, d)| (p.to_string(), serde_json::from_str(d).unwrap())).collect();
    let keys: BTreeMap<String, String> = w.docs.iter().map(|(p, k, _)| (p.to_string(), k.to_string())).collect();
    let mut img = B::empty();
    for (_, k, d) in &w.docs {
        let mut q = &k[..];
        while let Some(i) = q.rfind('/') {
            q = &q[..i];
            if B::NAME == "fs" {
                img.insert(q.to_string(), None);
            }
        }
        img.insert(k.to_string(), Some(d.clone().into_bytes()));
    }
    for (k, b) in [("data/root/a/c0", &b"ab"[..]), ("data/root/g/a/c1", b"cd")] {
        let mut q = k;
        while let Some(i) = q.rfind('/') {
            q = &q[..i];
            if B::NAME == "fs" {
                img.insert(q.to_string(), None);
            }
        }
        img.insert(k.into(), Some(b.to_vec()));
    }
    let init = AttrModel { attrs: base.iter().map(|(p, d)| (p.clone(), d.get("attributes").cloned().unwrap_or(json!({})).to_string())).collect() };
    // every update by set_attributes, single ones also by set_attribute
    let mut ops: Vec<(String, Value, bool)> = vec![];
    for p in &w.paths {
        for u in &w.updates {
            ops.push((p.to_string(), u.clone(), false));
            if u.as_object().unwrap().len() == 1 {
                ops.push((p.to_string(), u.clone(), true));
            }
        }
    }
    let step = |s: &State<AttrModel>, op: usize| -> Result<State<AttrModel>, String> {
        let (p, u, single) = &ops[op];
        let mut next = s.model.clone();
        let known = base.contains_key(p);
        let implied = !known && (p.is_empty() || base.keys().any(|q| Tree::below(p, q)));
        if let Some(a) = next.attrs.get_mut(p) {
            let mut m: Map<String, Value> = serde_json::from_str(a).unwrap();
            for (k, v) in u.as_object().unwrap() {
                m.insert(k.clone(), v.clone());
            }
            *a = Value::Object(m).to_string();
        }
        let (r, img) = B::run(&s.img, |h| {
            let r = if *single {
                let (k, v) = u.as_object().unwrap().iter().next().unwrap();
                h.set_attribute(p, k.clone(), v)
            } else {
                h.set_attributes(p, u.as_object().unwrap().clone())
            };
            for q in base.keys() {
                let want: Value = serde_json::from_str(if r.is_ok() { &next.attrs[q] } else { &s.model.attrs[q] }).unwrap();
                let got = h.list_attributes(q).map_err(|e| format!("list_attributes({:?}): {}", q, e))?;
                if Value::Object(got.clone()) != want {
                    return Err(format!("the attributes of {:?} are {}, not {}", q, cut(&json!(got).to_string()), cut(&want.to_string())));
                }
            }
            if !known && !implied {
                if let Ok(a) = h.list_attributes(p) {
                    return Err(format!("list_attributes of no node is {}", json!(a)));
                }
            }
            Ok(r.map_err(|e| e.to_string()))
        });
        match (r?, known) {
            (Err(e), true) => return Err(format!("the update fails: {}", e)),
            (Ok(()), false) if !implied => return Err("updating the attributes of no node succeeds".into()),
            (Ok(()), false) => return Ok(s.clone()),
            (Err(_), false) => {
                if files(&img) != files(&s.img) {
                    return Err(format!("a refused update changed the store: {}", snap_diff(&s.img, &img)));
                }
            }
            _ => {}
        }
        // everything else is as it was
        let (mut a, mut b) = (files(&s.img), files(&img));
        for (q, k) in &keys {
            let _ = a.remove(k);
            let doc = b.remove(k).ok_or(format!("{} is gone", k))?;
            if q != p && Some(&Some(doc.clone())) != s.img.get(k) {
                return Err(format!("the document of {:?} changed", q));
            }
            let doc: Value = serde_json::from_slice(&doc).map_err(|e| format!("{} is not JSON: {}", k, e))?;
            let mut want = base[q].clone();
            let at: Value = serde_json::from_str(&next.attrs[q]).unwrap();
            if want.get("attributes").is_some() || at != json!({}) || doc.get("attributes").is_some() {
                want["attributes"] = at;
            }
            if doc != want {
                return Err(format!("{} holds {}, not {}", k, cut(&doc.to_string()), cut(&want.to_string())));
            }
        }
        if a != b {
            return Err(format!("other items changed: {}", snap_diff(&s.img, &img)));
        }
        Ok(State { model: next, img })
    };
    explore(
        ctx,
        &format!("{} {}", B::NAME, w.name),
        State { model: init, img },
        ops.len(),
        depth,
        &|i| format!("set_attribute{}({:?},{})", if ops[i].2 { "" } else { "s" }, ops[i].0, cut(&ops[i].1.to_string())),
        &step,
    );
}

fn handles_attrs<B: Back>(ctx: &Ctx, w: &AttrWorld, depth: usize) {
    let mut img = B::empty();
    for (_, k, d) in &w.docs {
        let mut q = &k[..];
        while let Some(i) = q.rfind('/') {
            q = &q[..i];
            if B::NAME == "fs" {
                img.insert(q.to_string(), None);
            }
        }
        img.insert(k.to_string(), Some(d.clone().into_bytes()));
    }
    let init: BTreeMap<String, Value> = w.docs.iter().map(|(p, _, d)| (p.to_string(), serde_json::from_str::<Value>(d).unwrap().get("attributes").cloned().unwrap_or(json!({})))).collect();
    let ops: Vec<(String, Value)> = w.paths.iter().flat_map(|p| w.updates.iter().map(move |u| (p.to_string(), u.clone()))).collect();
    alternate::<B, BTreeMap<String, Value>>(
        ctx,
        w.name,
        &img,
        &init,
        ops.len(),
        depth,
        &|i| format!("set_attributes({:?},{})", ops[i].0, cut(&ops[i].1.to_string())),
        &|h, m, i| {
            let (p, u) = &ops[i];
            h.set_attributes(p, u.as_object().unwrap().clone()).map_err(|e| format!("set_attributes({:?}): {}", p, e))?;
            let mut m = m.clone();
            for (k, v) in u.as_object().unwrap() {
                m.get_mut(p).unwrap()[k] = v.clone();
            }
            Ok(m)
        },
        &|h, m| {
            for (p, want) in m {
                let got = h.list_attributes(p).map_err(|e| format!("list_attributes({:?}): {}", p, e))?;
                if Value::Object(got.clone()) != *want {
                    return Err(format!("the attributes of {:?} are {}, not {}", p, cut(&json!(got).to_string()), cut(&want.to_string())));
                }
                if w.docs.iter().any(|(q, k, _)| q == p && k.ends_with(".array.json")) {
                    let a = h.get_array_metadata(p).map_err(|e| format!("get_array_metadata({:?}): {}", p, e))?;
                    let a = serde_json::to_value(&a).unwrap().get("attributes").cloned().unwrap_or(json!({}));
                    if a != *want {
                        return Err(format!("the metadata of {:?} has the attributes {}", p, cut(&a.to_string())));
                    }
                }
            }
            Ok(())
        },
    );
}

pub fn c11(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one state per (set of documents, store, what is stored); from every reachable state every update of the alphabet on \
         every path runs on the real code; the result, the attributes of every node, every document and every other stored item are compared with the model; \
         one case per sequence of updates (and of creations and removals of the node), each through either of two handles that stay open, of one hierarchy or of two, compared with the model through both",
    );
    ctx.assume("updating the attributes of an implied group is left open; numbers equal as JSON numbers count as equal");
    let t = ctx.thorough;
    for w in attr_worlds(t) {
        run_attrs::<MemB>(ctx, &w, if w.name == "values" { if t { 4 } else { 3 } } else { 20 });
        run_attrs::<FsB>(ctx, &w, if t { 4 } else { 3 });
    }
    for w in attr_worlds(t) {
        if w.name == "api" || w.name == "root" {
            handles_attrs::<MemB>(ctx, &w, if t || w.name == "root" { 3 } else { 2 });
            handles_attrs::<FsB>(ctx, &w, if t { 3 } else { 2 });
        }
    }
    // nodes that come, go and change their kind between updates
    let a = || "a".to_string();
    let ops = [Op::Attrs(a(), json!({"k": 1})), Op::Attrs(a(), json!({"j": {"x": 2}})), Op::Remove(a()), Op::Group(a()), Op::Array(a(), 0)];
    for init in [Op::Group(a()), Op::Array(a(), 0)] {
        handles_tree::<MemB>(ctx, What::Nodes, &["a"], &[init.clone()], &ops, if t { 6 } else { 4 });
        handles_tree::<FsB>(ctx, What::Nodes, &["a"], &[init], &ops, if t { 5 } else { 4 });
    }
    // values that are not JSON yet
    ctx.case("set_attribute of Rust values", || {
        let h = Mem::new();
        h.create_group("g").map_err(|e| e.to_string())?;
        let e = |e: io::Error| e.to_string();
        h.set_attribute("g", "none".into(), None::<i32>).map_err(e)?;
        h.set_attribute("g", "tuple".into(), (1u8, "x", [1.5f32])).map_err(e)?;
        h.set_attribute("g", "map".into(), BTreeMap::from([(1, 'a'), (2, 'b')])).map_err(e)?;
        h.set_attribute("g", "u".into(), u64::MAX).map_err(e)?;
        h.set_attribute("g", "nan".into(), f64::NAN).map_err(e)?;
        let before = h.snap();
        if h.set_attribute("g", "bad".into(), BTreeMap::from([(vec![1], 1)])).is_ok() {
            return Err("a value that is not JSON is accepted".into());
        }
        if h.snap() != before {
            return Err("a refused value changed the store".into());
        }
        let got = Value::Object(h.list_attributes("g").map_err(e)?);
        let want = json!({"none": null, "tuple": [1, "x", [1.5]], "map": {"1": "a", "2": "b"}, "u": u64::MAX, "nan": null});
        if got != want {
            return Err(format!("{} is not {}", got, want));
        }
        Ok(true)
    });
    ("model_checking", true)
}

// ------------------------------------------------------------------- C14

/// Everything the API does with a node path, as text.
fn all_ops() -> Vec<&'static str> {
    vec![
        "exists", "array_exists", "get_array_metadata", "list_attributes", "list_nodes", "read_chunk", "read_chunk_into", "read_ndarray", "read_ndarray_into", "get_chunk_uri", "get_chunk_key", "keys", "set_attributes",
        "set_attribute", "create_group", "create_array", "remove", "write_chunk", "delete_chunk", "write_ndarray",
    ]
}
fn do_op<H: HierarchyReader + HierarchyWriter + HierarchyLister>(h: &H, op: &str, p: &str) -> String {
    let m = metas(0).build();
    let bbox = crate::p_geom::bb(&[1], &[3]);
    let fin = |r: Result<String, io::Error>| match r {
        Ok(s) => format!("Ok {}", s),
        Err(e) => format!("Err {:?}", e.kind()),
    };
    let r: Result<Result<String, io::Error>, String> = guard(|| -> io::Result<String> {
        Ok(match op {
            "exists" => h.exists(p)?.to_string(),
            "array_exists" => h.array_exists(p)?.to_string(),
            "get_array_metadata" => serde_json::to_string(&h.get_array_metadata(p)?)?,
            "list_attributes" => serde_json::to_string(&h.list_attributes(p)?)?,
            "list_nodes" => format!("{:?}", h.list_nodes(p)?),
            "read_chunk" => format!("{:?}", <u8 as Elem>::rd(h, p, &m, &[0])?),
            "read_chunk_into" => {
                let mut b = vchunk::<u8>(&[9], vec![1, 2, 3]);
                let r = <u8 as Elem>::rd_into(h, p, &m, &[0], &mut b)?;
                format!("{:?} {:?}", r, chunk_parts(&b))
            }
            "read_ndarray" => format!("{:?}", <u8 as Elem>::nd_rd(h, p, &m, &bbox)?),
            "read_ndarray_into" => {
                let mut a = ndarray::ArrayD::<u8>::from_elem(vec![3], 77);
                <u8 as Elem>::nd_rd_into(h, p, &m, &bbox, a.view_mut())?;
                format!("{:?}", a)
            }
            "get_chunk_uri" => h.get_chunk_uri(p, &m, &[1])?,
            "get_chunk_key" => get_chunk_key(p, &m, &[1]),
            "keys" => format!("{:?} {:?} {:?}", h.array_metadata_key(p), h.group_metadata_key(p), h.data_path_key(p).components().collect::<Vec<_>>()),
            "set_attributes" => format!("{:?}", h.set_attributes(p, json!({"s": 1}).as_object().unwrap().clone())?),
            "set_attribute" => format!("{:?}", h.set_attribute(p, "t".into(), 2)?),
            "create_group" => format!("{:?}", h.create_group(p)?),
            "create_array" => format!("{:?}", h.create_array(p, &m)?),
            "remove" => format!("{:?}", h.remove(p)?),
            "write_chunk" => format!("{:?}", <u8 as Elem>::wr(h, p, &m, &[1], &[5, 6])?),
            "delete_chunk" => h.delete_chunk(p, &m, &[0])?.to_string(),
            "write_ndarray" => {
                let a = ndarray::ArrayD::<u8>::from_elem(vec![3], 8);
                format!("{:?}", <u8 as Elem>::nd_wr(h, p, &m, &[1], a.view())?)
            }
            _ => unreachable!(),
        })
    });
    match r {
        Ok(r) => fin(r),
        Err(e) => e,
    }
}

pub fn c14(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (starting hierarchy, sequence of one or two operations, node paths, spelling of each path, store): \
         the results and what is stored afterwards are compared with the same sequence under the spelling without slashes",
    );
    let t = ctx.thorough;
    let paths = ["", "a", "a/b", "a.b", "é/ü", "a/b/c"];
    let spell = |p: &str, l: usize, tr: usize| format!("{}{}{}", "/".repeat(l), p, "/".repeat(tr));
    let counts: &[usize] = &[0, 1, 2, 3, 7];
    let starts: Vec<(&str, Vec<(&str, &str)>)> = vec![
        ("empty", vec![]),
        ("full", vec![("create_group", ""), ("create_group", "a"), ("create_array", "a/b"), ("write_chunk", "a/b"), ("write_ndarray", "a/b"), ("create_array", "a.b"), ("create_group", "é/ü"), ("set_attributes", "a"), ("set_attributes", "a/b")]),
        ("root-array", vec![("create_array", ""), ("write_ndarray", ""), ("set_attribute", "")]),
        ("arrays", vec![("create_array", "a"), ("write_chunk", "a"), ("create_array", "a/b/c"), ("write_ndarray", "a/b/c"), ("create_array", "é/ü")]),
    ];
    fn pair<R>(store: &str, f: &dyn Fn(&dyn Fn(&str, &str) -> String) -> R) -> (R, Image) {
        if store == "mem" {
            let h = Mem::new();
            let base = format!("mem://{}/", h.id);
            let r = f(&|o, p| do_op(&h, o, p).replace(&base, "BASE"));
            (r, h.snap().into_iter().map(|(k, v)| (k, Some(v))).collect())
        } else {
            let d = Dir::new();
            let h = d.create();
            let base = d.base.display().to_string();
            let r = f(&|o, p| do_op(&h, o, p).replace(&base, "BASE"));
            let s = d.snap();
            (r, s)
        }
    }
    // single operations under every spelling
    let mut items = vec![];
    for (si, _) in starts.iter().enumerate() {
        for o in all_ops() {
            for p in paths {
                for store in ["mem", "fs"] {
                    items.push((si, o, p, store));
                }
            }
        }
    }
    ctx.par(&items, |(si, o, p, store)| {
        let run = |q: &str| {
            pair(store, &|d| {
                for (o, p) in &starts[*si].1 {
                    d(o, p);
                }
                d(o, q)
            })
        };
        let want = run(p);
        for l in counts {
            for tr in counts {
                let q = spell(p, *l, *tr);
                if q == *p {
                    continue;
                }
                ctx.case(format!("{} {} {}({:?}) as {:?}", store, starts[*si].0, o, p, q), || {
                    let got = run(&q);
                    if got.0 != want.0 {
                        return Err(format!("{} instead of {}", cut(&got.0), cut(&want.0)));
                    }
                    if got.1 != want.1 {
                        return Err(format!("stores something else: {}", snap_diff(&want.1, &got.1)));
                    }
                    Ok(true)
                });
            }
        }
    });
    // an operation under one spelling, seen through operations under another
    let forms: Vec<(usize, usize)> = if t { vec![(0, 0), (0, 1), (1, 0), (1, 1), (2, 3), (3, 0), (0, 2)] } else { vec![(0, 1), (1, 0), (2, 2)] };
    let muts = ["set_attributes", "create_group", "create_array", "remove", "write_chunk", "delete_chunk", "write_ndarray"];
    let mut items = vec![];
    for (si, _) in starts.iter().enumerate() {
        for o in muts {
            for p in paths {
                for f in &forms {
                    for store in ["mem", "fs"] {
                        if store == "fs" && !t && si != 1 && si != 3 {
                            continue;
                        }
                        items.push((si, o, p, *f, store));
                    }
                }
            }
        }
    }
    ctx.par(&items, |(si, o, p, f, store)| {
        for q in paths {
            if q != *p && !t && !(Tree::below(p, q) || Tree::below(q, p)) {
                continue;
            }
            for g in &forms {
                ctx.case(format!("{} {} {}({:?}) then all on {:?}", store, starts[*si].0, o, spell(p, f.0, f.1), spell(q, g.0, g.1)), || {
                    let run = |a: &str, b: &str| {
                        pair(store, &|d| {
                            for (o, p) in &starts[*si].1 {
                                d(o, p);
                            }
                            let mut v = vec![d(o, a)];
                            for o in all_ops() {
                                v.push(format!("{}: {}", o, d(o, b)));
                            }
                            v
                        })
                    };
                    let want = run(p, q);
                    let got = run(&spell(p, f.0, f.1), &spell(q, g.0, g.1));
                    for (a, b) in want.0.iter().zip(&got.0) {
                        if a != b {
                            return Err(format!("{} instead of {}", cut(b), cut(a)));
                        }
                    }
                    if got.1 != want.1 {
                        return Err(format!("stores something else: {}", snap_diff(&want.1, &got.1)));
                    }
                    Ok(true)
                });
            }
        }
    });
    // the starting operations themselves under other spellings
    for (name, seq) in &starts {
        for store in ["mem", "fs"] {
            let n = seq.len();
            for mask in 0..1usize << n {
                ctx.case(format!("{} build {} mask={:b}", store, name, mask), || {
                    let run = |m: usize| {
                        pair(store, &|d| {
                            seq.iter()
                                .enumerate()
                                .map(|(i, (o, p))| d(o, &if m >> i & 1 == 1 { spell(p, 1 + i % 2, i % 3) } else { p.to_string() }))
                                .collect::<Vec<_>>()
                        })
                    };
                    if run(mask) != run(0) {
                        return Err("differs from the spelling without slashes".into());
                    }
                    Ok(true)
                });
            }
        }
    }
    ("exploration", true)
}
