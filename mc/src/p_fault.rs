//! C19 writes under failures, C20 reads under failures, C22 crashes.
use crate::eng::*;
use crate::hist::*;
use crate::mem::Mem;
use crate::p_geom::bb;
use crate::sys::{Inject, Kind, Rec, World};
use crate::util::*;
use crate::with_elem;
use serde_json::json;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::Ordering::Relaxed;
use zarr::prelude::*;
use zarr::storage::*;
use zarr::store::filesystem::FilesystemHierarchy;

/// A map whose values appear all at once.
pub struct AtomB;
impl Back for AtomB {
    const NAME: &'static str = "atomic mem";
    type H = Mem;
    fn run<R>(img: &Image, f: impl FnOnce(&Mem) -> R) -> (R, Image) {
        let h = Mem::atomic();
        *h.map.lock().unwrap() = files(img);
        let r = f(&h);
        let img = h.snap().into_iter().map(|(k, v)| (k, Some(v))).collect();
        (r, img)
    }
    fn empty() -> Image {
        Image::new()
    }
    fn again(h: &Mem) -> Mem {
        h.clone()
    }
}

/// What an operation may touch, and how it is read.
#[derive(Clone)]
enum Item {
    Chunk { node: String, m: M, e: &'static str, pos: Vec<u64> },
    Array(String),
    Group(String),
    /// A plain key: only judged when the operation succeeded.
    Key(String),
}

impl Item {
    fn key(&self) -> String {
        let j = |a: &str, n: &str| if n.is_empty() { a.to_string() } else { format!("{}/{}", a, n) };
        match self {
            Item::Chunk { node, m, pos, .. } => {
                let p: Vec<String> = pos.iter().map(|x| x.to_string()).collect();
                format!("{}/c{}", j("data/root", node), p.join(&m.sep))
            }
            Item::Array(n) => format!("{}.array.json", j("meta/root", n)),
            Item::Group(n) => format!("{}.group.json", j("meta/root", n)),
            Item::Key(k) => k.clone(),
        }
    }
    /// What a user sees; `Err` if it can not be read.
    fn read<H: HierarchyReader + ReadableStore>(&self, h: &H) -> io::Result<Option<String>> {
        Ok(match self {
            Item::Chunk { node, m, e, pos } => with_elem!(*e, T => <T as Elem>::rd(h, node, &m.build(), pos)?.map(|c| format!("{:?}", bits_of(&c.1)))),
            Item::Array(n) => {
                if !h.array_exists(n)? {
                    return Ok(None);
                }
                Some(format!("{:?} {:?}", h.get_array_metadata(n)?, h.list_attributes(n)?))
            }
            Item::Group(n) => {
                if !ReadableStore::exists(h, &format!("/{}", self.key()))? {
                    return Ok(None);
                }
                // an array of that name would be read instead
                if h.array_exists(n)? {
                    return Ok(Some("hidden".into()));
                }
                Some(format!("{:?}", h.list_attributes(n)?))
            }
            Item::Key(k) => match h.get(k)? {
                None => None,
                Some(mut r) => {
                    let mut v = vec![];
                    r.read_to_end(&mut v)?;
                    Some(format!("{:?}", v))
                }
            },
        })
    }
}

type Op<B> = Box<dyn Fn(&<B as Back>::H) -> io::Result<()> + Send + Sync>;

struct Scn<B: Back> {
    name: String,
    img: Image,
    op: Op<B>,
    items: Vec<Item>,
    /// Repairs what an interrupted operation left.
    repair: Option<Op<B>>,
}

fn view<B: Back>(img: &Image, items: &[Item]) -> Result<Vec<Result<Option<String>, String>>, String> {
    guard(|| B::run(img, |h| items.iter().map(|i| guard(|| i.read(h)).map(|r| r.map_err(|e| e.to_string()))).collect::<Result<Vec<_>, _>>()).0).and_then(|r| r)
}

fn put<B: Back>(h: &B::H, k: &str, v: &[u8]) {
    h.set(k, |mut w| { w.write_all(v)?; w.flush() }).unwrap();
}

fn gone(r: io::Result<bool>) -> io::Result<()> {
    match r {
        Ok(true) => Ok(()),
        Ok(false) => Err(io::Error::new(ErrorKind::Other, "still there")),
        Err(e) => Err(e),
    }
}

/// Chunk writes: every element path and codec, new and replaced, in existing and missing directories.
fn chunk_scenarios<B: Back>(big: bool, thorough: bool) -> Vec<Scn<B>> {
    let mut v: Vec<Scn<B>> = vec![];
    let mem = B::NAME != "fs";
    let kinds: Vec<(&'static str, &str, &str)> = vec![
        ("u1", "u1", "raw"),
        ("u1", "u1", "gzip"),
        ("u1", "u1", "bzip2"),
        ("u1", "u1", "xz"),
        ("u1", "u1", "lz4"),
        ("i2", ">i2", "raw"),
        ("f2", "<f2", "raw"),
        ("bool", "bool", "raw"),
        ("f8", "<f8", "gzip"),
        ("i4", ">i4", "lz4"),
        ("i1", "i1", "bzip2"),
        ("f2", ">f2", "xz"),
    ];
    for (e, dt, c) in kinds {
        let n: u32 = match (big, mem) {
            (false, _) => 6,
            (true, false) => 9000,
            // every write of the encoder is seen here
            (true, true) if e == "u1" => 3000,
            (true, true) => 300,
        };
        let m = M::new(&[n as u64 * 3], &[n], dt).codec(&codec(c));
        for state in ["new", "replaced", "replaced by less", "new directory"] {
            if big && !thorough && state == "replaced" {
                continue;
            }
            let img = B::run(&B::empty(), |h| {
                h.create_array("a", &m.build()).unwrap();
                h.create_group("g").unwrap();
                with_elem!(e, T => {
                    if state != "new directory" {
                        T::wr(h, "a", &m.build(), &[1], &content::<T>("runs", n as usize)).unwrap();
                    }
                    if state == "replaced" {
                        T::wr(h, "a", &m.build(), &[0], &content::<T>("zero", n as usize)).unwrap();
                    }
                    if state == "replaced by less" {
                        T::wr(h, "a", &m.build(), &[0], &content::<T>("mix", n as usize)).unwrap();
                    }
                });
            })
            .1;
            let what = if state == "replaced by less" { "zero" } else { "mix" };
            let (m2, m3) = (m.clone(), m.clone());
            v.push(Scn {
                name: format!("write_chunk {} {}x{} {}", dt, n, c, state),
                img,
                op: Box::new(move |h| with_elem!(e, T => T::wr(h, "a", &m2.build(), &[0], &content::<T>(what, n as usize)))),
                items: vec![Item::Chunk { node: "a".into(), m: m.clone(), e, pos: vec![0] }],
                repair: Some(Box::new(move |h| with_elem!(e, T => T::wr(h, "a", &m3.build(), &[0], &content::<T>(what, n as usize))))),
            });
        }
    }
    v
}

fn populated<B: Back>(m: &M) -> Image {
    B::run(&B::empty(), |h| {
        h.create_array("a", &m.build()).unwrap();
        h.set_attribute("a", "x".into(), json!([1, 2])).unwrap();
        h.create_array("ab", &m.build()).unwrap();
        h.create_group("g").unwrap();
        h.set_attribute("g", "x".into(), "some text which is long enough to be replaced by less").unwrap();
        h.create_array("g/a", &m.build()).unwrap();
        h.create_group("g/h").unwrap();
        h.create_array("a/n", &m.build()).unwrap();
        for (p, pos) in [("a", [0u64, 0]), ("a", [1, 1]), ("ab", [0, 0]), ("g/a", [0, 1]), ("a/n", [1, 0])] {
            <u8 as Elem>::wr(h, p, &m.build(), &pos, &content::<u8>("mix", 4)).unwrap();
        }
    })
    .1
}

fn node_scenarios<B: Back>() -> Vec<Scn<B>> {
    let mut v: Vec<Scn<B>> = vec![];
    let m = M::new(&[4, 4], &[2, 2], "u1");
    let img = populated::<B>(&m);
    let chunk = |node: &str, pos: &[u64]| Item::Chunk { node: node.into(), m: m.clone(), e: "u1", pos: pos.to_vec() };
    let mut add = |name: &str, img: &Image, items: Vec<Item>, op: Op<B>, repair: Option<Op<B>>| {
        v.push(Scn { name: name.into(), img: img.clone(), op, items, repair });
    };
    let b = |f: fn(&B::H, &ArrayMetadata) -> io::Result<()>| -> Op<B> {
        let meta = m.build();
        Box::new(move |h| f(h, &meta))
    };
    // creation
    for (n, img) in [("n", img.clone()), ("n", B::empty()), ("g/n/o", img.clone()), ("n/o/p", B::empty()), ("", B::empty()), ("", img.clone())] {
        let (n2, n3, n4, n5) = (n.to_string(), n.to_string(), n.to_string(), n.to_string());
        let (m2, m3) = (m.build(), m.build());
        let fresh = if img == B::empty() { " in an empty hierarchy" } else { "" };
        add(
            &format!("create_array({:?}){}", n, fresh),
            &img,
            vec![Item::Array(n.into())],
            Box::new(move |h| h.create_array(&n2, &m2)),
            if n.is_empty() { None } else { Some(Box::new(move |h| { h.remove(&n3)?; h.create_array(&n3, &m3) })) },
        );
        add(
            &format!("create_group({:?}){}", n, fresh),
            &img,
            vec![Item::Group(n.into())],
            Box::new(move |h| h.create_group(&n4)),
            if n.is_empty() { None } else { Some(Box::new(move |h| { h.remove(&n5)?; h.create_group(&n5) })) },
        );
    }
    add("create_array over an array", &img, vec![], b(|h, m| h.create_array("a", m)), None);
    add("create_array over a group", &img, vec![], b(|h, m| h.create_array("g", m)), None);
    add("create_group over an array", &img, vec![], b(|h, _| h.create_group("a")), None);
    add("create_group over a group", &img, vec![], b(|h, _| h.create_group("g")), None);
    // large array metadata
    {
        let mut big = m.clone();
        big.attrs = json!({"t": "x".repeat(20_000), "u": vec![7; 3000]});
        let (b1, b2) = (big.build(), big.build());
        add("create_array with large attributes", &img, vec![Item::Array("n".into())], Box::new(move |h| h.create_array("n", &b1)), Some(Box::new(move |h| { h.remove("n")?; h.create_array("n", &b2) })));
    }
    // attributes
    for n in ["a", "g"] {
        let item = || vec![if n == "a" { Item::Array(n.into()) } else { Item::Group(n.into()) }];
        for (what, val) in [("added", json!({"y": 1})), ("replaced by less", json!({"x": 0})), ("unchanged", json!({})), ("large", json!({"x": vec![1234567; 3000], "z": {"q": []}})), ("several", json!({"p": 1, "x": null, "r": [[]]}))] {
            let val = val.as_object().unwrap().clone();
            add(&format!("set_attributes({:?}) {}", n, what), &img, item(), Box::new(move |h| h.set_attributes(n, val.clone())), None);
        }
        add(&format!("set_attribute({:?})", n), &img, item(), Box::new(move |h| h.set_attribute(n, "y".into(), 1)), None);
    }
    add("set_attribute of a missing node", &img, vec![], b(|h, _| h.set_attribute("nope", "y".into(), 1)), None);
    // deletion
    add("delete_chunk", &img, vec![chunk("a", &[0, 0])], b(|h, m| gone(h.delete_chunk("a", m, &[0, 0]))), Some(b(|h, m| gone(h.delete_chunk("a", m, &[0, 0])))));
    add("delete_chunk missing", &img, vec![], b(|h, m| gone(h.delete_chunk("a", m, &[0, 1]))), None);
    add("delete_chunk missing directory", &img, vec![], b(|h, m| gone(h.delete_chunk("g", m, &[0, 1]))), None);
    // removal
    let a = || vec![Item::Array("a".into()), Item::Array("a/n".into()), chunk("a", &[0, 0]), chunk("a", &[1, 1]), chunk("a/n", &[1, 0])];
    let g = || vec![Item::Group("g".into()), Item::Array("g/a".into()), Item::Group("g/h".into()), chunk("g/a", &[0, 1])];
    add("remove an array", &img, a(), b(|h, _| h.remove("a")), Some(b(|h, m| { h.remove("a")?; h.create_array("a", m) })));
    add("remove a group", &img, g(), b(|h, _| h.remove("g")), Some(b(|h, _| { h.remove("g")?; h.create_group("g") })));
    add("remove a nested array", &img, vec![Item::Array("g/a".into()), chunk("g/a", &[0, 1])], b(|h, _| h.remove("g/a")), Some(b(|h, m| { h.remove("g/a")?; h.create_array("g/a", m) })));
    add("remove a missing node", &img, vec![], b(|h, _| h.remove("nope")), None);
    {
        let mut all = a();
        all.extend(g());
        all.extend(vec![Item::Array("ab".into()), chunk("ab", &[0, 0])]);
        add("remove_all", &img, all, b(|h, _| h.remove_all()), None);
    }
    // regions
    let at = |p: &[[u64; 2]]| p.iter().map(|p| chunk("a", p)).collect::<Vec<_>>();
    for (what, off, shape, pos) in [
        ("whole array", [0u64, 0], [4usize, 4], vec![[0u64, 0], [0, 1], [1, 0], [1, 1]]),
        ("part of an existing chunk", [0, 0], [1, 1], vec![[0, 0]]),
        ("part of a missing chunk", [0, 2], [1, 2], vec![[0, 1]]),
        ("parts of all", [1, 1], [2, 2], vec![[0, 0], [0, 1], [1, 0], [1, 1]]),
        ("rows", [0, 1], [2, 3], vec![[0, 0], [0, 1]]),
    ] {
        let mk = || -> Op<B> {
            let meta = m.build();
            Box::new(move |h| {
                let n: usize = shape.iter().product();
                let a = ndarray::ArrayD::from_shape_vec(shape.to_vec(), (0..n).map(|i| 100 + i as u8).collect()).unwrap();
                <u8 as Elem>::nd_wr(h, "a", &meta, &off, a.view())
            })
        };
        // a torn chunk can not be read, so only a region of whole chunks repairs it
        let repair = if what == "whole array" { Some(mk()) } else { None };
        add(&format!("write_ndarray {}", what), &img, at(&pos), mk(), repair);
    }
    // the store
    let store_img = B::run(&img, |h| {
        put::<B>(h, "d/k", b"0123456789");
        put::<B>(h, "d/e/l", b"x");
        put::<B>(h, "dd", b"y");
    })
    .1;
    for (what, key, n) in [("new", "d/n", 5usize), ("new directories", "q/r/s", 5), ("shorter", "d/k", 3), ("longer", "d/k", 100), ("large", "d/k", 20_000), ("empty", "d/k", 0), ("top", "t", 1)] {
        let mk = || -> Op<B> { Box::new(move |h| h.set(key, |mut w| { w.write_all(&vec![7; n])?; w.flush() })) };
        add(&format!("set {}", what), &store_img, vec![Item::Key(key.into())], mk(), Some(mk()));
        let parts: Op<B> = Box::new(move |h| {
            h.set(key, |mut w| {
                for _ in 0..n.min(50) {
                    w.write_all(&[7])?;
                }
                w.flush()
            })
        });
        add(&format!("set bytewise {}", what), &store_img, vec![Item::Key(key.into())], parts, None);
    }
    add("erase", &store_img, vec![Item::Key("d/k".into())], b(|h, _| gone(h.erase("d/k"))), Some(b(|h, _| gone(h.erase("d/k")))));
    add("erase missing", &store_img, vec![], b(|h, _| gone(h.erase("d/q"))), None);
    add("erase_prefix", &store_img, vec![Item::Key("d/k".into()), Item::Key("d/e/l".into())], b(|h, _| gone(h.erase_prefix("d"))), Some(b(|h, _| gone(h.erase_prefix("d/")))));
    add("erase_prefix missing", &store_img, vec![], b(|h, _| gone(h.erase_prefix("zz"))), None);
    v
}

/// The failures of one call that the system may report.
fn failures(r: &Rec, thorough: bool) -> Vec<Inject> {
    use Inject::*;
    let c = &r.call;
    let mut v = match c.kind {
        Kind::Open => vec![Errno(libc::EIO), Errno(libc::EACCES), Errno(libc::ENOSPC), Errno(libc::EMFILE), Errno(libc::EINTR)],
        Kind::Close => vec![],
        Kind::Read => vec![Errno(libc::EIO), Errno(libc::EINTR), Errno(libc::EAGAIN)],
        Kind::Write => vec![Errno(libc::EIO), Errno(libc::ENOSPC), Errno(libc::EINTR), Short(0)],
        Kind::Seek | Kind::Fstat | Kind::Sync | Kind::Attr | Kind::Link | Kind::Rename | Kind::Readdir => vec![Errno(libc::EIO)],
        Kind::Trunc => vec![Errno(libc::EIO), Errno(libc::EINTR)],
        Kind::Flock => vec![Errno(libc::EIO), Errno(libc::ENOLCK), Errno(libc::EINTR)],
        Kind::Stat => vec![Errno(libc::EIO), Errno(libc::EACCES)],
        Kind::Mkdir => vec![Errno(libc::EIO), Errno(libc::ENOSPC), Errno(libc::EACCES)],
        Kind::Rmdir => vec![Errno(libc::EIO), Errno(libc::ENOTEMPTY), Errno(libc::EBUSY)],
        Kind::Unlink => vec![Errno(libc::EIO), Errno(libc::EACCES), Errno(libc::EBUSY)],
        Kind::Opendir => vec![Errno(libc::EIO), Errno(libc::EACCES), Errno(libc::EMFILE)],
    };
    if matches!(c.kind, Kind::Read | Kind::Write) && c.len > 1 {
        v.push(Short(1));
        if c.len > 3 {
            v.push(Short(c.len / 2));
            v.push(Short(c.len - 1));
        }
    }
    if thorough && matches!(c.kind, Kind::Open | Kind::Stat | Kind::Unlink | Kind::Rmdir | Kind::Mkdir | Kind::Opendir) {
        v.extend([Errno(libc::EROFS), Errno(libc::ENOMEM), Errno(libc::ELOOP), Errno(libc::ESTALE), Errno(libc::EPERM)]);
    }
    v
}
/// The one failure of a call that is combined with others.
fn second(r: &Rec) -> Option<Inject> {
    match r.call.kind {
        Kind::Close => None,
        _ => Some(Inject::Errno(libc::EIO)),
    }
}

struct Clean {
    ok: bool,
    after: Image,
    log: Vec<Rec>,
    /// Views of the items before and after.
    old: Vec<Result<Option<String>, String>>,
    new: Vec<Result<Option<String>, String>>,
    /// And after the repair.
    fixed: Vec<Result<Option<String>, String>>,
}

fn clean<B: Back>(s: &Scn<B>) -> Result<Clean, String> {
    let w = World::new(vec![]);
    let (r, after) = B::run(&s.img, |h| w.run(|| guard(|| (s.op)(h))));
    if let Some(d) = w.deadlock() {
        return Err(format!("waits for itself at {}", d));
    }
    let ok = r?.is_ok();
    let fixed = match &s.repair {
        Some(rep) => {
            let (r, img) = B::run(&after, |h| guard(|| rep(h)));
            r?.map_err(|e| format!("repeating it fails: {}", e))?;
            view::<B>(&img, &s.items)?
        }
        None => vec![],
    };
    Ok(Clean { ok, fixed, old: view::<B>(&s.img, &s.items)?, new: view::<B>(&after, &s.items)?, after, log: w.log() })
}

fn looks_like_item(k: &str) -> bool {
    let name = k.rsplit('/').next().unwrap_or("");
    k.starts_with("meta/root") && (name.ends_with(".array.json") || name.ends_with(".group.json"))
        || k.starts_with("data/root") && (name.starts_with('c') || !name.is_empty()) && k.split('/').all(|c| c.chars().all(|x| x.is_alphanumeric()))
}

/// After a failed (or interrupted) operation: nothing but its items may differ.
fn judge_damage<B: Back>(s: &Scn<B>, c: &Clean, after: &Image, repaired: bool) -> Result<(), String> {
    let keys: Vec<String> = s.items.iter().map(|i| i.key()).collect();
    let (before, now) = (files(&s.img), files(after));
    for (k, v) in &before {
        if keys.contains(k) {
            continue;
        }
        match now.get(k) {
            None => return Err(format!("{} is gone", k)),
            Some(x) if x != v => return Err(format!("{} changes", k)),
            _ => {}
        }
    }
    for k in now.keys() {
        if !before.contains_key(k) && !keys.contains(k) && looks_like_item(k) {
            return Err(format!("{} appears", k));
        }
    }
    let got = view::<B>(after, &s.items).map_err(|e| format!("afterwards the hierarchy can not be read: {}", e))?;
    let mut torn = 0;
    for (i, g) in got.iter().enumerate() {
        if let Item::Key(_) = s.items[i] {
            continue;
        }
        if *g == c.old[i] || *g == c.new[i] || repaired && c.fixed.get(i) == Some(g) {
            continue;
        }
        match g {
            Err(_) | Ok(None) => torn += 1,
            Ok(Some(v)) => return Err(format!("afterwards {} reads as {}, which is neither the old {:?} nor the new {:?}", s.items[i].key(), trunc(v, 300), c.old[i].as_ref().map(|x| x.as_ref().map(|x| trunc(x, 300))), c.new[i].as_ref().map(|x| x.as_ref().map(|x| trunc(x, 300))))),
        }
    }
    // operations on several items write them one by one
    if torn > 1 + repaired as usize {
        return Err(format!("{} items are damaged at once", torn));
    }
    Ok(())
}

fn judge19<B: Back>(s: &Scn<B>, c: &Clean, w: &World, r: Result<io::Result<()>, String>, after: &Image) -> Result<bool, String> {
    let ctx = || format!(" [{}]", w.trace());
    if let Some(d) = w.deadlock() {
        return Err(format!("waits for itself at {}{}", d, ctx()));
    }
    match r {
        Err(p) => Err(format!("{}{}", p, ctx())),
        Ok(Ok(())) => {
            if !c.ok {
                return Err(format!("succeeds where it is refused without the failure{}", ctx()));
            }
            if files(after) != files(&c.after) {
                return Err(format!("reports success, but not everything is stored: {}{}", snap_diff(&c.after, after), ctx()));
            }
            Ok(false)
        }
        Ok(Err(_)) => {
            if !c.ok && files(after) != files(&s.img) {
                return Err(format!("is refused, and yet the store changes: {}{}", snap_diff(&s.img, after), ctx()));
            }
            judge_damage(s, c, after, false).map_err(|e| format!("after a reported failure {}{}", e, ctx()))?;
            Ok(true)
        }
    }
}

fn show(plan: &[(usize, Inject)], log: &[Rec]) -> String {
    plan.iter()
        .map(|(k, i)| format!("{}@{}{}", i, k, log.get(*k).map(|r| format!(" {:?}", r.call.kind)).unwrap_or_default()))
        .collect::<Vec<_>>()
        .join(" ")
}

/// Every single failure, and every pair of failures.
fn under_failures<B: Back>(ctx: &Ctx, s: &Scn<B>, pairs: bool) {
    let c = match clean(s) {
        Ok(c) => c,
        Err(e) => return ctx.case(format!("{} {} without failures", B::NAME, s.name), || Err(e)),
    };
    ctx.states.fetch_add(1, Relaxed);
    let run = |plan: Vec<(usize, Inject)>| -> (Vec<Rec>, CaseResult) {
        let w = World::new(plan);
        let (r, after) = B::run(&s.img, |h| w.run(|| guard(|| (s.op)(h))));
        ctx.transitions.fetch_add(w.calls() as u64, Relaxed);
        ctx.traces.fetch_add(1, Relaxed);
        let v = judge19(s, &c, &w, r, &after);
        (w.log(), v.map(|_| true))
    };
    for (k, rec) in c.log.iter().enumerate() {
        // the middle of long sequences of equal calls
        if skip(&c.log, k, if ctx.thorough { 200 } else { 12 }) {
            continue;
        }
        for inj in failures(rec, ctx.thorough) {
            if ctx.stopped() {
                return;
            }
            let plan = vec![(k, inj)];
            let mut log = vec![];
            let desc = format!("{} {} with {}", B::NAME, s.name, show(&plan, &c.log));
            ctx.case(desc.clone(), || {
                let (l, v) = run(plan.clone());
                log = l;
                v
            });
            if ctx.replaying() && log.is_empty() {
                log = run(plan.clone()).0;
            }
            if !pairs {
                continue;
            }
            for j in k + 1..log.len() {
                if skip(&log, j, if ctx.thorough { 40 } else { 6 }) {
                    continue;
                }
                if let Some(i2) = second(&log[j]) {
                    let plan = vec![(k, inj), (j, i2)];
                    ctx.case(format!("{} {} with {}", B::NAME, s.name, show(&plan, &log)), || run(plan.clone()).1);
                }
            }
        }
    }
}

/// Within a run of more than `n` calls of one kind on one path only the first and last are varied.
fn skip(log: &[Rec], k: usize, n: usize) -> bool {
    let same = |a: &Rec, b: &Rec| a.call.kind == b.call.kind && a.call.path == b.call.path;
    let before = log[..k].iter().rev().take(n).take_while(|r| same(r, &log[k])).count();
    let after = log[k + 1..].iter().take(n).take_while(|r| same(r, &log[k])).count();
    before >= n / 2 && after >= n / 2
}

fn creation_under_failures(ctx: &Ctx) {
    // a new hierarchy: success means that it is complete and opens
    for where_ in ["new", "existing empty directory", "deep"] {
        let run = |plan: Vec<(usize, Inject)>| -> (Vec<Rec>, CaseResult) {
            let mut d = Dir::new();
            if where_ == "deep" {
                d.base = d.top().join("x/y/h");
            }
            if where_ == "existing empty directory" {
                std::fs::create_dir(&d.base).unwrap();
            }
            std::fs::write(d.top().join("other"), b"1").unwrap();
            let w = World::new(plan);
            let r = w.run(|| guard(|| FilesystemHierarchy::open_or_create(&d.base).map(|_| ())));
            let v = (|| {
                if let Some(l) = w.deadlock() {
                    return Err(format!("waits for itself at {}", l));
                }
                if r?.is_ok() {
                    let f = files(&d.snap());
                    if f.len() != 1 || FilesystemHierarchy::open(&d.base).is_err() {
                        return Err(format!("reports success, but the hierarchy does not open: {:?} [{}]", f.keys(), w.trace()));
                    }
                }
                Ok(true)
            })();
            (w.log(), v)
        };
        let mut log = vec![];
        ctx.case(format!("open_or_create {}", where_), || {
            let (l, v) = run(vec![]);
            log = l;
            v
        });
        if ctx.replaying() && log.is_empty() {
            log = run(vec![]).0;
        }
        for k in 0..log.len() {
            for inj in failures(&log[k], true) {
                let plan = vec![(k, inj)];
                let mut log2 = vec![];
                ctx.case(format!("open_or_create {} with {}", where_, show(&plan, &log)), || {
                    let (l, v) = run(plan.clone());
                    log2 = l;
                    v
                });
                for j in k + 1..log2.len() {
                    if let Some(i2) = second(&log2[j]) {
                        let plan = vec![(k, inj), (j, i2)];
                        ctx.case(format!("open_or_create {} with {}", where_, show(&plan, &log2)), || run(plan.clone()).1);
                    }
                }
            }
        }
    }
}

pub fn c19(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (operation on a state, fault plan): every call the operation makes to the file system or store fails in every way of an alphabet (errors, interruptions, partial and zero transfers), \
         and every pair of failures; afterwards the stored bytes are compared with those of the run without failures, or, when it reported an error, with the state before; and one case per (chunk, codec, number of bytes after which the caller's own writer fails)",
    );
    ctx.assume("a failing close is not varied (its result is not available to Rust programs); plain keys are judged only when the call succeeded");
    let t = ctx.thorough;
    let mut fs: Vec<(Scn<FsB>, bool)> = vec![];
    let mut mem: Vec<(Scn<MemB>, bool)> = vec![];
    let mut atom: Vec<(Scn<AtomB>, bool)> = vec![];
    fs.extend(node_scenarios().into_iter().map(|s| (s, true)));
    fs.extend(chunk_scenarios(false, t).into_iter().map(|s| (s, true)));
    fs.extend(chunk_scenarios(true, t).into_iter().map(|s| (s, t)));
    mem.extend(node_scenarios().into_iter().map(|s| (s, true)));
    mem.extend(chunk_scenarios(false, t).into_iter().map(|s| (s, true)));
    mem.extend(chunk_scenarios(true, t).into_iter().map(|s| (s, t)));
    atom.extend(node_scenarios().into_iter().map(|s| (s, t)));
    atom.extend(chunk_scenarios(false, t).into_iter().map(|s| (s, true)));
    ctx.par(&fs, |(s, p)| under_failures(ctx, s, *p));
    ctx.par(&mem, |(s, p)| under_failures(ctx, s, *p));
    ctx.par(&atom, |(s, p)| under_failures(ctx, s, *p));
    creation_under_failures(ctx);
    crate::p_stream::failing_writers(ctx);
    ("model_checking", true)
}

// ------------------------------------------------------------------- C20

struct Look<B: Back> {
    name: String,
    img: Image,
    op: Box<dyn Fn(&B::H) -> io::Result<String> + Send + Sync>,
    /// The call may change these keys when it succeeds.
    writes: Vec<String>,
}

fn lookups<B: Back>() -> Vec<Look<B>> {
    let m = M::new(&[4, 4], &[2, 2], "u1");
    let gz = M::new(&[4, 4], &[2, 2], "<i4").codec(&codec("gzip")).fill(json!(7));
    let img = B::run(&populated::<B>(&m), |h| {
        h.create_array("z", &gz.build()).unwrap();
        <i32 as Elem>::wr(h, "z", &gz.build(), &[0, 0], &[1, 2, 3, 4]).unwrap();
        <i32 as Elem>::wr(h, "z", &gz.build(), &[1, 1], &[5, 6, 7, 8]).unwrap();
        // an array and a group document of the same name
        put::<B>(h, "/meta/root/both.array.json", m.json().to_string().as_bytes());
        put::<B>(h, "/meta/root/both.group.json", b"{\"extensions\":[],\"attributes\":{\"from\":\"group\"}}");
        let mut big = m.clone();
        big.attrs = json!({"x": "y".repeat(20000)});
        h.create_array("big", &big.build()).unwrap();
    })
    .1;
    let mut v: Vec<Look<B>> = vec![];
    let mut add = |name: String, writes: &[&str], op: Box<dyn Fn(&B::H) -> io::Result<String> + Send + Sync>| {
        v.push(Look { name, img: img.clone(), op, writes: writes.iter().map(|s| s.to_string()).collect() });
    };
    for n in ["a", "g", "g/a", "nope", "g/nope", "both", "big", "nope/nope", ""] {
        add(format!("exists({:?})", n), &[], Box::new(move |h| Ok(HierarchyReader::exists(h, n)?.to_string())));
        add(format!("array_exists({:?})", n), &[], Box::new(move |h| Ok(h.array_exists(n)?.to_string())));
        add(format!("get_array_metadata({:?})", n), &[], Box::new(move |h| Ok(format!("{:?}", h.get_array_metadata(n)?))));
        add(format!("list_attributes({:?})", n), &[], Box::new(move |h| Ok(format!("{:?}", h.list_attributes(n)?))));
        add(format!("list_nodes({:?})", n), &[], Box::new(move |h| Ok(format!("{:?}", h.list_nodes(n)?))));
    }
    for n in ["a", "ab", "a/n", "nope"] {
        for pos in [[0u64, 0], [0, 1], [1, 0]] {
            let meta = m.build();
            add(format!("read_chunk({:?},{:?})", n, pos), &[], Box::new(move |h| Ok(format!("{:?}", <u8 as Elem>::rd(h, n, &meta, &pos)?))));
            let meta = m.build();
            add(
                format!("read_chunk_into({:?},{:?})", n, pos),
                &[],
                Box::new(move |h| {
                    let mut b = vchunk::<u8>(&[9, 9], vec![5; 3]);
                    let r = <u8 as Elem>::rd_into(h, n, &meta, &pos, &mut b)?;
                    Ok(format!("{:?} {:?}", r, r.map(|_| chunk_parts(&b))))
                }),
            );
        }
    }
    for (off, shape) in [([0u64, 0], [4u64, 4]), ([0, 0], [1, 1]), ([1, 1], [2, 2]), ([2, 0], [2, 2])] {
        let meta = gz.build();
        add(format!("read_ndarray(z,{:?}+{:?})", off, shape), &[], Box::new(move |h| Ok(format!("{:?}", <i32 as Elem>::nd_rd(h, "z", &meta, &bb(&off, &shape))?))));
        let meta = gz.build();
        add(
            format!("read_ndarray_into_with_buffer(z,{:?}+{:?})", off, shape),
            &[],
            Box::new(move |h| {
                let mut a = ndarray::ArrayD::<i32>::from_elem(shape.iter().map(|x| *x as usize).collect::<Vec<_>>(), -1);
                let mut b = Some(vchunk::<i32>(&[0, 0], vec![9; 4]));
                <i32 as Elem>::nd_rd_buf(h, "z", &meta, &bb(&off, &shape), a.view_mut(), &mut b)?;
                Ok(format!("{:?}", a))
            }),
        );
    }
    // lookups of operations that write
    let meta = m.build();
    add("create_array over an array".into(), &[], Box::new(move |h| Ok(format!("{:?}", h.create_array("a", &meta)?))));
    let meta = M::new(&[9], &[3], "u2").dtype_(">u2").build();
    add("create_array of another kind over an array".into(), &[], Box::new(move |h| Ok(format!("{:?}", h.create_array("a", &meta)?))));
    let meta = m.build();
    add("create_array over a group".into(), &[], Box::new(move |h| Ok(format!("{:?}", h.create_array("g", &meta)?))));
    add("create_group over an array".into(), &[], Box::new(move |h| Ok(format!("{:?}", h.create_group("a")?))));
    add("create_group over a group".into(), &[], Box::new(move |h| Ok(format!("{:?}", h.create_group("g")?))));
    for (n, k) in [("a", "meta/root/a.array.json"), ("g", "meta/root/g.group.json"), ("both", "meta/root/both.array.json"), ("big", "meta/root/big.array.json")] {
        add(format!("set_attribute({:?})", n), &[k], Box::new(move |h| Ok(format!("{:?}", h.set_attribute(n, "new".into(), 1)?))));
    }
    add("set_attribute of a missing node".into(), &[], Box::new(move |h| Ok(format!("{:?}", h.set_attribute("nope", "new".into(), 1)?))));
    for (n, off, shape, ks) in [
        ("part of an existing chunk", [0u64, 0], [1usize, 1], vec!["data/root/z/c0/0"]),
        ("part of a missing chunk", [0, 2], [1, 1], vec!["data/root/z/c0/1"]),
        ("parts of all", [1, 1], [2, 2], vec!["data/root/z/c0/0", "data/root/z/c0/1", "data/root/z/c1/0", "data/root/z/c1/1"]),
    ] {
        let meta = gz.build();
        add(format!("write_ndarray {}", n), &ks, Box::new(move |h| Ok(format!("{:?}", <i32 as Elem>::nd_wr(h, "z", &meta, &off, ndarray::ArrayD::from_elem(shape.to_vec(), 77).view())?))));
    }
    for k in ["meta/root/a.array.json", "data/root/a/c0/0", "data/root/a/c0/1", "nope", "nope/x", "meta/root", "data/root/z/c0/0/x"] {
        add(format!("store exists({:?})", k), &[], Box::new(move |h| Ok(ReadableStore::exists(h, k)?.to_string())));
        add(
            format!("store get({:?})", k),
            &[],
            Box::new(move |h| {
                Ok(match h.get(k)? {
                    None => "None".into(),
                    Some(mut r) => {
                        let mut v = vec![];
                        r.read_to_end(&mut v)?;
                        format!("{:?}", v)
                    }
                })
            }),
        );
        add(format!("store list_dir({:?})", k), &[], Box::new(move |h| { let (mut a, mut b) = h.list_dir(k)?; a.sort(); b.sort(); Ok(format!("{:?} {:?}", a, b)) }));
        add(format!("store list_prefix({:?})", k), &[], Box::new(move |h| { let mut a = h.list_prefix(k)?; a.sort(); Ok(format!("{:?}", a)) }));
        add(format!("store erase({:?})", k), &[k], Box::new(move |h| Ok(h.erase(k)?.to_string())));
        add(format!("store erase_prefix({:?})", k), &[k], Box::new(move |h| Ok(h.erase_prefix(k)?.to_string())));
    }
    add("store list".into(), &[], Box::new(move |h| { let mut a = h.list()?; a.sort(); Ok(format!("{:?}", a)) }));
    v
}

trait MDtype {
    fn dtype_(self, d: &str) -> Self;
}
impl MDtype for M {
    fn dtype_(mut self, d: &str) -> M {
        self.dtype = json!(d);
        self
    }
}

/// Failures of looking something up or reading it.
fn read_failures(r: &Rec) -> Vec<Inject> {
    use Inject::Errno;
    let e = |v: &[i32]| v.iter().map(|e| Errno(*e)).collect::<Vec<_>>();
    match r.call.kind {
        Kind::Open => e(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ELOOP, libc::EPERM, libc::ENOMEM, libc::ESTALE, libc::EINTR]),
        Kind::Read => e(&[libc::EIO, libc::EINTR, libc::EAGAIN, libc::ESTALE, libc::EISDIR]),
        Kind::Stat => e(&[libc::EIO, libc::EACCES, libc::ELOOP, libc::ENOMEM, libc::ESTALE, libc::ENAMETOOLONG]),
        Kind::Fstat | Kind::Seek => e(&[libc::EIO, libc::ENOMEM, libc::EBADF]),
        Kind::Flock => e(&[libc::EIO, libc::ENOLCK, libc::EINTR]),
        Kind::Opendir => e(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ELOOP]),
        Kind::Readdir => e(&[libc::EIO]),
        Kind::Unlink | Kind::Rmdir | Kind::Trunc | Kind::Write | Kind::Mkdir => e(&[libc::EIO, libc::EACCES]),
        _ => vec![],
    }
}

fn look_under_failures<B: Back>(ctx: &Ctx, l: &Look<B>) {
    let w = World::new(vec![]);
    let (r, after) = B::run(&l.img, |h| w.run(|| guard(|| (l.op)(h))));
    let r = match r {
        Ok(r) => r,
        Err(e) => return ctx.case(format!("{} {} without failures", B::NAME, l.name), || Err(e)),
    };
    ctx.states.fetch_add(1, Relaxed);
    let log0 = w.log();
    let run = |plan: Vec<(usize, Inject)>| -> (Vec<Rec>, CaseResult) {
        let w = World::new(plan);
        let (got, now) = B::run(&l.img, |h| w.run(|| guard(|| (l.op)(h))));
        ctx.transitions.fetch_add(w.calls() as u64, Relaxed);
        ctx.traces.fetch_add(1, Relaxed);
        let v = (|| {
            let t = || format!(" [{}]", w.trace());
            if let Some(d) = w.deadlock() {
                return Err(format!("waits for itself at {}", d));
            }
            match (&got, &r) {
                (Err(p), _) => return Err(format!("{}{}", p, t())),
                (Ok(Ok(g)), Ok(c)) => {
                    if g != c {
                        return Err(format!("gives {} although a call failed; without failures {}{}", trunc(g, 300), trunc(c, 300), t()));
                    }
                    if files(&now) != files(&after) {
                        return Err(format!("reports success but leaves something else: {}{}", snap_diff(&after, &now), t()));
                    }
                }
                (Ok(Ok(g)), Err(c)) => return Err(format!("gives {} although a call failed; without failures it is refused with {}{}", trunc(g, 300), c, t())),
                (Ok(Err(e)), c) => {
                    let absent = |e: &io::Error| e.kind() == ErrorKind::NotFound;
                    if absent(e) && !matches!(c, Err(c) if absent(c)) {
                        return Err(format!("reports absence ({}) although a call failed; without failures {}{}", e, match c { Ok(s) => trunc(s, 200), Err(e) => e.to_string() }, t()));
                    }
                    // what exists is not overwritten
                    for (k, v) in &files(&l.img) {
                        let below = |w: &String| k == w || k.starts_with(&format!("{}/", w));
                        if files(&now).get(k) != Some(v) && !l.writes.iter().any(below) {
                            return Err(format!("{} changes{}", k, t()));
                        }
                    }
                    // what could not be read is left alone (a call that was interrupted, or would block, may be repeated)
                    let log = w.log();
                    let failed: Vec<&Rec> = log.iter().filter(|r| matches!(r.injected, Some(i) if i != Inject::Errno(libc::EINTR) && i != Inject::Errno(libc::EAGAIN))).collect();
                    let reading = |k: Kind| matches!(k, Kind::Read | Kind::Stat | Kind::Opendir | Kind::Readdir);
                    if !failed.is_empty() && failed.iter().all(|r| reading(r.call.kind)) && l.name.starts_with("set_attribute") && files(&now) != files(&l.img) {
                        return Err(format!("overwrites what it could not read: {}{}", snap_diff(&l.img, &now), t()));
                    }
                    if l.name.starts_with("write_ndarray") && !failed.is_empty() && failed.iter().all(|r| r.call.kind == Kind::Read) {
                        // the chunk whose reading failed
                        for k in &l.writes {
                            if failed.iter().any(|r| r.call.path.ends_with(k.as_str())) && files(&now).get(k) != files(&l.img).get(k) {
                                return Err(format!("overwrites {} which it could not read{}", k, t()));
                            }
                        }
                    }
                }
            }
            Ok(true)
        })();
        (w.log(), v)
    };
    for (k, rec) in log0.iter().enumerate() {
        if skip(&log0, k, if ctx.thorough { 100 } else { 12 }) {
            continue;
        }
        for inj in read_failures(rec) {
            let plan = vec![(k, inj)];
            let mut log = vec![];
            ctx.case(format!("{} {} with {}", B::NAME, l.name, show(&plan, &log0)), || {
                let (g, v) = run(plan.clone());
                log = g;
                v
            });
            if ctx.replaying() && log.is_empty() {
                log = run(plan.clone()).0;
            }
            for j in k + 1..log.len() {
                if skip(&log, j, if ctx.thorough { 40 } else { 6 }) {
                    continue;
                }
                let more = read_failures(&log[j]);
                for i2 in more.iter().take(if ctx.thorough { 9 } else { 2 }) {
                    let plan = vec![(k, inj), (j, *i2)];
                    ctx.case(format!("{} {} with {}", B::NAME, l.name, show(&plan, &log)), || run(plan.clone()).1);
                }
            }
        }
    }
}

pub fn c20(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (operation that looks something up or reads it, fault plan): every call it makes to the file system or store fails in every way of an alphabet, and every pair of failures; \
         the result has to be an error that is not absence, or exactly the result without failures, and nothing that exists may be overwritten; \
         and one case per (chunk, codec, number of bytes after which the caller's own reader fails)",
    );
    ctx.assume("ENOENT and ENOTDIR mean absence and are not injected");
    let fs: Vec<Look<FsB>> = lookups();
    let mem: Vec<Look<MemB>> = lookups();
    ctx.par(&fs, |l| look_under_failures(ctx, l));
    ctx.par(&mem, |l| look_under_failures(ctx, l));
    let mut more: Vec<Look<FsB>> = vec![];
    let base = populated::<FsB>(&M::new(&[4, 4], &[2, 2], "u1"));
    let mut img = base.clone();
    // a file whose name is a key without its extensions
    img.insert("meta/root/g2".into(), Some(b"{\"other\": 1}".to_vec()));
    img.insert("meta/root/g2.group.json".into(), Some(b"{\"attributes\": {}}".to_vec()));
    for k in ["meta/root/g2.group.json", "meta/root/g.group.json", "meta/root/nope.group.json", "meta/root/g2.array.json", "zarr.json"] {
        more.push(Look { name: format!("get_attributes({:?})", k), img: img.clone(), op: Box::new(move |h| Ok(h.get_attributes(k)?.to_string())), writes: vec![] });
    }
    ctx.par(&more, |l| look_under_failures(ctx, l));
    crate::p_stream::failing_readers(ctx);
    // opening
    for how in ["open", "open_or_create"] {
        for state in ["good", "bad version", "missing"] {
            if state == "missing" && how == "open_or_create" {
                continue;
            }
            let doc: &[u8] = if state == "good" { b"" } else { b"{\"zarr_format\":\"https://purl.org/zarr/spec/protocol/core/2.0\",\"metadata_encoding\":\"x\",\"metadata_key_suffix\":\".json\",\"extensions\":[]}" };
            let run = |plan: Vec<(usize, Inject)>| -> (Vec<Rec>, Result<io::Result<String>, String>, bool, String) {
                let d = Dir::new();
                if state == "missing" {
                    std::fs::create_dir_all(&d.base).unwrap();
                } else {
                    d.create();
                }
                if state == "bad version" {
                    d.put("zarr.json", doc);
                }
                d.put("meta/root/g.group.json", b"{}");
                let before = d.snap();
                let w = World::new(plan);
                let r = w.run(|| guard(|| if how == "open" { FilesystemHierarchy::open(&d.base) } else { FilesystemHierarchy::open_or_create(&d.base) }.map(|h| format!("{:?}", h.get_version().ok()))));
                (w.log(), r, before == d.snap(), w.trace())
            };
            let (log, want, _, _) = run(vec![]);
            let Ok(want) = want else {
                ctx.case(format!("{} {}", how, state), || Err("panics".into()));
                continue;
            };
            for k in 0..log.len() {
                for inj in read_failures(&log[k]) {
                    let plan = vec![(k, inj)];
                    let (log2, ..) = run(plan.clone());
                    let mut plans = vec![plan];
                    for j in k + 1..log2.len() {
                        for i2 in read_failures(&log2[j]) {
                            plans.push(vec![(k, inj), (j, i2)]);
                        }
                    }
                    for plan in plans {
                        ctx.case(format!("{} {} with {}", how, state, show(&plan, &log2)), || {
                            let (_, r, same, trace) = run(plan.clone());
                            if !same {
                                return Err(format!("the hierarchy is overwritten [{}]", trace));
                            }
                            match r? {
                                Ok(s) if want.as_ref().ok() == Some(&s) => Ok(true),
                                Ok(s) => Err(format!("opens as {} [{}]", s, trace)),
                                Err(e) if e.kind() == ErrorKind::NotFound && state != "missing" => Err(format!("reports absence: {} [{}]", e, trace)),
                                Err(_) => Ok(true),
                            }
                        });
                    }
                }
            }
        }
    }
    ("model_checking", true)
}

// ------------------------------------------------------------------- C22

fn torn_sizes(n: usize, thorough: bool) -> Vec<usize> {
    let all = if thorough { 4096 } else { 48 };
    if n <= all {
        return (0..=n).collect();
    }
    let mut v = vec![0, 1, 2, 3, 4, 8, 10, 18, 32, n / 4, n / 2, n - 9, n - 8, n - 4, n - 2, n - 1, n];
    v.retain(|x| *x <= n);
    v.dedup();
    v
}

/// All points at which the process can die in an operation.
fn crashes(log: &[Rec], thorough: bool, n: usize) -> Vec<(usize, Inject)> {
    let mut v = vec![];
    for (k, r) in log.iter().enumerate() {
        if skip(log, k, n) {
            continue;
        }
        match r.call.kind {
            Kind::Write => {
                for s in torn_sizes(r.call.len, thorough) {
                    v.push((k, Inject::Crash(s)));
                }
            }
            // nothing changes at these
            Kind::Stat | Kind::Fstat | Kind::Read | Kind::Seek | Kind::Readdir | Kind::Opendir if k > 0 => {}
            // the same as dying at the next call
            Kind::Close => {}
            _ => v.push((k, Inject::Crash(0))),
        }
    }
    v
}

fn under_crashes<B: Back>(ctx: &Ctx, s: &Scn<B>, twice: bool) {
    if s.items.iter().any(|i| matches!(i, Item::Key(_))) {
        return;
    }
    let c = match clean(s) {
        Ok(c) => c,
        Err(e) => return ctx.case(format!("{} {} without a crash", B::NAME, s.name), || Err(e)),
    };
    ctx.states.fetch_add(1, Relaxed);
    let die = |img: &Image, op: &Op<B>, at: (usize, Inject)| -> (Image, World) {
        let w = World::new(vec![at]);
        let (_, after) = B::run(img, |h| w.run(|| guard(|| op(h))));
        ctx.transitions.fetch_add(w.calls() as u64, Relaxed);
        (after, w)
    };
    let judge = |after: &Image, w: &World, again: bool| -> CaseResult {
        let t = || format!(" [{}]", w.trace());
        judge_damage(s, &c, after, again).map_err(|e| format!("after the crash {}{}", e, t()))?;
        // listing still works
        let (r, _) = B::run(after, |h| guard(|| h.list_nodes("").map(|_| ())));
        r?.map_err(|e| format!("after the crash nodes can not be listed: {}{}", e, t()))?;
        if let Some(rep) = &s.repair {
            let (r, fixed) = B::run(after, |h| guard(|| rep(h)));
            r?.map_err(|e| format!("the repair fails: {}{}", e, t()))?;
            let (r, want) = B::run(&c.after, |h| guard(|| rep(h)));
            r?.map_err(|e| format!("the repair fails without a crash: {}", e))?;
            if files(&fixed) != files(&want) {
                return Err(format!("the repair leaves something else: {}{}", snap_diff(&want, &fixed), t()));
            }
        }
        Ok(true)
    };
    for at in crashes(&c.log, ctx.thorough, if ctx.thorough { 200 } else { 10 }) {
        if ctx.stopped() {
            return;
        }
        let mut state = None;
        let desc = format!("{} {} dies at {}", B::NAME, s.name, show(&[at], &c.log));
        ctx.case(desc.clone(), || {
            let (after, w) = die(&s.img, &s.op, at);
            ctx.traces.fetch_add(1, Relaxed);
            if !w.crashed() {
                return Err("the crash point is not reached again".into());
            }
            let r = judge(&after, &w, false);
            state = Some(after);
            r
        });
        if !twice {
            continue;
        }
        if ctx.replaying() && state.is_none() {
            state = Some(die(&s.img, &s.op, at).0);
        }
        // a second crash while repairing
        if let (Some(state), Some(rep)) = (state, &s.repair) {
            let w = World::new(vec![]);
            B::run(&state, |h| w.run(|| guard(|| rep(h)))).0.ok();
            let log = w.log();
            for at2 in crashes(&log, false, 6) {
                if !ctx.thorough {
                    if let (Kind::Write, Inject::Crash(n)) = (log[at2.0].call.kind, at2.1) {
                        let len = log[at2.0].call.len;
                        if ![0, 1, len / 2, len.saturating_sub(1)].contains(&n) {
                            continue;
                        }
                    }
                }
                ctx.case(format!("{}, repair dies at {}", desc, show(&[at2], &log)), || {
                    let (after, w) = die(&state, rep, at2);
                    ctx.traces.fetch_add(1, Relaxed);
                    judge(&after, &w, true)
                });
            }
        }
    }
}

pub fn c22(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (operation on a state, crash point): the process dies at every call the operation makes that can change the store, a write having transferred any number of its bytes; the hierarchy is opened afresh, \
         every other file is compared, the items of the operation are read, the operation is repeated or the node removed and created again; and a second crash at every point of that repair",
    );
    ctx.assume("what a call did before the process died is visible afterwards (the process dies, not the machine)");
    let t = ctx.thorough;
    let mut fs: Vec<(Scn<FsB>, bool)> = vec![];
    let mut mem: Vec<(Scn<MemB>, bool)> = vec![];
    fs.extend(chunk_scenarios(false, t).into_iter().map(|s| (s, true)));
    fs.extend(node_scenarios().into_iter().map(|s| (s, true)));
    fs.extend(chunk_scenarios(true, t).into_iter().map(|s| (s, t)));
    mem.extend(chunk_scenarios(false, t).into_iter().map(|s| (s, t)));
    mem.extend(node_scenarios().into_iter().map(|s| (s, t)));
    ctx.par(&fs, |(s, p)| under_crashes(ctx, s, *p));
    ctx.par(&mem, |(s, p)| under_crashes(ctx, s, *p));
    let atom: Vec<Scn<AtomB>> = node_scenarios().into_iter().chain(chunk_scenarios(false, t)).collect();
    ctx.par(&atom, |s| under_crashes(ctx, s, false));
    ("model_checking", true)
}
