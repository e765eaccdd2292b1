//! C18 rejected calls, C32 read operations: nothing changes.
use crate::eng::*;
use crate::hist::*;
use crate::mem::{entry_point, Mem};
use crate::p_geom::bb;
use crate::p_path;
use crate::sys::{Inject, Kind, World};
use crate::util::*;
use crate::with_elem;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::path::Path;
use std::sync::atomic::Ordering::Relaxed;
use zarr::prelude::*;
use zarr::storage::*;
use zarr::store::filesystem::FilesystemHierarchy;

// ------------------------------------------------------------------- C18

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Must {
    /// The arguments are wrong: it has to be refused.
    Err,
    /// It may work or be refused.
    May,
    /// It may also panic (an assertion on the arguments), as long as nothing changes.
    MayPanic,
}

/// What may not change: every file, and the directories which the listing of nodes shows.
fn essence(s: &Image) -> Image {
    s.iter().filter(|(k, v)| v.is_some() || k.starts_with("meta")).map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// What reading gives, through this handle.
fn probe<H>(h: &H, nodes: &[&str], arrays: &[(&str, &str)]) -> String
where
    H: HierarchyReader + HierarchyLister,
{
    let mut s = String::new();
    for n in nodes {
        s += &format!(
            "{}: {:?} {:?} {:?} {:?}\n",
            n,
            HierarchyReader::exists(h, n).ok(),
            h.get_array_metadata(n).ok(),
            h.list_attributes(n).ok(),
            h.list_nodes(n).ok()
        );
    }
    for (n, e) in arrays {
        if let Ok(m) = h.get_array_metadata(n) {
            for c in m.coord_iter() {
                s += &format!("{} {:?}: {}\n", n, c, with_elem!(*e, T => format!("{:?}", <T as Elem>::rd(h, n, &m, &c).ok().map(|c| c.map(|c| bits_of(&c.1))))));
            }
        }
    }
    s
}

struct Setup<'a> {
    name: String,
    img: Image,
    nodes: &'a [&'a str],
    arrays: &'a [(&'a str, &'a str)],
}

fn rejected<B: Back>(ctx: &Ctx, s: &Setup, call: String, must: Must, f: impl Fn(&B::H) -> io::Result<()>) {
    ctx.case(format!("{} {} on {}", B::NAME, call, s.name), || {
        let (r, after) = B::run(&s.img, |h| {
            let a = probe(h, s.nodes, s.arrays);
            let r = guard(|| f(h));
            let b = probe(h, s.nodes, s.arrays);
            (r, a, b)
        });
        ctx.transitions.fetch_add(1, Relaxed);
        let (r, a, b) = r;
        let what = match r {
            Err(p) => {
                if must != Must::MayPanic {
                    return Err(p);
                }
                "panic"
            }
            Ok(Ok(())) => {
                if must == Must::Err {
                    return Err("is not refused".into());
                }
                return Ok(false);
            }
            Ok(Err(_)) => "refused",
        };
        if essence(&after) != essence(&s.img) {
            return Err(format!("{}, and yet the store changes: {}", what, snap_diff(&essence(&s.img), &essence(&after))));
        }
        if a != b {
            return Err(format!("{}, and yet the handle reads\n{}\nwhere it read\n{}", what, b, a));
        }
        Ok(true)
    });
}

fn wr_n<B: Back, T: Elem>(h: &B::H, p: &str, m: &M, pos: &[u64], n: usize) -> io::Result<()> {
    T::wr(h, p, &m.build(), pos, &content::<T>("mix", n))
}

fn chunk_calls<B: Back>(ctx: &Ctx, e: &str, big: bool, c: &Codec, order: char, more: bool) {
    let dt = if big { dtypes(e).pop().unwrap() } else { dtypes(e).remove(0) };
    let m = M::new(&[4, 6], &[2, 3], &dt).codec(c).order(order);
    let n = 6usize;
    let img = B::run(&B::empty(), |h| {
        h.create_array("a", &m.build()).unwrap();
        h.create_array("ab", &m.build()).unwrap();
        h.create_group("g").unwrap();
        h.set_attribute("g", "k".into(), json!([1])).unwrap();
        h.create_array("g/a", &m.build()).unwrap();
        with_elem!(e, T => {
            for (p, pos) in [("a", [0u64, 0]), ("a", [1, 1]), ("ab", [0, 0]), ("g/a", [1, 0])] {
                T::wr(h, p, &m.build(), &pos, &content::<T>("count", n)).unwrap();
            }
        });
    })
    .1;
    let arrays = [("a", e), ("ab", e), ("g/a", e)];
    let s = Setup { name: format!("{}{} {}", dt, order, c.show()), img, nodes: &["a", "ab", "g", "g/a", "", "nope"], arrays: &arrays };
    ctx.states.fetch_add(1, Relaxed);
    for u in ETYPES {
        for pos in [[0u64, 0], [0, 1]] {
            let counts: Vec<usize> = if u == e { vec![0, 1, 5, 7, 12, 6 * esize(e), 13] } else { vec![6, 0, 6 * esize(e) / esize(u)] };
            for k in counts {
                if u == e && k == n {
                    continue;
                }
                rejected::<B>(ctx, &s, format!("write_chunk::<{}>({:?}, {} elements)", u, pos, k), Must::Err, |h| with_elem!(u, U => wr_n::<B, U>(h, "a", &m, &pos, k)));
            }
        }
        // region: one whole chunk, part of an existing chunk, part of a missing one, everything
        for (off, shape) in [([0u64, 0], [2usize, 3]), ([0, 0], [1, 1]), ([0, 3], [1, 2]), ([2, 0], [2, 6]), ([0, 0], [4, 6]), ([1, 1], [3, 5])] {
            if u != e {
                rejected::<B>(ctx, &s, format!("write_ndarray::<{}>({:?}+{:?})", u, off, shape), Must::Err, |h| {
                    with_elem!(u, U => U::nd_wr(h, "a", &m.build(), &off, ndarray::ArrayD::<U>::from_elem(shape.to_vec(), U::fb(3)).view()))
                });
            }
        }
    }
    if !more {
        return;
    }
    with_elem!(e, T => {
        for (off, shape) in [(vec![0u64, 0], vec![2usize]), (vec![0, 0], vec![]), (vec![0, 0], vec![2, 3, 1]), (vec![0], vec![2]), (vec![], vec![]), (vec![0, 0, 0], vec![2, 3, 1])] {
            rejected::<B>(ctx, &s, format!("write_ndarray({:?}+{:?})", off, shape), Must::Err, |h| T::nd_wr(h, "a", &m.build(), &off, ndarray::ArrayD::<T>::from_elem(shape.clone(), T::fb(1)).view()));
        }
        for (off, shape) in [(vec![0u64], vec![2usize, 3]), (vec![0, 0, 0], vec![2, 3]), (vec![], vec![2, 3])] {
            rejected::<B>(ctx, &s, format!("write_ndarray({:?}+{:?})", off, shape), Must::MayPanic, |h| T::nd_wr(h, "a", &m.build(), &off, ndarray::ArrayD::<T>::from_elem(shape.clone(), T::fb(1)).view()));
        }
        // a fill value that does not convert, and a type that has no representation
        for fill in [json!("x"), json!({}), json!([1]), json!("nan")] {
            let bad = m.clone().fill(fill.clone());
            for (off, shape) in [([0u64, 0], [1usize, 1]), ([0, 3], [1, 1]), ([0, 0], [4, 6])] {
                rejected::<B>(ctx, &s, format!("write_ndarray({:?}+{:?}) fill={}", off, shape, fill), if shape == [1, 1] && off == [0, 3] { Must::Err } else { Must::May }, |h| {
                    T::nd_wr(h, "a", &bad.build(), &off, ndarray::ArrayD::<T>::from_elem(shape.to_vec(), T::fb(1)).view())
                });
            }
        }
        let mut ext = m.clone();
        ext.dtype = json!({"extension": "https://example.org/x", "type": "<M8[ns]"});
        rejected::<B>(ctx, &s, "write_chunk unusable type".into(), Must::Err, |h| T::wr(h, "a", &ext.build(), &[0, 0], &content::<T>("mix", n)));
        rejected::<B>(ctx, &s, "write_ndarray unusable type".into(), Must::Err, |h| T::nd_wr(h, "a", &ext.build(), &[0, 0], ndarray::ArrayD::<T>::from_elem(vec![4, 6], T::fb(1)).view()));
        let raw = { let mut r = m.clone(); r.dtype = json!(format!("r{}", 8 * esize(e))); r };
        rejected::<B>(ctx, &s, "write_chunk raw type".into(), Must::Err, |h| T::wr(h, "a", &raw.build(), &[0, 0], &content::<T>("mix", n)));
        // positions of another rank, or outside
        for pos in [vec![], vec![0u64], vec![0, 0, 0], vec![2, 0], vec![0, 2], vec![u64::MAX, u64::MAX]] {
            rejected::<B>(ctx, &s, format!("write_chunk at {:?} with a wrong count", pos), Must::Err, |h| T::wr(h, "a", &m.build(), &pos, &content::<T>("mix", n - 1)));
            rejected::<B>(ctx, &s, format!("write_chunk at {:?}", pos), Must::MayPanic, |h| T::wr(h, "a", &m.build(), &pos, &content::<T>("mix", n)));
        }
    });
    node_calls::<B>(ctx, &s, &m);
}

fn node_calls<B: Back>(ctx: &Ctx, s: &Setup, m: &M) {
    let other = M::new(&[9], &[3], "<i4").fill(json!(7));
    for (what, meta) in [("same", m), ("other", &other)] {
        for n in ["a", "ab", "g", "g/a", "/a", "/g/a", "/g"] {
            rejected::<B>(ctx, s, format!("create_array({:?}) {}", n, what), Must::Err, |h| h.create_array(n, &meta.build()));
        }
    }
    for n in ["a", "ab", "g/a", "/a"] {
        rejected::<B>(ctx, s, format!("create_group({:?})", n), Must::Err, |h| h.create_group(n));
    }
    for n in ["nope", "g/nope", "a/nope", "", "/", "b", "g/ab", "aa"] {
        rejected::<B>(ctx, s, format!("set_attribute({:?})", n), Must::Err, |h| h.set_attribute(n, "k".into(), 1));
        rejected::<B>(ctx, s, format!("set_attributes({:?})", n), Must::Err, |h| h.set_attributes(n, json!({"k": 1, "l": null}).as_object().unwrap().clone()));
        rejected::<B>(ctx, s, format!("set_attributes({:?}, none)", n), Must::Err, |h| h.set_attributes(n, Default::default()));
    }
    for n in ["a", "g", "g/a", "nope"] {
        rejected::<B>(ctx, s, format!("set_attribute({:?}, map with list keys)", n), Must::Err, |h| h.set_attribute(n, "k".into(), [(vec![1u8, 2], 1)].into_iter().collect::<BTreeMap<_, _>>()));
        rejected::<B>(ctx, s, format!("set_attribute({:?}, not serializable)", n), Must::Err, |h| {
                let c = std::cell::RefCell::new(1);
                let _held = c.borrow_mut();
                h.set_attribute(n, "k".into(), &c)
            });
    }
}

/// Documents that attributes can not be added to.
fn damaged_documents<B: Back>(ctx: &Ctx) {
    let good_a = M::new(&[4], &[2], "u1").json();
    let good_g = json!({"extensions": [], "attributes": {"x": 1}});
    let mut docs: Vec<(String, Vec<u8>, bool)> = vec![];
    for (kind, good) in [("array", &good_a), ("group", &good_g)] {
        for bad in [json!([]), json!([{}]), json!("x"), json!(""), json!(1), json!(0.5), json!(true)] {
            let mut v = good.clone();
            v["attributes"] = bad;
            docs.push((kind.into(), v.to_string().into_bytes(), true));
        }
        let mut v = good.clone();
        v["attributes"] = json!(null);
        docs.push((kind.into(), v.to_string().into_bytes(), false));
        let whole = good.to_string().into_bytes();
        for cut in 0..whole.len() {
            docs.push((kind.into(), whole[..cut].to_vec(), true));
        }
        for v in ["[]", "\"x\"", "1", "null", "{}x", "{\"attributes\":{}", "\u{0}"] {
            docs.push((kind.into(), v.as_bytes().to_vec(), true));
        }
        let mut v = whole.clone();
        v.push(b'}');
        docs.push((kind.into(), v, true));
    }
    for (kind, doc, must) in docs {
        let shown = trunc(&String::from_utf8_lossy(&doc[doc.len().saturating_sub(40)..]), 60);
        let img = B::run(&B::empty(), |h| {
            h.set(&format!("/meta/root/n.{}.json", kind), |mut w| { w.write_all(&doc)?; w.flush() }).unwrap();
            h.set("/data/root/n/c0", |mut w| { w.write_all(&[1, 2])?; w.flush() }).unwrap();
        })
        .1;
        let s = Setup { name: format!("{} document of {} bytes ..{:?}", kind, doc.len(), shown), img, nodes: &["n", ""], arrays: &[] };
        ctx.states.fetch_add(1, Relaxed);
        let must = if must { Must::Err } else { Must::May };
        rejected::<B>(ctx, &s, "set_attribute".into(), must, |h| h.set_attribute("n", "k".into(), 2));
        rejected::<B>(ctx, &s, "set_attributes".into(), must, |h| h.set_attributes("n", json!({"x": 5, "y": {}}).as_object().unwrap().clone()));
        rejected::<B>(ctx, &s, "create_array".into(), Must::Err, |h| h.create_array("n", &M::new(&[9], &[3], "u1").build()));
        if kind == "array" {
            rejected::<B>(ctx, &s, "create_group".into(), Must::Err, |h| h.create_group("n"));
        }
    }
}

/// Chunk and array documents that can not be replaced because of what is in their place.
fn conflicts(ctx: &Ctx) {
    let m = M::new(&[4, 4], &[2, 2], "u1");
    let doc = m.json().to_string().into_bytes();
    let d = |k: &[(&str, Option<&[u8]>)]| {
        let mut s = FsB::empty();
        for (k, v) in k {
            for (i, _) in k.match_indices('/') {
                s.insert(k[..i].to_string(), None);
            }
            s.insert(k.to_string(), v.map(|v| v.to_vec()));
        }
        s
    };
    let places: Vec<(&str, Image)> = vec![
        ("a directory in place of a chunk", d(&[("meta/root/a.array.json", Some(&doc)), ("data/root/a/c0/0/x", Some(b"1")), ("data/root/a/c1/1", Some(&[1, 2, 3, 4]))])),
        ("an empty directory in place of a chunk", d(&[("meta/root/a.array.json", Some(&doc)), ("data/root/a/c0/0", None)])),
        ("a file in place of the directory of chunks", d(&[("meta/root/a.array.json", Some(&doc)), ("data/root/a", Some(b"12"))])),
        ("a file in place of a row of chunks", d(&[("meta/root/a.array.json", Some(&doc)), ("data/root/a/c0", Some(b"12"))])),
        ("a file in place of the chunks of all", d(&[("meta/root/a.array.json", Some(&doc)), ("data", Some(b"12"))])),
        ("a directory in place of the documents", d(&[("meta/root/a.array.json/x", Some(b"1")), ("meta/root/a.group.json/y", Some(b"1")), ("meta/root/g.group.json", Some(b"{}"))])),
        ("files in place of directories of documents", d(&[("meta/root", Some(b"1"))])),
        ("a file in place of the children", d(&[("meta/root/a", Some(b"1")), ("meta/root/a.group.json", Some(b"{\"extensions\":[],\"attributes\":{}}"))])),
    ];
    for (name, img) in places {
        let s = Setup { name: name.into(), img, nodes: &["a", "g", ""], arrays: &[("a", "u1")] };
        ctx.states.fetch_add(1, Relaxed);
        for n in ["a", "a/b", "g", "", "a.array.json/q"] {
            rejected::<FsB>(ctx, &s, format!("create_array({:?})", n), Must::May, |h| h.create_array(n, &m.build()));
            rejected::<FsB>(ctx, &s, format!("create_group({:?})", n), Must::May, |h| h.create_group(n));
            rejected::<FsB>(ctx, &s, format!("set_attribute({:?})", n), Must::May, |h| h.set_attribute(n, "k".into(), 1));
            for pos in [[0u64, 0], [0, 1], [1, 1]] {
                rejected::<FsB>(ctx, &s, format!("write_chunk({:?},{:?})", n, pos), Must::May, |h| <u8 as Elem>::wr(h, n, &m.build(), &pos, &[9; 4]));
                rejected::<FsB>(ctx, &s, format!("delete_chunk({:?},{:?})", n, pos), Must::May, |h| h.delete_chunk(n, &m.build(), &pos).map(|_| ()));
                rejected::<FsB>(ctx, &s, format!("write_ndarray({:?},{:?})", n, pos), Must::May, |h| {
                    <u8 as Elem>::nd_wr(h, n, &m.build(), &[pos[0] * 2, pos[1] * 2], ndarray::ArrayD::from_elem(vec![1, 2], 5).view())
                });
            }
        }
        for k in ["data/root/a/c0/0", "data/root/a/c0", "data/root/a", "data/root/a/c0/0/x/y", "meta/root/a.array.json", "meta/root/a.array.json/x/y", "meta", "", "/", "meta/root/z"] {
            rejected::<FsB>(ctx, &s, format!("set({:?})", k), Must::May, |h| h.set(k, |mut w| { w.write_all(b"new")?; w.flush() }));
            rejected::<FsB>(ctx, &s, format!("erase({:?})", k), Must::May, |h| h.erase(k).map(|_| ()));
        }
    }
}

fn outside(ctx: &Ctx) {
    let m = M::new(&[4], &[2], "u1");
    let img = FsB::run(&FsB::empty(), |h| {
        h.create_array("a", &m.build()).unwrap();
        <u8 as Elem>::wr(h, "a", &m.build(), &[0], &[1, 2]).unwrap();
        h.create_group("g").unwrap();
    })
    .1;
    let s = Setup { name: "a".into(), img, nodes: &["a", "g", ""], arrays: &[("a", "u1")] };
    for p in ["../../..", "../../../x", "../../../h2", "a/../../../..", "a/../../../../x", "/../../../x", "g/../../../../x/y", "../../../../../../x", "a/../a/../../../../h/x"] {
        rejected::<FsB>(ctx, &s, format!("create_array({:?})", p), Must::Err, |h| h.create_array(p, &m.build()));
        rejected::<FsB>(ctx, &s, format!("create_group({:?})", p), Must::Err, |h| h.create_group(p));
        rejected::<FsB>(ctx, &s, format!("set_attribute({:?})", p), Must::Err, |h| h.set_attribute(p, "k".into(), 1));
        rejected::<FsB>(ctx, &s, format!("remove({:?})", p), Must::Err, |h| h.remove(p));
        rejected::<FsB>(ctx, &s, format!("write_chunk({:?})", p), if p.ends_with("..") { Must::May } else { Must::Err }, |h| <u8 as Elem>::wr(h, p, &m.build(), &[0], &[9; 2]));
        rejected::<FsB>(ctx, &s, format!("delete_chunk({:?})", p), if p.ends_with("..") { Must::May } else { Must::Err }, |h| h.delete_chunk(p, &m.build(), &[0]).map(|_| ()));
        rejected::<FsB>(ctx, &s, format!("write_ndarray({:?})", p), if p.ends_with("..") { Must::May } else { Must::Err }, |h| <u8 as Elem>::nd_wr(h, p, &m.build(), &[0], ndarray::ArrayD::from_elem(vec![1], 5).view()));
    }
    for k in ["..", "../x", "/../x", "a/../../x", "data/../../x/y", "../h/zarr.json", "meta/../../h/meta/root/a.array.json", "../../x"] {
        rejected::<FsB>(ctx, &s, format!("set({:?})", k), Must::Err, |h| h.set(k, |mut w| { w.write_all(b"new")?; w.flush() }));
        rejected::<FsB>(ctx, &s, format!("erase({:?})", k), Must::Err, |h| h.erase(k).map(|_| ()));
        rejected::<FsB>(ctx, &s, format!("erase_prefix({:?})", k), Must::Err, |h| h.erase_prefix(k).map(|_| ()));
    }
}

/// A value whose producer fails: the error is passed on.
fn failing_values<B: Back>(ctx: &Ctx) {
    for n in [0usize, 1, 100, 10_000] {
        for (name, old) in [("missing", None), ("present", Some(b"old".to_vec()))] {
            ctx.case(format!("{} set whose value fails after {} bytes, {}", B::NAME, n, name), || {
                let img = B::run(&B::empty(), |h| {
                    h.set("b", |mut w| { w.write_all(b"other")?; w.flush() }).unwrap();
                    if let Some(o) = &old {
                        h.set("d/k", |mut w| { w.write_all(o)?; w.flush() }).unwrap();
                    }
                })
                .1;
                let (r, after) = B::run(&img, |h| {
                    h.set("d/k", |mut w| {
                        w.write_all(&vec![7; n])?;
                        Err(io::Error::new(io::ErrorKind::Other, "no more"))
                    })
                });
                if r.is_ok() {
                    return Err("the error is not passed on".into());
                }
                let mut a = files(&after);
                let mut b = files(&img);
                a.remove("d/k");
                b.remove("d/k");
                if a != b {
                    return Err("another key changes".into());
                }
                Ok(true)
            });
        }
    }
}

pub fn c18(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (state built with real operations, refused call, store): the call has to fail, every file (and every directory that shows as a node) is compared byte for byte before and after, \
         and everything readable through the handle is read before and after",
    );
    ctx.assume("writing at a position outside the array or of another rank may be accepted, refused or panic, but not change other things when it fails; empty directories below data do not count as a change");
    let t = ctx.thorough;
    let mut items = vec![];
    for e in ETYPES {
        for c in CODECS {
            for big in [false, true] {
                for order in ['C', 'F'] {
                    if !t && ((big != (order == 'F')) || (big && c != "gzip")) {
                        continue;
                    }
                    if big && esize(e) == 1 && !t {
                        continue;
                    }
                    items.push((e, c, big, order));
                }
            }
        }
    }
    ctx.par(&items, |(e, c, big, order)| {
        chunk_calls::<MemB>(ctx, e, *big, &codec(c), *order, true);
        if t || *c == "raw" || *c == "gzip" {
            chunk_calls::<FsB>(ctx, e, *big, &codec(c), *order, t || *c == "gzip");
        }
    });
    let items: Vec<usize> = (0..6).collect();
    ctx.par(&items, |i| match i {
        0 => damaged_documents::<MemB>(ctx),
        1 => damaged_documents::<FsB>(ctx),
        2 => conflicts(ctx),
        3 => outside(ctx),
        4 => failing_values::<MemB>(ctx),
        _ => failing_values::<FsB>(ctx),
    });
    crate::p_stream::wrapped_sizes(ctx);
    ("exploration", true)
}

// ------------------------------------------------------------------- C32

/// Everything at a place: files with contents, directories, links and where they lead.
fn full_snapshot(top: &Path) -> BTreeMap<String, String> {
    fn walk(p: &Path, rel: &str, out: &mut BTreeMap<String, String>) {
        use std::os::unix::fs::MetadataExt;
        let Ok(md) = std::fs::symlink_metadata(p) else { return };
        let v = if md.file_type().is_symlink() {
            format!("link {:?}", std::fs::read_link(p).ok())
        } else if md.is_dir() {
            "dir".into()
        } else {
            format!("file {:?}", std::fs::read(p).ok())
        };
        out.insert(rel.to_string(), format!("{} #{} {:o}", v, md.ino(), md.mode()));
        if md.is_dir() {
            if let Ok(rd) = std::fs::read_dir(p) {
                for e in rd.flatten() {
                    walk(&e.path(), &format!("{}/{}", rel, e.file_name().to_string_lossy()), out);
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    crate::sys::unhooked(|| walk(top, "", &mut m));
    m
}

fn changed(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> String {
    let mut v = vec![];
    for k in a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>() {
        if a.get(k) != b.get(k) {
            v.push(match (a.get(k), b.get(k)) {
                (None, _) => format!("+{}", k),
                (_, None) => format!("-{}", k),
                _ => format!("~{}", k),
            });
        }
    }
    v.join(" ")
}

/// The calls of a run that changed something.
fn changes(w: &World) -> Option<String> {
    w.log().iter().find(|r| {
        r.ret >= 0
            && match r.call.kind {
                Kind::Open => r.call.flags & libc::O_TRUNC != 0,
                k => {
                    matches!(k, Kind::Write | Kind::Trunc | Kind::Mkdir | Kind::Rmdir | Kind::Unlink | Kind::Rename | Kind::Link | Kind::Attr) && r.call.mutates()
                }
            }
    })
    .map(|r| r.call.show())
}

fn tree(kind: &str) -> Dir {
    let d = Dir::new();
    let h = d.create();
    let m = M::new(&[4], &[2], "u1");
    let put = |k: &str, b: &[u8]| d.put(k, b);
    if kind != "empty" {
        h.create_array("a", &m.clone().codec(&codec("gzip")).build()).unwrap();
        <u8 as Elem>::wr(&h, "a", &m.clone().codec(&codec("gzip")).build(), &[0], &[1, 2]).unwrap();
        h.create_group("g").unwrap();
        h.set_attribute("g", "k".into(), 1).unwrap();
        h.create_array("g/b", &m.build()).unwrap();
        <u8 as Elem>::wr(&h, "g/b", &m.build(), &[1], &[3, 4]).unwrap();
        h.create_group("i/j/k").unwrap();
    }
    drop(h);
    let rm = |k: &str| {
        let p = d.file(k);
        if p.is_dir() {
            std::fs::remove_dir_all(p).unwrap()
        } else {
            std::fs::remove_file(p).unwrap()
        }
    };
    let base = d.base.clone();
    match kind {
        "empty" | "populated" => {}
        "damaged documents" => {
            put("meta/root/a.array.json", b"{\"shape\": [4");
            put("meta/root/g.group.json", b"");
            put("meta/root/g/b.array.json", b"[]");
        }
        "damaged chunks" => {
            put("data/root/a/c0", b"\x1f\x8b\x08\0");
            put("data/root/a/c1", b"");
            put("data/root/g/b/c0", b"1");
        }
        "directories in place of files" => {
            rm("data/root/a/c0");
            std::fs::create_dir(d.file("data/root/a/c0")).unwrap();
            rm("meta/root/a.array.json");
            std::fs::create_dir(d.file("meta/root/a.array.json")).unwrap();
            std::fs::create_dir(d.file("meta/root/g.array.json")).unwrap();
        }
        "files in place of directories" => {
            rm("data/root/a");
            put("data/root/a", b"1");
            rm("meta/root/g");
            put("meta/root/g", b"1");
        }
        "no data" => rm("data"),
        "no meta" => rm("meta"),
        "no base" => std::fs::remove_dir_all(&base).unwrap(),
        "a file as base" => {
            std::fs::remove_dir_all(&base).unwrap();
            std::fs::write(&base, b"x").unwrap();
        }
        "links" => {
            use std::os::unix::fs::symlink;
            rm("data/root/a/c0");
            symlink("../g/b/c1", d.file("data/root/a/c0")).unwrap();
            symlink("nowhere", d.file("data/root/a/c1")).unwrap();
            symlink("g", d.file("meta/root/h")).unwrap();
            symlink("g.group.json", d.file("meta/root/h.group.json")).unwrap();
            symlink("x.array.json", d.file("meta/root/x.array.json")).unwrap();
        }
        "no permissions" => {
            use std::os::unix::fs::PermissionsExt;
            for k in ["data/root/a/c0", "meta/root/a.array.json", "meta/root/g", "zarr.json"] {
                std::fs::set_permissions(d.file(k), std::fs::Permissions::from_mode(0)).unwrap();
            }
        }
        "empty directories" => {
            std::fs::create_dir_all(d.file("meta/root/e/f")).unwrap();
            std::fs::create_dir_all(d.file("data/root/e/f")).unwrap();
        }
        _ => unreachable!(),
    }
    d
}
const TREES: [&str; 13] = [
    "empty", "populated", "damaged documents", "damaged chunks", "directories in place of files", "files in place of directories", "no data", "no meta", "no base", "a file as base", "links", "no permissions",
    "empty directories",
];

fn read32(d: &Dir, h: &FilesystemHierarchy, o: &str, p: &str, m: &ArrayMetadata) -> io::Result<String> {
    Ok(match o {
        "open" => format!("{:?}", FilesystemHierarchy::open(&d.base)?),
        "open_or_create" => format!("{:?}", FilesystemHierarchy::open_or_create(&d.base)?),
        "get_version" => format!("{:?}", h.get_version()?),
        "list" => format!("{:?}", h.list()?),
        "read_chunk other" => format!("{:?}", <i32 as Elem>::rd(h, p, m, &[0])?),
        "read_chunk second" => format!("{:?}", <u8 as Elem>::rd(h, p, m, &[1])?),
        "read_ndarray all" => format!("{:?}", <u8 as Elem>::nd_rd(h, p, m, &bb(&[0], &[4]))?),
        "read_ndarray outside" => format!("{:?}", <u8 as Elem>::nd_rd(h, p, m, &bb(&[3], &[9]))?),
        o => return p_path::op(h, o, p, m, &[0]),
    })
}

fn faults(k: Kind) -> &'static [i32] {
    match k {
        Kind::Read => &[libc::EIO],
        Kind::Open | Kind::Stat | Kind::Opendir => &[libc::EIO, libc::EACCES, libc::ENOENT],
        _ => &[libc::EIO],
    }
}

pub fn c32(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (reading operation, path or key, state of the hierarchy), and per failure of each file-system call it makes: every file, directory, link, inode number and mode \
         is compared before and after, and no file-system call that changes anything may have succeeded",
    );
    let t = ctx.thorough;
    let node_paths = ["", "a", "g", "g/b", "i", "i/j/k", "nope", "nope/x", "a/x", "h", "x", "/g/b", "..", "../../..", "e", "a.array.json"];
    let keys = ["", "/", "zarr.json", "/meta/root/a.array.json", "meta/root/g.group.json", "meta/root", "data/root/a/c0", "data/root/a/c1", "data/root/g/b/c1", "data/root/a", "data/root/nope/c0", "nope", "nope/x/y", "zarr.json/x", "..", "../x", "meta/root/h", "meta/root/x.array.json", "a\0b"];
    let mut ops: Vec<(&str, &str)> = vec![];
    for o in p_path::NODE_OPS.iter().filter(|o| !p_path::mutates(o)).chain(&["read_chunk other", "read_chunk second", "read_ndarray all", "read_ndarray outside"]) {
        for p in node_paths {
            ops.push((o, p));
        }
    }
    for o in p_path::STORE_OPS.iter().filter(|o| !p_path::mutates(o)) {
        for k in keys {
            ops.push((o, k));
        }
    }
    for o in ["open", "open_or_create", "get_version", "list"] {
        ops.push((o, ""));
    }
    let mut items = vec![];
    for s in TREES {
        for o in &ops {
            items.push((s, *o));
        }
    }
    ctx.states.fetch_add(TREES.len() as u64, Relaxed);
    ctx.par(&items, |(s, (o, p))| {
        if *o == "open_or_create" && *s == "no base" {
            return;
        }
        let gz = *p == "a" || *p == "/a";
        let m = M::new(&[4], &[2], "u1").codec(&codec(if gz { "gzip" } else { "raw" })).build();
        // the handle is from before anything happened to the directory
        let d0 = Dir::new();
        d0.create();
        let run = |plan: Vec<(usize, Inject)>| -> Result<(World, bool), String> {
            let mut d = tree(s);
            let h = if *s == "no base" || *s == "a file as base" {
                let keep = d.base.clone();
                let was_file = keep.is_file();
                if was_file {
                    std::fs::remove_file(&keep).unwrap();
                }
                let h = d.create();
                std::fs::remove_dir_all(&keep).unwrap();
                if was_file {
                    std::fs::write(&keep, b"x").unwrap();
                }
                h
            } else {
                d.open()
            };
            let _ = &mut d;
            let before = full_snapshot(d.top());
            let w = World::new(plan);
            let r = w.run(|| guard(|| read32(&d, &h, o, p, &m)));
            let after = full_snapshot(d.top());
            if before != after {
                return Err(format!("the hierarchy changes: {} ({})", changed(&before, &after), w.trace()));
            }
            if let Some(c) = changes(&w) {
                return Err(format!("{} changes something ({})", c, w.trace()));
            }
            drop(h);
            // whether it fails, or how, is not the question here; but an operation that is to read has to do so
            Ok((w, matches!(r, Ok(Ok(_)))))
        };
        let mut kinds: Vec<Kind> = vec![];
        ctx.case(format!("{}({:?}) {}", o, p, s), || {
            let (w, ok) = run(vec![])?;
            kinds = w.log().iter().map(|r| r.call.kind).collect();
            ctx.outcome(format!("{} {}", o, if ok { "ok" } else { "fails" }));
            Ok(true)
        });
        if ctx.replaying() && kinds.is_empty() {
            if let Ok((w, _)) = run(vec![]) {
                kinds = w.log().iter().map(|r| r.call.kind).collect();
            }
        }
        let few = t || matches!(*s, "populated" | "empty" | "links" | "no base");
        for (i, k) in kinds.iter().enumerate() {
            if !few || i >= if t { 200 } else { 30 } {
                break;
            }
            let es = faults(*k);
            for e in &es[..if t { es.len() } else { es.len().min(1 + (*k == Kind::Open) as usize) }] {
                ctx.case(format!("{}({:?}) {} call {} {}", o, p, s, i, Inject::Errno(*e)), || {
                    run(vec![(i, Inject::Errno(*e))])?;
                    ctx.transitions.fetch_add(1, Relaxed);
                    Ok(true)
                });
            }
        }
        drop(d0);
    });
    // the generic operations over a map
    let mem = Mem::new();
    let m = M::new(&[4], &[2], "u1").build();
    mem.create_array("a", &m).unwrap();
    <u8 as Elem>::wr(&mem, "a", &m, &[0], &[1, 2]).unwrap();
    mem.create_group("g").unwrap();
    mem.put("meta/root/bad.array.json", b"{");
    mem.put("meta/root/bad.group.json", b"");
    let img = mem.snap();
    type RO = (&'static str, fn(&Mem, &str, &ArrayMetadata) -> bool);
    let ro: Vec<RO> = vec![
        ("exists", |h, p, _| HierarchyReader::exists(h, p).is_ok()),
        ("array_exists", |h, p, _| h.array_exists(p).is_ok()),
        ("get_array_metadata", |h, p, _| h.get_array_metadata(p).is_ok()),
        ("list_attributes", |h, p, _| h.list_attributes(p).is_ok()),
        ("list_nodes", |h, p, _| h.list_nodes(p).is_ok()),
        ("get_chunk_uri", |h, p, m| h.get_chunk_uri(p, m, &[0]).is_ok()),
        ("read_chunk", |h, p, m| <u8 as Elem>::rd(h, p, m, &[0]).is_ok()),
        ("read_chunk missing", |h, p, m| <u8 as Elem>::rd(h, p, m, &[1]).is_ok()),
        ("read_chunk other", |h, p, m| <f64 as Elem>::rd(h, p, m, &[0]).is_ok()),
        ("read_ndarray", |h, p, m| <u8 as Elem>::nd_rd(h, p, m, &bb(&[0], &[4])).is_ok()),
        ("get_version", |h, _, _| h.get_version().is_ok()),
        ("list", |h, _, _| h.list().is_ok()),
        ("list_prefix", |h, p, _| h.list_prefix(p).is_ok()),
    ];
    for (name, f) in &ro {
        for p in ["", "a", "g", "nope", "bad", "a/x", "/a"] {
            let mut n = 0;
            ctx.case(format!("mem {}({:?})", name, p), || {
                let w = World::new(vec![]);
                let r = w.run(|| guard(|| f(&mem, p, &m)));
                n = w.calls();
                r?;
                if mem.snap() != img || changes(&w).is_some() {
                    return Err(format!("the store changes: {}", w.trace()));
                }
                Ok(true)
            });
            for i in 0..n.min(40) {
                ctx.case(format!("mem {}({:?}) call {}", name, p, i), || {
                    let w = World::new(vec![(i, Inject::Errno(libc::EIO))]);
                    w.run(|| guard(|| f(&mem, p, &m)))?;
                    if mem.snap() != img || changes(&w).is_some() {
                        return Err(format!("the store changes: {}", w.trace()));
                    }
                    Ok(true)
                });
            }
        }
    }
    ("exploration", true)
}
