//! C03 key layout, C15 containment.
use crate::eng::*;
use crate::mem::{entry_point, Mem};
use crate::sys::confined;
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;
use std::io;
use zarr::prelude::*;
use zarr::storage::*;
use zarr::Hierarchy;

// ------------------------------------------------------------------- C03

fn chunk_key(p: &str, sep: &str, pos: &[u64]) -> String {
    let mut k = String::from("data/root/");
    if !p.is_empty() {
        k += p;
        k += "/";
    }
    k += "c";
    for (i, x) in pos.iter().enumerate() {
        if i > 0 {
            k += sep;
        }
        k += &format!("{}", x);
    }
    k
}
fn doc_key(p: &str, kind: &str, suffix: &str) -> String {
    if p.is_empty() {
        format!("meta/root.{}{}", kind, suffix)
    } else {
        format!("meta/root/{}.{}{}", p, kind, suffix)
    }
}

const NAMES: [&str; 40] = [
    "", "a", "b", "aa", "ab", "a/b", "a/b/c", "a/bc", "ab/c", "a.b", "a.b.c", "a.", ".a", "a..b", "...", "c", "c0", "c1", "a/c", "a/c0", "c/c", "0", "a/0", "data", "data/root", "meta/root",
    "a.array", "a.group", "a.array.json", "array", "zarr.json", "a b", " a", "a ", "é/ü.x", "e\u{301}", "a-b_c~", "A", "%2e%2e", "a\\b",
];
const SEPS: [&str; 8] = ["/", ".", "-", "_", "--", "é", " ", ":"];
const COORDS: [u64; 10] = [0, 1, 2, 9, 10, 11, 99, 100, u32::MAX as u64, u64::MAX];

fn tuples(vals: &[u64], rank: usize) -> Vec<Vec<u64>> {
    let mut v = vec![vec![]];
    for _ in 0..rank {
        v = v
            .into_iter()
            .flat_map(|t: Vec<u64>| vals.iter().map(move |x| { let mut t = t.clone(); t.push(*x); t }).collect::<Vec<_>>())
            .collect();
    }
    v
}
fn array_of(rank: usize, sep: &str) -> M {
    M::new(&vec![u64::MAX; rank], &vec![1; rank], "u1").sep(sep)
}

pub fn c03(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (node name, separator, rank, grid position) for the key functions and URIs, per (operation, name, suffix, position, store) \
         for the keys a store is asked for and the files on disk; the expected keys are built independently; all keys of all names, ranks and separators are checked for collisions",
    );
    ctx.assume("separators that are empty, contain digits or the letter c are excluded from the collision check; metadata suffixes without a leading dot are only required to be used consistently");
    let t = ctx.thorough;
    // the key function and the URI
    let mut items = vec![];
    for n in NAMES {
        for s in SEPS.iter().chain(&["", "c", "0", "//", "\n"]) {
            items.push((n, *s));
        }
    }
    ctx.par(&items, |(n, s)| {
        let d = Dir::new();
        let fs = d.create();
        let mem = Mem::new();
        let max = if t { 4 } else { 3 };
        for rank in 0..=8 {
            let vals: &[u64] = if rank <= max { &COORDS } else if rank <= 5 { &[0, 10, u64::MAX] } else { &[1, 10] };
            let m = array_of(rank, s).build();
            for pos in tuples(vals, rank) {
                ctx.case(format!("key {:?} sep={:?} {:?}", n, s, pos), || {
                    let want = chunk_key(n, s, &pos);
                    let got = get_chunk_key(n, &m, &pos);
                    if got.trim_start_matches('/') != want {
                        return Err(format!("the key is {:?}, not {:?}", got, want));
                    }
                    let u = mem.get_chunk_uri(n, &m, &pos).map_err(|e| e.to_string())?;
                    if u != format!("mem://{}/{}", mem.id, want) {
                        return Err(format!("the store is asked for the URI of {:?}, not {:?}", u, want));
                    }
                    if !s.contains('/') || *s == "/" {
                        let u = fs.get_chunk_uri(n, &m, &pos).map_err(|e| e.to_string())?;
                        let want = format!("file://{}/{}", d.base.display(), want);
                        if u != want {
                            return Err(format!("the URI is {:?}, not {:?}", u, want));
                        }
                    }
                    Ok(true)
                });
            }
        }
    });
    // the keys operations ask for, and the files
    let mut items = vec![];
    for n in NAMES {
        for suffix in [".json", ".v3.json", ".x", ".array.json"] {
            items.push((n, suffix));
        }
    }
    let positions: Vec<Vec<u64>> = vec![vec![], vec![0], vec![12], vec![u64::MAX - 1], vec![0, 0], vec![3, 10], vec![1, 2, 3], vec![10, 0, 7, 99]];
    ctx.par(&items, |(n, suffix)| {
        for pos in &positions {
            for sep in ["/", ".", "-"] {
                let m = array_of(pos.len(), sep);
                let meta = m.build();
                ctx.case(format!("mem ops {:?} suffix={:?} sep={:?} {:?}", n, suffix, sep, pos), || {
                    let h = Mem::with_suffix(suffix);
                    let ck = chunk_key(n, sep, pos);
                    let ak = doc_key(n, "array", suffix);
                    let gk = doc_key(n, "group", suffix);
                    let e = |e: io::Error| e.to_string();
                    let keys = |h: &Mem| {
                        let mut v: Vec<String> = h.take_keys().iter().map(|k| k.trim_start_matches('/').to_string()).collect();
                        v.sort();
                        v.dedup();
                        v
                    };
                    let expect = |what: &str, got: Vec<String>, must: &[&String], may: &[&String]| -> Result<(), String> {
                        for k in &got {
                            if !must.contains(&k) && !may.contains(&k) {
                                return Err(format!("{} uses the key {:?}, not one of {:?}", what, k, must));
                            }
                        }
                        for k in must {
                            if !got.contains(k) {
                                return Err(format!("{} does not use the key {:?} but {:?}", what, k, got));
                            }
                        }
                        Ok(())
                    };
                    keys(&h);
                    HierarchyReader::exists(&h, n).map_err(e)?;
                    expect("exists", keys(&h), &[&ak, &gk], &[])?;
                    h.create_array(n, &meta).map_err(e)?;
                    expect("create_array", keys(&h), &[&ak], &[&gk])?;
                    if h.snap().keys().collect::<Vec<_>>() != vec![&ak] {
                        return Err(format!("create_array stores {:?}", h.snap().keys()));
                    }
                    h.get_array_metadata(n).map_err(e)?;
                    expect("get_array_metadata", keys(&h), &[&ak], &[])?;
                    h.list_attributes(n).map_err(e)?;
                    expect("list_attributes", keys(&h), &[&ak], &[&gk])?;
                    h.set_attribute(n, "x".into(), 1).map_err(e)?;
                    expect("set_attribute", keys(&h), &[&ak], &[&gk])?;
                    <u8 as Elem>::rd(&h, n, &meta, pos).map_err(e)?;
                    expect("read_chunk", keys(&h), &[&ck], &[])?;
                    <u8 as Elem>::wr(&h, n, &meta, pos, &[7]).map_err(e)?;
                    expect("write_chunk", keys(&h), &[&ck], &[])?;
                    if h.bytes(&ck) != Some(vec![7]) {
                        return Err(format!("the chunk is not stored under {:?}", ck));
                    }
                    if <u8 as Elem>::rd(&h, n, &meta, pos).map_err(e)?.map(|c| c.1) != Some(vec![7]) {
                        return Err("the chunk is not read back".into());
                    }
                    keys(&h);
                    let mut b = vchunk::<u8>(&[], vec![]);
                    <u8 as Elem>::rd_into(&h, n, &meta, pos, &mut b).map_err(e)?;
                    expect("read_chunk_into", keys(&h), &[&ck], &[])?;
                    let bbox = crate::p_geom::bb(pos, &vec![1; pos.len()]);
                    <u8 as Elem>::nd_rd(&h, n, &meta, &bbox).map_err(e)?;
                    expect("read_ndarray", keys(&h), &[&ck], &[])?;
                    let a = ndarray::ArrayD::<u8>::from_elem(vec![1; pos.len()], 9);
                    <u8 as Elem>::nd_wr(&h, n, &meta, pos, a.view()).map_err(e)?;
                    expect("write_ndarray", keys(&h), &[&ck], &[])?;
                    if h.bytes(&ck) != Some(vec![9]) {
                        return Err(format!("the region is not stored under {:?}", ck));
                    }
                    h.delete_chunk(n, &meta, pos).map_err(e)?;
                    expect("delete_chunk", keys(&h), &[&ck], &[])?;
                    // a group of that name
                    let h = Mem::with_suffix(suffix);
                    h.create_group(n).map_err(e)?;
                    expect("create_group", keys(&h), &[&gk], &[&ak])?;
                    if h.snap().keys().collect::<Vec<_>>() != vec![&gk] {
                        return Err(format!("create_group stores {:?}", h.snap().keys()));
                    }
                    h.set_attribute(n, "x".into(), 1).map_err(e)?;
                    expect("set_attribute of a group", keys(&h), &[&gk], &[&ak])?;
                    h.remove(n).map_err(e)?;
                    for k in keys(&h) {
                        let k = k.trim_end_matches('/');
                        let tail = if n.is_empty() { String::new() } else { format!("/{}", n) };
                        if k != ak && k != gk && k != format!("meta/root{}", tail) && k != format!("data/root{}", tail) {
                            return Err(format!("remove uses the key {:?}", k));
                        }
                    }
                    Ok(true)
                });
                ctx.case(format!("fs ops {:?} suffix={:?} sep={:?} {:?}", n, suffix, sep, pos), || {
                    let d = Dir::new();
                    d.put("zarr.json", entry_point(suffix).to_string().as_bytes());
                    let h = d.open();
                    let e = |e: io::Error| e.to_string();
                    let ck = chunk_key(n, sep, pos);
                    let ak = doc_key(n, "array", suffix);
                    let gk = doc_key(n, "group", suffix);
                    let only = |what: &str, want: &[&String]| -> Result<(), String> {
                        let mut f: Vec<String> = files(&d.snap()).into_keys().filter(|k| k != "zarr.json").collect();
                        f.sort();
                        let mut w: Vec<String> = want.iter().map(|s| s.to_string()).collect();
                        w.sort();
                        if f != w {
                            return Err(format!("after {} the files are {:?}, not {:?}", what, f, w));
                        }
                        Ok(())
                    };
                    h.create_array(n, &meta).map_err(e)?;
                    only("create_array", &[&ak])?;
                    <u8 as Elem>::wr(&h, n, &meta, pos, &[7]).map_err(e)?;
                    only("write_chunk", &[&ak, &ck])?;
                    let uri = h.get_chunk_uri(n, &meta, pos).map_err(e)?;
                    if std::fs::read(uri.trim_start_matches("file://")).ok() != Some(vec![7]) {
                        return Err(format!("{} is not the chunk", uri));
                    }
                    h.delete_chunk(n, &meta, pos).map_err(e)?;
                    only("delete_chunk", &[&ak])?;
                    h.remove(n).map_err(e)?;
                    only("remove", &[])?;
                    h.create_group(n).map_err(e)?;
                    only("create_group", &[&gk])?;
                    // what others wrote at these places is found
                    let d2 = Dir::new();
                    d2.put("zarr.json", entry_point(suffix).to_string().as_bytes());
                    d2.put(&ak, m.json().to_string().as_bytes());
                    d2.put(&ck, &[4]);
                    let h = d2.open();
                    if !h.array_exists(n).map_err(e)? {
                        return Err(format!("the array at {:?} is not found", ak));
                    }
                    if <u8 as Elem>::rd(&h, n, &meta, pos).map_err(e)?.map(|c| c.1) != Some(vec![4]) {
                        return Err(format!("the chunk at {:?} is not found", ck));
                    }
                    Ok(true)
                });
            }
        }
    });
    // suffixes without a dot: whatever the documents are called, they are found again and are different
    for suffix in ["json", "", "x"] {
        ctx.case(format!("suffix {:?}", suffix), || {
            let h = Mem::with_suffix(suffix);
            let m = array_of(1, "/").build();
            let e = |e: io::Error| e.to_string();
            for n in NAMES {
                h.create_array(n, &m).map_err(e)?;
            }
            if h.snap().len() != NAMES.len() {
                return Err("documents share keys".into());
            }
            for n in NAMES {
                if !h.array_exists(n).map_err(e)? {
                    return Err(format!("array {:?} is not found", n));
                }
                if h.create_group(n).is_ok() {
                    return Err(format!("a group is created where array {:?} is", n));
                }
            }
            Ok(true)
        });
    }
    // collisions
    let m: Vec<(usize, &str, ArrayMetadata)> = (0..=3).flat_map(|r| SEPS.iter().map(move |s| (r, *s, array_of(r, s).build()))).collect();
    ctx.case("collisions", || {
        let mut seen: HashMap<String, (&str, usize, &str, Vec<u64>)> = HashMap::new();
        let mut n_keys = 0u64;
        let vals: &[u64] = if t { &COORDS } else { &[0, 1, 2, 10, 11, 100] };
        for n in NAMES {
            for (r, s, meta) in &m {
                for pos in tuples(vals, *r) {
                    let k = get_chunk_key(n, meta, &pos);
                    n_keys += 1;
                    if let Some((n2, r2, s2, pos2)) = seen.get(&k) {
                        if *n2 != n || (r2 == r && s2 == s && *pos2 != pos) {
                            return Err(format!("{:?}{:?} sep {:?} and {:?}{:?} sep {:?} share the key {:?}", n, pos, s, n2, pos2, s2, k));
                        }
                    } else {
                        seen.insert(k, (n, *r, *s, pos));
                    }
                }
            }
        }
        let h = Mem::new();
        let mut docs: HashMap<std::path::PathBuf, (&str, &str)> = HashMap::new();
        for n in NAMES {
            for (kind, k) in [("array", h.array_metadata_key(n)), ("group", h.group_metadata_key(n))] {
                if seen.contains_key(k.to_str().unwrap()) {
                    return Err(format!("the document {:?} is also a chunk", k));
                }
                if let Some(o) = docs.insert(k.clone(), (n, kind)) {
                    return Err(format!("{:?} is the document of {:?} and of {:?}", k, o, (n, kind)));
                }
            }
        }
        ctx.add_note("keys_compared", n_keys);
        Ok(true)
    });
    ("exploration", true)
}

// ------------------------------------------------------------------- C15

const SENTINELS: [&str; 14] = [
    "outside", "zarr.json", "meta/root.group.json", "meta/root/a.array.json", "meta/root.array.json", "data/root/a/c0", "data/root/c0", "c0", "root/a/c0", "a/c0", "a", "h2/x", "h.array.json", "x/y",
];

fn outer(d: &Dir) -> Snap {
    let mut s = snapshot(d.top());
    s.retain(|k, _| k != &base_name(d) && !k.starts_with(&format!("{}/", base_name(d))));
    s
}
fn base_name(d: &Dir) -> String {
    d.base.file_name().unwrap().to_string_lossy().into_owned()
}

fn setup(name: &str, full: bool, ep: &[u8]) -> Dir {
    let mut d = Dir::new();
    d.base = d.top().join(name);
    for s in SENTINELS {
        // "a" and "a/c0" can not both be files
        if s == "a/c0" || s == name || s.starts_with(&format!("{}/", name)) {
            continue;
        }
        let p = d.top().join(s);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b"{\"s3nt\": 1}").unwrap();
    }
    d.put("zarr.json", ep);
    if full {
        d.put("meta/root/a.array.json", M::new(&[4], &[2], "u1").json().to_string().as_bytes());
        d.put("meta/root/g.group.json", b"{\"extensions\":[],\"attributes\":{}}");
        d.put("data/root/a/c0", &[1, 2]);
    }
    d
}

pub const NODE_OPS: [&str; 18] = [
    "exists", "array_exists", "get_array_metadata", "list_attributes", "list_nodes", "get_chunk_uri", "read_chunk", "read_ndarray", "set_attribute", "create_group", "create_array", "remove", "write_chunk", "delete_chunk",
    "write_ndarray", "read_chunk_into", "set_attributes", "read_ndarray_into",
];
pub const STORE_OPS: [&str; 9] = ["s:exists", "s:get", "s:uri", "s:list_dir", "s:list_prefix", "s:get_attributes", "s:set", "s:erase", "s:erase_prefix"];

pub fn op(h: &FilesystemHierarchy, op: &str, p: &str, m: &ArrayMetadata, pos: &[u64]) -> io::Result<String> {
    use std::io::{Read, Write};
    let bbox = crate::p_geom::bb(pos, &vec![1; pos.len()]);
    Ok(match op {
        "exists" => HierarchyReader::exists(h, p)?.to_string(),
        "array_exists" => h.array_exists(p)?.to_string(),
        "get_array_metadata" => format!("{:?}", h.get_array_metadata(p)?),
        "list_attributes" => format!("{:?}", h.list_attributes(p)?),
        "list_nodes" => format!("{:?}", h.list_nodes(p)?),
        "get_chunk_uri" => h.get_chunk_uri(p, m, pos)?,
        "read_chunk" => format!("{:?}", <u8 as Elem>::rd(h, p, m, pos)?),
        "read_chunk_into" => {
            let mut b = vchunk::<u8>(&[], vec![]);
            format!("{:?}", <u8 as Elem>::rd_into(h, p, m, pos, &mut b)?)
        }
        "read_ndarray" => format!("{:?}", <u8 as Elem>::nd_rd(h, p, m, &bbox)?),
        "read_ndarray_into" => {
            let mut a = ndarray::ArrayD::<u8>::from_elem(vec![1; pos.len()], 9);
            format!("{:?}", <u8 as Elem>::nd_rd_into(h, p, m, &bbox, a.view_mut())?)
        }
        "set_attribute" => format!("{:?}", h.set_attribute(p, "k".into(), 1)?),
        "set_attributes" => format!("{:?}", h.set_attributes(p, json!({"k": 1}).as_object().unwrap().clone())?),
        "create_group" => format!("{:?}", h.create_group(p)?),
        "create_array" => format!("{:?}", h.create_array(p, m)?),
        "remove" => format!("{:?}", h.remove(p)?),
        "write_chunk" => format!("{:?}", <u8 as Elem>::wr(h, p, m, pos, &vec![1; m.get_chunk_num_elements()])?),
        "delete_chunk" => h.delete_chunk(p, m, pos)?.to_string(),
        "write_ndarray" => {
            let a = ndarray::ArrayD::<u8>::from_elem(vec![1; pos.len()], 9);
            format!("{:?}", <u8 as Elem>::nd_wr(h, p, m, pos, a.view())?)
        }
        "s:exists" => ReadableStore::exists(h, p)?.to_string(),
        "s:get" => {
            let mut v = vec![];
            match h.get(p)? {
                Some(mut r) => {
                    r.read_to_end(&mut v)?;
                    format!("{:?}", v)
                }
                None => "None".into(),
            }
        }
        "s:uri" => h.uri(p)?,
        "s:list_dir" => format!("{:?}", h.list_dir(p)?),
        "s:list_prefix" => format!("{:?}", h.list_prefix(p)?),
        "s:get_attributes" => format!("{:?}", h.get_attributes(p)?),
        "s:set" => format!("{:?}", h.set(p, |mut w| { w.write_all(b"new")?; w.flush() })?),
        "s:erase" => h.erase(p)?.to_string(),
        "s:erase_prefix" => h.erase_prefix(p)?.to_string(),
        _ => unreachable!(),
    })
}

pub fn mutates(o: &str) -> bool {
    matches!(o, "set_attribute" | "set_attributes" | "create_group" | "create_array" | "remove" | "write_chunk" | "delete_chunk" | "write_ndarray" | "s:set" | "s:erase" | "s:erase_prefix")
}

fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

fn one(d: &Dir, h: &FilesystemHierarchy, o: &str, p: &str, m: &ArrayMetadata, pos: &[u64], before: &Snap) -> CaseResult {
    let root = norm(&d.base.display().to_string());
    let (r, tried) = confined(&root, || guard(|| op(h, o, p, m, pos)));
    let r = r?;
    if let Some(t) = tried.first() {
        return Err(format!("reaches outside: {}", t.replace(&d.top().display().to_string(), "TOP")));
    }
    if outer(d) != *before {
        return Err(format!("changes the outside: {}", snap_diff(before, &outer(d))));
    }
    if let Ok(s) = &r {
        if o.ends_with("uri") {
            let path = s.strip_prefix("file://").ok_or(format!("{:?} is no file URI", s))?;
            let n = norm(path);
            if n != root && !n.starts_with(&format!("{}/", root)) {
                return Err(format!("the URI {} is outside", s));
            }
        }
        if s.contains("s3nt") || s.contains("115, 51, 110, 116") {
            return Err(format!("returns what is outside: {}", s));
        }
    }
    Ok(r.is_ok() || p.contains(".."))
}

pub fn c15(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (path or key, operation, state of the hierarchy, base directory); every file-system call of the operation is checked \
         against the base directory, calls that would leave it are refused and reported, sentinel files around the base are compared before and after, URIs are resolved",
    );
    ctx.assume("what becomes of symbolic links when they are removed is left open; looking at the existence of the directories above the base is allowed");
    let t = ctx.thorough;
    let comps = ["a", "..", ".", ""];
    let mut paths: Vec<String> = vec![];
    for n in 0..=6usize {
        // long paths of the two components that matter
        let k = if n > if t { 5 } else { 4 } { 2 } else { 4 };
        for i in 0..(k as usize).pow(n as u32) {
            let mut i = i;
            let mut v = vec![];
            for _ in 0..n {
                v.push(comps[i % k]);
                i /= k;
            }
            paths.push(v.join("/"));
        }
    }
    paths.sort();
    paths.dedup();
    let n_enum = paths.len();
    for p in [
        "../outside", "../h2/x", "../../h2/x", "../../../h2/x", "../../../../h2/x", "a/../../outside", "a/../../../outside", "..a", "a..", "../a", "..\\..\\outside", "%2e%2e/outside", "%2e%2e%2foutside", "~", "~/x", "$HOME", "/etc/passwd",
        "//etc/passwd", "/..", "/../..", "/../../..", "/../outside", "a/b/../../../../outside", "a\0b", "\0", "../\0", "...", ".../...", ". .", " ..", ".. ", "..\n", "\u{ff0e}\u{ff0e}/outside", "file:///etc/passwd", "C:\\x", "../h", "../h/a", "../../h/../h",
        "../x", "../x/y", "../../x/y", "../../../x/y", "g/../../../../x/y", "../../../../../../../../../../../../../../../../outside",
    ] {
        paths.push(p.into());
    }
    paths.push("../".repeat(40) + "etc/passwd");
    paths.push("x/".repeat(2000) + &"../".repeat(2001));
    paths.push("n".repeat(300));
    ctx.note("paths", paths.len() as u64);
    let good = entry_point(".json").to_string().into_bytes();
    let m1 = M::new(&[4], &[2], "u1").build();
    let idx: Vec<usize> = (0..paths.len()).collect();
    for (name, full) in [("h", true), ("h", false), ("h.zarr.x", true)] {
        ctx.par(&idx, |i| {
            let p = &paths[*i];
            // the larger part for the plain base only
            if name != "h" && *i < n_enum && p.matches('/').count() > 3 {
                return;
            }
            if !full && !t && p.matches('/').count() > 3 {
                return;
            }
            if ctx.stopped() {
                return;
            }
            let shared = setup(name, full, &good);
            if name != "h" {
                std::fs::write(shared.top().join("h"), b"x").unwrap();
                std::fs::write(shared.top().join("h.zarr"), b"x").unwrap();
            }
            let h = shared.open();
            let before = outer(&shared);
            let start = snapshot(shared.top());
            let own: std::cell::RefCell<Option<Dir>> = Default::default();
            for o in NODE_OPS.iter().chain(&STORE_OPS) {
                ctx.case(format!("base={} full={} {}({:?})", name, full, o, p), || {
                    if mutates(o) {
                        let mut own = own.borrow_mut();
                        let d = own.take().unwrap_or_else(|| setup(name, full, &good));
                        let h = d.open();
                        let before = outer(&d);
                        let r = one(&d, &h, o, p, &m1, &[0], &before);
                        // directories that did not change are used again
                        if name == "h" && snapshot(d.top()) == start {
                            *own = Some(d);
                        }
                        r
                    } else {
                        one(&shared, &h, o, p, &m1, &[0], &before)
                    }
                });
            }
        });
    }
    // separators and suffixes are part of keys
    let parts = ["/../", "/../../", "/../../../", "/../../../../", "/../../../../../", "/..", "../", "..", "/", "//", "/./", "/a/../../../../", "/../../../../h2/x/", "\0", "/../../../../outside/../"];
    let mut items = vec![];
    for sep in parts {
        for pos in [vec![0u64, 1], vec![0, 0, 0], vec![0, 0, 0, 0, 0]] {
            for node in ["", "a", "a/b"] {
                items.push((sep, pos.clone(), node));
            }
        }
    }
    ctx.par(&items, |(sep, pos, node)| {
        let m = M::new(&vec![4; pos.len()], &vec![2; pos.len()], "u1").sep(sep).build();
        for o in NODE_OPS {
            ctx.case(format!("separator={:?} {:?} {}({:?})", sep, pos, o, node), || {
                let d = setup("h", true, &good);
                let h = d.open();
                let before = outer(&d);
                one(&d, &h, o, node, &m, pos, &before)
            });
        }
    });
    let suffixes = ["/../../../outside", "/../../../../outside", "/..", "..", "/", "./../../../../x/y", "\0", "json/../../../../../h2/x", ".json", "", "."];
    let mut items = vec![];
    for s in suffixes {
        for node in ["", "a", "a/b", "..", "../.."] {
            items.push((s, node));
        }
    }
    ctx.par(&items, |(suffix, node)| {
        for o in NODE_OPS {
            ctx.case(format!("suffix={:?} {}({:?})", suffix, o, node), || {
                let d = setup("h", false, entry_point(suffix).to_string().as_bytes());
                let h = match FilesystemHierarchy::open(&d.base) {
                    Ok(h) => h,
                    // refusing such a hierarchy is fine
                    Err(_) => return Ok(false),
                };
                let before = outer(&d);
                one(&d, &h, o, node, &m1, &[0], &before)
            });
        }
    });
    // ways of naming the base
    for base in ["h/", "x/../h", "./h", "h/.", "h//", "h/../h"] {
        for p in ["", "a", "..", "../h2/x", "a/../../outside", "../../x/y", "/"] {
            for o in NODE_OPS.iter().chain(&STORE_OPS) {
                ctx.case(format!("base={:?} {}({:?})", base, o, p), || {
                    let d = setup("h", true, &good);
                    std::fs::create_dir_all(d.top().join("x")).unwrap();
                    let before = outer(&d);
                    let h = FilesystemHierarchy::open(d.top().join(base)).map_err(|e| e.to_string())?;
                    one(&d, &h, o, p, &m1, &[0], &before)
                });
            }
        }
    }
    // two operations in a row, the first of which may remove the base itself
    let few: Vec<&str> = vec!["", "a", "..", "../..", "../../..", "a/..", "../h2/x", "/../outside"];
    let firsts = ["s:erase_prefix", "remove", "s:set", "create_group", "write_chunk"];
    let mut items = vec![];
    for o1 in firsts {
        for p1 in &few {
            items.push((o1, *p1));
        }
    }
    ctx.par(&items, |(o1, p1)| {
        for o2 in NODE_OPS.iter().chain(&STORE_OPS) {
            for p2 in &few {
                ctx.case(format!("{}({:?}) then {}({:?})", o1, p1, o2, p2), || {
                    let d = setup("h", true, &good);
                    let h = d.open();
                    let before = outer(&d);
                    one(&d, &h, o1, p1, &m1, &[0], &before)?;
                    one(&d, &h, o2, p2, &m1, &[0], &before)
                });
            }
        }
    });
    links(ctx);
    ("exploration", true)
}

/// Symbolic links inside the hierarchy, put there by its owner, are followed:
/// every operation gives what it gives where the linked file or directory is
/// in its place.
fn links(ctx: &Ctx) {
    const PLACES: [&str; 14] = [
        ".", "zarr.json", "meta", "data", "meta/root", "data/root", "meta/root/g", "meta/root/g.group.json", "meta/root/g/a.array.json", "data/root/g", "data/root/g/a", "data/root/g/a/c0", "meta/root/b.array.json", "data/root/b",
    ];
    let m = M::new(&[4], &[2], "u1").build();
    let make = |places: &[&str], inside: bool| -> Dir {
        let d = Dir::new();
        d.put("zarr.json", entry_point(".json").to_string().as_bytes());
        d.put("meta/root/g.group.json", b"{\"extensions\":[],\"attributes\":{\"x\":1}}");
        d.put("meta/root/e.group.json", b"{\"extensions\":[],\"attributes\":{}}");
        for n in ["g/a", "b"] {
            d.put(&format!("meta/root/{}.array.json", n), M::new(&[4], &[2], "u1").json().to_string().as_bytes());
            d.put(&format!("data/root/{}/c0", n), &[1, 2]);
        }
        // the longest first, so that a linked directory holds links
        let mut ps = places.to_vec();
        ps.sort_by_key(|p| std::cmp::Reverse(p.len()));
        for (i, p) in ps.iter().enumerate() {
            let at = if *p == "." { d.base.clone() } else { d.file(p) };
            let to = if inside && *p != "." { d.base.join("elsewhere") } else { d.top().join("ext") };
            std::fs::create_dir_all(&to).unwrap();
            let to = to.join(i.to_string());
            std::fs::rename(&at, &to).unwrap();
            std::os::unix::fs::symlink(&to, &at).unwrap();
        }
        d
    };
    fn view(p: &std::path::Path, rel: &str, out: &mut std::collections::BTreeMap<String, Option<Vec<u8>>>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                let n = format!("{}/{}", rel, e.file_name().to_string_lossy());
                if n == "/elsewhere" {
                    continue;
                }
                match std::fs::metadata(e.path()) {
                    Ok(md) if md.is_dir() => {
                        out.insert(n.clone(), None);
                        view(&e.path(), &n, out);
                    }
                    _ => {
                        out.insert(n, std::fs::read(e.path()).ok());
                    }
                }
            }
        }
    }
    let run = |d: &Dir, o: &str, p: &str, pos: u64| -> Result<(Result<String, String>, String), String> {
        let h = FilesystemHierarchy::open(&d.base).map_err(|e| format!("open: {}", e))?;
        let r = guard(|| op(&h, o, p, &m, &[pos]))?;
        let r = r.map_err(|e| format!("{:?}", e.kind())).map(|s| {
            let mut s = s.replace(&d.top().display().to_string(), "TOP");
            if o.starts_with("s:list") {
                // in any order
                let mut v: Vec<&str> = s.split(|c| "[](), \"".contains(c)).collect();
                v.retain(|x| !x.is_empty() && !x.starts_with("elsewhere"));
                v.sort();
                s = v.join(" ");
            }
            s
        });
        let mut v = Default::default();
        view(&d.base, "", &mut v);
        Ok((r, format!("{:?}", v)))
    };
    let mut items: Vec<(Vec<&str>, bool)> = vec![];
    for i in 0..PLACES.len() {
        for inside in [false, true] {
            items.push((vec![PLACES[i]], inside));
            for j in i + 1..PLACES.len() {
                // quick: only neighbours, among them links below links
                if ctx.thorough || j == i + 1 && !inside {
                    items.push((vec![PLACES[i], PLACES[j]], inside));
                }
            }
        }
    }
    let nodes = ["", "g", "g/a", "b", "e", "g/new", "new", "g/a/below"];
    let keys = ["", "zarr.json", "meta", "data", "meta/root", "data/root", "meta/root/g", "meta/root/g.group.json", "meta/root/g/a.array.json", "data/root/g", "data/root/g/a", "data/root/g/a/c0", "data/root/g/a/c1", "data/root/b", "data/root/g/new", "new"];
    let ops: Vec<(&str, &str, u64)> = NODE_OPS
        .iter()
        .flat_map(|o| nodes.iter().flat_map(move |n| [0, 1, 3].into_iter().map(move |p| (*o, *n, p))))
        // the position only matters to these
        .filter(|(o, _, p)| *p == 0 || o.contains("chunk") || o.contains("ndarray"))
        .chain(STORE_OPS.iter().flat_map(|o| keys.iter().map(move |k| (*o, *k, 0))))
        .collect();
    let plain: Vec<_> = ops.iter().map(|(o, p, pos)| run(&make(&[], false), o, p, *pos)).collect();
    ctx.par(&items, |(places, inside)| {
        for ((o, p, pos), want) in ops.iter().zip(&plain) {
            // what becomes of links themselves is left open
            let removal = matches!(*o, "remove" | "s:erase" | "s:erase_prefix" | "delete_chunk");
            if removal && (places[..] != ["."] || p.is_empty()) {
                continue;
            }
            // a link to a directory in the hierarchy is one more place to list from the top
            if *inside && *o == "s:list_prefix" && p.is_empty() {
                continue;
            }
            ctx.case(format!("links at {:?} inside={} {}({:?})@{}", places, inside, o, p, pos), || {
                let d = make(places, *inside);
                let got = run(&d, o, p, *pos);
                match (&got, want) {
                    (Ok(g), Ok(w)) => {
                        if g.0 != w.0 {
                            return Err(format!("gives {:?}, without links {:?}", g.0, w.0));
                        }
                        if g.1 != w.1 {
                            return Err(format!("leaves {}, without links {}", g.1, w.1));
                        }
                    }
                    (g, w) => {
                        if g != w {
                            return Err(format!("{:?}, without links {:?}", g, w));
                        }
                    }
                }
                Ok(want.as_ref().map_or(false, |w| w.0.is_ok()))
            });
        }
    });
}
