//! C21 split transfers, C23 damaged chunks, C30 element types, C31 reused
//! buffers.
use crate::eng::*;
use crate::hist::*;
use crate::mem::Mem;
use crate::p_data::all_dtypes;
use crate::p_geom::bb;
use crate::sys::{Inject, Kind, Rec, World};
use crate::util::*;
use crate::with_elem;
use serde_json::{json, Value};
use std::io::{self, Read, Write};
use std::sync::atomic::Ordering::Relaxed;
use zarr::prelude::*;
use zarr::Hierarchy;
use zarr::storage::*;

// --------------------------------------------------------------------- C21

/// An operation whose result can be compared.
struct Act21<B: Back> {
    name: String,
    img: Image,
    f: Box<dyn Fn(&B::H) -> io::Result<String> + Send + Sync>,
    /// Every pair of injections, not just single ones.
    pairs: bool,
}

fn acts21<B: Back>(t: bool) -> Vec<Act21<B>> {
    let mut v: Vec<Act21<B>> = vec![];
    let mut kinds: Vec<(&'static str, String, &'static str, usize)> = vec![];
    for (e, dt) in all_dtypes() {
        kinds.push((e, dt.clone(), "raw", 6));
        kinds.push((e, dt.clone(), "raw", 300));
        for c in &CODECS[1..] {
            if t || matches!(dt.as_str(), "u1" | ">i2" | "<f2" | "bool" | "<f8") {
                kinds.push((e, dt.clone(), c, 5));
                kinds.push((e, dt.clone(), c, 700));
            }
        }
    }
    for c in CODECS {
        kinds.push(("u1", "u1".into(), c, 20_000));
        kinds.push(("u4", ">u4".into(), c, 5_000));
        if t {
            kinds.push(("i8", "<i8".into(), c, 40_000));
        }
    }
    for (e, dt, c, n) in kinds {
        let m = M::new(&[n as u64 * 2], &[n as u32], &dt).codec(&codec(c)).fill(match e { "bool" => json!(false), "f2" | "f4" | "f8" => json!(0.5), _ => json!(1) });
        let img = B::run(&B::empty(), |h| {
            h.create_array("a", &m.build()).unwrap();
            with_elem!(e, T => T::wr(h, "a", &m.build(), &[0], &content::<T>("mix", n)).unwrap());
        })
        .1;
        let pairs = t && n <= 1000 || n <= 6;
        let mut add = |name: &str, f: Box<dyn Fn(&B::H) -> io::Result<String> + Send + Sync>| {
            v.push(Act21 { name: format!("{} {} {}x{}", name, dt, n, c), img: img.clone(), f, pairs });
        };
        let m1 = m.clone();
        add("write_chunk", Box::new(move |h| with_elem!(e, T => T::wr(h, "a", &m1.build(), &[0], &content::<T>("count", n)).map(|_| String::new()))));
        let m1 = m.clone();
        add("read_chunk", Box::new(move |h| with_elem!(e, T => T::rd(h, "a", &m1.build(), &[0]).map(|r| format!("{:?}", r.map(|r| (r.0, bits_of(&r.1))))))));
        let m1 = m.clone();
        add(
            "read_chunk_into",
            Box::new(move |h| {
                with_elem!(e, T => {
                    let mut b = vchunk::<T>(&[9, 9], vec![T::fb(!0); 3]);
                    let r = T::rd_into(h, "a", &m1.build(), &[0], &mut b)?;
                    let (p, d) = chunk_parts(&b);
                    Ok(format!("{:?} {:?} {:?}", r, p, bits_of(&d)))
                })
            }),
        );
        if n <= 6 || t {
            let m1 = m.clone();
            add(
                "write_ndarray",
                Box::new(move |h| {
                    with_elem!(e, T => {
                        let a = ndarray::ArrayD::from_shape_vec(vec![n], content::<T>("count", n)).unwrap();
                        T::nd_wr(h, "a", &m1.build(), &[n as u64 / 2], a.view()).map(|_| String::new())
                    })
                }),
            );
            let m1 = m.clone();
            add(
                "read_ndarray",
                Box::new(move |h| {
                    with_elem!(e, T => {
                        let a = T::nd_rd(h, "a", &m1.build(), &bb(&[1], &[2 * n as u64 - 1]))?;
                        Ok(format!("{:?}", bits_of(&a.iter().copied().collect::<Vec<_>>())))
                    })
                }),
            );
        }
    }
    // documents and keys
    let m = M::new(&[4, 4], &[2, 2], ">i4").codec(&codec("gzip"));
    let img = B::run(&B::empty(), |h| {
        let mut m = m.clone();
        m.attrs = json!({"x": [1, 2.5, "é\n"], "y": {"z": null}});
        h.create_array("a", &m.build()).unwrap();
        h.create_group("g").unwrap();
        h.set_attribute("g", "x".into(), json!({"q": "text"})).unwrap();
        h.set("k/x", |mut w| { w.write_all(b"0123456789")?; w.flush() }).unwrap();
        h.set("k/long", |mut w| { w.write_all(&content::<u8>("mix", 20_000))?; w.flush() }).unwrap();
    })
    .1;
    let mut add = |name: &str, pairs: bool, f: Box<dyn Fn(&B::H) -> io::Result<String> + Send + Sync>| {
        v.push(Act21 { name: name.into(), img: img.clone(), f, pairs });
    };
    let fs = B::NAME == "fs";
    let m1 = m.build();
    add("create_array", fs || t, Box::new(move |h| h.create_array("n/o", &m1).map(|_| String::new())));
    add("create_group", true, Box::new(|h| h.create_group("n").map(|_| String::new())));
    add("get_array_metadata", fs || t, Box::new(|h| h.get_array_metadata("a").map(|m| format!("{:?}", m))));
    add("list_attributes", fs || t, Box::new(|h| h.list_attributes("a").map(|m| format!("{:?}", m))));
    add("list_attributes of a group", fs || t, Box::new(|h| h.list_attributes("g").map(|m| format!("{:?}", m))));
    add("set_attribute", fs || t, Box::new(|h| h.set_attribute("a", "new".into(), json!([{}, "v"])).map(|_| String::new())));
    add("set_attribute of a group", fs || t, Box::new(|h| h.set_attribute("g", "x".into(), 1).map(|_| String::new())));
    add("large set_attribute", false, Box::new(|h| h.set_attribute("a", "new".into(), vec![12345; 3000]).map(|_| String::new())));
    for key in ["k/x", "k/long"] {
        add(&format!("get {}", key), key == "k/x" || fs, Box::new(move |h| {
            let mut b = vec![];
            h.get(key)?.unwrap().read_to_end(&mut b)?;
            Ok(format!("{:?}", b))
        }));
        add(&format!("set {}", key), key == "k/x" || fs, Box::new(move |h| {
            h.set(key, |mut w| {
                for p in content::<u8>("runs", 19_000).chunks(if key == "k/x" { 5000 } else { 1500 }) {
                    w.write_all(p)?;
                }
                w.flush()
            })
            .map(|_| String::new())
        }));
    }
    if fs {
        add("open", true, Box::new(|h| {
            let h = B::again(h);
            Ok(format!("{:?} {:?}", h.get_entry_point_metadata(), h.get_version()?))
        }));
        add("open_or_create", true, Box::new(|h| {
            let u = h.uri("")?;
            let p = format!("{}-new", u.trim_start_matches("file://").trim_end_matches('/'));
            let n = zarr::store::filesystem::FilesystemHierarchy::open_or_create(&p)?;
            let r = format!("{:?}", std::fs::read_to_string(std::path::Path::new(&p).join("zarr.json"))?);
            drop(n);
            Ok(r)
        }));
    }
    v
}

/// The ways in which one transfer can be disturbed without failing.
fn splits(r: &Rec) -> Vec<Inject> {
    if !matches!(r.call.kind, Kind::Read | Kind::Write) || r.injected.is_some() {
        return vec![];
    }
    let mut v = vec![Inject::Errno(libc::EINTR)];
    for k in [1, 2, 3, r.call.len / 2, r.call.len.saturating_sub(1)] {
        // (a read that was going to be shorter anyway is not changed)
        let n = if r.call.kind == Kind::Read { (r.ret.max(0) as usize).min(r.call.len) } else { r.call.len };
        if k > 0 && k < n && !v.contains(&Inject::Short(k)) {
            v.push(Inject::Short(k));
        }
    }
    v
}

fn split21<B: Back>(ctx: &Ctx, a: &Act21<B>) {
    let run = |w: World| -> (Result<String, String>, Image, World) {
        let (r, img) = B::run(&a.img, |h| w.run(|| guard(|| (a.f)(h))));
        ctx.transitions.fetch_add(w.calls() as u64, Relaxed);
        ctx.traces.fetch_add(1, Relaxed);
        (r.and_then(|r| r.map_err(|e| e.to_string())), img, w)
    };
    let (want, after, w0) = run(World::new(vec![]));
    let base = format!("{} {}", B::NAME, a.name);
    if let Err(e) = &want {
        return ctx.case(format!("{} undisturbed", base), || Err(format!("fails: {}", e)));
    }
    ctx.states.fetch_add(1, Relaxed);
    let judge = |r: &Result<String, String>, img: &Image, w: &World| -> CaseResult {
        let what = match (r, &want) {
            (Err(e), _) => Some(format!("fails: {}", e)),
            (Ok(x), Ok(y)) if x != y => Some(format!("gives {} instead of {}", trunc(x, 200), trunc(y, 200))),
            _ if files(img) != files(&after) => Some(format!("stores something else: {}", snap_diff(&after, img))),
            _ => None,
        };
        match what {
            Some(e) => Err(format!("{} [{}]", e, trunc(&w.trace(), 1500))),
            None => Ok(true),
        }
    };
    for (stutter, k) in [(0usize, 1usize), (0, 2), (0, 3), (0, 4), (0, 5), (0, 7), (0, 8), (0, 9), (0, 13), (0, 64), (0, 100), (0, 255), (0, 256), (0, 257), (0, 1000), (0, 4095), (1, 1), (1, 3), (2, 7), (1, 100), (1, 1 << 30), (2, 1 << 30)] {
        ctx.case(format!("{} transfers of {} bytes, each interrupted {} times", base, k, stutter), || {
            let (r, img, w) = run(World::stutter(stutter, k));
            judge(&r, &img, &w)
        });
    }
    let log = w0.log();
    for (i, rec) in log.iter().enumerate() {
        if ctx.stopped() {
            return;
        }
        if !ctx.thorough && log.len() > 400 && i > 100 && i + 100 < log.len() && i % (log.len() / 100) != 0 {
            // long runs of like transfers
            ctx.add_note("transfers_left_out_of_long_runs", 1);
            continue;
        }
        for x in splits(rec) {
            let desc = format!("{} {}@{}", base, x, i);
            let mut log1 = vec![];
            ctx.case(desc.clone(), || {
                let (r, img, w) = run(World::new(vec![(i, x)]));
                let v = judge(&r, &img, &w);
                log1 = w.log();
                v
            });
            if !a.pairs && log.len() > if ctx.thorough { 300 } else { 60 } {
                continue;
            }
            if log1.is_empty() {
                // (only a pair is to be run again)
                log1 = run(World::new(vec![(i, x)])).2.log();
            }
            for (j, rec2) in log1.iter().enumerate().skip(i + 1) {
                for y in splits(rec2) {
                    ctx.case(format!("{} {}@{}", desc, y, j), || {
                        let (r, img, w) = run(World::new(vec![(i, x), (j, y)]));
                        judge(&r, &img, &w)
                    });
                }
            }
        }
    }
}

pub fn c21(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per (operation, store, way of splitting): chunk writes and reads with every element type and codec, regions, documents, keys and opening, on the file system and on an unbuffered store; all transfers cut to a number of bytes and interrupted, every single transfer cut short or interrupted, and every pair for the smaller operations; chunks and codecs on the caller's own readers and writers; results and stored bytes against those of whole transfers");
    ctx.assume("a transfer moves at least one byte or is interrupted; failures are C19 and C20");
    let mem = acts21::<MemB>(ctx.thorough);
    let fs = acts21::<FsB>(ctx.thorough);
    ctx.par(&mem, |a| split21(ctx, a));
    ctx.par(&fs, |a| split21(ctx, a));
    crate::p_stream::split(ctx);
    ("model_checking", true)
}

// --------------------------------------------------------------------- C23

struct Stored {
    name: String,
    e: &'static str,
    m: M,
    n: usize,
    content: &'static str,
    bytes: Vec<u8>,
    /// The stream carries a checksum of its content.
    checked: bool,
}

fn stored23(t: bool) -> Vec<Stored> {
    let mut v = vec![];
    for (e, dt) in all_dtypes() {
        for c in CODECS {
            for (n, content_) in [(1usize, "mix"), (6, "mix"), (40, "count"), (300, "mix"), (300, "zero"), (2000, "runs"), (9000, "mix")] {
                let main = matches!(dt.as_str(), "u1" | "bool" | "<f2" | ">i4" | "<f8");
                if !t && (!main && n != 6 || n == 9000 && dt != "u1") {
                    continue;
                }
                let m = M::new(&[n as u64], &[n as u32], &dt).codec(&codec(c)).fill(match e { "bool" => json!(false), "f2" | "f4" | "f8" => json!(0.5), _ => json!(1) });
                let h = Mem::new();
                with_elem!(e, T => T::wr(&h, "a", &m.build(), &[0], &content::<T>(content_, n)).unwrap());
                let bytes = h.bytes("data/root/a/c0").unwrap();
                v.push(Stored { name: format!("{} {}x{} {}", dt, n, c, content_), e, m: m.clone(), n, content: content_, bytes, checked: c != "raw" });
                if n == 40 || n == 300 && content_ == "zero" {
                    // as other programs may write it
                    let plain = with_elem!(e, T => encode::<T>(&content::<T>(content_, n), dt.starts_with('>')));
                    for level in [1u32, 6, 9] {
                        if c != "raw" {
                            let bytes = ref_compress(c, level, &plain);
                            v.push(Stored { name: format!("{} {}x{} {} from elsewhere at level {}", dt, n, c, content_, level), e, m: m.clone(), n, content: content_, bytes, checked: c != "lz4" || level % 3 == 0 });
                        }
                    }
                }
            }
        }
    }
    v
}

/// Every way of reading a chunk whose stored bytes are these.
fn read23<B: Back>(s: &Stored, bytes: &[u8], region: bool) -> CaseResult {
    let mut img = B::empty();
    for (i, d) in ["data", "data/root", "data/root/a"].iter().enumerate() {
        if B::NAME == "fs" || i > 2 {
            img.insert(d.to_string(), None);
        }
    }
    img.insert("data/root/a/c0".into(), Some(bytes.to_vec()));
    let meta = s.m.build();
    B::run(&img, |h| -> CaseResult {
        with_elem!(s.e, T => {
            let want = content::<T>(s.content, s.n);
            let wb = bits_of(&want);
            match T::rd(h, "a", &meta, &[0]) {
                Ok(None) => return Err("read_chunk finds no chunk".into()),
                Ok(Some((p, d))) if p != [0] || bits_of(&d) != wb => return Err(format!("read_chunk gives other elements: {}", trunc(&format!("{:?}", bits_of(&d)), 200))),
                _ => {}
            }
            let mut b = vchunk::<T>(&[4], vec![T::fb(!0); s.n + 3]);
            match T::rd_into(h, "a", &meta, &[0], &mut b) {
                Ok(None) => return Err("read_chunk_into finds no chunk".into()),
                Ok(Some(())) => {
                    let (p, d) = chunk_parts(&b);
                    if p != [0] || bits_of(&d) != wb {
                        return Err(format!("read_chunk_into gives other elements: {}", trunc(&format!("{:?}", bits_of(&d)), 200)));
                    }
                }
                Err(_) => {}
            }
            if region {
                if let Ok(a) = T::nd_rd(h, "a", &meta, &bb(&[0], &[s.n as u64])) {
                    let got = bits_of(&a.iter().copied().collect::<Vec<_>>());
                    if got != wb {
                        return Err(format!("read_ndarray gives other elements: {}", trunc(&format!("{:?}", got), 200)));
                    }
                }
            }
            Ok(true)
        })
    })
    .0
}

fn damage23(ctx: &Ctx, s: &Stored) {
    let len = s.bytes.len();
    let t = ctx.thorough;
    ctx.states.fetch_add(1, Relaxed);
    let one = |what: String, bytes: &[u8], region: bool| {
        ctx.case(format!("{} {}", s.name, what), || read23::<MemB>(s, bytes, region));
        ctx.transitions.fetch_add(1, Relaxed);
    };
    one("unchanged".into(), &s.bytes, true);
    ctx.case(format!("{} undamaged", s.name), || {
        let r = with_elem!(s.e, T => {
            let h = Mem::new();
            h.put("data/root/a/c0", &s.bytes);
            T::rd(&h, "a", &s.m.build(), &[0]).map_err(|e| format!("can not be read: {}", e))?.is_some()
        });
        if r { Ok(true) } else { Err("is not found".into()) }
    });
    for k in 0..len {
        if k > 700 && k + 700 < len && !t && k % 37 != 0 {
            continue;
        }
        one(format!("cut to {} of {} bytes", k, len), &s.bytes[..k], true);
        if len < 200 && matches!(s.n, 6 | 40) {
            ctx.case(format!("{} fs cut to {} of {} bytes", s.name, k, len), || read23::<FsB>(s, &s.bytes[..k], true));
        }
    }
    if !s.checked {
        return;
    }
    // all values of every byte of short streams, all bits of longer ones
    let all = len <= if t { 1200 } else { 160 };
    for i in 0..len {
        if ctx.stopped() {
            return;
        }
        if !t && len > 600 && i > 200 && i + 200 < len && i % 7 != 0 {
            continue;
        }
        let mut b = s.bytes.clone();
        for x in 1..=255u8 {
            if !all && x.count_ones() != 1 && x != 0xff && x != s.bytes[i] {
                continue;
            }
            b[i] = s.bytes[i] ^ x;
            one(format!("byte {} of {} is {:02x}", i, len, b[i]), &b, x.count_ones() == 1);
        }
    }
    // stretches that were lost
    for k in [2usize, 3, 4, 8, 16, 512, 4096] {
        for i in 0..len.saturating_sub(k - 1) {
            if ctx.stopped() {
                return;
            }
            if !t && i % k.max(1 + len / 200) != 0 {
                continue;
            }
            for fill in [0u8, 0xff] {
                let mut b = s.bytes.clone();
                b[i..i + k].fill(fill);
                if b != s.bytes {
                    one(format!("bytes {}-{} of {} are {:02x}", i, i + k - 1, len, fill), &b, false);
                }
            }
            let mut b = s.bytes.clone();
            b.drain(i..i + k);
            one(format!("bytes {}-{} of {} are missing", i, i + k - 1, len), &b, false);
        }
    }
}

pub fn c23(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per (type, codec, size, content, damage): the stored chunk cut to every length, every byte changed to every other value (every bit of longer streams), stretches zeroed, set or lost; read by every chunk and region call; streams written by the library and by the codec libraries");
    ctx.assume("damage that a 32-bit checksum misses by coincidence does not occur among the cases (each case is decided by running it)");
    let v = stored23(ctx.thorough);
    ctx.par(&v, |s| damage23(ctx, s));
    // chunks too large to be held
    let big: Vec<(Vec<u64>, Vec<u32>)> = vec![
        (vec![65536, 65536], vec![65536, 65536]),
        (vec![1 << 33], vec![u32::MAX]),
        (vec![1 << 33, 3], vec![1 << 31, 2]),
        (vec![1 << 33, 3], vec![1 << 31, 3]),
        (vec![1 << 20, 1 << 20], vec![65536, 65537]),
        (vec![1 << 20, 1 << 20, 4], vec![1 << 16, 1 << 16, 3]),
        // (more than 2^64, and multiples of it)
        (vec![1 << 33, 1 << 33, 4], vec![1 << 31, 1 << 31, 4]),
        (vec![1 << 33, 1 << 33, 8], vec![1 << 31, 1 << 31, 8]),
        (vec![1 << 33, 1 << 33, 8], vec![1 << 31, 1 << 31, 5]),
        (vec![1 << 20; 4], vec![1 << 16; 4]),
        (vec![1 << 20; 5], vec![1 << 16, 1 << 16, 1 << 16, 1 << 16, 3]),
        (vec![1 << 33; 3], vec![u32::MAX; 3]),
        (vec![1 << 33; 8], vec![u32::MAX; 8]),
    ];
    for (shape, chunk) in &big {
        // (allocating the elements is the caller's wish where the count is in range)
        if chunk.iter().fold(1u128, |n, c| n.saturating_mul(*c as u128)) < 1 << 32 {
            continue;
        }
        for c in CODECS {
            for n in [0usize, 1, 5, 100] {
                ctx.case(format!("chunk of {:?} {} with {} elements stored", chunk, c, n), || {
                    let m = M::new(shape, chunk, "u1").codec(&codec(c));
                    let h = Mem::new();
                    h.put(&format!("data/root/a/c{}", vec!["0"; chunk.len()].join(&m.sep)), &ref_compress(c, 1, &content::<u8>("mix", n)));
                    let pos = vec![0u64; chunk.len()];
                    let meta = m.build();
                    if let Ok(r) = <u8 as Elem>::rd(&h, "a", &meta, &pos) {
                        return Err(format!("read_chunk gives {:?} elements", r.map(|r| r.1.len())));
                    }
                    let data = content::<u8>("count", n);
                    if <u8 as Elem>::wr(&h, "a", &meta, &pos, &data).is_ok() {
                        return Err(format!("write_chunk accepts {} elements", n));
                    }
                    let mut b = vchunk::<u8>(&[4], vec![1, 2]);
                    if let Ok(r) = <u8 as Elem>::rd_into(&h, "a", &meta, &pos, &mut b) {
                        return Err(format!("read_chunk_into gives {:?} and {} elements", r, chunk_parts(&b).1.len()));
                    }
                    Ok(true)
                });
            }
        }
    }
    ("exploration", true)
}

// --------------------------------------------------------------------- C30

/// The element type a data type string stands for.
fn elem_of(dt: &str) -> &str {
    let s = dt.trim_start_matches(['<', '>']);
    if s.starts_with('r') { "" } else { s }
}

struct Case30 {
    name: String,
    /// The type field of the document.
    field: Value,
    /// What it is stored as, if that can be told.
    core: Option<String>,
}

fn cases30() -> Vec<Case30> {
    let mut v = vec![];
    let mut core: Vec<String> = all_dtypes().into_iter().map(|x| x.1).collect();
    core.extend(["r8", "r16", "r32", "r64", "r0"].map(String::from));
    for d in &core {
        let known = if d.starts_with('r') { None } else { Some(d.clone()) };
        v.push(Case30 { name: d.clone(), field: json!(d), core: known.clone() });
        for (ty, more) in [("<M8[ns]", json!({})), ("<f8", json!({})), ("u1", json!({})), ("", json!({"unit": "s"}))] {
            let mut f = json!({"extension": "https://example.org/ext/1.0", "type": ty, "fallback": d});
            for (k, x) in more.as_object().unwrap() {
                f[k] = x.clone();
            }
            v.push(Case30 { name: format!("extension {:?} with fallback {}", ty, d), field: f, core: known.clone() });
        }
    }
    for ty in ["<M8[ns]", "<f8", "u1", "bool", ">i4", "r16"] {
        for f in [json!({"extension": "https://example.org/ext/1.0", "type": ty}), json!({"extension": "https://example.org/ext/1.0", "type": ty, "fallback": null})] {
            v.push(Case30 { name: format!("extension without fallback {}", f), field: f, core: None });
        }
    }
    v
}

fn run30<B: Back>(ctx: &Ctx, c: &Case30, e: &'static str, cod: &str) {
    let desc = |op: &str| format!("{} {} {} as {}: {}", B::NAME, c.name, cod, e, op);
    let n = 4usize;
    let m = {
        let mut j = M::new(&[8], &[4], "u1").codec(&codec(cod)).json();
        j["data_type"] = c.field.clone();
        j["fill_value"] = match c.core.as_deref().map(elem_of) {
            Some("bool") => json!(false),
            Some("f2" | "f4" | "f8") => json!(0.0),
            _ => json!(0),
        };
        j
    };
    let Ok(meta) = serde_json::from_value::<zarr::ArrayMetadata>(m) else {
        return;
    };
    let fits = c.core.as_deref().map(elem_of) == Some(e);
    // the first chunk exists; its bytes would do for any type of up to 16 bytes
    let img = B::run(&B::empty(), |h| {
        h.create_array("a", &meta).unwrap();
        let plain: Vec<u8> = match c.core.as_deref() {
            Some(d) => with_elem!(elem_of(d), T => encode::<T>(&content::<T>("count", n), d.starts_with('>'))),
            None => (0..64).collect(),
        };
        let stored = if cod == "raw" { plain } else { ref_compress(cod, 1, &plain) };
        h.set("data/root/a/c0", |mut w| { w.write_all(&stored)?; w.flush() }).unwrap();
    })
    .1;
    ctx.states.fetch_add(1, Relaxed);
    with_elem!(e, T => {
        let want = bits_of(&content::<T>("count", n));
        let other = content::<T>("mix", 8);
        type F<'a, H> = Box<dyn Fn(&H, &zarr::ArrayMetadata) -> io::Result<Option<Vec<u64>>> + 'a>;
        let arr = |k: usize| ndarray::ArrayD::from_shape_vec(vec![k], other[..k].to_vec()).unwrap();
        let flat = |a: &ArrD<T>| bits_of(&a.iter().copied().collect::<Vec<_>>());
        let ops: Vec<(&str, bool, F<B::H>)> = vec![
            ("read_chunk", true, Box::new(|h, m| Ok(T::rd(h, "a", m, &[0])?.map(|r| bits_of(&r.1))))),
            ("read_chunk_into", true, Box::new(|h, m| {
                let mut b = vchunk::<T>(&[3], other[..2].to_vec());
                Ok(T::rd_into(h, "a", m, &[0], &mut b)?.map(|_| bits_of(&chunk_parts(&b).1)))
            })),
            ("read_ndarray", true, Box::new(|h, m| Ok(Some(flat(&T::nd_rd(h, "a", m, &bb(&[0], &[4]))?))))),
            ("read_ndarray_into", true, Box::new(|h, m| {
                let mut a = arr(4);
                T::nd_rd_into(h, "a", m, &bb(&[0], &[4]), a.view_mut())?;
                Ok(Some(flat(&a)))
            })),
            ("read_ndarray_into_with_buffer", true, Box::new(|h, m| {
                let mut a = arr(4);
                let mut b = Some(vchunk::<T>(&[3], other[..2].to_vec()));
                T::nd_rd_buf(h, "a", m, &bb(&[0], &[4]), a.view_mut(), &mut b)?;
                Ok(Some(flat(&a)))
            })),
            ("overwrite a chunk", false, Box::new(|h, m| T::wr(h, "a", m, &[0], &other[..4]).map(|_| None))),
            ("write a new chunk", false, Box::new(|h, m| T::wr(h, "a", m, &[1], &other[..4]).map(|_| None))),
            ("write_ndarray of a chunk", false, Box::new(|h, m| T::nd_wr(h, "a", m, &[0], arr(4).view()).map(|_| None))),
            ("write_ndarray of a new chunk", false, Box::new(|h, m| T::nd_wr(h, "a", m, &[4], arr(4).view()).map(|_| None))),
            ("write_ndarray of a part", false, Box::new(|h, m| T::nd_wr(h, "a", m, &[1], arr(2).view()).map(|_| None))),
            ("write_ndarray of a part of a new chunk", false, Box::new(|h, m| T::nd_wr(h, "a", m, &[5], arr(2).view()).map(|_| None))),
            ("write_ndarray of all", false, Box::new(|h, m| T::nd_wr(h, "a", m, &[0], arr(8).view()).map(|_| None))),
        ];
        for (op, reading, f) in &ops {
            ctx.case(desc(op), || {
                ctx.transitions.fetch_add(1, Relaxed);
                let (r, after) = B::run(&img, |h| guard(|| {
                    let stored = h.get_array_metadata("a").map_err(|e| format!("get_array_metadata: {}", e))?;
                    Ok::<_, String>((f(h, &stored), f(h, &meta)))
                }));
                let (r1, r2) = r??;
                let same = files(&after) == files(&img);
                for (r, which) in [(r1, "stored"), (r2, "given")] {
                    match (r, fits) {
                        (Ok(v), false) => return Err(format!("is not refused with the {} metadata; gives {:?}", which, v)),
                        (Err(e), true) => return Err(format!("is refused with the {} metadata: {}", which, e)),
                        (Ok(v), true) if *reading && v.as_ref() != Some(&want) => return Err(format!("gives {:?} instead of {:?}", v, want)),
                        _ => {}
                    }
                }
                if (!fits || *reading) && !same {
                    return Err(format!("changes the store: {}", snap_diff(&img, &after)));
                }
                if fits && !reading {
                    let (at, len): (usize, usize) = match *op {
                        "overwrite a chunk" | "write_ndarray of a chunk" => (0, 4),
                        "write a new chunk" | "write_ndarray of a new chunk" => (4, 4),
                        "write_ndarray of a part" => (1, 2),
                        "write_ndarray of a part of a new chunk" => (5, 2),
                        _ => (0, 8),
                    };
                    let mut expect = want.clone();
                    expect.resize(8, 0);
                    expect[at..at + len].copy_from_slice(&bits_of(&other[..len]));
                    let got = B::run(&after, |h| guard(|| T::nd_rd(h, "a", &meta, &bb(&[0], &[8])).map(|a| flat(&a)))).0?;
                    if got.as_ref().ok() != Some(&expect) {
                        return Err(format!("the array then holds {:?} instead of {:?}", got, expect));
                    }
                }
                Ok(true)
            });
        }
        // a fill value of a type that can not be represented
        if c.core.is_none() {
            ctx.case(desc("fill value"), || match guard(|| meta.get_effective_fill_value::<T>())? {
                Ok(_) | Err(_) => Ok(true),
            });
        }
    });
}

pub fn c30(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per (array type in every byte order and as fallback of an extension, raw types and extensions without fallback; element type; codec; store; operation): all pairs are run on an array with one chunk present; a mismatch must be refused without changing the store, a match must work");
    ctx.assume("reading an absent chunk as another type is not judged");
    let cases = cases30();
    let mut items = vec![];
    for c in &cases {
        for e in ETYPES {
            items.push((c, e));
        }
    }
    ctx.par(&items, |(c, e)| {
        for cod in if ctx.thorough { &CODECS[..] } else { &["raw", "gzip"][..] } {
            run30::<MemB>(ctx, c, e, cod);
            if *cod == "raw" || ctx.thorough {
                run30::<FsB>(ctx, c, e, cod);
            }
        }
    });
    ("exploration", true)
}

// --------------------------------------------------------------------- C31

/// What is read through the buffer.
#[derive(Clone)]
enum Rd {
    Chunk(&'static str, Vec<u64>),
    Region(&'static str, Vec<u64>, Vec<u64>),
}
impl Rd {
    fn show(&self) -> String {
        match self {
            Rd::Chunk(n, p) => format!("{}{:?}", n, p),
            Rd::Region(n, o, s) => format!("{}{:?}+{:?}", n, o, s),
        }
    }
}

struct Set31 {
    e: &'static str,
    dt: String,
    img: Image,
    metas: Vec<(&'static str, M)>,
    reads: Vec<Rd>,
}

fn set31<B: Back>(e: &'static str, dt: &str) -> Set31 {
    let fill = match e { "bool" => json!(false), "f2" | "f4" | "f8" => json!(0.0), _ => json!(0) };
    let mk = |shape: &[u64], chunk: &[u32], c: &str| M::new(shape, chunk, dt).codec(&codec(c)).fill(fill.clone());
    let metas: Vec<(&'static str, M)> = vec![
        ("one", mk(&[9], &[1], "raw")),
        ("three", mk(&[12], &[3], "raw")),
        ("zip", mk(&[14], &[7], "gzip")),
        ("lz", mk(&[600], &[300], "lz4")),
        ("flat", mk(&[4, 6], &[2, 3], "bzip2").order('F')),
        ("none", mk(&[], &[], "raw")),
    ];
    let img = B::run(&B::empty(), |h| {
        with_elem!(e, T => {
            let w = |n: &str, pos: &[u64], len: usize, k: &str| {
                let m = &metas.iter().find(|x| x.0 == n).unwrap().1;
                T::wr(h, n, &m.build(), pos, &content::<T>(k, len)).unwrap();
            };
            for (n, m) in &metas {
                h.create_array(n, &m.build()).unwrap();
            }
            w("one", &[0], 1, "ones");
            w("one", &[4], 1, "mix");
            w("three", &[0], 3, "ones");
            w("three", &[1], 3, "mix");
            w("three", &[3], 3, "count");
            w("zip", &[0], 7, "ones");
            w("zip", &[1], 7, "mix");
            w("lz", &[0], 300, "mix");
            w("flat", &[0, 0], 6, "ones");
            w("flat", &[1, 1], 6, "mix");
            w("flat", &[1, 0], 6, "count");
            w("none", &[], 1, "mix");
        });
    })
    .1;
    // three[3] has too few bytes, zip[1] a wrong checksum, lz[1] is empty, flat[1,0] ends early
    let mut img = img;
    let mut edit = |k: &str, f: &dyn Fn(&mut Vec<u8>)| {
        let v = img.entry(k.to_string()).or_insert(Some(vec![])).as_mut().unwrap();
        f(v);
    };
    edit("data/root/three/c3", &|v| { v.pop(); });
    edit("data/root/zip/c1", &|v| { let n = v.len(); v[n - 8] ^= 0x5a; });
    edit("data/root/lz/c1", &|v| v.clear());
    edit("data/root/flat/c1/0", &|v| { let n = v.len(); v.truncate(n - 3); });
    let reads = vec![
        Rd::Chunk("one", vec![0]),
        Rd::Chunk("one", vec![4]),
        Rd::Chunk("one", vec![3]),
        Rd::Chunk("three", vec![0]),
        Rd::Chunk("three", vec![1]),
        Rd::Chunk("three", vec![2]),
        Rd::Chunk("three", vec![3]),
        Rd::Chunk("zip", vec![0]),
        Rd::Chunk("zip", vec![1]),
        Rd::Chunk("lz", vec![0]),
        Rd::Chunk("lz", vec![1]),
        Rd::Chunk("flat", vec![1, 1]),
        Rd::Chunk("flat", vec![1, 0]),
        Rd::Chunk("flat", vec![0, 1]),
        Rd::Chunk("none", vec![]),
        Rd::Region("three", vec![1], vec![7]),
        Rd::Region("three", vec![6], vec![3]),
        Rd::Region("three", vec![4], vec![8]),
        Rd::Region("one", vec![0], vec![9]),
        Rd::Region("zip", vec![2], vec![4]),
        Rd::Region("flat", vec![0, 0], vec![2, 6]),
        Rd::Region("flat", vec![1, 2], vec![1, 3]),
        Rd::Region("lz", vec![290], vec![5]),
    ];
    Set31 { e, dt: dt.into(), img, metas, reads }
}

/// What one read through a buffer gives.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Failed,
    NoChunk,
    Chunk(Vec<u64>, Vec<u64>),
    Region(Vec<u64>),
}

fn do31<T: Elem, H: HierarchyReader>(h: &H, s: &Set31, metas: &[(&'static str, zarr::ArrayMetadata)], r: &Rd, buf: &mut Option<zarr::chunk::VecDataChunk<T>>) -> Result<Got, String> {
    let _ = s;
    let meta = |n: &str| &metas.iter().find(|x| x.0 == n).unwrap().1;
    match r {
        Rd::Chunk(n, pos) => {
            let mut b = buf.take().unwrap_or_else(|| vchunk::<T>(&[], vec![]));
            let before = chunk_parts(&b);
            let before = (before.0, bits_of(&before.1));
            let got = T::rd_into(h, n, meta(n), pos, &mut b);
            let (p, d) = chunk_parts(&b);
            let now = (p, bits_of(&d));
            *buf = Some(b);
            Ok(match got {
                Err(_) => Got::Failed,
                Ok(None) => {
                    if now != before {
                        return Err(format!("a read of {} that finds no chunk changes the buffer from {} to {}", r.show(), trunc(&format!("{:?}", before), 200), trunc(&format!("{:?}", now), 200)));
                    }
                    Got::NoChunk
                }
                Ok(Some(())) => Got::Chunk(now.0, now.1),
            })
        }
        Rd::Region(n, off, shape) => {
            let mut a = ndarray::ArrayD::<T>::from_elem(shape.iter().map(|x| *x as usize).collect::<Vec<_>>(), T::fb(0xa5a5_a5a5_a5a5_a5a5));
            Ok(match T::nd_rd_buf(h, n, meta(n), &bb(off, shape), a.view_mut(), buf) {
                Err(_) => Got::Failed,
                Ok(()) => Got::Region(bits_of(&a.iter().copied().collect::<Vec<_>>())),
            })
        }
    }
}

fn sequences31<B: Back>(ctx: &Ctx, s: &Set31, depth: usize) {
    B::run(&s.img, |h| {
        with_elem!(s.e, T => {
            let metas: Vec<(&'static str, zarr::ArrayMetadata)> = s.metas.iter().map(|(n, m)| (*n, m.build())).collect();
            // what fresh buffers give, and independently what was written
            let sentinel = bits_of(&[T::fb(0xa5a5_a5a5_a5a5_a5a5)])[0];
            let fresh: Vec<Result<Got, String>> = s.reads.iter().map(|r| guard(|| do31::<T, _>(h, s, &metas, r, &mut None)).and_then(|r| r)).collect();
            ctx.case(format!("{} {} missing regions", B::NAME, s.dt), || {
                // the region three[6..9) has no chunk
                let i = s.reads.iter().position(|r| r.show() == "three[6]+[3]").unwrap();
                match &fresh[i] {
                    Ok(Got::Region(v)) if v.iter().all(|x| *x == sentinel) => Ok(true),
                    r => Err(format!("a region without chunks does not leave the array as it was: {:?}", r)),
                }
            });
            let states = std::sync::Mutex::new(std::collections::HashSet::<u64>::new());
            let n = s.reads.len();
            let total = n.pow(depth as u32);
            for k in 0..total {
                if ctx.stopped() {
                    return;
                }
                let mut seq = vec![];
                let mut x = k;
                for _ in 0..depth {
                    seq.push(x % n);
                    x /= n;
                }
                let desc = format!("{} {} {}", B::NAME, s.dt, seq.iter().map(|i| s.reads[*i].show()).collect::<Vec<_>>().join("; "));
                ctx.case(desc, || {
                    let mut buf = None;
                    ctx.traces.fetch_add(1, Relaxed);
                    for (j, i) in seq.iter().enumerate() {
                        let got = do31::<T, _>(h, s, &metas, &s.reads[*i], &mut buf)?;
                        ctx.transitions.fetch_add(1, Relaxed);
                        let state = buf.as_ref().map(chunk_parts).map(|(p, d)| (p, bits_of(&d)));
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        std::hash::Hash::hash(&state, &mut h);
                        states.lock().unwrap().insert(std::hash::Hasher::finish(&h));
                        let want = fresh[*i].as_ref().map_err(|e| e.clone())?;
                        if got != *want {
                            return Err(format!("read {} gives {} instead of {}", j + 1, trunc(&format!("{:?}", got), 300), trunc(&format!("{:?}", want), 300)));
                        }
                    }
                    Ok(true)
                });
            }
            // the distinct buffers the reads met
            ctx.states.fetch_add(states.lock().unwrap().len() as u64, Relaxed);
        })
    });
}

pub fn c31(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per (element type, store, sequence of reads): all sequences of reads through one buffer over chunks of different sizes, dimensions, codecs and positions, missing chunks, chunks of too few bytes, with a wrong checksum, empty or cut, and regions over them; every result against that of a fresh buffer, and the buffer itself where no chunk is found");
    ctx.assume("what a buffer holds after a failed read is not judged, only what later reads give");
    let t = ctx.thorough;
    let mut items: Vec<(Set31, bool, usize)> = vec![];
    for (e, dt) in all_dtypes() {
        let main = matches!(dt.as_str(), "u1" | "bool" | "<f2" | ">i4" | "<f8");
        items.push((set31::<MemB>(e, &dt), false, if (t && main) || dt == "u1" || dt == ">i4" { 4 } else { 3 }));
        items.push((set31::<FsB>(e, &dt), true, if t || main { 3 } else { 2 }));
    }
    ctx.par(&items, |(s, fs, depth)| if *fs { sequences31::<FsB>(ctx, s, *depth) } else { sequences31::<MemB>(ctx, s, *depth) });
    crate::p_stream::reinit(ctx);
    ("model_checking", true)
}
