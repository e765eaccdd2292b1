//! C24-C27: concurrent operations, under all schedules.
use crate::eng::*;
use crate::hist::*;
use crate::p_fault::AtomB;
use crate::p_geom::bb;
use crate::sched::*;
use crate::util::*;
use crate::with_elem;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use zarr::prelude::*;
use zarr::storage::*;

// --------------------------------------------------------------------- C24

/// The content of the write with a number.
fn vals<T: Elem>(id: u64, n: usize) -> Vec<T> {
    (0..n as u64).map(|i| T::fb((id * 31 + i * 7 + 1).wrapping_mul(0x0101_0101_0101_0101))).collect()
}
fn vbits(e: &str, id: u64, n: usize) -> Vec<u64> {
    with_elem!(e, T => bits_of(&vals::<T>(id, n)))
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Write(u64, Result<(), String>),
    Read(Result<Option<Vec<u64>>, String>),
    Delete(Result<bool, String>),
    Exists(Result<bool, String>),
}

fn st<T>(r: io::Result<T>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

/// `kind`: W write, R read, I read into a buffer, N read as a region, D delete, E exists.
fn chunk_op<B: Back>(kind: char, id: u64, m: &M, e: &'static str, n: usize) -> Op<B::H, Res> {
    let m = m.clone();
    let name = if kind == 'W' { format!("W{}", id) } else { kind.to_string() };
    op(name, move |h: &B::H| {
        let meta = m.build();
        with_elem!(e, T => match kind {
            'W' => Res::Write(id, st(T::wr(h, "a", &meta, &[0], &vals::<T>(id, n)))),
            'R' => Res::Read(st(T::rd(h, "a", &meta, &[0])).map(|r| r.map(|r| bits_of(&r.1)))),
            'I' => {
                let mut b = vchunk::<T>(&[9], vals::<T>(7, 3));
                Res::Read(st(T::rd_into(h, "a", &meta, &[0], &mut b)).map(|r| r.map(|_| bits_of(&chunk_parts(&b).1))))
            }
            'N' => {
                let mut a = ndarray::ArrayD::<T>::from_elem(vec![n], T::fb(0xa5a5_a5a5_a5a5_a5a5));
                let none = bits_of(&a.iter().copied().collect::<Vec<_>>());
                Res::Read(st(T::nd_rd_into(h, "a", &meta, &bb(&[0], &[n as u64]), a.view_mut())).map(|_| {
                    let b = bits_of(&a.iter().copied().collect::<Vec<_>>());
                    // a missing chunk reads as fill values
                    if b == none || b.iter().all(|x| *x == 0) { None } else { Some(b) }
                }))
            }
            'D' => Res::Delete(st(h.delete_chunk("a", &meta, &[0]))),
            'E' => Res::Exists(st(ReadableStore::exists(h, &format!("data/root/a/c0")))),
            _ => unreachable!(),
        })
    })
}

type Content = Option<u64>;

fn judge24<B: Back>(x: &Exec<Res>, init: Content, m: &M, e: &'static str, n: usize) -> CaseResult {
    let overlaps_write = |o: &Done<Res>| x.ops.iter().any(|p| matches!(p.res, Ok(Res::Write(..))) && p.start < o.end && o.start < p.end);
    for o in &x.ops {
        match o.res.as_ref().unwrap() {
            Res::Write(id, Err(e)) => return Err(format!("write {} fails: {}", id, e)),
            Res::Delete(Err(e)) => return Err(format!("delete fails: {}", e)),
            Res::Exists(Err(e)) => return Err(format!("exists fails: {}", e)),
            Res::Delete(Ok(false)) if !overlaps_write(o) => return Err("delete reports that the chunk is still there, with no write in progress".into()),
            _ => {}
        }
    }
    let (r, _) = B::run(&x.after, |h| guard(|| with_elem!(e, T => T::rd(h, "a", &m.build(), &[0]).map(|r| r.map(|r| bits_of(&r.1))))));
    let last = r?.map_err(|e| format!("afterwards the chunk can not be read: {}", e))?;
    let bits = |c: &Content| c.map(|id| vbits(e, id, n));
    let fits = |lenient: bool| {
        linearizable(
            &x.ops,
            &init,
            &|s, o| match o.res.as_ref().unwrap() {
                Res::Write(id, _) => vec![Some(*id)],
                Res::Delete(_) => vec![None],
                Res::Read(Ok(v)) if *v == bits(s) => vec![*s],
                // while the chunk comes into being
                Res::Read(Err(_)) if lenient && s.is_none() && overlaps_write(o) => vec![*s],
                Res::Exists(Ok(b)) if *b == s.is_some() || overlaps_write(o) && *b => vec![*s],
                _ => vec![],
            },
            &|s| bits(s) == last,
        )
    };
    if fits(false) {
        return Ok(true);
    }
    let show = || {
        let mut v: Vec<String> = x.ops.iter().map(|o| format!("T{}.{} {}-{}: {}", o.thread, o.index, o.start, o.end, trunc(&match o.res.as_ref().unwrap() {
            Res::Write(id, r) => format!("write {} {:?}", id, r),
            Res::Read(Ok(Some(b))) => match (0..100).find(|id| vbits(e, *id, n) == *b) {
                Some(id) => format!("read gives {}", id),
                None => format!("read gives a content nobody wrote: {:?}", b),
            },
            r => format!("{:?}", r),
        }, 200))).collect();
        v.push(format!("finally {}", trunc(&format!("{:?}", last), 200)));
        v.join(", ")
    };
    if fits(true) {
        return Err(format!("SIG[read during the first write] a read fails while the chunk is written for the first time: {}", show()));
    }
    Err(format!("no one-at-a-time order of the calls explains this: {}", show()))
}

/// All programs over an alphabet up to a length.
fn words(alphabet: &str, len: usize) -> Vec<String> {
    let mut all = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..len {
        cur = cur.iter().flat_map(|w| alphabet.chars().map(move |c| format!("{}{}", w, c))).collect();
        all.extend(cur.clone());
    }
    all
}

fn chunk_programs<B: Back>(words: &[&str], m: &M, e: &'static str, n: usize) -> Vec<Vec<Op<B::H, Res>>> {
    let mut id = 0;
    words
        .iter()
        .map(|w| {
            w.chars()
                .map(|c| {
                    if c == 'W' {
                        id += 1;
                    }
                    chunk_op::<B>(c, id, m, e, n)
                })
                .collect()
        })
        .collect()
}

struct P24<B: Back> {
    p: Program<B, Res>,
    init: Content,
    m: M,
    e: &'static str,
    n: usize,
}

fn programs24<B: Back>(t: bool) -> Vec<P24<B>> {
    let mut v = vec![];
    let mut add = |ws: &[&str], e: &'static str, dt: &str, codec_: &str, n: usize, shared: bool, bound: Option<usize>| {
        // a program needs a change and something that notices
        if !ws.iter().any(|w| w.contains('W') || w.contains('D')) {
            return;
        }
        let m = M::new(&[n as u64], &[n as u32], dt).codec(&codec(codec_)).fill(if e == "u1" || e == "i4" { json!(0) } else { json!(0.0) });
        for init in [Some(0), None] {
            let img = B::run(&B::empty(), |h| {
                h.create_array("a", &m.build()).unwrap();
                with_elem!(e, T => {
                    T::wr(h, "a", &m.build(), &[0], &vals::<T>(0, n)).unwrap();
                });
                if init.is_none() {
                    h.delete_chunk("a", &m.build(), &[0]).unwrap();
                }
            })
            .1;
            v.push(P24 {
                p: Program {
                    name: format!("{} {}x{} {}", dt, n, codec_, if init.is_some() { "present" } else { "absent" }),
                    img,
                    threads: chunk_programs::<B>(ws, &m, e, n),
                    shared,
                    bound,
                },
                init,
                m: m.clone(),
                e,
                n,
            });
        }
    };
    let one = words("WRD", 1);
    let two = words("WRD", 2);
    for (i, a) in two.iter().enumerate() {
        for b in &two[i..] {
            add(&[a, b], "u1", "u1", "raw", 6, true, None);
            if t || a.len() + b.len() < 4 {
                add(&[a, b], "i4", ">i4", "gzip", 5, false, None);
                if B::NAME == "fs" {
                    add(&[a, b], "f4", "<f4", "raw", 5000, true, None);
                }
            }
        }
    }
    for c in ["bzip2", "xz", "lz4"] {
        for (i, a) in one.iter().enumerate() {
            for b in &one[i..] {
                add(&[a, b], "i4", "<i4", c, 5, false, None);
            }
        }
    }
    // other ways of reading
    for r in ["I", "N", "E"] {
        for b in &two {
            add(&[r, b], "u1", "u1", "raw", 6, false, None);
        }
    }
    // three threads
    let three = if t { &two } else { &one };
    for (i, a) in three.iter().enumerate() {
        for (j, b) in one.iter().enumerate() {
            for c in &one[j..] {
                if i < one.len() && i > j {
                    continue;
                }
                if i < one.len() {
                    add(&[a, b, c], "u1", "u1", "raw", 6, true, None);
                } else {
                    add(&[a, b, c], "u1", "u1", "raw", 6, true, Some(3));
                }
            }
        }
    }
    if !t {
        for w in &two[one.len()..] {
            for (b, c) in [("W", "R"), ("D", "R"), ("W", "D")] {
                add(&[w, b, c], "u1", "u1", "raw", 6, true, Some(1));
            }
        }
    } else {
        let four = words("WRD", 3);
        for (i, a) in four.iter().enumerate() {
            for b in &four[i..] {
                if a.len() == 3 && b.len() > 1 {
                    add(&[a, b], "u1", "u1", "raw", 6, true, None);
                }
            }
        }
    }
    v
}

pub fn c24(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per schedule: programs of up to 2+2 operations (write, read, delete) on one chunk by two threads, and of three threads, executed on the real code under every order of their file-system calls (up to swaps of independent neighbours; three longer programs up to a number of preemptions); results and final content against all one-at-a-time orders");
    ctx.assume("a system call is atomic; threads of one process stand for processes (flock locks belong to open files)");
    let limit = if ctx.thorough { 2_000_000 } else { 60_000 };
    let fs = programs24::<FsB>(ctx.thorough);
    ctx.par(&fs, |p| explore_schedules(ctx, &p.p, limit, &|x| judge24::<FsB>(x, p.init, &p.m, p.e, p.n)));
    // the part that is independent of the file system, on a store with atomic values
    let at = programs24::<AtomB>(false);
    ctx.par(&at, |p| explore_schedules(ctx, &p.p, limit, &|x| judge24::<AtomB>(x, p.init, &p.m, p.e, p.n)));
    ("model_checking", true)
}

// --------------------------------------------------------------------- C25

struct Work<B: Back> {
    op: Op<B::H, Result<String, String>>,
    /// The items it reads or changes: keys, and nodes.
    touches: Vec<String>,
    creates: bool,
}

fn works<B: Back>(m: &M) -> Vec<Work<B>> {
    let mut v: Vec<Work<B>> = vec![];
    let mut add = |name: &str, touches: &[&str], creates: bool, f: Box<dyn Fn(&B::H, &ArrayMetadata) -> io::Result<String> + Send + Sync>| {
        let meta = m.build();
        v.push(Work { op: op(name, move |h: &B::H| st(f(h, &meta))), touches: touches.iter().map(|s| s.to_string()).collect(), creates });
    };
    fn unit(r: io::Result<()>) -> io::Result<String> {
        r.map(|_| "done".to_string())
    }
    let wr = |node: &'static str, pos: [u64; 2]| -> Box<dyn Fn(&B::H, &ArrayMetadata) -> io::Result<String> + Send + Sync> {
        Box::new(move |h, meta| unit(<u8 as Elem>::wr(h, node, meta, &pos, &vals::<u8>(pos[0] * 5 + pos[1] + 1, 4))))
    };
    add("write a 0,1", &["d/a/0.1"], false, wr("a", [0, 1]));
    add("overwrite a 1,1", &["d/a/1.1"], false, wr("a", [1, 1]));
    add("write a 2,0", &["d/a/2.0"], true, wr("a", [2, 0]));
    add("write a 2,1", &["d/a/2.1"], true, wr("a", [2, 1]));
    add("write b 0,0", &["d/b/0.0"], true, wr("b", [0, 0]));
    add("write b 0,1", &["d/b/0.1"], true, wr("b", [0, 1]));
    add("write q/r/s 0,0", &["d/q/r/s/0.0"], true, wr("q/r/s", [0, 0]));
    add("write q/r/t 1,0", &["d/q/r/t/1.0"], true, wr("q/r/t", [1, 0]));
    add("write q/u 1,0", &["d/q/u/1.0"], true, wr("q/u", [1, 0]));
    add("read a 0,0", &["d/a/0.0"], false, Box::new(|h, meta| Ok(format!("{:?}", <u8 as Elem>::rd(h, "a", meta, &[0, 0])?))));
    add("read a 1,0 (missing)", &["d/a/1.0"], false, Box::new(|h, meta| Ok(format!("{:?}", <u8 as Elem>::rd(h, "a", meta, &[1, 0])?))));
    add("delete g/a 0,1", &["d/g/a/0.1"], false, Box::new(|h, meta| Ok(format!("{:?}", h.delete_chunk("g/a", meta, &[0, 1])?))));
    add("delete b 3,3 (missing)", &["d/b/3.3"], false, Box::new(|h, meta| Ok(format!("{:?}", h.delete_chunk("b", meta, &[3, 3])?))));
    add("create_array x/y", &["m/x/y"], true, Box::new(|h, meta| unit(h.create_array("x/y", meta))));
    add("create_group x/z", &["m/x/z"], true, Box::new(|h, _| unit(h.create_group("x/z"))));
    add("create_group x", &["n/x"], true, Box::new(|h, _| unit(h.create_group("x"))));
    add("create_array n", &["m/n"], true, Box::new(|h, meta| unit(h.create_array("n", meta))));
    add("set_attribute b", &["m/b"], false, Box::new(|h, _| unit(h.set_attribute("b", "k".into(), "v"))));
    add("set_attribute g", &["n/g"], false, Box::new(|h, _| unit(h.set_attribute("g", "k".into(), vec![1, 2]))));
    add("remove ab", &["m/ab", "d/ab"], false, Box::new(|h, _| unit(h.remove("ab"))));
    add("remove g/h", &["m/g/h", "d/g/h"], false, Box::new(|h, _| unit(h.remove("g/h"))));
    add("metadata of a", &["m/a"], false, Box::new(|h, _| Ok(format!("{:?} {:?}", h.get_array_metadata("a")?, h.list_attributes("a")?))));
    add(
        "region of c",
        &["d/c"],
        true,
        Box::new(|h, meta| {
            let a = ndarray::ArrayD::from_shape_vec(vec![2, 3], (0..6u8).map(|x| x + 50).collect()).unwrap();
            <u8 as Elem>::nd_wr(h, "c", meta, &[1, 1], a.view())?;
            Ok(format!("{:?}", <u8 as Elem>::nd_rd(h, "c", meta, &bb(&[0, 0], &[4, 4]))?))
        }),
    );
    add("set k/l/m", &["k/l/m"], true, Box::new(|h, _| unit(h.set("k/l/m", |mut w| { w.write_all(b"12")?; w.write_all(b"345")?; w.flush() }))));
    add("set k/l/o", &["k/l/o"], true, Box::new(|h, _| unit(h.set("k/l/o", |mut w| { w.write_all(b"678")?; w.flush() }))));
    add("erase s/t", &["s/t"], false, Box::new(|h, _| Ok(h.erase("s/t")?.to_string())));
    add("erase_prefix s/u", &["s/u"], false, Box::new(|h, _| Ok(h.erase_prefix("s/u")?.to_string())));
    add(
        "get s/v",
        &["s/v"],
        false,
        Box::new(|h, _| {
            let mut v = vec![];
            if let Some(mut r) = h.get("s/v")? {
                r.read_to_end(&mut v)?;
            }
            Ok(format!("{:?}", v))
        }),
    );
    v
}

fn disjoint(a: &[String], b: &[String]) -> bool {
    let meet = |x: &String, y: &String| x == y || x.starts_with(&format!("{}/", y)) || y.starts_with(&format!("{}/", x));
    !a.iter().any(|x| b.iter().any(|y| meet(x, y)))
}

type R25 = Result<String, String>;

fn programs25<B: Back>(t: bool) -> Vec<(Program<B, R25>, Vec<Vec<R25>>, BTreeMap<String, Vec<u8>>)> {
    let m = M::new(&[8, 8], &[2, 2], "u1");
    let img = B::run(&B::empty(), |h| {
        for n in ["a", "ab", "b", "c", "g/a", "g/h"] {
            h.create_array(n, &m.build()).unwrap();
        }
        h.create_group("g").unwrap();
        h.set_attribute("a", "x".into(), 1).unwrap();
        for (n, pos) in [("a", [0u64, 0]), ("a", [1, 1]), ("ab", [0, 0]), ("g/a", [0, 1]), ("g/a", [1, 1]), ("g/h", [0, 0])] {
            <u8 as Elem>::wr(h, n, &m.build(), &pos, &vals::<u8>(9, 4)).unwrap();
        }
        for k in ["s/t", "s/u/1", "s/u/2/3", "s/v"] {
            h.set(k, |mut w| { w.write_all(k.as_bytes())?; w.flush() }).unwrap();
        }
    })
    .1;
    let ws = works::<B>(&m);
    let alone: Vec<R25> = ws.iter().map(|w| B::run(&img, |h| (w.op.f)(h)).0).collect();
    let mut out = vec![];
    let mut add = |threads: Vec<Vec<usize>>, shared: bool, bound: Option<usize>| {
        for (i, a) in threads.iter().enumerate() {
            for b in &threads[i + 1..] {
                if a.iter().any(|x| b.iter().any(|y| !disjoint(&ws[*x].touches, &ws[*y].touches))) {
                    return;
                }
            }
            if a.iter().enumerate().any(|(k, x)| a[k + 1..].iter().any(|y| !disjoint(&ws[*x].touches, &ws[*y].touches))) {
                return;
            }
        }
        let after = B::run(&img, |h| {
            for t in &threads {
                for i in t {
                    let _ = (ws[*i].op.f)(h);
                }
            }
        })
        .1;
        let p = Program { name: "different items".into(), img: img.clone(), threads: threads.iter().map(|t| t.iter().map(|i| ws[*i].op.clone()).collect()).collect(), shared, bound };
        out.push((p, threads.iter().map(|t| t.iter().map(|i| alone[*i].clone()).collect()).collect(), files(&after)));
    };
    let n = ws.len();
    // (documents are written to the map in many small parts)
    let fine = |i: usize| B::NAME == "fs" || !ws[i].touches.iter().any(|x| x.starts_with("m/") || x.starts_with("n/"));
    for i in 0..n {
        for j in i + 1..n {
            if !fine(i) && !fine(j) {
                continue;
            }
            let both = ws[i].creates && ws[j].creates;
            add(vec![vec![i], vec![j]], true, None);
            if t || both && B::NAME == "fs" {
                add(vec![vec![i], vec![j]], false, None);
            }
            if t {
                add(vec![vec![j], vec![i]], false, None);
            }
        }
    }
    let long = |i: usize| ws[i].op.name.starts_with("region");
    let c: Vec<usize> = (0..n).filter(|i| ws[*i].creates && fine(*i) && (t || B::NAME == "fs" && !long(*i))).collect();
    for i in 0..c.len() {
        for j in i + 1..c.len() {
            for k in j + 1..c.len() {
                // all in one new directory, or few preemptions
                add(vec![vec![c[i]], vec![c[j]], vec![c[k]]], true, Some(if t { 3 } else { 1 }));
                if t {
                    add(vec![vec![c[i], c[j]], vec![c[k]]], false, Some(4));
                    add(vec![vec![c[j], c[k]], vec![c[i]]], false, Some(4));
                }
            }
        }
    }
    out
}

fn judge25(x: &Exec<R25>, want: &[Vec<R25>], after: &BTreeMap<String, Vec<u8>>) -> CaseResult {
    let got = files(&x.after);
    for o in &x.ops {
        let (g, w) = (o.res.as_ref().unwrap(), &want[o.thread][o.index]);
        if g != w {
            return Err(format!("operation {} of thread {} gives {:?}, alone it gives {:?}", o.index, o.thread, g, w));
        }
    }
    if x.ops.len() != want.iter().map(|w| w.len()).sum::<usize>() {
        return Err("not every operation finishes".into());
    }
    if got != *after {
        let s = |m: &BTreeMap<String, Vec<u8>>| -> Image { m.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect() };
        return Err(format!("afterwards the store differs from what the operations leave alone: {}", snap_diff(&s(after), &s(&got))));
    }
    Ok(true)
}

pub fn c25(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per schedule: every pair of operations on different items from an alphabet of 28, and triples of those that create directories up to a number of preemptions, executed on the real code under every order of their calls; results compared with those of the operation alone, and the final store with all of them one after the other");
    ctx.assume("a system call is atomic");
    let limit = if ctx.thorough { 1_000_000 } else { 4_000 };
    let fs = programs25::<FsB>(ctx.thorough);
    ctx.par(&fs, |(p, w, a)| explore_schedules(ctx, p, limit, &|x| judge25(x, w, a)));
    let mem = programs25::<MemB>(ctx.thorough);
    ctx.par(&mem, |(p, w, a)| explore_schedules(ctx, p, limit, &|x| judge25(x, w, a)));
    ("model_checking", true)
}

// --------------------------------------------------------------------- C26

#[derive(Clone, Debug, PartialEq)]
enum N {
    CreateArray(usize),
    CreateGroup,
    Set(Vec<(&'static str, i64)>),
    Attrs,
    Meta,
    Exists,
    ArrayExists,
}

#[derive(Clone, Debug, PartialEq)]
enum NR {
    Unit(Result<(), String>),
    /// The document without its attributes, and them.
    Doc(Result<(Option<Value>, Value), String>),
    Bool(Result<bool, String>),
}

type Attrs = BTreeMap<String, i64>;
#[derive(Clone, Debug, PartialEq, Default)]
struct NS {
    array: Option<(usize, Attrs)>,
    group: Option<Attrs>,
    /// What operations in progress have seen.
    seen: BTreeMap<(usize, usize), Option<Option<Attrs>>>,
}

fn arrays() -> Vec<M> {
    vec![
        M::new(&[4, 4], &[2, 2], "u1").attrs_(json!({"made": 0, "x": 10})),
        M::new(&[9], &[3], "<i4").codec(&codec("gzip")).attrs_(json!({"made": 1})),
    ]
}
trait MAttrs {
    fn attrs_(self, v: Value) -> Self;
}
impl MAttrs for M {
    fn attrs_(mut self, v: Value) -> M {
        self.attrs = v;
        self
    }
}
fn attrs_of(v: &Value) -> Attrs {
    v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap_or(i64::MIN))).collect()).unwrap_or_default()
}
fn split_doc(mut v: Value) -> (Value, Value) {
    let a = v.as_object_mut().and_then(|o| o.remove("attributes")).unwrap_or(Value::Null);
    (v, a)
}

fn node_op<B: Back>(path: &'static str, n: &N) -> Op<B::H, NR> {
    let n = n.clone();
    let name = match &n {
        N::CreateArray(i) => format!("A{}", i),
        N::CreateGroup => "G".into(),
        N::Set(v) => format!("set {}", v.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(",")),
        n => format!("{:?}", n),
    };
    op(name, move |h: &B::H| match &n {
        N::CreateArray(i) => NR::Unit(st(h.create_array(path, &arrays()[*i].build()))),
        N::CreateGroup => NR::Unit(st(h.create_group(path))),
        N::Set(v) => NR::Unit(st(if v.len() == 1 {
            h.set_attribute(path, v[0].0.into(), v[0].1)
        } else {
            h.set_attributes(path, v.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<Map<String, Value>>())
        })),
        N::Attrs => NR::Doc(st(h.list_attributes(path)).map(|a| (None, Value::Object(a)))),
        N::Meta => NR::Doc(st(h.get_array_metadata(path)).map(|m| {
            let (d, a) = split_doc(serde_json::to_value(&m).unwrap());
            (Some(d), a)
        })),
        N::Exists => NR::Bool(st(HierarchyReader::exists(h, path))),
        N::ArrayExists => NR::Bool(st(h.array_exists(path))),
    })
}

fn judge26(x: &Exec<NR>, progs: &[Vec<N>], init: &NS, path: &str) -> CaseResult {
    let docs: Vec<Value> = arrays().iter().map(|m| split_doc(serde_json::to_value(m.build()).unwrap()).0).collect();
    let what = |o: &Done<NR>| &progs[o.thread][o.index];
    let creating = |o: &Done<NR>| x.ops.iter().any(|p| matches!(what(p), N::CreateArray(_) | N::CreateGroup) && p.start < o.end && o.start < p.end);
    // the final documents
    let f = files(&x.after);
    let parse = |k: String| -> Result<Option<Value>, String> {
        match f.get(&k) {
            None => Ok(None),
            Some(b) => serde_json::from_slice(b).map(Some).map_err(|e| format!("afterwards {} is no document: {} {:?}", k, e, String::from_utf8_lossy(b))),
        }
    };
    let last = NS {
        array: match parse(format!("meta/root/{}.array.json", path))? {
            None => None,
            Some(d) => {
                let (d, a) = split_doc(d);
                match docs.iter().position(|x| *x == d) {
                    Some(i) => Some((i, attrs_of(&a))),
                    None => return Err(format!("afterwards the array document is {}", d)),
                }
            }
        },
        group: parse(format!("meta/root/{}.group.json", path))?.map(|d| attrs_of(&split_doc(d).1)),
        seen: BTreeMap::new(),
    };
    let attrs = |s: &NS| -> Option<Attrs> { s.array.as_ref().map(|a| a.1.clone()).or(s.group.clone()) };
    let merged = |a: &Attrs, v: &[(&'static str, i64)]| -> Attrs {
        let mut a = a.clone();
        for (k, x) in v {
            a.insert(k.to_string(), *x);
        }
        a
    };
    // `early`, `late`: the two halves of an operation that looks and then writes
    let step = |s: &NS, o: &Done<NR>, half: u8| -> Vec<NS> {
        let id = (o.thread, o.index);
        let absent = s.array.is_none() && s.group.is_none();
        match (what(o), o.res.as_ref().unwrap()) {
            (N::CreateArray(i), NR::Unit(r)) => match (half, r) {
                (0 | 1, Err(_)) => if !absent { vec![s.clone()] } else { vec![] },
                (0, Ok(())) => if absent { vec![NS { array: Some((*i, attrs_of(&arrays()[*i].attrs))), ..s.clone() }] } else { vec![] },
                (1, Ok(())) => if absent { vec![s.clone()] } else { vec![] },
                (_, Ok(())) => vec![NS { array: Some((*i, attrs_of(&arrays()[*i].attrs))), ..s.clone() }],
                _ => vec![s.clone()],
            },
            (N::CreateGroup, NR::Unit(r)) => match (half, r) {
                (0 | 1, Err(_)) => if s.array.is_some() { vec![s.clone()] } else { vec![] },
                (0, Ok(())) => if s.array.is_some() { vec![] } else if s.group.is_some() { vec![s.clone()] } else { vec![NS { group: Some(Attrs::new()), ..s.clone() }] },
                (1, Ok(())) => {
                    let mut n = s.clone();
                    // None: it has to write
                    n.seen.insert(id, if s.group.is_some() { Some(None) } else { None });
                    if s.array.is_some() { vec![] } else { vec![n] }
                }
                (_, Ok(())) => {
                    let mut n = s.clone();
                    if n.seen.remove(&id) == Some(None) {
                        n.group = Some(Attrs::new());
                    }
                    vec![n]
                }
                _ => vec![s.clone()],
            },
            (N::Set(v), NR::Unit(r)) => match (half, r) {
                // (or it meets a document that is being created)
                (0 | 1, Err(_)) => if absent { vec![s.clone()] } else { vec![] },
                (_, Err(_)) => vec![s.clone()],
                (0, Ok(())) => match (&s.array, &s.group) {
                    (Some((i, a)), _) => vec![NS { array: Some((*i, merged(a, v))), ..s.clone() }],
                    (None, Some(a)) => vec![NS { group: Some(merged(a, v)), ..s.clone() }],
                    _ => vec![],
                },
                (1, Ok(())) => {
                    let mut n = s.clone();
                    n.seen.insert(id, Some(attrs(s)));
                    if absent { vec![] } else { vec![n] }
                }
                (_, Ok(())) => {
                    let mut n = s.clone();
                    let Some(Some(Some(a))) = n.seen.remove(&id) else { return vec![] };
                    let m = merged(&a, v);
                    if m != a {
                        // it writes the whole document it has read
                        match (n.array.as_mut(), n.group.as_mut()) {
                            (Some(x), _) => x.1 = m,
                            (None, Some(g)) => *g = m,
                            _ => return vec![],
                        }
                    }
                    vec![n]
                }
            },
            (N::Attrs | N::Meta, NR::Doc(r)) => {
                let ok = match r {
                    Err(_) => absent || matches!(what(o), N::Meta) && s.array.is_none(),
                    Ok((None, a)) => attrs(s) == Some(attrs_of(a)),
                    Ok((Some(d), a)) => match &s.array {
                        Some((i, at)) => docs[*i] == *d && *at == attrs_of(a),
                        None => false,
                    },
                };
                if ok { vec![s.clone()] } else { vec![] }
            }
            (w, NR::Bool(r)) => {
                let is = match w {
                    N::Exists => !absent,
                    _ => s.array.is_some(),
                };
                if matches!(r, Ok(b) if *b == is) || creating(o) && *r == Ok(true) { vec![s.clone()] } else { vec![] }
            }
            _ => vec![],
        }
    };
    // reads that meet a document while it is being created may fail
    let judged: Vec<&Done<NR>> = x.ops.iter().filter(|o| !(matches!(o.res.as_ref().unwrap(), NR::Doc(Err(_)) | NR::Bool(Err(_))) && creating(o))).collect();
    for o in &judged {
        if let NR::Bool(Err(e)) = o.res.as_ref().unwrap() {
            return Err(format!("looking for the node fails: {}", e));
        }
    }
    // (an update that fails because the document is being created writes nothing)
    let judged: Vec<&Done<NR>> = judged.into_iter().filter(|o| !(matches!((what(o), o.res.as_ref().unwrap()), (N::Set(_), NR::Unit(Err(_)))) && creating(o))).collect();
    struct H<'a> {
        o: &'a Done<NR>,
        half: u8,
    }
    let explained = |split_create: bool, split_set: bool| -> bool {
        let mut hs: Vec<Done<H>> = vec![];
        for o in &judged {
            let split = match what(o) {
                N::CreateArray(_) | N::CreateGroup => split_create,
                N::Set(_) => split_set,
                _ => false,
            };
            for half in if split { vec![1, 2] } else { vec![0] } {
                hs.push(Done { thread: o.thread, index: o.index, start: o.start, end: o.end, res: Ok(H { o, half }) });
            }
        }
        #[derive(Clone)]
        struct S(NS, Vec<(usize, usize)>);
        linearizable(
            &hs,
            &S(init.clone(), vec![]),
            &|s, d| {
                let h = d.res.as_ref().unwrap();
                let id = (h.o.thread, h.o.index);
                let mut done = s.1.clone();
                match h.half {
                    1 => done.push(id),
                    2 if !done.contains(&id) => return vec![],
                    _ => {}
                }
                step(&s.0, h.o, h.half).into_iter().map(|n| S(n, done.clone())).collect()
            },
            &|s| s.0.array == last.array && s.0.group == last.group,
        )
    };
    if explained(false, false) {
        return Ok(true);
    }
    let show = || {
        let mut v: Vec<String> = x.ops.iter().map(|o| format!("T{}.{} {}-{}: {:?} -> {}", o.thread, o.index, o.start, o.end, what(o), trunc(&format!("{:?}", o.res.as_ref().unwrap()), 300))).collect();
        v.push(format!("finally {:?}", last));
        v.join(", ")
    };
    if explained(true, false) {
        return Err(format!("SIG[competing creations of one node] several creations of one node succeed: {}", show()));
    }
    if explained(false, true) {
        return Err(format!("SIG[overlapping updates of one node] an acknowledged update of other attributes is lost: {}", show()));
    }
    if explained(true, true) {
        return Err(format!("SIG[overlapping creations and updates of one node] an acknowledged update or creation is lost: {}", show()));
    }
    Err(format!("no order of the calls explains this: {}", show()))
}

fn programs26<B: Back>(t: bool) -> Vec<(Program<B, NR>, Vec<Vec<N>>, NS, &'static str)> {
    let mut v = vec![];
    let sets = [N::Set(vec![("x", 1)]), N::Set(vec![("y", 2)]), N::Set(vec![("x", 3), ("y", 4)])];
    let mut single: Vec<Vec<N>> = vec![
        vec![N::CreateArray(0)],
        vec![N::CreateArray(1)],
        vec![N::CreateGroup],
        vec![N::Attrs],
        vec![N::Meta],
        vec![N::Exists],
        vec![N::ArrayExists],
    ];
    single.extend(sets.iter().map(|s| vec![s.clone()]));
    let mut double: Vec<Vec<N>> = vec![];
    let pick: Vec<N> = vec![N::CreateArray(1), N::CreateGroup, sets[0].clone(), sets[1].clone(), N::Attrs, N::Meta];
    for a in &pick {
        for b in &pick {
            double.push(vec![a.clone(), b.clone()]);
        }
    }
    let states = [("absent", NS::default()), ("array", NS { array: Some((0, attrs_of(&arrays()[0].attrs))), ..Default::default() }), ("group", NS { group: Some([("x".to_string(), 5), ("w".to_string(), 6)].into_iter().collect()), ..Default::default() })];
    let mut add = |progs: Vec<Vec<N>>, shared: bool, bound: Option<usize>| {
        if !progs.iter().flatten().any(|n| matches!(n, N::CreateArray(_) | N::CreateGroup | N::Set(_))) {
            return;
        }
        for (sn, s) in &states {
            for path in ["n", "p/n"] {
                if path == "p/n" && (*sn != "absent" || bound.is_some()) {
                    continue;
                }
                let img = B::run(&B::empty(), |h| {
                    if s.array.is_some() {
                        h.create_array(path, &arrays()[0].build()).unwrap();
                    }
                    if s.group.is_some() {
                        h.create_group(path).unwrap();
                        h.set_attributes(path, json!({"x": 5, "w": 6}).as_object().unwrap().clone()).unwrap();
                    }
                })
                .1;
                let p = Program {
                    name: format!("node {} {}", path, sn),
                    img,
                    threads: progs.iter().map(|t| t.iter().map(|n| node_op::<B>(path, n)).collect()).collect(),
                    shared,
                    bound,
                };
                v.push((p, progs.clone(), s.clone(), path));
            }
        }
    };
    for (i, a) in single.iter().enumerate() {
        for b in &single[i..] {
            add(vec![a.clone(), b.clone()], false, None);
        }
        for b in &double {
            if t || matches!(a[0], N::CreateArray(0) | N::Attrs | N::Meta) || a[0] == sets[2] {
                add(vec![a.clone(), b.clone()], true, if t { None } else { Some(2) });
            }
        }
    }
    for (i, a) in single.iter().enumerate() {
        for (j, b) in single[i..].iter().enumerate() {
            for c in &single[i + j..] {
                let w = |p: &Vec<N>| matches!(p[0], N::CreateArray(_) | N::CreateGroup | N::Set(_));
                if [a, b, c].iter().filter(|p| w(p)).count() >= 2 {
                    add(vec![a.clone(), b.clone(), c.clone()], true, Some(if t { 2 } else { 1 }));
                }
            }
        }
    }
    v
}

pub fn c26(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per schedule: programs of creations, attribute updates and reads of one node by two threads under every order of their calls, and of longer programs and three threads up to a number of preemptions, executed on the real code; results and final documents against all one-at-a-time orders");
    ctx.assume("a system call is atomic; a read or update that fails while the node is being created is not judged");
    let limit = if ctx.thorough { 1_000_000 } else { 4_000 };
    let fs = programs26::<FsB>(ctx.thorough);
    ctx.par(&fs, |(p, n, s, path)| explore_schedules(ctx, p, limit, &|x| judge26(x, n, s, path)));
    let at = programs26::<AtomB>(false);
    ctx.par(&at, |(p, n, s, path)| explore_schedules(ctx, p, limit, &|x| judge26(x, n, s, path)));
    ("model_checking", true)
}

// --------------------------------------------------------------------- C27

type Fs = zarr::store::filesystem::FilesystemHierarchy;

#[derive(Clone, Debug, Default)]
struct Held {
    /// `get` found the key, or the closure of `set` ran.
    present: bool,
    /// The file was no longer in its directory when the hold began.
    orphan: bool,
    /// What the key held when the hold began, and until it ended.
    raw: Vec<Option<Vec<u8>>>,
    /// What a reader saw, what a writer had written at these times.
    seen: Vec<u8>,
    done: Vec<Vec<u8>>,
    res: Option<Result<(), String>>,
}

enum R27 {
    Reader(Held),
    Writer(Held),
    /// Overwrites or removes.
    Change(Result<(), String>),
    Read(Result<Option<Vec<u8>>, String>),
}

fn raw_file(h: &Fs, key: &str) -> Option<Vec<u8>> {
    crate::sys::unhooked(|| {
        let u = h.uri(key).unwrap();
        std::fs::read(u.trim_start_matches("file://")).ok()
    })
}
fn links(f: &std::fs::File) -> u64 {
    use std::os::unix::fs::MetadataExt;
    crate::sys::unhooked(|| f.metadata().map(|m| m.nlink()).unwrap_or(0))
}

fn hold_reader(key: &'static str, tag: usize) -> Op<Fs, R27> {
    op(format!("hold a reader of {}", key), move |h: &Fs| {
        let mut x = Held::default();
        x.res = Some(st((|| {
            let Some(mut r) = h.get(key)? else { return Ok(()) };
            x.present = true;
            point(&format!("opened{}", tag));
            x.orphan = links(r.get_ref()) == 0;
            x.raw.push(raw_file(h, key));
            let mut b = [0u8; 3];
            let n = r.read(&mut b)?;
            x.seen.extend_from_slice(&b[..n]);
            point(&format!("mid{}", tag));
            x.raw.push(raw_file(h, key));
            r.read_to_end(&mut x.seen)?;
            point(&format!("release{}", tag));
            x.raw.push(raw_file(h, key));
            drop(r);
            Ok(())
        })()));
        R27::Reader(x)
    })
}

fn hold_writer(key: &'static str, content: Vec<u8>, tag: usize) -> Op<Fs, R27> {
    op(format!("hold a writer of {}", key), move |h: &Fs| {
        let mut x = Held::default();
        let r = h.set(key, |mut w| {
            x.present = true;
            point(&format!("opened{}", tag));
            x.orphan = links(w.get_ref()) == 0;
            x.raw.push(raw_file(h, key));
            x.done.push(vec![]);
            let n = content.len() / 2;
            w.write_all(&content[..n])?;
            w.flush()?;
            point(&format!("mid{}", tag));
            x.raw.push(raw_file(h, key));
            x.done.push(content[..n].to_vec());
            w.write_all(&content[n..])?;
            w.flush()?;
            point(&format!("release{}", tag));
            x.raw.push(raw_file(h, key));
            x.done.push(content.clone());
            Ok(())
        });
        x.seen = content.clone();
        x.res = Some(st(r));
        R27::Writer(x)
    })
}

struct Target {
    key: &'static str,
    /// What the hold writes.
    new: Vec<u8>,
    /// Changes of this item that only touch it.
    plain: Vec<Op<Fs, R27>>,
    /// Removals of more than it.
    wide: Vec<Op<Fs, R27>>,
    reads: Vec<Op<Fs, R27>>,
}

fn change(name: &str, f: impl Fn(&Fs) -> io::Result<()> + Send + Sync + 'static) -> Op<Fs, R27> {
    op(name, move |h: &Fs| R27::Change(st(f(h))))
}
fn reading(name: &str, key: &'static str) -> Op<Fs, R27> {
    op(name, move |h: &Fs| {
        R27::Read(st((|| {
            let Some(mut r) = h.get(key)? else { return Ok(None) };
            let mut v = vec![];
            r.read_to_end(&mut v)?;
            Ok(Some(v))
        })()))
    })
}

/// A long chunk, so that reading it takes several transfers.
const LONG: u64 = 12_000;

fn targets() -> (Image, Vec<Target>) {
    let m = M::new(&[40], &[20], "u1");
    let long = M::new(&[LONG], &[LONG as u32], "u1");
    let img = FsB::run(&FsB::empty(), |h| {
        h.create_array("g/a", &m.build()).unwrap();
        h.create_array("l", &long.build()).unwrap();
        h.create_group("g").unwrap();
        <u8 as Elem>::wr(h, "g/a", &m.build(), &[0], &vals::<u8>(0, 20)).unwrap();
        <u8 as Elem>::wr(h, "g/a", &m.build(), &[1], &vals::<u8>(5, 20)).unwrap();
        <u8 as Elem>::wr(h, "l", &long.build(), &[0], &vals::<u8>(0, LONG as usize)).unwrap();
        for k in ["k/x", "k/y"] {
            h.set(k, |mut w| w.write_all(b"old content")).unwrap();
        }
    })
    .1;
    let set = |key: &'static str, n: usize| change(&format!("set {} to {} bytes", key, n), move |h| h.set(key, |mut w| { w.write_all(&vec![b'n'; n])?; w.flush() }));
    let erase = |key: &'static str| change(&format!("erase {}", key), move |h| h.erase(key).map(|_| ()));
    let prefix = |key: &'static str| change(&format!("erase_prefix {}", key), move |h| h.erase_prefix(key).map(|_| ()));
    let remove = |node: &'static str| change(&format!("remove {:?}", node), move |h| h.remove(node));
    let mm = m.clone();
    let wc = |id: u64| {
        let m = mm.clone();
        change(&format!("write_chunk {}", id), move |h| <u8 as Elem>::wr(h, "g/a", &m.build(), &[0], &vals::<u8>(id, 20)))
    };
    let nd = {
        let m = mm.clone();
        change("write_ndarray", move |h| {
            let a = ndarray::ArrayD::from_shape_vec(vec![20], vals::<u8>(4, 20)).unwrap();
            <u8 as Elem>::nd_wr(h, "g/a", &m.build(), &[0], a.view())
        })
    };
    let del = {
        let m = mm.clone();
        change("delete_chunk", move |h| h.delete_chunk("g/a", &m.build(), &[0]).map(|_| ()))
    };
    let rd = {
        let m = mm.clone();
        op("read_chunk", move |h: &Fs| R27::Read(st(<u8 as Elem>::rd(h, "g/a", &m.build(), &[0])).map(|r| r.map(|r| r.1))))
    };
    let (lw, ld) = (long.clone(), long.clone());
    let all = || change("remove_all", |h| h.remove_all());
    (
        img,
        vec![
            Target {
                key: "data/root/g/a/c0",
                new: vals::<u8>(3, 20),
                plain: vec![wc(1), nd, del, set("data/root/g/a/c0", 30), set("data/root/g/a/c0", 2), erase("data/root/g/a/c0")],
                wide: vec![prefix("data/root/g/a"), prefix("data"), remove("g/a"), remove("g"), all()],
                reads: vec![rd, reading("get", "data/root/g/a/c0")],
            },
            Target {
                key: "data/root/l/c0",
                new: vals::<u8>(3, LONG as usize),
                plain: vec![
                    change("write_chunk", move |h| <u8 as Elem>::wr(h, "l", &lw.build(), &[0], &vals::<u8>(1, LONG as usize))),
                    change("delete_chunk", move |h| h.delete_chunk("l", &ld.build(), &[0]).map(|_| ())),
                ],
                wide: vec![remove("l")],
                reads: vec![reading("get", "data/root/l/c0")],
            },
            Target {
                key: "meta/root/g/a.array.json",
                new: serde_json::to_vec(&m.build()).unwrap(),
                plain: vec![
                    change("set_attribute", |h| h.set_attribute("g/a", "k".into(), 1)),
                    erase("meta/root/g/a.array.json"),
                    set("meta/root/g/a.array.json", 4),
                ],
                wide: vec![remove("g/a"), remove("g"), prefix("meta/root/g"), all()],
                reads: vec![op("list_attributes", |h: &Fs| {
                    let _ = h.list_attributes("g/a");
                    R27::Read(Ok(None))
                })],
            },
            Target {
                key: "meta/root/g.group.json",
                new: serde_json::to_vec(&json!({"attributes": {"z": 1}})).unwrap(),
                plain: vec![change("set_attribute", |h| h.set_attribute("g", "k".into(), 1))],
                wide: vec![remove("g"), all()],
                reads: vec![],
            },
            Target {
                key: "k/x",
                new: b"a new content".to_vec(),
                plain: vec![set("k/x", 3), set("k/x", 20), erase("k/x")],
                wide: vec![prefix("k"), prefix("k/")],
                reads: vec![reading("get", "k/x")],
            },
        ],
    )
}

fn judge27(x: &Exec<R27>, key: &str, old: &[u8], wide: bool) -> CaseResult {
    use crate::sys::Kind;
    let item = format!("/{}", key);
    // it took effect before that time
    let effect = |t: usize, by: u64| {
        x.steps().any(|s| {
            s.tid == t
                && s.at < by
                && matches!(s.call.kind, Kind::Trunc | Kind::Write | Kind::Unlink | Kind::Rename)
                && (s.call.path.ends_with(&item) || s.call.path2.ends_with(&item))
        })
    };
    for o in &x.ops {
        let t = o.thread;
        let (held, reader) = match o.res.as_ref().unwrap() {
            R27::Reader(h) => (h, true),
            R27::Writer(h) => (h, false),
            R27::Change(Err(e)) if !wide => return Err(format!("the change in thread {} fails: {}", t, e)),
            R27::Read(Err(e)) if !x.ops.iter().any(|p| matches!(p.res, Ok(R27::Writer(_) | R27::Change(_)))) => return Err(format!("a read in thread {} fails: {}", t, e)),
            _ => continue,
        };
        if let (Some(Err(e)), false) = (&held.res, wide) {
            return Err(format!("the {} in thread {} fails: {}", if reader { "reader" } else { "writer" }, t, e));
        }
        if !held.present || held.raw.len() < 3 {
            continue;
        }
        if reader {
            // complete content of one state
            let mut ok = held.seen == old;
            for p in &x.ops {
                match p.res.as_ref().unwrap() {
                    R27::Change(_) => ok |= p.start < o.end && held.raw[0].as_ref() == Some(&held.seen),
                    R27::Writer(w) => ok |= p.start < o.end && w.seen == held.seen,
                    _ => {}
                }
            }
            if !ok {
                return Err(format!("the reader in thread {} sees {:?}", t, String::from_utf8_lossy(&held.seen[..held.seen.len().min(200)])));
            }
        }
        if held.orphan {
            // removed before the hold began
            continue;
        }
        for (i, r) in held.raw.iter().enumerate() {
            let want = if reader { Some(&held.seen) } else { Some(&held.done[i]) };
            if r.as_ref() != want {
                return Err(format!(
                    "at event {} of the {} in thread {} the item holds {:?} instead of {:?}",
                    i,
                    if reader { "reader" } else { "writer" },
                    t,
                    r.as_ref().map(|b| trunc(&String::from_utf8_lossy(b), 60)),
                    want.map(|b| trunc(&String::from_utf8_lossy(b), 60))
                ));
            }
        }
        let (a, b) = (x.point(&format!("opened{}", t)).unwrap(), x.point(&format!("release{}", t)).unwrap());
        for p in &x.ops {
            let changes = matches!(p.res.as_ref().unwrap(), R27::Change(_) | R27::Writer(_)) || !reader && matches!(p.res.as_ref().unwrap(), R27::Reader(_));
            if p.thread != t && changes && p.end > a && p.end < b && (p.start > a || !effect(p.thread, a)) {
                return Err(format!("the operation of thread {} returns while the {} in thread {} is still held", p.thread, if reader { "reader" } else { "writer" }, t));
            }
        }
    }
    // readers do not wait for each other
    let is_reader = |t: usize| x.ops.iter().filter(|o| o.thread == t).all(|o| matches!(o.res, Ok(R27::Reader(_) | R27::Read(_))));
    if let Some((a, b)) = x.waits.iter().find(|(a, b)| is_reader(*a) && is_reader(*b)) {
        return Err(format!("the reader in thread {} waits for the reader in thread {}", a, b));
    }
    Ok(true)
}

pub fn c27(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per schedule: a reader or writer held open on a chunk, document or key against every kind of overwrite, deletion and removal by another thread (and two holds at once), under every order of their calls on the real file system; the item's bytes are looked at when the hold begins, in the middle and when it ends, and the other operation must not return in between; pairs of removals and of readers for deadlock");
    ctx.assume("a system call is atomic; an item that was removed before the lock was granted is not held any more");
    let t = ctx.thorough;
    let limit = if t { 500_000 } else { 3_000 };
    let (img, ts) = targets();
    // program, old content, whether directories may go as well
    let mut ps: Vec<(Program<FsB, R27>, &'static str, Vec<u8>, bool)> = vec![];
    for tg in &ts {
        let old = files(&img)[tg.key].clone();
        let mut add = |threads: Vec<Op<Fs, R27>>, wide: bool, shared: bool, bound: Option<usize>| {
            ps.push((Program { name: "held".into(), img: img.clone(), threads: threads.into_iter().map(|o| vec![o]).collect(), shared, bound }, tg.key, old.clone(), wide));
        };
        let (r0, w0) = (hold_reader(tg.key, 0), hold_writer(tg.key, tg.new.clone(), 0));
        let (r1, w1) = (hold_reader(tg.key, 1), hold_writer(tg.key, [&tg.new[..], b"\n"].concat(), 1));
        for (list, wide) in [(&tg.plain, false), (&tg.wide, true)] {
            for c in list.iter() {
                for shared in [true, false] {
                    add(vec![r0.clone(), c.clone()], wide, shared, None);
                    add(vec![w0.clone(), c.clone()], wide, shared, None);
                }
                add(vec![r0.clone(), r1.clone(), c.clone()], wide, true, Some(if t { 4 } else { 1 }));
                add(vec![r0.clone(), w1.clone(), c.clone()], wide, true, Some(if t { 3 } else { 1 }));
                for r in &tg.reads {
                    add(vec![r0.clone(), c.clone(), r.clone()], wide, true, Some(if t { 4 } else { 1 }));
                }
            }
        }
        for shared in [true, false] {
            add(vec![r0.clone(), r1.clone()], false, shared, None);
            add(vec![r0.clone(), w1.clone()], false, shared, None);
            add(vec![w0.clone(), w1.clone()], false, shared, None);
            for r in &tg.reads {
                add(vec![r0.clone(), r.clone()], false, shared, None);
                add(vec![w0.clone(), r.clone()], false, shared, None);
            }
        }
    }
    // nothing waits for ever, whatever is removed at the same time
    let all: Vec<Op<Fs, R27>> = ts[0].plain[..3].iter().chain(&ts[0].wide).chain(&ts[2].plain[..1]).chain(&ts[4].wide[..1]).cloned().collect();
    for (i, a) in all.iter().enumerate() {
        for b in &all[i..] {
            ps.push((Program { name: "together".into(), img: img.clone(), threads: vec![vec![a.clone()], vec![b.clone()]], shared: true, bound: Some(if t { 6 } else { 2 }) }, "", vec![], true));
        }
    }
    refused_locks(ctx, &img, &ts);
    ctx.par(&ps, |(p, key, old, wide)| explore_schedules(ctx, p, limit, &|x| if p.name == "together" { Ok(true) } else { judge27(x, key, old, *wide) }));
    ("model_checking", true)
}

/// A change whose locks can not be had, while a reader is held in the same thread.
fn refused_locks(ctx: &Ctx, img: &Image, ts: &[Target]) {
    use crate::sys::{Act, Call, Hook, Kind};
    /// Locks from the `from`th on are refused; `only` that one.
    struct NoLock {
        at: usize,
        only: bool,
        err: i32,
        seen: std::cell::Cell<usize>,
    }
    impl Hook for NoLock {
        fn pre(&self, c: &Call) -> Act {
            if c.kind != Kind::Flock || c.flags & libc::LOCK_UN != 0 {
                return Act::Go;
            }
            let n = self.seen.get();
            self.seen.set(n + 1);
            if n == self.at || n > self.at && !self.only { Act::Fail(self.err) } else { Act::Go }
        }
        fn post(&self, _: &Call, _: i64, _: i32) {}
    }
    let mut items = vec![];
    for tg in ts {
        for c in tg.plain.iter().chain(&tg.wide) {
            for err in [libc::ENOLCK, libc::EIO, libc::EBADF, libc::EINTR] {
                for at in 0..6 {
                    for only in [true, false] {
                        if err == libc::EINTR && !only {
                            continue;
                        }
                        items.push((tg.key, c.clone(), err, at, only));
                    }
                }
            }
        }
    }
    ctx.par(&items, |(key, c, err, at, only)| {
        ctx.case(format!("refused locks: {} while {} is read, locks {}{} give error {}", c.name, key, at, if *only { "" } else { " and on" }, err), || {
            let d = Dir::new();
            restore(&d, img);
            let h = d.open();
            let mut r = match h.get(key) {
                Ok(Some(r)) => r,
                _ => return Err("get finds nothing".into()),
            };
            let k = NoLock { at: *at, only: *only, err: *err, seen: Default::default() };
            let res = match crate::sys::with_hook(&k, || (c.f)(&h)) {
                R27::Change(r) => r,
                _ => return Ok(false),
            };
            let after = d.bytes(key);
            let mut v = vec![];
            let got = r.read_to_end(&mut v).ok().map(|_| v);
            let old = files(img)[*key].clone();
            if k.seen.get() <= *at {
                return Ok(false);
            }
            ctx.transitions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if res.is_ok() {
                return Err("the change returns success while the reader is open".into());
            }
            if after.as_ref() != Some(&old) {
                return Err(format!("the change fails and the item is changed under the reader: {:?} bytes", after.map(|b| b.len())));
            }
            if got.as_ref() != Some(&old) {
                return Err("the reader does not get the content it opened".into());
            }
            Ok(true)
        });
    });
}
