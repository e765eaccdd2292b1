//! C33: the build with the pure-Rust LZ4 codec, run as a second process, against this build.
use crate::eng::{guard, trunc, Ctx};
use crate::hist::{Back, FsB, MemB};
use crate::util::*;
use crate::with_elem;
use std::io::{self, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;
use zarr::storage::*;

const KEY: &str = "data/root/a/c0";

/// What is asked of a build: store elements, or read stored bytes.
#[derive(Clone)]
struct Ask {
    fs: bool,
    e: &'static str,
    big: bool,
    set: Option<i64>,
    n: usize,
    /// Chunk position and the chunks of the array.
    body: Body,
}
#[derive(Clone)]
enum Body {
    /// Elements, as little endian bytes.
    Write(Vec<u8>),
    /// Stored bytes; `true` reads a region of the middle instead of the chunk.
    Read(Vec<u8>, bool),
}

/// What a build answers.
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Bytes(Vec<u8>),
    Elems(Vec<u8>),
    Refused(String),
    Panicked(String),
}
impl Ans {
    fn show(&self) -> String {
        match self {
            Ans::Bytes(b) => format!("{} bytes stored", b.len()),
            Ans::Elems(b) => format!("{} bytes of elements", b.len()),
            Ans::Refused(s) => format!("refused: {}", s),
            Ans::Panicked(s) => format!("panic: {}", s),
        }
    }
}

fn unpack<T: Elem>(b: &[u8]) -> Vec<T> {
    b.chunks(T::SIZE)
        .map(|c| {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            T::fb(u64::from_le_bytes(x))
        })
        .collect()
}

fn answer_on<B: Back>(a: &Ask) -> Ans {
    let dt = if esize(a.e) == 1 { a.e.to_string() } else { format!("{}{}", if a.big { '>' } else { '<' }, a.e) };
    let fill = match a.e {
        "bool" => serde_json::json!(false),
        "f2" | "f4" | "f8" => serde_json::json!(0.0),
        _ => serde_json::json!(0),
    };
    let m = M::new(&[a.n as u64], &[a.n as u32], &dt).codec(&Codec::new("lz4", a.set)).fill(fill).build();
    let r = guard(|| {
        B::run(&B::empty(), |h| {
            with_elem!(a.e, T => match &a.body {
                Body::Write(d) => match T::wr(h, "a", &m, &[0], &unpack::<T>(d)) {
                    Err(e) => Ans::Refused(e.to_string()),
                    Ok(()) => {
                        let mut v = vec![];
                        match h.get(KEY) {
                            Ok(Some(mut r)) => match r.read_to_end(&mut v) {
                                Ok(_) => Ans::Bytes(v),
                                Err(e) => Ans::Refused(e.to_string()),
                            },
                            _ => Ans::Refused("nothing is stored".into()),
                        }
                    }
                },
                Body::Read(s, region) => {
                    let put = h.set(KEY, |mut w| { w.write_all(s)?; w.flush() });
                    if let Err(e) = put {
                        return Ans::Refused(format!("setup: {}", e));
                    }
                    let r: io::Result<Option<Vec<T>>> = if *region {
                        let (o, l) = (a.n / 3, a.n - a.n / 3 - a.n / 5);
                        T::nd_rd(h, "a", &m, &zarr::ndarray::BoundingBox::new(gc(&[o as u64]), gc(&[l as u64])))
                            .map(|x| Some(x.iter().copied().collect()))
                    } else {
                        T::rd(h, "a", &m, &[0]).map(|x| x.map(|x| x.1))
                    };
                    match r {
                        Err(e) => Ans::Refused(e.to_string()),
                        Ok(None) => Ans::Refused("no chunk".into()),
                        Ok(Some(v)) => Ans::Elems(encode(&v, false)),
                    }
                }
            })
        })
        .0
    });
    match r {
        Ok(a) => a,
        Err(p) => Ans::Panicked(p),
    }
}

fn answer(a: &Ask) -> Ans {
    if a.fs { answer_on::<FsB>(a) } else { answer_on::<MemB>(a) }
}

// ---------------------------------------------------------------- transfer

fn put<W: Write>(w: &mut W, b: &[u8]) -> io::Result<()> {
    w.write_all(&(b.len() as u64).to_le_bytes())?;
    w.write_all(b)
}
fn take<R: Read>(r: &mut R) -> io::Result<Vec<u8>> {
    let mut n = [0u8; 8];
    r.read_exact(&mut n)?;
    let mut v = vec![0u8; u64::from_le_bytes(n) as usize];
    r.read_exact(&mut v)?;
    Ok(v)
}

/// Answer questions until the input ends.
pub fn serve() {
    let mut i = io::stdin().lock();
    let mut o = io::BufWriter::new(io::stdout().lock());
    while let Ok(head) = take(&mut i) {
        let head: serde_json::Value = serde_json::from_slice(&head).unwrap();
        for _ in 0..head["times"].as_u64().unwrap() {
        let data = take(&mut i).unwrap();
        let a = Ask {
            fs: head["fs"] == true,
            e: ETYPES.iter().find(|e| head["e"] == **e).unwrap(),
            big: head["big"] == true,
            set: head["set"].as_i64(),
            n: head["n"].as_u64().unwrap() as usize,
            body: match head["do"].as_str() {
                Some("write") => Body::Write(data),
                Some("region") => Body::Read(data, true),
                _ => Body::Read(data, false),
            },
        };
        let (k, v) = match answer(&a) {
            Ans::Bytes(b) => ("b", b),
            Ans::Elems(b) => ("e", b),
            Ans::Refused(s) => ("r", s.into_bytes()),
            Ans::Panicked(s) => ("p", s.into_bytes()),
        };
        put(&mut o, k.as_bytes()).unwrap();
        put(&mut o, &v).unwrap();
        }
        o.flush().unwrap();
    }
}

struct Server {
    child: Child,
    i: ChildStdin,
    o: ChildStdout,
}
struct Pool(Mutex<Vec<Server>>, String);
impl Pool {
    fn ask(&self, a: &Ask) -> Result<Ans, String> {
        let (region, data) = match &a.body {
            Body::Write(d) => (None, d),
            Body::Read(d, r) => (Some(*r), d),
        };
        Ok(self.ask_all(a, region, &[data])?.remove(0))
    }
    /// The same question about each of these data.
    fn ask_all(&self, a: &Ask, region: Option<bool>, all: &[&Vec<u8>]) -> Result<Vec<Ans>, String> {
        let s = self.0.lock().unwrap().pop();
        let mut s = match s {
            Some(s) => s,
            None => {
                let mut child = Command::new(&self.1)
                    .arg(Dir::new().top())
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .spawn()
                    .map_err(|e| format!("the other build can not be started: {}", e))?;
                let (i, o) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
                Server { child, i, o }
            }
        };
        let what = match region {
            None => "write",
            Some(true) => "region",
            Some(false) => "read",
        };
        let head = serde_json::json!({"fs": a.fs, "e": a.e, "big": a.big, "set": a.set, "n": a.n, "do": what, "times": all.len()});
        let mut talk = || -> io::Result<Vec<Ans>> {
            let (i, o) = (&mut s.i, &mut s.o);
            std::thread::scope(|sc| {
                let send = move || {
                    let mut w = io::BufWriter::new(i);
                    put(&mut w, head.to_string().as_bytes())?;
                    for d in all {
                        put(&mut w, d)?;
                    }
                    w.flush()
                };
                let t = if all.len() > 1 {
                    Some(sc.spawn(send))
                } else {
                    send()?;
                    None
                };
                let mut o = io::BufReader::new(o);
                let mut v = vec![];
                for _ in all {
                    let k = take(&mut o)?;
                    let x = take(&mut o)?;
                    let text = || String::from_utf8_lossy(&x).to_string();
                    v.push(match &k[..] {
                        b"b" => Ans::Bytes(x),
                        b"e" => Ans::Elems(x),
                        b"r" => Ans::Refused(text()),
                        _ => Ans::Panicked(text()),
                    });
                }
                if let Some(t) = t {
                    t.join().unwrap()?;
                }
                Ok(v)
            })
        };
        match talk() {
            Ok(r) => {
                self.0.lock().unwrap().push(s);
                Ok(r)
            }
            Err(_) => {
                let _ = s.child.kill();
                let st = s.child.wait();
                Err(format!("the process ended: {:?}", st))
            }
        }
    }
}

// ------------------------------------------------------------------ checks

struct Item {
    fs: bool,
    e: &'static str,
    big: bool,
    set: Option<i64>,
    n: usize,
    kind: &'static str,
    damage: bool,
}

fn elems(e: &str, kind: &str, n: usize) -> Vec<u8> {
    with_elem!(e, T => encode(&content::<T>(kind, n), false))
}
fn swap(b: &[u8], size: usize) -> Vec<u8> {
    b.chunks(size).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect()
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("{} and {} bytes, differing from byte {}", a.len(), b.len(), i),
        None => format!("{} and {} bytes", a.len(), b.len()),
    }
}

fn run(ctx: &Ctx, pool: &Pool, it: &Item) {
    let d = elems(it.e, it.kind, it.n);
    let plain = if it.big { swap(&d, esize(it.e)) } else { d.clone() };
    let name = format!(
        "{}{}{} blockSize {:?} {} elements of {}",
        if it.fs { "fs " } else { "" },
        if esize(it.e) == 1 { "" } else if it.big { ">" } else { "<" },
        it.e,
        it.set,
        it.n,
        it.kind
    );
    let ask = |body: Body| Ask { fs: it.fs, e: it.e, big: it.big, set: it.set, n: it.n, body };
    let expect = |who: &str, r: Ans| match r {
        Ans::Elems(x) if x == d => Ok(()),
        Ans::Elems(x) => Err(format!("{} gives other elements: {}", who, first_diff(&d, &x))),
        r => Err(format!("{}: {}", who, r.show())),
    };
    ctx.states.fetch_add(1, Relaxed);
    let mut stored: Vec<(&str, Vec<u8>)> = vec![];
    ctx.case(format!("{}: stored by the pure build", name), || {
        let p = match pool.ask(&ask(Body::Write(d.clone())))? {
            Ans::Bytes(b) => b,
            r => return Err(r.show()),
        };
        ctx.transitions.fetch_add(3, Relaxed);
        match ref_decompress("lz4", &p) {
            Ok((x, 0)) if x == plain => {}
            Ok((x, 0)) => return Err(format!("the stored stream stands for other bytes: {}", first_diff(&plain, &x))),
            Ok((_, k)) => return Err(format!("{} bytes follow the stream", k)),
            Err(e) => return Err(format!("the stored bytes are no stream: {}", e)),
        }
        // the frame names the block size that was set
        if let Some(i) = [65536i64, 262144, 1 << 20, 4 << 20].iter().position(|s| Some(*s) == it.set) {
            if p[5] >> 4 & 7 != 4 + i as u8 {
                return Err(format!("the frame's block size class is {}, not {}", p[5] >> 4 & 7, 4 + i));
            }
        }
        expect("read by the pure build", pool.ask(&ask(Body::Read(p.clone(), false)))?)?;
        expect("read by the native build", answer(&ask(Body::Read(p.clone(), false))))?;
        stored.push(("pure", p));
        Ok(true)
    });
    ctx.case(format!("{}: stored by the native build", name), || {
        let p = match answer(&ask(Body::Write(d.clone()))) {
            Ans::Bytes(b) => b,
            r => return Err(r.show()),
        };
        ctx.transitions.fetch_add(2, Relaxed);
        expect("read by the pure build", pool.ask(&ask(Body::Read(p.clone(), false)))?)?;
        let a = pool.ask(&ask(Body::Read(p.clone(), true)))?;
        let b = answer(&ask(Body::Read(p.clone(), true)));
        if a != b || !matches!(a, Ans::Elems(_)) {
            return Err(format!("a region: pure {}, native {}", a.show(), b.show()));
        }
        stored.push(("native", p));
        Ok(true)
    });
    if it.damage && ctx.replaying() && stored.is_empty() {
        if let Ok(Ans::Bytes(p)) = pool.ask(&ask(Body::Write(d.clone()))) {
            stored.push(("pure", p));
        }
        if let Ans::Bytes(p) = answer(&ask(Body::Write(d.clone()))) {
            stored.push(("native", p));
        }
    }
    if !it.damage {
        return;
    }
    for (who, s) in &stored {
        let mut todo: Vec<(String, Vec<u8>, bool)> = vec![];
        let len = s.len();
        let few = |i: usize| ctx.thorough || len <= 1200 || i < 300 || i + 300 >= len || i % 331 == 0;
        for k in (0..len).filter(|k| few(*k)) {
            todo.push((format!("cut to {} of {} bytes", k, len), s[..k].to_vec(), true));
        }
        let all = len <= if ctx.thorough { 600 } else { 80 };
        for i in (0..len).filter(|i| few(*i)) {
            if ctx.stopped() {
                return;
            }
            for x in 1..=255u8 {
                if all || x.count_ones() == 1 || x == 0xff || x == s[i] {
                    let mut b = s.clone();
                    b[i] ^= x;
                    todo.push((format!("byte {} of {} is {:02x}", i, len, b[i]), b, false));
                }
            }
        }
        for k in [2usize, 4, 16, 512] {
            for i in 0..len.saturating_sub(k - 1) {
                if !ctx.thorough && i % (1 + len / 100) != 0 {
                    continue;
                }
                let mut b = s.clone();
                b.drain(i..i + k);
                todo.push((format!("bytes {}-{} of {} are missing", i, i + k - 1, len), b.clone(), false));
                for fill in [0u8, 0xff] {
                    let mut b = s.clone();
                    b[i..i + k].fill(fill);
                    todo.push((format!("bytes {}-{} of {} are {:02x}", i, i + k - 1, len, fill), b, false));
                }
            }
        }
        let judge = |a: &Ans, must: bool, region: bool| match a {
            Ans::Refused(r) if r != "no chunk" => Ok(true),
            Ans::Elems(_) if !must => Ok(true),
            r => Err(format!("read by the pure build{}: {}", if region { " as a region" } else { "" }, trunc(&r.show(), 300))),
        };
        for part in todo.chunks(128) {
            for region in [false, true] {
                if ctx.stopped() {
                    return;
                }
                let all: Vec<&Vec<u8>> = part.iter().map(|x| &x.1).collect();
                // a process that ends is asked again about each one alone
                let ans = if ctx.replaying() { None } else { pool.ask_all(&ask(Body::Write(vec![])), Some(region), &all).ok() };
                ctx.transitions.fetch_add(all.len() as u64, Relaxed);
                for (i, (what, b, must)) in part.iter().enumerate() {
                    ctx.case(format!("{}: stored by the {} build, {}{}", name, who, what, if region { ", a region" } else { "" }), || match &ans {
                        Some(v) => judge(&v[i], *must, region),
                        None => judge(&pool.ask(&ask(Body::Read(b.clone(), region)))?, *must, region),
                    });
                }
            }
        }
    }
}

pub fn c33(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("one case per (element type and byte order, block size setting, size, content, store): the chunk is stored by each build, read back by both, and its stream decoded by the reference library; every truncation of stored streams must be refused by the pure build and no damage (all values of every byte of short streams, all bits of others, stretches lost, zeroed or set) may make it panic");
    ctx.assume("damage that leaves a well-formed stream without a content checksum may go unnoticed");
    let pure = match std::env::var("ZMC_PURE") {
        Ok(p) => p,
        Err(_) => {
            ctx.violation("setup", "ZMC_PURE does not name the other build");
            return ("exploration", false);
        }
    };
    let pool = Pool(Mutex::new(vec![]), pure);
    let t = ctx.thorough;
    let mut items = vec![];
    let dts: Vec<(&'static str, bool)> = ETYPES.iter().flat_map(|e| if esize(e) == 1 { vec![(*e, false)] } else { vec![(*e, false), (*e, true)] }).collect();
    const KINDS: [&str; 7] = ["zero", "ones", "count", "mix", "special", "runs", "all16"];
    for (e, big) in &dts {
        let add = |items: &mut Vec<Item>, set, n, kind, fs, damage| items.push(Item { fs, e, big: *big, set, n, kind, damage });
        for kind in KINDS {
            // every small size, and sizes in bytes around those of blocks
            for n in 1..=if t { 300 } else { 40 } {
                add(&mut items, None, n, kind, n % 9 == 1, (t && n <= 9 || n == 3 || n == 5) && matches!(kind, "count" | "zero"));
            }
            for at in [256usize, 4096, 8192, 32768, 65536, 131072, 196608] {
                let m = at / esize(e);
                for n in [m - 1, m, m + 1] {
                    add(&mut items, None, n, kind, false, false);
                }
            }
        }
        let sets: &[i64] = &[i32::MIN as i64, -1, 0, 1, 65535, 65536, 65537, 262144, 262145, 1 << 20, (1 << 20) + 1, 4 << 20, (4 << 20) + 1, i32::MAX as i64];
        for s in sets {
            for kind in ["mix", "runs"] {
                for bytes in [40usize, 65536, 65544, 262144, 262152] {
                    add(&mut items, Some(*s), bytes / esize(e), kind, false, false);
                }
            }
        }
    }
    let mut big = vec![];
    for (e, at) in [("u1", 1usize << 20), ("f8", 1 << 20), ("u2", 4 << 20), ("u1", 4 << 20)] {
        for set in [None, Some(262144i64), Some(1 << 20), Some(4 << 20)] {
            for kind in if t { &KINDS[..] } else { &["mix", "runs"][..] } {
                for d in [-1i64, 0, 1] {
                    big.push(Item { fs: false, e, big: e == "u2", set, n: (at / esize(e)).wrapping_add(d as usize), kind, damage: false });
                }
            }
        }
    }
    // streams of several blocks and of every kind, damaged
    for (e, n) in [("u1", 100usize), ("u2", 64), ("i4", 300), ("u1", 1000), ("u1", 65536 + 200)] {
        for kind in ["mix", "runs", "all16"] {
            items.push(Item { fs: false, e, big: false, set: None, n, kind, damage: true });
        }
    }
    big.extend(items);
    ctx.par(&big, |it| run(ctx, &pool, it));
    for s in pool.0.lock().unwrap().iter_mut() {
        let _ = s.child.kill();
        let _ = s.child.wait();
    }
    ("exploration", true)
}
