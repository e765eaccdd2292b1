//! C34: builds with other features, run as further processes, on the same hierarchies.
use crate::eng::{trunc, Ctx};
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{self, BufRead, BufReader, Write};
use std::process::{Child, ChildStdout, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;

#[path = "../../mini/src/serve.rs"]
mod serve;
use serve::{hex, unhex};

struct Server {
    child: Child,
    o: BufReader<ChildStdout>,
}
/// A build and the codecs it has.
struct Build {
    name: &'static str,
    has: &'static [&'static str],
    exe: Option<String>,
    idle: Mutex<Vec<Server>>,
}
impl Build {
    fn ask(&self, dir: &str, todo: &[Value]) -> Result<Vec<Value>, String> {
        let q = json!({"dir": dir, "do": todo});
        let exe = match &self.exe {
            None => return Ok(serve::answer_all(&q).as_array().unwrap().clone()),
            Some(e) => e,
        };
        let s = self.idle.lock().unwrap().pop();
        let mut s = match s {
            Some(s) => s,
            None => {
                let mut child = Command::new(exe)
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .spawn()
                    .map_err(|e| format!("the {} build can not be started: {}", self.name, e))?;
                let o = BufReader::new(child.stdout.take().unwrap());
                Server { child, o }
            }
        };
        let mut talk = || -> io::Result<Vec<Value>> {
            let mut i = s.child.stdin.as_ref().unwrap();
            i.write_all(format!("{}\n", q).as_bytes())?;
            let mut l = String::new();
            s.o.read_line(&mut l)?;
            Ok(serde_json::from_str::<Vec<Value>>(&l)?)
        };
        match talk() {
            Ok(v) => {
                self.idle.lock().unwrap().push(s);
                Ok(v)
            }
            Err(_) => {
                let _ = s.child.kill();
                Err(format!("the process of the {} build ended: {:?}", self.name, s.child.wait()))
            }
        }
    }
    fn knows(&self, codec: &str) -> bool {
        self.has.contains(&codec)
    }
}

fn ok(v: &Value) -> bool {
    v.get("ok").is_some()
}
fn refused(v: &Value) -> bool {
    v.get("err").is_some()
}
/// Equal answers; the text of an error is not compared.
fn same(a: &Value, b: &Value) -> bool {
    a == b || refused(a) && refused(b)
}
fn meta(codec: &Codec, e: &str, big: bool, shape: u64, chunk: u32) -> Value {
    let dt = if esize(e) == 1 { e.to_string() } else { format!("{}{}", if big { '>' } else { '<' }, e) };
    let fill = match e {
        "bool" => json!(false),
        "f2" | "f4" | "f8" => json!(0.0),
        _ => json!(0),
    };
    M::new(&[shape], &[chunk], &dt).codec(codec).fill(fill).json()
}

fn names(ctx: &Ctx, all: &[Build]) {
    let mut forms: Vec<(String, Option<&str>)> = vec![];
    for c in CODECS {
        for f in [c.to_string(), c.to_uppercase(), c[..1].to_uppercase() + &c[1..]] {
            forms.push((f, Some(c)));
        }
        for f in [format!("{}x", c), format!(" {}", c), c[1..].to_string()] {
            forms.push((f, None));
        }
    }
    forms.extend(["", "zstd", "blosc", GZIP].map(|s| (s.to_string(), None)));
    for b in all {
        for (f, c) in &forms {
            ctx.case(format!("names: {:?} in the {} build", f, b.name), || {
                let q = [json!({"op": "codec", "name": f})];
                let r = b.ask("/nowhere", &q)?.remove(0);
                match c {
                    Some(c) if b.knows(c) => {
                        let w = all[0].ask("/nowhere", &q)?.remove(0);
                        if r != w || !ok(&r) {
                            return Err(format!("is {}, in the full build {}", r, w));
                        }
                    }
                    _ if !refused(&r) => return Err(format!("gives {}", r)),
                    _ => {}
                }
                Ok(true)
            });
        }
    }
}

/// Every ordered pair of builds: what one stores, the other reads.
fn pairs(ctx: &Ctx, all: &[Build], c: &Codec, e: &'static str, big: bool, n: usize, kind: &str, damage: bool) {
    let data = crate::with_elem!(e, T => encode(&content::<T>(kind, n), false));
    let name = format!("pairs: {} {}{} {} elements of {}", c.show(), if big { ">" } else { "<" }, e, n, kind);
    let write = [
        json!({"op": "init"}),
        json!({"op": "create", "path": "a", "meta": meta(c, e, big, n as u64, n as u32)}),
        json!({"op": "write", "path": "a", "pos": [0], "e": e, "data": hex(&data)}),
    ];
    let read = json!({"op": "read", "path": "a", "pos": [0], "e": e});
    let look = [json!({"op": "meta", "path": "a"}), read.clone()];
    let want = meta(c, e, big, n as u64, n as u32);
    for a in all {
        let d = Dir::new();
        let top = d.top().join("h").to_str().unwrap().to_string();
        let mut stored = None;
        ctx.case(format!("{}: stored by the {} build", name, a.name), || {
            let r = a.ask(&top, &write)?;
            ctx.transitions.fetch_add(3, Relaxed);
            if !a.knows(c.name) {
                return if ok(&r[0]) && refused(&r[1]) && refused(&r[2]) && !d.top().join("h/meta/root").exists() && !d.top().join("h/data").exists() {
                    Ok(true)
                } else {
                    Err(format!("a build without the codec gives {:?}", r))
                };
            }
            if !r.iter().all(ok) {
                return Err(format!("{:?}", r));
            }
            stored = std::fs::read(d.top().join("h/data/root/a/c0")).ok();
            match &stored {
                None => return Err("nothing is stored".into()),
                Some(s) => match ref_decompress(c.name, s) {
                    Ok((x, 0)) if x.len() == data.len() && (big || x == data) => {}
                    _ => return Err("what is stored is no stream of the codec for these elements".into()),
                },
            }
            Ok(true)
        });
        if stored.is_none() && ctx.replaying() {
            let _ = a.ask(&top, &write);
            stored = std::fs::read(d.top().join("h/data/root/a/c0")).ok();
        }
        let s = match stored {
            Some(s) => s,
            None => continue,
        };
        for b in all {
            ctx.states.fetch_add(1, Relaxed);
            ctx.case(format!("{}: stored by the {} build, read by the {} build", name, a.name, b.name), || {
                let r = b.ask(&top, &look)?;
                ctx.transitions.fetch_add(2, Relaxed);
                if !b.knows(c.name) {
                    return if r.iter().all(refused) { Ok(true) } else { Err(format!("a build without the codec gives {}", trunc(&format!("{:?}", r), 300))) };
                }
                if c.set.is_some() || c.name == "raw" {
                    let m = &r[0]["ok"];
                    for k in ["compressor", "shape", "data_type", "fill_value"] {
                        if m[k] != want[k] && !(m.get(k).is_none() && c.name == "raw") {
                            return Err(format!("the metadata has {} {}", k, m[k]));
                        }
                    }
                }
                match &r[1]["ok"] {
                    Value::String(x) if unhex(x) == data => Ok(true),
                    _ => Err(trunc(&r[1].to_string(), 300)),
                }
            });
        }
        if !damage {
            continue;
        }
        let f = d.top().join("h/data/root/a/c0");
        let mut todo: Vec<(String, Vec<u8>, bool)> = vec![];
        for k in 0..s.len() {
            todo.push((format!("cut to {} of {} bytes", k, s.len()), s[..k].to_vec(), true));
        }
        for i in 0..s.len() {
            for bit in 0..8 {
                let mut x = s.clone();
                x[i] ^= 1 << bit;
                todo.push((format!("byte {} of {} is {:02x}", i, s.len(), x[i]), x, false));
            }
        }
        for (what, x, must) in &todo {
            if ctx.stopped() {
                return;
            }
            std::fs::write(&f, x).unwrap();
            for b in all.iter().filter(|b| b.knows(c.name)) {
                ctx.case(format!("{}: stored by the {} build, {}, read by the {} build", name, a.name, what, b.name), || {
                    let r = b.ask(&top, std::slice::from_ref(&read))?.remove(0);
                    ctx.transitions.fetch_add(1, Relaxed);
                    // a reader that got everything before the damage may return it
                    let whole = r["ok"].as_str().map_or(false, |x| unhex(x) == data);
                    let checked = matches!(c.name, "gzip" | "bzip2" | "xz");
                    if refused(&r) || whole || (ok(&r) && r["ok"].is_string() && !must && !checked) {
                        Ok(true)
                    } else {
                        Err(trunc(&r.to_string(), 300))
                    }
                });
            }
        }
    }
}

const OPS: [&str; 8] = ["create", "group", "w0", "w1", "d0", "attrs", "remove", "recreate"];
fn op(o: &str, step: usize, c: &Codec) -> Value {
    let data = |k: usize| hex(&(0..3usize).flat_map(|i| ((step * 100 + k * 10 + i + 1) as i32).to_le_bytes()).collect::<Vec<u8>>());
    match o {
        "create" => json!({"op": "create", "path": "g/a", "meta": meta(c, "i4", false, 5, 3)}),
        // another codec, which every build has
        "recreate" => json!({"op": "create", "path": "g/b", "meta": meta(&codec("raw"), "u1", false, 2, 2)}),
        "group" => json!({"op": "group", "path": "g"}),
        "w0" => json!({"op": "write", "path": "g/a", "pos": [0], "e": "i4", "data": data(0)}),
        "w1" => json!({"op": "write", "path": "g/a", "pos": [1], "e": "i4", "data": data(1)}),
        "d0" => json!({"op": "delete", "path": "g/a", "pos": [0]}),
        "attrs" => json!({"op": "attrs", "path": "g/a", "attrs": {format!("k{}", step): step, "k": step}}),
        _ => json!({"op": "remove", "path": "g/a"}),
    }
}
fn needs_codec(o: &str) -> bool {
    matches!(o, "create" | "w0" | "w1" | "d0")
}
fn looks() -> Vec<Value> {
    let mut v = vec![];
    for p in ["", "g", "g/a", "g/b"] {
        for o in ["exists", "is_array", "meta", "attributes"] {
            if (o == "attributes" || o == "meta") && p != "g/a" && p != "g/b" {
                continue;
            }
            v.push(json!({"op": o, "path": p}));
        }
    }
    for p in ["", "g"] {
        v.push(json!({"op": "list", "path": p}));
    }
    for p in 0..2 {
        v.push(json!({"op": "read", "path": "g/a", "pos": [p], "e": "i4"}));
    }
    v
}
/// Files, with documents as values and chunks by name only.
fn content_of(top: &std::path::Path) -> BTreeMap<String, Option<Value>> {
    files(&snapshot(top))
        .into_iter()
        .map(|(k, v)| {
            let doc = if k.ends_with(".json") { Some(serde_json::from_slice(&v).unwrap_or(json!("no document"))) } else { None };
            (k, doc)
        })
        .collect()
}

/// One history, each step done by one of the builds, against the same history done by the full build.
fn history(ctx: &Ctx, all: &[Build], c: &Codec, steps: &[(usize, usize)]) {
    let name = format!("history: {}: {}", c.show(), steps.iter().map(|(o, b)| format!("{} by {}", OPS[*o], all[*b].name)).collect::<Vec<_>>().join(", "));
    ctx.case(name, || {
        let (d, r) = (Dir::new(), Dir::new());
        let (dt, rt) = (d.top().join("h"), r.top().join("h"));
        let (ds, rs) = (dt.to_str().unwrap(), rt.to_str().unwrap());
        let full = &all[0];
        let first = &all[steps[0].1];
        first.ask(ds, &[json!({"op": "init"})])?;
        full.ask(rs, &[json!({"op": "init"})])?;
        for (i, (o, b)) in steps.iter().enumerate() {
            let b = &all[*b];
            let q = op(OPS[*o], i + 1, c);
            let a = b.ask(ds, std::slice::from_ref(&q))?.remove(0);
            ctx.transitions.fetch_add(1, Relaxed);
            if !b.knows(c.name) && refused(&a) && OPS[*o] != "recreate" && OPS[*o] != "group" {
                continue; // and so nothing may have changed
            }
            if !b.knows(c.name) && needs_codec(OPS[*o]) {
                return Err(format!("step {}: a build without the codec gives {}", i + 1, a));
            }
            let w = full.ask(rs, &[q])?.remove(0);
            if !same(&a, &w) {
                return Err(format!("step {} gives {}, in the full build {}", i + 1, a, w));
            }
        }
        let (x, y) = (content_of(&dt), content_of(&rt));
        if x != y {
            return Err(format!("stored: {:?}; by the full build: {:?}", x, y));
        }
        ctx.states.fetch_add(1, Relaxed);
        let qs = looks();
        let w = full.ask(rs, &qs)?;
        for b in all {
            let a = b.ask(ds, &qs)?;
            for ((q, a), w) in qs.iter().zip(&a).zip(&w) {
                ctx.transitions.fetch_add(1, Relaxed);
                let lacks = !b.knows(c.name) && q["path"] == "g/a";
                let good = match q["op"].as_str().unwrap() {
                    "meta" | "read" | "is_array" if lacks && ok(w) && w["ok"] != json!(false) => refused(a),
                    "read" if lacks => refused(a),
                    "attributes" if lacks => refused(a) || same(a, w),
                    _ => same(a, w),
                };
                if !good {
                    return Err(format!("{} in the {} build gives {}, in the full build {}", q, b.name, a, w));
                }
            }
        }
        Ok(true)
    });
}

pub fn c34(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule("builds: with every codec, with none, with the pure-Rust codecs, with bzip2 and xz only; a case per codec name and build; per codec, setting, element type, byte order, size and content the chunk is stored by each build and read by each, and its damaged forms read by each; and per history of operations on one array, with every assignment of its steps to builds, the outcome, the stored documents and what each build then sees are compared with the same history done by the full build");
    let exe = |n: &str| std::env::var("ZMC_MINI").ok().map(|d| format!("{}/{}", d, n));
    if exe("x").is_none() {
        ctx.violation("setup", "ZMC_MINI does not name the other builds");
        return ("exploration", false);
    }
    let build = |name, has, exe| Build { name, has, exe, idle: Mutex::new(vec![]) };
    let all = [
        build("full", &CODECS, None),
        build("bare", &["raw"], exe("bare")),
        build("pure", &["raw", "gzip", "lz4"], exe("pure")),
        build("native", &["raw", "bzip2", "xz"], exe("native")),
    ];
    let t = ctx.thorough;
    names(ctx, &all);
    let mut items = vec![];
    let settings = |c: &str| -> Vec<Option<i64>> {
        match c {
            "raw" => vec![None],
            "gzip" => [None].into_iter().chain((-1..=9).map(Some)).collect(),
            "bzip2" => [None].into_iter().chain((1..=9).map(Some)).collect(),
            "xz" => [None].into_iter().chain((0..=if t { 9 } else { 6 }).map(Some)).collect(),
            _ => vec![None, Some(65536), Some(262144), Some(1 << 20), Some(4 << 20)],
        }
    };
    for c in CODECS {
        let c = CODECS.iter().find(|x| **x == c).unwrap();
        for set in settings(c) {
            let heavy = *c == "xz" || *c == "bzip2";
            for e in ETYPES {
                for big in [false, true] {
                    if esize(e) == 1 && big || (set.is_some() && !matches!(e, "u1" | "u2" | "f8") && !t) {
                        continue;
                    }
                    let sizes: Vec<usize> = if set.is_some() || heavy { vec![1, 7, 300] } else { (1..=if t { 64 } else { 12 }).chain([255, 256, 4096]).collect() };
                    for n in sizes {
                        for kind in ["mix", "runs"] {
                            items.push((Codec::new(c, set), e, big, n, kind, false));
                        }
                    }
                }
            }
            // around what codecs and readers buffer
            for at in [8192usize, 32768, 65536, 131072] {
                for n in [at - 1, at, at + 1] {
                    if t || set.is_none() {
                        for kind in ["mix", "runs", "zero"] {
                            items.push((Codec::new(c, set), "u1", false, n, kind, false));
                        }
                    }
                }
            }
        }
        for (e, n) in [("u1", 24), ("u2", 40)] {
            for kind in ["mix", "runs"] {
                items.push((Codec::new(c, None), e, false, n, kind, *c != "raw"));
            }
        }
    }
    ctx.note("pairs_of_builds", items.len() as u64 * 16);
    ctx.par(&items, |(c, e, big, n, kind, damage)| pairs(ctx, &all, c, e, *big, *n, kind, *damage));
    let mut hist: Vec<(Codec, Vec<(usize, usize)>)> = vec![];
    for c in CODECS {
        for v0 in 0..all.len() {
            let mut level: Vec<Vec<(usize, usize)>> = vec![vec![(0, v0)]];
            for k in 1..=if t { 3 } else { 2 } {
                let mut next = vec![];
                for h in &level {
                    for o in 0..OPS.len() {
                        // the third step further on only by the builds that differ in this codec
                        for b in 0..all.len() {
                            if k == 3 && (b == 1 || !matches!(c, "raw" | "gzip" | "lz4")) {
                                continue;
                            }
                            let mut h = h.clone();
                            h.push((o, b));
                            next.push(h);
                        }
                    }
                }
                hist.extend(level.drain(..).map(|h| (codec(c), h)));
                level = next;
            }
            hist.extend(level.drain(..).map(|h| (codec(c), h)));
        }
    }
    ctx.note("histories", hist.len() as u64);
    ctx.par(&hist, |(c, h)| history(ctx, &all, c, h));
    for b in &all {
        for s in b.idle.lock().unwrap().iter_mut() {
            let _ = s.child.kill();
            let _ = s.child.wait();
        }
    }
    ("exploration", true)
}
