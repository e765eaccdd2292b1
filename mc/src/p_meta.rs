//! C08 array metadata, C09 data type strings, C16 opening, C17 malformed documents.
use crate::eng::*;
use crate::mem::{entry_point, Mem};
use crate::util::*;
use serde_json::{json, Map, Value};
use zarr::prelude::*;
use zarr::{ArrayMetadata, Endian, ExtensibleDataType, FloatSize, IntSize};

// ------------------------------------------------------------------- C09

/// The notation: Some(size in bytes) for a data type, None for anything else.
pub fn dtype_size(s: &str) -> Option<usize> {
    match s {
        "bool" | "i1" | "u1" => return Some(1),
        _ => {}
    }
    let b = s.as_bytes();
    if b.len() == 3 && (b[0] == b'<' || b[0] == b'>') && b[2].is_ascii_digit() {
        let n = (b[2] - b'0') as usize;
        return match (b[1], n) {
            (b'i' | b'u', 2 | 4 | 8) | (b'f', 2 | 4 | 8) => Some(n),
            _ => None,
        };
    }
    if let Some(d) = s.strip_prefix('r') {
        if !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()) {
            if let Ok(n) = d.parse::<usize>() {
                if n % 8 == 0 {
                    return Some(n / 8);
                }
            }
        }
    }
    None
}
/// Strings whose meaning the notation leaves open.
fn dtype_open(s: &str) -> bool {
    matches!(s, "<i1" | ">i1" | "<u1" | ">u1" | "<bool" | ">bool")
        || (s.starts_with('r') && s[1..].starts_with('0') && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn check_dtype(s: &str) -> CaseResult {
    let want = dtype_size(s);
    let text = serde_json::to_string(s).unwrap();
    let got: Vec<(&str, Result<DataType, String>)> = vec![
        ("from text", serde_json::from_str::<DataType>(&text).map_err(|e| e.to_string())),
        ("from value", serde_json::from_value::<DataType>(json!(s)).map_err(|e| e.to_string())),
        (
            "extensible type",
            serde_json::from_str::<ExtensibleDataType>(&text).map_err(|e| e.to_string()).and_then(|t| match t {
                ExtensibleDataType::Core(d) => Ok(d),
                t => Err(format!("parsed as {:?}", t)),
            }),
        ),
        (
            "fallback",
            serde_json::from_value::<ExtensibleDataType>(json!({"extension": "e", "type": "t", "fallback": s}))
                .map_err(|e| e.to_string())
                .and_then(|t| match t {
                    ExtensibleDataType::Extended { fallback: Some(d), .. } => Ok(d),
                    t => Err(format!("parsed as {:?}", t)),
                }),
        ),
        (
            "array document",
            serde_json::from_value::<ArrayMetadata>(M::new(&[1], &[1], s).json())
                .map_err(|e| e.to_string())
                .and_then(|m| m.get_data_type().effective_type().map_err(|e| e.to_string())),
        ),
    ];
    if dtype_open(s) {
        return Ok(false);
    }
    for (how, r) in got {
        match (want, r) {
            (None, Err(_)) => {}
            (None, Ok(d)) => return Err(format!("{}: {:?} is taken for {:?}", how, s, d)),
            (Some(_), Err(e)) => return Err(format!("{}: {:?} is rejected: {}", how, s, e)),
            (Some(n), Ok(d)) => {
                if d.size_of() != n {
                    return Err(format!("{}: size_of {:?} is {}, not {}", how, s, d.size_of(), n));
                }
                let back = serde_json::to_string(&d).map_err(|e| e.to_string())?;
                if back != text {
                    return Err(format!("{}: {:?} prints as {}", how, s, back));
                }
                let ext = serde_json::to_string(&ExtensibleDataType::from(d)).map_err(|e| e.to_string())?;
                if ext != text {
                    return Err(format!("{}: {:?} prints as {}", how, s, ext));
                }
            }
        }
    }
    Ok(true)
}

pub fn c09(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per string (all strings up to the length over an alphabet of the significant characters and \
         their neighbours, boundary strings, one- and two-edit neighbours of valid strings), parsed in five places and printed \
         again; every data type value the other way; bytes per element stored for every type; non-trivial \
         unless the notation leaves the string's meaning open",
    );
    let t = ctx.thorough;
    let alpha: Vec<char> = "<>|=!iufbrcBIrR0123468+- oléS\u{0}\u{661}\n".chars().collect();
    let maxlen = if t { 5 } else { 4 };
    let firsts: Vec<String> = std::iter::once(String::new())
        .chain(alpha.iter().map(|c| c.to_string()))
        .chain(alpha.iter().flat_map(|a| alpha.iter().map(move |b| format!("{}{}", a, b))))
        .collect();
    let evals = |s: &str| {
        ctx.case(format!("dtype {:?}", s), || check_dtype(s));
    };
    ctx.par(&firsts, |p| {
        evals(p);
        if p.chars().count() < 2 {
            return;
        }
        fn go(s: &mut String, left: usize, alpha: &[char], f: &dyn Fn(&str)) {
            if left == 0 {
                return;
            }
            for c in alpha {
                s.push(*c);
                f(s);
                go(s, left - 1, alpha, f);
                s.pop();
            }
        }
        go(&mut p.clone(), maxlen - 2, &alpha, &evals);
    });
    // neighbours of valid strings
    let valid: Vec<String> = ETYPES
        .iter()
        .flat_map(|e| dtypes(e))
        .chain(["r8", "r16", "r24", "r32", "r128", "r65536"].map(String::from))
        .collect();
    let edits = |s: &str| -> Vec<String> {
        let c: Vec<char> = s.chars().collect();
        let mut v = vec![];
        let ed: Vec<char> = "<>iufrb01248l+- o\u{0}".chars().collect();
        for i in 0..=c.len() {
            for x in &ed {
                let mut d = c.clone();
                d.insert(i, *x);
                v.push(d.iter().collect());
                if i < c.len() {
                    let mut d = c.clone();
                    d[i] = *x;
                    v.push(d.iter().collect());
                }
            }
            if i < c.len() {
                let mut d = c.clone();
                d.remove(i);
                v.push(d.iter().collect());
                let mut d = c.clone();
                d[i] = d[i].to_uppercase().next().unwrap();
                v.push(d.iter().collect());
            }
        }
        v
    };
    ctx.par(&valid, |s| {
        for e in edits(s) {
            evals(&e);
            if t || s.len() < 4 {
                for f in edits(&e) {
                    evals(&f);
                }
            }
        }
    });
    let mut more: Vec<String> = ["bool ", " bool", "Bool", "BOOL", "boolean", "b1", "int8", "float32", "<f16", "<i16", "complex", "<c8", "<M8[ns]", "r", "r+8", "r-8", "r 8", "r8 ", "r8.0", "r1e1", "r0x8", "rr8", "r18446744073709551608", "r18446744073709551615", "r18446744073709551616", "r18446744073709551624", "r99999999999999999999999999999999", "r9223372036854775808", "i", "u", "f", "i2", "u4", "f8", "f4", "f2", "f1", "<f1", "😀", "<😀", "r😀", "<i😀", "\u{ff1c}i4", "<i\u{664}"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in 0..if t { 20_000u64 } else { 2_000 } {
        more.push(format!("r{}", n));
    }
    for k in 3..64 {
        for d in [0u64, 1, 7, 8] {
            more.push(format!("r{}", (1u64 << k) + d));
        }
    }
    more.push("r".repeat(5000));
    more.push(format!("r{}", "8".repeat(5000)));
    ctx.par(&more, |s| evals(s));
    // values that are not strings
    for v in [json!(null), json!(true), json!(1), json!(-4), json!(1.5), json!([]), json!(["<i4"]), json!({}), json!({"bool": 1}), json!({"type": "<i4"}), json!({"extension": "e"}), json!({"extension": "e", "type": 4}), json!({"extension": 1, "type": "t"}), json!({"extension": "e", "type": "t", "fallback": 4}), json!({"extension": "e", "type": "t", "fallback": "x"})] {
        ctx.case(format!("dtype value {}", v), || {
            if let Ok(d) = serde_json::from_value::<DataType>(v.clone()) {
                return Err(format!("taken for {:?}", d));
            }
            if let Ok(d) = serde_json::from_value::<ExtensibleDataType>(v.clone()) {
                return Err(format!("taken for {:?}", d));
            }
            Ok(true)
        });
    }
    // values the other way
    use DataType::*;
    let mut vals: Vec<(DataType, String)> = vec![
        (Bool, "bool".into()),
        (Int { size: IntSize::B1, endian: Endian::Little }, "i1".into()),
        (UInt { size: IntSize::B1, endian: Endian::Little }, "u1".into()),
    ];
    for (e, c) in [(Endian::Little, '<'), (Endian::Big, '>')] {
        for (s, n) in [(IntSize::B2, 2), (IntSize::B4, 4), (IntSize::B8, 8)] {
            vals.push((Int { size: s, endian: e }, format!("{}i{}", c, n)));
            vals.push((UInt { size: s, endian: e }, format!("{}u{}", c, n)));
        }
        for (s, n) in [(FloatSize::B2, 2), (FloatSize::B4, 4), (FloatSize::B8, 8)] {
            vals.push((Float { size: s, endian: e }, format!("{}f{}", c, n)));
        }
    }
    for n in (1..2000usize).map(|k| 8 * k).chain([1 << 20, 1 << 31, 1 << 32, 1 << 40, usize::MAX - 7]) {
        vals.push((Raw { size: n }, format!("r{}", n)));
    }
    for (d, s) in &vals {
        ctx.case(format!("type {}", s), || {
            let p = serde_json::to_string(d).map_err(|e| e.to_string())?;
            if p != format!("\"{}\"", s) {
                return Err(format!("prints as {}", p));
            }
            let back: DataType = serde_json::from_str(&p).map_err(|e| format!("does not parse back: {}", e))?;
            if back != *d {
                return Err(format!("parses back as {:?}", back));
            }
            if Some(d.size_of()) != dtype_size(s) {
                return Err(format!("size_of is {}", d.size_of()));
            }
            // through an array document in a store
            let h = Mem::new();
            let m = ArrayMetadata::new(gc(&[3]), cc(&[2]), *d, CompressionType::default());
            h.create_array("a", &m).map_err(|e| e.to_string())?;
            let m2 = h.get_array_metadata("a").map_err(|e| format!("the array can not be opened: {}", e))?;
            if m2.get_data_type() != &ExtensibleDataType::Core(*d) {
                return Err(format!("an array of it opens as {:?}", m2.get_data_type()));
            }
            let doc: Value = serde_json::from_slice(&h.bytes("meta/root/a.array.json").unwrap()).map_err(|e| e.to_string())?;
            if doc["data_type"] != json!(s) {
                return Err(format!("the document says {}", doc["data_type"]));
            }
            Ok(true)
        });
    }
    // one element occupies as many bytes as the type says
    for e in ETYPES {
        for dt in dtypes(e) {
            for n in [0usize, 1, 2, 3, 255, 256, 257, 600] {
                ctx.case(format!("bytes {} n={}", dt, n), || {
                    let h = Mem::new();
                    if n == 0 {
                        return Ok(false);
                    }
                    let m = M::new(&[n as u64], &[n as u32], &dt).build();
                    crate::with_elem!(e, T => {
                        T::wr(&h, "a", &m, &[0], &content::<T>("mix", n)).map_err(|e| e.to_string())?;
                    });
                    let k = h.bytes("data/root/a/c0").map(|b| b.len());
                    let size = m.get_data_type().effective_type().map_err(|e| e.to_string())?.size_of();
                    if k != Some(n * size) {
                        return Err(format!("{} elements of {} bytes take {:?} bytes", n, size, k));
                    }
                    Ok(true)
                });
            }
        }
    }
    ("exploration", true)
}

// ------------------------------------------------------------------- C08

#[derive(Clone)]
struct Doc {
    m: M,
    /// how the metadata value is made
    api: bool,
}

fn doc_alphabet(t: bool) -> Vec<Doc> {
    let mut v: Vec<M> = vec![];
    let base = M::new(&[5, 4, 3], &[2, 2, 2], "<i4");
    // shapes
    for (s, c) in [
        (vec![], vec![]), (vec![0], vec![1]), (vec![1], vec![1]), (vec![7], vec![100]), (vec![u64::MAX], vec![u32::MAX]),
        (vec![1 << 53, (1 << 53) + 1], vec![1, 65536]), (vec![3, 2], vec![1, 2]), (vec![1, 2, 3, 4, 5, 6], vec![6, 5, 4, 3, 2, 1]),
        (vec![1, 2, 3, 4, 5, 6, 7], vec![7, 6, 5, 4, 3, 2, 1]), (vec![9; 8], vec![8; 8]), (vec![2; 20], vec![1; 20]),
    ] {
        for o in ['C', 'F'] {
            v.push(M::new(&s, &c, "<i4").order(o));
        }
    }
    // types
    for e in ETYPES {
        for d in dtypes(e) {
            v.push(M::new(&[5, 4], &[2, 3], &d));
        }
    }
    for d in [
        json!("r8"), json!("r24"), json!("r4096"),
        json!({"extension": "https://x.org/ext", "type": "<M8[ns]", "fallback": "<i8"}),
        json!({"extension": "e", "type": "t"}),
        json!({"extension": "", "type": "", "fallback": "bool"}),
        json!({"extension": "ü\"\\\u{1}", "type": "<i4", "fallback": ">f2"}),
        json!({"extension": "e", "type": "t", "fallback": "r16"}),
    ] {
        let mut m = base.clone();
        m.dtype = d;
        v.push(m);
    }
    // separators
    for s in ["/", ".", "-", "_", "--", "", "\"", "é", "\\", "\n", "c"] {
        v.push(base.clone().sep(s));
    }
    // codecs and settings
    v.push({ let mut m = base.clone(); m.codec = Value::Null; m });
    for c in CODECS {
        v.push(base.clone().codec(&codec(c)));
        if c == "raw" { continue; }
        for s in if c == "lz4" { vec![0i64, 1, 65535, 65536, 65537, 1 << 18, 1 << 22, i32::MAX as i64] } else if c == "gzip" { vec![-1, 0, 1, 5, 6, 9] } else if c == "bzip2" { vec![1, 2, 8, 9] } else { vec![0, 1, 5, 6, 7, 8, 9] } {
            v.push(base.clone().codec(&Codec::new(c, Some(s))));
        }
    }
    // fill values
    for f in [
        json!(null), json!(0), json!(-1), json!(1), json!(i64::MIN), json!(u64::MAX), json!(i64::MAX), json!(0.0), json!(-0.0), json!(0.1), json!(1.5e300), json!(-2.5e-3), json!(5e-324),
        json!(f64::MAX), json!(1.0), json!(true), json!(false), json!(""), json!("NaN"), json!("Infinity"), json!("-Infinity"), json!("é\n\"\u{0}\u{1F600}"), json!([1, [2]]), json!([]), json!({}), json!({"a": null, "b": {"c": []}}), json!(1e-45),
    ] {
        v.push(base.clone().fill(f));
    }
    // extensions
    for e in [
        json!([{"extension": "e", "must_understand": false}]),
        json!([{"extension": "e", "must_understand": false, "configuration": {}}]),
        json!([{"extension": "", "must_understand": false, "configuration": {"a": {"b": [1, null]}}}, {"extension": "f", "must_understand": false}]),
        json!((0..20).map(|i| json!({"extension": format!("http://x/{}", i), "must_understand": false, "configuration": {"i": i}})).collect::<Vec<_>>()),
    ] {
        let mut m = base.clone();
        m.ext = e;
        v.push(m);
    }
    // attributes
    for a in attr_values() {
        let mut m = base.clone();
        m.attrs = a;
        v.push(m);
    }
    let mut out: Vec<Doc> = v.iter().map(|m| Doc { m: m.clone(), api: false }).collect();
    // pairs of fields
    let n = v.len();
    let stride = if t { 1 } else { 5 };
    for i in 0..n {
        for j in 0..n {
            if (i + j) % stride != 0 {
                continue;
            }
            let (a, b) = (&v[i], &v[j]);
            let mut m = a.clone();
            // everything but shape, chunk and order from the other
            if (a.fill.is_null() && a.codec == base.codec) && (b.sep != base.sep || b.ext != base.ext || b.attrs != base.attrs || b.dtype != base.dtype) {
                m.sep = b.sep.clone();
                m.ext = b.ext.clone();
                m.attrs = b.attrs.clone();
                m.fill = b.fill.clone();
                if a.dtype == base.dtype {
                    m.dtype = b.dtype.clone();
                }
            } else {
                m.fill = if a.fill.is_null() { b.fill.clone() } else { a.fill.clone() };
                m.codec = if a.codec == base.codec { b.codec.clone() } else { a.codec.clone() };
                if m.ext == base.ext { m.ext = b.ext.clone(); }
                m.order = b.order;
            }
            out.push(Doc { m, api: false });
        }
    }
    // through the constructor
    for m in &v {
        if m.sep == "/" && m.fill.is_null() && m.ext == json!([]) && m.attrs == json!({}) && m.codec.is_object() {
            out.push(Doc { m: m.clone().order('F'), api: true });
        }
    }
    out
}

pub fn attr_values() -> Vec<Value> {
    vec![
        json!({}),
        json!({"a": 1}),
        json!({"a": null, "b": true, "c": -1.5, "d": "x", "e": [1, [2, {}]], "f": {"g": {"h": null}}}),
        json!({"": "", "é": "ü", "\u{0}": "\u{1}", "a b": "\"", "\\": "/"}),
        json!({"attributes": {"attributes": 1}, "shape": [9], "extensions": "x", "data_type": "bool", "compressor": {}}),
        json!({"big": "y".repeat(9000)}),
        json!({"many": (0..3000).collect::<Vec<i32>>()}),
        json!({"n": i64::MIN, "u": u64::MAX, "f": 0.1, "e": 1e300, "z": -0.0}),
    ]
}

/// What an independent reader makes of an array document.
pub fn same_document(doc: &Value, m: &M) -> Result<(), String> {
    let o = doc.as_object().ok_or("not an object")?;
    let want = m.json();
    let w = want.as_object().unwrap();
    let known = ["shape", "data_type", "chunk_grid", "chunk_memory_layout", "fill_value", "extensions", "attributes", "compressor"];
    if let Some(k) = o.keys().find(|k| !known.contains(&k.as_str())) {
        return Err(format!("has an unknown field {}", k));
    }
    for k in ["shape", "data_type", "chunk_grid", "chunk_memory_layout", "extensions", "attributes", "fill_value"] {
        let g = o.get(k).ok_or(format!("has no {}", k))?;
        let same = if k == "data_type" || k == "extensions" {
            strip_null(g) == strip_null(&w[k])
        } else {
            *g == w[k]
        };
        if !same {
            return Err(format!("says {} is {}, not {}", k, cut(&g.to_string()), cut(&w[k].to_string())));
        }
    }
    let raw = json!({"codec": "raw", "configuration": null});
    let g = o.get("compressor").unwrap_or(&raw);
    let c = if m.codec.is_null() { &raw } else { &m.codec };
    if g["codec"] != c["codec"] {
        return Err(format!("says the codec is {}", g));
    }
    if let Some(conf) = c["configuration"].as_object() {
        for (k, v) in conf {
            if g["configuration"][k] != *v {
                return Err(format!("says the codec setting is {}", g));
            }
        }
    }
    Ok(())
}
fn strip_null(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter().filter(|(k, v)| !(v.is_null() && (*k == "fallback" || *k == "configuration"))).map(|(k, v)| (k.clone(), v.clone())).collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(strip_null).collect()),
        v => v.clone(),
    }
}
/// The fields of a data type that have a meaning.
fn known_type(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter().filter(|(k, v)| !v.is_null() && matches!(&k[..], "extension" | "type" | "fallback")).map(|(k, v)| (k.clone(), v.clone())).collect(),
        ),
        v => v.clone(),
    }
}
pub fn cut(s: &str) -> String {
    if s.chars().count() > 120 {
        format!("{}...", s.chars().take(120).collect::<String>())
    } else {
        s.to_string()
    }
}

fn getters(got: &ArrayMetadata, m: &M) -> Result<(), String> {
    if got.get_shape() != &m.shape[..] {
        return Err(format!("shape is {:?}", got.get_shape()));
    }
    if got.get_chunk_shape() != &m.chunk[..] {
        return Err(format!("chunk shape is {:?}", got.get_chunk_shape()));
    }
    let o = match got.get_chunk_memory_layout() {
        zarr::Order::RowMajor => 'C',
        zarr::Order::ColumnMajor => 'F',
    };
    if o != m.order {
        return Err(format!("memory layout is {}", o));
    }
    let f = got.get_fill_value().cloned().unwrap_or(Value::Null);
    if f != m.fill {
        let e = format!("fill value is {}, not {}", f, m.fill);
        // what the JSON library makes of the number's shortest text
        if m.fill.is_f64() && serde_json::from_str::<Value>(&m.fill.to_string()).ok() == Some(f.clone()) {
            return Err(format!("SIG[fill {}] {}", m.fill, e));
        }
        return Err(e);
    }
    let d = serde_json::to_value(got.get_data_type()).map_err(|e| e.to_string())?;
    if d != m.dtype {
        return Err(format!("data type is {}", d));
    }
    let c = serde_json::to_value(got.get_compressor()).map_err(|e| e.to_string())?;
    let raw = json!("raw");
    let want = m.codec.get("codec").unwrap_or(&raw);
    if c["codec"] != *want {
        return Err(format!("codec is {}", c));
    }
    if got.get_ndim() != m.shape.len() {
        return Err("get_ndim".into());
    }
    Ok(())
}

fn check_doc(d: &Doc, store: &str) -> CaseResult {
    let m = &d.m;
    let meta = if d.api {
        let dt: ExtensibleDataType = serde_json::from_value(m.dtype.clone()).map_err(|e| e.to_string())?;
        let c: CompressionType = serde_json::from_value(m.codec.clone()).map_err(|e| e.to_string())?;
        ArrayMetadata::new(gc(&m.shape), cc(&m.chunk), dt, c)
    } else {
        serde_json::from_value(m.json()).map_err(|e| format!("does not parse: {}", e))?
    };
    getters(&meta, m).map_err(|e| format!("as made: {}", e))?;
    let judge = |got: ArrayMetadata, bytes: &[u8]| -> Result<(), String> {
        let doc: Value = serde_json::from_slice(bytes).map_err(|e| format!("stored document: {}", e))?;
        getters(&got, m).map_err(|e| format!("as opened: {}", e))?;
        if got != meta {
            return Err(format!("opens as {}", cut(&format!("{:?}", got))));
        }
        same_document(&doc, m).map_err(|e| format!("stored document {}", e))?;
        let again: ArrayMetadata = serde_json::from_slice(bytes).map_err(|e| e.to_string())?;
        if again != meta {
            return Err("the stored document decodes to other metadata".into());
        }
        Ok(())
    };
    for path in if store == "mem" { vec!["a", ""] } else { vec!["g/a"] } {
        let key = if path.is_empty() { "meta/root.array.json".to_string() } else { format!("meta/root/{}.array.json", path) };
        if store == "mem" {
            let h = Mem::new();
            h.create_array(path, &meta).map_err(|e| format!("create_array: {}", e))?;
            let got = h.get_array_metadata(path).map_err(|e| format!("get_array_metadata: {}", e))?;
            judge(got, &h.bytes(&key).ok_or("no document is stored")?)?;
            let a = h.list_attributes(path).map_err(|e| format!("list_attributes: {}", e))?;
            if Value::Object(a) != m.attrs {
                return Err("list_attributes differs".into());
            }
            // creating an array from metadata that was read
            let got = h.get_array_metadata(path).map_err(|e| e.to_string())?;
            let h2 = Mem::new();
            h2.create_array(path, &got).map_err(|e| format!("create_array: {}", e))?;
            if h2.bytes(&key) != h.bytes(&key) {
                return Err("metadata that was read is stored differently".into());
            }
        } else {
            let dir = Dir::new();
            let h = dir.create();
            h.create_array(path, &meta).map_err(|e| format!("create_array: {}", e))?;
            for h in [h, dir.open()] {
                let got = h.get_array_metadata(path).map_err(|e| format!("get_array_metadata: {}", e))?;
                judge(got, &dir.bytes(&key).ok_or("no document is stored")?)?;
                let a = h.list_attributes(path).map_err(|e| format!("list_attributes: {}", e))?;
                if Value::Object(a) != m.attrs {
                    return Err("list_attributes differs".into());
                }
            }
        }
    }
    Ok(true)
}

pub fn c08(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (metadata value, store): every value of each field's alphabet, and pairs of fields' values, made from \
         a document or through the constructor, created, read back through the same and a re-opened handle, \
         compared as a whole and by every getter, and the stored document compared by an independent reader; \
         documents that leave optional parts out",
    );
    let docs = doc_alphabet(ctx.thorough);
    ctx.par(&docs, |d| {
        for store in ["mem", "fs"] {
            ctx.case(format!("doc api={} store={} {}", d.api, store, cut_keep(&d.m.json())), || check_doc(d, store));
        }
    });
    // documents of other writers: optional parts absent, other spellings of the same JSON
    let mut items = vec![];
    for d in docs.iter().take(150) {
        for how in ["pretty", "no-codec", "no-fill", "codec-defaults", "reversed", "spaced"] {
            items.push((d.clone(), how));
        }
    }
    ctx.par(&items, |(d, how)| {
        ctx.case(format!("foreign {} {}", how, cut_keep(&d.m.json())), || {
            let mut m = d.m.clone();
            match *how {
                "no-codec" => m.codec = Value::Null,
                "no-fill" => m.fill = Value::Null,
                "codec-defaults" => {
                    if let Some(o) = m.codec.get_mut("configuration") {
                        if o.is_object() {
                            *o = json!({});
                        }
                    }
                }
                _ => {}
            }
            let mut v = m.json();
            if *how == "no-fill" {
                v.as_object_mut().unwrap().remove("fill_value");
            }
            let text = match *how {
                "pretty" => serde_json::to_string_pretty(&v).unwrap() + "\n",
                "reversed" => {
                    let o = v.as_object().unwrap();
                    let parts: Vec<String> = o.iter().rev().map(|(k, v)| format!("{}: {}", json!(k), v)).collect();
                    format!("{{{}}}", parts.join(","))
                }
                "spaced" => format!(" \n\t{}\r\n  ", v),
                _ => v.to_string(),
            };
            let h = Mem::new();
            h.put("meta/root/a.array.json", text.as_bytes());
            let got = h.get_array_metadata("a").map_err(|e| format!("get_array_metadata: {}", e))?;
            getters(&got, &m)?;
            if Value::Object(h.list_attributes("a").map_err(|e| e.to_string())?) != m.attrs {
                return Err("attributes differ".into());
            }
            Ok(true)
        });
    });
    // groups
    ctx.case("group document", || {
        let h = Mem::new();
        for p in ["", "g", "g/h.i"] {
            h.create_group(p).map_err(|e| e.to_string())?;
            let key = if p.is_empty() { "meta/root.group.json".into() } else { format!("meta/root/{}.group.json", p) };
            let doc: Value = serde_json::from_slice(&h.bytes(&key).ok_or("no document")?).map_err(|e| e.to_string())?;
            if doc != json!({"extensions": [], "attributes": {}}) {
                return Err(format!("is {}", doc));
            }
        }
        Ok(true)
    });
    ("exploration", true)
}
/// A document, short but unique.
fn cut_keep(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 600 {
        format!("{}... {:016x}", s.chars().take(300).collect::<String>(), hash64(&s))
    } else {
        s
    }
}

// ------------------------------------------------------------------- C16

fn entry_docs() -> Vec<(Value, Option<bool>)> {
    let mut v: Vec<(Value, Option<bool>)> = vec![];
    let base = entry_point(".json");
    let with = |k: &str, x: Value| {
        let mut d = base.clone();
        d[k] = x;
        d
    };
    let url = "https://purl.org/zarr/spec/protocol/core/";
    for (ver, ok) in [
        ("3", true), ("3.0", true), ("3.0.0", true), ("2", false), ("2.0", false), ("2.9.9", false), ("4", false), ("4.0", false), ("3.1", false), ("3.1.0", false), ("3.9", false),
        ("30", false), ("30.0", false), ("1", false), ("0", false), ("0.3", false), ("33", false),
        ("", false), ("three", false), ("3.x.y.z", false), ("3.0.0.0", false), ("-3", false), ("3,0", false), ("v", false), ("3.0 garbage", false), ("NaN", false),
    ] {
        v.push((with("zarr_format", json!(format!("{}{}", url, ver))), Some(ok)));
        if ok {
            v.push((with("zarr_format", json!(ver)), Some(ok)));
            v.push((with("zarr_format", json!(format!("http://other.example/{}", ver))), Some(ok)));
        } else {
            v.push((with("zarr_format", json!(ver)), Some(ok)));
        }
    }
    v.push((with("zarr_format", json!("https://purl.org/zarr/spec/protocol/core/3.0/")), Some(false)));
    v.push((with("zarr_format", json!("3.0/core")), Some(false)));
    for (e, ok) in [
        (json!([]), true),
        (json!([{"extension": "e", "must_understand": false}]), true),
        (json!([{"extension": "e", "must_understand": false, "configuration": {"a": 1}}]), true),
        (json!([{"extension": "e", "must_understand": true}]), false),
        (json!([{"extension": "e", "must_understand": true, "configuration": {}}]), false),
        (json!([{"extension": "e", "must_understand": false}, {"extension": "f", "must_understand": true}]), false),
        (json!([{"extension": "e", "must_understand": true}, {"extension": "f", "must_understand": false}]), false),
        (json!([{"extension": "e", "must_understand": false}, {"extension": "f", "must_understand": false}, {"extension": "g", "must_understand": true}]), false),
        (json!([{"extension": "e", "must_understand": false}, {"extension": "f", "must_understand": false}, {"extension": "g", "must_understand": false}]), true),
        (json!([{"extension": "", "must_understand": true}]), false),
    ] {
        v.push((with("extensions", e.clone()), Some(ok)));
        let mut d = with("extensions", e.clone());
        d["zarr_format"] = json!("2.0");
        v.push((d, Some(false)));
        let mut d = with("extensions", e);
        d["metadata_key_suffix"] = json!(".v3.json");
        d["zarr_format"] = json!("3");
        v.push((d, Some(ok)));
    }
    for s in [".json", ".v3.json", ".zarr", "json", ""] {
        v.push((with("metadata_key_suffix", json!(s)), Some(true)));
    }
    for k in ["zarr_format", "metadata_encoding", "metadata_key_suffix", "extensions"] {
        let mut d = base.clone();
        d.as_object_mut().unwrap().remove(k);
        // some readers may supply a default for the others
        v.push((d, if k == "zarr_format" || k == "metadata_key_suffix" { Some(false) } else { None }));
    }
    v
}

pub fn c16(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (entry point document, its formatting, other content of the directory, way of opening): \
         the result, and every file before and after; creation in every state of the directory followed by \
         every sequence of two further openings; array documents with every extension list",
    );
    ctx.assume("version strings that are ranges or carry pre-release tags are not judged, nor are missing metadata_encoding or extensions");
    let docs = entry_docs();
    let mut items = vec![];
    for (i, (d, ok)) in docs.iter().enumerate() {
        for how in ["compact", "pretty", "long"] {
            for content in [false, true] {
                items.push((i, d.clone(), *ok, how, content));
            }
        }
    }
    ctx.par(&items, |(i, d, ok, how, content)| {
        for opener in ["open", "open_or_create"] {
            ctx.case(format!("entry {} {} content={} by={} {}", i, how, content, opener, d), || {
                let dir = Dir::new();
                let text = match *how {
                    "compact" => d.to_string(),
                    "pretty" => serde_json::to_string_pretty(d).unwrap() + "\n",
                    _ => format!("{}{}", d, " ".repeat(20_000)),
                };
                dir.put("zarr.json", text.as_bytes());
                if *content {
                    dir.put("meta/root/g.group.json", b"{\"extensions\":[],\"attributes\":{\"a\":1}}");
                    dir.put("data/root/a/c0", b"abcd");
                    dir.put("other", b"x");
                }
                let before = dir.snap();
                let r = if opener == "open" { FilesystemHierarchy::open(&dir.base) } else { FilesystemHierarchy::open_or_create(&dir.base) };
                let after = dir.snap();
                if before != after {
                    return Err(format!("{} changed the directory: {}", opener, snap_diff(&before, &after)));
                }
                match (ok, r.as_ref().err()) {
                    (Some(true), Some(e)) => Err(format!("{} fails: {}", opener, e)),
                    (Some(false), None) => Err(format!("{} accepts it", opener)),
                    (_, None) => {
                        let h = r.unwrap();
                        if !h.get_version().map_err(|e| e.to_string())?.matches(&zarr::VERSION) {
                            return Err("get_version does not match".into());
                        }
                        let want = d["metadata_key_suffix"].as_str().unwrap_or("");
                        if want.starts_with('.') {
                            h.create_group("x").map_err(|e| e.to_string())?;
                            if !dir.file(&format!("meta/root/x.group{}", want)).is_file() {
                                return Err(format!("suffix {} is not used", want));
                            }
                        }
                        Ok(true)
                    }
                    _ => Ok(true),
                }
            });
        }
    });
    // directories without a usable entry point
    let states = ["missing", "missing-parent", "empty", "content", "entry-is-dir", "entry-empty", "entry-garbage", "base-is-file", "entry-dangling", "parent-is-file"];
    for st in states {
        for opener in ["open", "open_or_create"] {
            ctx.case(format!("state {} by={}", st, opener), || {
                let dir = Dir::new();
                let mut base = dir.base.clone();
                match st {
                    "missing" => {}
                    "missing-parent" => base = dir.base.join("x/y/z"),
                    "empty" => std::fs::create_dir_all(&base).unwrap(),
                    "content" => {
                        dir.put("meta/root/g.group.json", b"{\"extensions\":[],\"attributes\":{}}");
                        dir.put("zarr.jso", b"x");
                    }
                    "entry-is-dir" => std::fs::create_dir_all(base.join("zarr.json")).unwrap(),
                    "entry-empty" => dir.put("zarr.json", b""),
                    "entry-garbage" => dir.put("zarr.json", b"{\"zarr_format\": \"3.0\""),
                    "base-is-file" => std::fs::write(&base, b"x").unwrap(),
                    "parent-is-file" => {
                        std::fs::write(&base, b"x").unwrap();
                        base = base.join("sub");
                    }
                    _ => {
                        std::fs::create_dir_all(&base).unwrap();
                        std::os::unix::fs::symlink("nowhere/at/all", base.join("zarr.json")).unwrap();
                    }
                }
                let before = snapshot(dir.top());
                let r = guard(|| if opener == "open" { FilesystemHierarchy::open(&base) } else { FilesystemHierarchy::open_or_create(&base) })?;
                let after = snapshot(dir.top());
                let creates = opener == "open_or_create" && matches!(st, "missing" | "missing-parent" | "empty" | "content");
                if creates {
                    let h = r.map_err(|e| format!("fails: {}", e))?;
                    let mut want = before.clone();
                    for (k, v) in &after {
                        if want.get(k) != Some(v) && !(v.is_none() || k.ends_with("/zarr.json")) {
                            return Err(format!("also changed {}", k));
                        }
                        want.insert(k.clone(), v.clone());
                    }
                    if want.len() != after.len() {
                        return Err(format!("removed something: {}", snap_diff(&before, &after)));
                    }
                    let bytes = std::fs::read(base.join("zarr.json")).map_err(|e| e.to_string())?;
                    let doc: Value = serde_json::from_slice(&bytes).map_err(|e| format!("entry point document: {}", e))?;
                    let exp = entry_point(".json");
                    if doc["extensions"] != json!([]) || doc["metadata_key_suffix"] != exp["metadata_key_suffix"] || doc["zarr_format"] != exp["zarr_format"] || doc["metadata_encoding"] != exp["metadata_encoding"] {
                        return Err(format!("entry point document is {}", doc));
                    }
                    h.create_group("q").map_err(|e| e.to_string())?;
                    let before = snapshot(dir.top());
                    for seq in 0..4 {
                        for k in 0..2 {
                            let o = if (seq >> k) & 1 == 0 { FilesystemHierarchy::open(&base) } else { FilesystemHierarchy::open_or_create(&base) };
                            let h = o.map_err(|e| format!("opening it again: {}", e))?;
                            if !HierarchyReader::exists(&h, "q").map_err(|e| e.to_string())? {
                                return Err("a node is gone".into());
                            }
                            let after = snapshot(dir.top());
                            if before != after {
                                return Err(format!("opening it again changed it: {}", snap_diff(&before, &after)));
                            }
                        }
                    }
                    Ok(true)
                } else if st == "entry-dangling" && opener == "open_or_create" {
                    // creating through the link is fine, failing too
                    Ok(false)
                } else {
                    if r.is_ok() {
                        return Err("succeeds".into());
                    }
                    if before != after {
                        return Err(format!("fails but changed: {}", snap_diff(&before, &after)));
                    }
                    Ok(true)
                }
            });
        }
    }
    // array documents
    for (i, (d, ok)) in docs.iter().enumerate() {
        let Some(e) = d.get("extensions") else { continue };
        if d["zarr_format"] == json!("2.0") || *e == json!([]) && i > 0 {
            continue;
        }
        for store in ["mem", "fs"] {
            for path in ["a", ""] {
                ctx.case(format!("array extensions {} store={} path={:?}", e, store, path), || {
                    let mut m = M::new(&[2], &[2], "u1");
                    m.ext = e.clone();
                    let ok = ok.unwrap();
                    fn go<H: HierarchyReader>(h: &H, path: &str, ok: bool) -> CaseResult {
                        match (h.get_array_metadata(path), ok) {
                            (Ok(_), true) | (Err(_), false) => {}
                            (Ok(_), false) => return Err("get_array_metadata accepts it".into()),
                            (Err(e), true) => return Err(format!("get_array_metadata: {}", e)),
                        }
                        match (h.array_exists(path), ok) {
                            (Ok(true), true) | (Err(_), false) => Ok(true),
                            (Ok(true), false) => Ok(true),
                            (r, _) => Err(format!("array_exists: {}", ekind(&r))),
                        }
                    }
                    let key = if path.is_empty() { "meta/root.array.json" } else { "meta/root/a.array.json" };
                    if store == "mem" {
                        let h = Mem::new();
                        h.put(key, m.json().to_string().as_bytes());
                        go(&h, path, ok)
                    } else {
                        let d = Dir::new();
                        let h = d.create();
                        d.put(key, m.json().to_string().as_bytes());
                        go(&h, path, ok)
                    }
                });
            }
        }
    }
    ("exploration", true)
}

// ------------------------------------------------------------------- C17

/// Judgement of an array document by an independent reader.
#[derive(PartialEq, Debug, Clone)]
enum Doctor {
    Valid,
    Invalid,
    Open,
}

fn array_doc(v: &Value) -> Doctor {
    use Doctor::*;
    let Some(o) = v.as_object() else { return Invalid };
    let mut open = false;
    let uint = |v: &Value, max: u64| -> Option<u64> { v.as_u64().filter(|x| *x <= max) };
    // sizes
    let Some(shape) = o.get("shape").and_then(|s| s.as_array()) else { return Invalid };
    if shape.iter().any(|x| uint(x, u64::MAX).is_none()) {
        return Invalid;
    }
    let Some(g) = o.get("chunk_grid").and_then(|s| s.as_object()) else { return Invalid };
    if g.get("type") != Some(&json!("regular")) {
        return Invalid;
    }
    if !g.get("separator").map_or(false, |s| s.is_string()) {
        return Invalid;
    }
    let Some(cs) = g.get("chunk_shape").and_then(|s| s.as_array()) else { return Invalid };
    if cs.iter().any(|x| uint(x, u32::MAX as u64).map_or(true, |x| x == 0)) || cs.len() != shape.len() {
        return Invalid;
    }
    match o.get("chunk_memory_layout").and_then(|s| s.as_str()) {
        Some("C") | Some("F") => {}
        _ => return Invalid,
    }
    match o.get("data_type") {
        Some(Value::String(s)) => {
            if dtype_open(s) {
                open = true;
            } else if dtype_size(s).is_none() {
                return Invalid;
            }
        }
        Some(Value::Object(e)) => {
            if !e.get("extension").map_or(false, |s| s.is_string()) || !e.get("type").map_or(false, |s| s.is_string()) {
                return Invalid;
            }
            match e.get("fallback") {
                None | Some(Value::Null) => {}
                Some(Value::String(s)) if dtype_size(s).is_some() => {}
                Some(Value::String(s)) if dtype_open(s) => open = true,
                _ => return Invalid,
            }
        }
        _ => return Invalid,
    }
    match o.get("attributes") {
        None => open = true,
        Some(Value::Object(_)) => {}
        _ => return Invalid,
    }
    match o.get("extensions") {
        None => open = true,
        Some(Value::Array(a)) => {
            for e in a {
                let Some(e) = e.as_object() else { return Invalid };
                if !e.get("extension").map_or(false, |s| s.is_string()) {
                    return Invalid;
                }
                match e.get("must_understand") {
                    Some(Value::Bool(false)) => {}
                    _ => return Invalid,
                }
                match e.get("configuration") {
                    None | Some(Value::Null) | Some(Value::Object(_)) => {}
                    _ => return Invalid,
                }
            }
        }
        _ => return Invalid,
    }
    match o.get("compressor") {
        None => {}
        Some(Value::Object(c)) => {
            match c.get("codec").and_then(|c| c.as_str()) {
                Some("raw" | "bzip2" | "lz4" | "xz") => open = true,
                Some(GZIP) => open = true,
                _ => return Invalid,
            }
            match c.get("configuration") {
                None | Some(Value::Null) | Some(Value::Object(_)) => {}
                // an array is another form of the same for some readers
                Some(Value::Array(_)) => {}
                Some(_) if c.get("codec") == Some(&json!("raw")) => {}
                _ => return Invalid,
            }
        }
        _ => return Invalid,
    }
    if o.keys().any(|k| !["shape", "data_type", "chunk_grid", "chunk_memory_layout", "fill_value", "extensions", "attributes", "compressor"].contains(&k.as_str())) {
        open = true;
    }
    if open {
        Open
    } else {
        Valid
    }
}

/// All places of a document, as paths of keys and indices.
fn places(v: &Value) -> Vec<Vec<String>> {
    fn go(v: &Value, p: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        out.push(p.clone());
        match v {
            Value::Object(o) => {
                for (k, v) in o {
                    p.push(k.clone());
                    go(v, p, out);
                    p.pop();
                }
            }
            Value::Array(a) => {
                for (i, v) in a.iter().enumerate() {
                    p.push(i.to_string());
                    go(v, p, out);
                    p.pop();
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    out
}
fn put_at(v: &mut Value, p: &[String], x: Option<Value>) {
    if p.is_empty() {
        if let Some(x) = x {
            *v = x;
        }
        return;
    }
    match v {
        Value::Object(o) => {
            if p.len() == 1 {
                match x {
                    Some(x) => {
                        o.insert(p[0].clone(), x);
                    }
                    None => {
                        o.remove(&p[0]);
                    }
                }
            } else if let Some(n) = o.get_mut(&p[0]) {
                put_at(n, &p[1..], x);
            }
        }
        Value::Array(a) => {
            let i: usize = p[0].parse().unwrap();
            if p.len() == 1 {
                match x {
                    Some(x) => a[i] = x,
                    None => {
                        a.remove(i);
                    }
                }
            } else {
                put_at(&mut a[i], &p[1..], x);
            }
        }
        _ => {}
    }
}

/// What each operation that reads documents did with one.
struct Seen {
    meta: Result<ArrayMetadata, String>,
    aexists: Result<bool, String>,
    attrs: Result<Map<String, Value>, String>,
    set: Result<(), String>,
    /// Stored bytes after set_attributes.
    after: Vec<u8>,
    others: Option<String>,
    unread_changed: bool,
}

fn observe(store: &str, key: &str, node: &str, bytes: &[u8]) -> Result<Seen, String> {
    let add: Map<String, Value> = json!({"zz": [1]}).as_object().unwrap().clone();
    fn go<H: HierarchyReader + HierarchyWriter + HierarchyLister>(h: &H, node: &str, add: &Map<String, Value>, snap: &dyn Fn() -> Snap, key: &str) -> Result<Seen, String> {
        let s = |e: std::io::Error| e.to_string();
        let before = snap();
        let meta = guard(|| h.get_array_metadata(node)).map_err(|e| format!("get_array_metadata {}", e))?.map_err(s);
        let aexists = guard(|| h.array_exists(node)).map_err(|e| format!("array_exists {}", e))?.map_err(s);
        let attrs = guard(|| h.list_attributes(node)).map_err(|e| format!("list_attributes {}", e))?.map_err(s);
        let ex = guard(|| h.exists(node)).map_err(|e| format!("exists {}", e))?.map_err(s)?;
        if !ex {
            return Err("exists is false although the document is there".into());
        }
        let l = guard(|| h.list_nodes("")).map_err(|e| format!("list_nodes {}", e))?.map_err(s)?;
        if !node.is_empty() && l != vec![node.to_string()] {
            return Err(format!("list_nodes gives {:?}", l));
        }
        let mid = snap();
        let set = guard(|| h.set_attributes(node, add.clone())).map_err(|e| format!("set_attributes {}", e))?.map_err(s);
        let end = snap();
        let after = end.get(key).cloned().flatten().unwrap_or_default();
        let mut a = end.clone();
        let mut b = before.clone();
        a.remove(key);
        b.remove(key);
        Ok(Seen { meta, aexists, attrs, set, after, others: if a != b { Some(snap_diff(&b, &a)) } else { None }, unread_changed: mid != before })
    }
    if store == "mem" {
        let h = Mem::new();
        h.put(key, bytes);
        go(&h, node, &add, &|| h.snap().into_iter().map(|(k, v)| (k, Some(v))).collect(), key)
    } else {
        let d = Dir::new();
        let h = d.create();
        d.put(key, bytes);
        go(&h, node, &add, &|| d.snap(), key)
    }
}

fn judge_doc(kind: &str, bytes: &[u8], s: &Seen, truncated: bool) -> CaseResult {
    let v: Option<Value> = serde_json::from_slice(bytes).ok();
    if let Some(o) = &s.others {
        return Err(format!("something else changed: {}", o));
    }
    if s.unread_changed {
        return Err("a reading operation changed the store".into());
    }
    if s.set.is_err() && s.after != bytes {
        return Err("set_attributes failed and changed the document".into());
    }
    // attributes
    let attrs_of = |v: &Value| -> Option<Option<Map<String, Value>>> {
        // None: certainly malformed; Some(None): open
        match v {
            Value::Object(o) => match o.get("attributes") {
                Some(Value::Object(a)) => Some(Some(a.clone())),
                None => Some(None),
                _ => None,
            },
            _ => None,
        }
    };
    let want = v.as_ref().and_then(attrs_of);
    match (&want, &s.attrs) {
        (None, Ok(a)) => return Err(format!("list_attributes returns {} for a malformed document", cut(&format!("{:?}", a)))),
        (Some(Some(w)), Ok(a)) if w != a => return Err("list_attributes returns other attributes".into()),
        (Some(None), Ok(a)) if !a.is_empty() => return Err("list_attributes returns attributes the document does not have".into()),
        _ => {}
    }
    match (&want, &s.set) {
        (None, Ok(())) => return Err("set_attributes accepts a malformed document".into()),
        (Some(w), Ok(())) => {
            let mut exp = v.clone().unwrap();
            let mut a = w.clone().unwrap_or_default();
            a.insert("zz".into(), json!([1]));
            exp["attributes"] = Value::Object(a);
            let got: Value = serde_json::from_slice(&s.after).map_err(|e| format!("set_attributes left a broken document: {}", e))?;
            if got != exp {
                return Err(format!("set_attributes left {}", cut(&got.to_string())));
            }
        }
        _ => {}
    }
    let whole = v.as_ref().map_or(false, |v| match kind {
        "array" => array_doc(v) == Doctor::Valid,
        _ => v.get("extensions").map_or(false, |e| *e == json!([])) && want.as_ref().map_or(false, |w| w.is_some()) && v.as_object().unwrap().len() == 2,
    });
    if whole {
        if s.attrs.is_err() || s.set.is_err() {
            return Err(format!("a valid document is refused: {:?} {:?}", s.attrs.as_ref().err(), s.set.as_ref().err()));
        }
    }
    if truncated && (s.attrs.is_ok() || s.set.is_ok() || s.meta.is_ok()) {
        return Err("a truncated document is accepted".into());
    }
    if kind == "array" {
        let doctor = v.as_ref().map_or(Doctor::Invalid, array_doc);
        match (&doctor, &s.meta) {
            (Doctor::Invalid, Ok(m)) => return Err(format!("get_array_metadata takes it for {}", cut(&format!("{:?}", m)))),
            (Doctor::Valid, Err(e)) => return Err(format!("get_array_metadata refuses a valid document: {}", e)),
            (_, Ok(m)) => {
                let v = v.as_ref().unwrap();
                let same = json!(m.get_shape()) == v["shape"]
                    && json!(m.get_chunk_shape()) == v["chunk_grid"]["chunk_shape"]
                    && m.get_fill_value().cloned().unwrap_or(Value::Null) == v.get("fill_value").cloned().unwrap_or(Value::Null)
                    && known_type(&serde_json::to_value(m.get_data_type()).unwrap()) == known_type(&v["data_type"]);
                if !same {
                    return Err("get_array_metadata returns something else than the document says".into());
                }
            }
            _ => {}
        }
        match (&s.meta, &s.aexists) {
            (_, Ok(false)) => return Err("array_exists is false although the document is there".into()),
            (Err(_), Ok(true)) if doctor == Doctor::Invalid => {}
            _ => {}
        }
    } else {
        if s.meta.is_ok() {
            return Err("get_array_metadata of a group succeeds".into());
        }
        if s.aexists == Ok(true) {
            return Err("array_exists of a group is true".into());
        }
    }
    Ok(true)
}

pub fn c17(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (document kind, node, store, change): every truncation, every value replaced by each of \
         an alphabet of JSON values, removed or duplicated as another key, every single byte replaced by each of an alphabet of bytes, and \
         a list of hand-made documents; every operation that reads documents runs on it and is compared with \
         an independent reader of the document",
    );
    ctx.assume("settings of codecs, unknown fields, missing extensions or attributes, and duplicate keys are not judged except for panics and consistency");
    let t = ctx.thorough;
    let long = json!({"a": {"b": [1, 2.5, "x"]}, "é": "ü\n", "big": "z".repeat(300)});
    let mut m1 = M::new(&[5, 4], &[2, 3], "<i4").fill(json!(7)).codec(&codec("gzip"));
    m1.attrs = long.clone();
    m1.ext = json!([{"extension": "e", "must_understand": false, "configuration": {"k": 1}}]);
    let mut m2 = M::new(&[3], &[2], "u1").sep(".");
    m2.dtype = json!({"extension": "e", "type": "t", "fallback": ">f4"});
    let m3 = M::new(&[], &[], "bool");
    let mut docs: Vec<(&str, String, Value)> = vec![("array", "m1".into(), m1.json()), ("array", "m2".into(), m2.json()), ("array", "m3".into(), m3.json())];
    docs.push(("group", "g1".into(), json!({"extensions": [], "attributes": long})));
    docs.push(("group", "g2".into(), json!({"extensions": [], "attributes": {}})));
    let alphabet = |old: &Value| -> Vec<Option<Value>> {
        let mut v: Vec<Option<Value>> = [
            json!(null), json!(true), json!(false), json!(0), json!(1), json!(-1), json!(2.5), json!(4294967296u64), json!(1e30), json!(""), json!("x"), json!("C"), json!("<i4"), json!("raw"),
            json!([]), json!({}), json!([0]), json!([[]]), json!({"a": 0}), json!([5, 4]), json!([null]), json!([{"extension": "e", "must_understand": true}]), json!({"attributes": {}}),
        ]
        .into_iter()
        .map(Some)
        .collect();
        v.push(Some(json!(old.to_string())));
        v.push(Some(json!([old])));
        v.push(None);
        v
    };
    // value replacement
    let mut items: Vec<(&str, String, String, Vec<u8>, bool)> = vec![];
    for (kind, name, d) in &docs {
        for p in places(d) {
            let old = p.iter().fold(d.clone(), |v, k| match &v {
                Value::Object(o) => o[k].clone(),
                Value::Array(a) => a[k.parse::<usize>().unwrap()].clone(),
                _ => Value::Null,
            });
            for (i, x) in alphabet(&old).into_iter().enumerate() {
                if p.is_empty() && x.is_none() {
                    continue;
                }
                let mut n = d.clone();
                put_at(&mut n, &p, x.clone());
                items.push((kind, name.clone(), format!("/{}={}:{}", p.join("/"), i, x.map_or("removed".into(), |x| cut(&x.to_string()))), n.to_string().into_bytes(), false));
            }
            if !p.is_empty() && t {
                // two replacements
                for q in places(d) {
                    if q.is_empty() || q == p || q.len() > p.len() && q[..p.len()] == p[..] || p.len() > q.len() && p[..q.len()] == q[..] {
                        continue;
                    }
                    for x in [json!(null), json!(0), json!([])] {
                        for y in [None, Some(json!("x")), Some(json!({}))] {
                            let mut n = d.clone();
                            // replace before removing, so that indices stay valid
                            put_at(&mut n, &p, Some(x.clone()));
                            if q.last().unwrap().parse::<usize>().is_ok() && y.is_none() {
                                continue;
                            }
                            put_at(&mut n, &q, y.clone());
                            items.push((kind, name.clone(), format!("/{}={} /{}={:?}", p.join("/"), x, q.join("/"), y), n.to_string().into_bytes(), false));
                        }
                    }
                }
            }
        }
        // truncation
        for (fmt, text) in [("compact", d.to_string()), ("pretty", serde_json::to_string_pretty(d).unwrap())] {
            for n in 0..text.len() {
                items.push((kind, name.clone(), format!("{} truncated to {}", fmt, n), text.as_bytes()[..n].to_vec(), true));
            }
        }
        // bytes
        let text = d.to_string().into_bytes();
        for i in 0..text.len() {
            // inside the long attribute every place is alike
            if !t && (name == "m1" || name == "g1") && text[i] == b'z' && i % 37 != 0 {
                continue;
            }
            for b in [0u8, b'"', b'{', b'}', b'[', b']', b',', b':', b'0', b'-', b'9', b' ', b'\\', b'n', b't', b'e', b'.', 0x80, 0xff, b'A'] {
                if text[i] == b {
                    continue;
                }
                let mut x = text.clone();
                x[i] = b;
                items.push((kind, name.clone(), format!("byte {} is {:02x}", i, b), x, false));
            }
        }
    }
    for (kind, d) in [("array", m1.json()), ("group", json!({"extensions": [], "attributes": {"a": 1}}))] {
        let good = d.to_string();
        let mut raw: Vec<(String, Vec<u8>)> = vec![];
        for s in ["", " ", "\n", "null", "true", "0", "-", "\"", "\"x\"", "[", "[]", "{", "{}", "{}{}", "nul", "NaN", "{\"", "{\"a\"", "{\"a\":", "{,}", "{\"attributes\":{}}", "{\"attributes\":{}", "{\"attributes\":null}", "{\"attributes\":[]}", "\u{feff}{}", "// c\n{}", "{'attributes': {}}"] {
            raw.push((format!("text {:?}", s), s.as_bytes().to_vec()));
        }
        for tail in ["x", "}", "{}", ",", "\0", " null", "\u{feff}"] {
            raw.push((format!("with {:?} behind", tail), format!("{}{}", good, tail).into_bytes()));
        }
        for head in ["\u{feff}", "\0", ",", "[", "0 ", "\u{a0}"] {
            raw.push((format!("with {:?} before", head), format!("{}{}", head, good).into_bytes()));
        }
        raw.push(("invalid utf-8".into(), vec![0xff, 0xfe, b'{', b'}']));
        raw.push(("utf-16".into(), good.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()));
        for n in [100usize, 127, 128, 129, 200, 5000, 100_000] {
            raw.push((format!("{} nested arrays", n), format!("{}{}", "[".repeat(n), "]".repeat(n)).into_bytes()));
            raw.push((format!("{} nested arrays in attributes", n), good.replace("\"attributes\":{", &format!("\"attributes\":{{\"q\":{}{},", "[".repeat(n), "]".repeat(n))).into_bytes()));
            raw.push((format!("{} open objects", n), "{\"a\":".repeat(n).into_bytes()));
        }
        for num in ["1e999", "-1e999", "18446744073709551616", "1e-999", "00", "01", "1.", ".5", "0x1", "+1", "1e", "99999999999999999999999999"] {
            raw.push((format!("attribute {}", num), good.replace("\"attributes\":{", &format!("\"attributes\":{{\"q\":{},", num)).into_bytes()));
            raw.push((format!("fill {}", num), good.replace("\"fill_value\":7", &format!("\"fill_value\":{}", num)).into_bytes()));
            raw.push((format!("shape {}", num), good.replace("\"shape\":[5,4]", &format!("\"shape\":[5,{}]", num)).into_bytes()));
            raw.push((format!("chunk {}", num), good.replace("\"chunk_shape\":[2,3]", &format!("\"chunk_shape\":[{},3]", num)).into_bytes()));
        }
        for s in ["\\ud800", "\\u12", "\\x41", "\\", "\u{1}", "\t"] {
            raw.push((format!("string {:?}", s), good.replace("\"attributes\":{", &format!("\"attributes\":{{\"q\":\"{}\",", s)).into_bytes()));
        }
        for (what, bytes) in raw {
            items.push((kind, "raw".into(), what, bytes, false));
        }
    }
    ctx.par(&items, |(kind, name, what, bytes, trunc)| {
        for (store, node) in [("mem", "n"), ("fs", "n"), ("mem", "")] {
            if store == "fs" && what.starts_with("byte") && !t {
                continue;
            }
            if node.is_empty() && !what.starts_with('/') {
                continue;
            }
            ctx.case(format!("{} {} store={} node={:?} {}", kind, name, store, node, what), || {
                let key = if node.is_empty() { format!("meta/root.{}.json", kind) } else { format!("meta/root/{}.{}.json", node, kind) };
                let s = observe(store, &key, node, bytes)?;
                judge_doc(kind, bytes, &s, *trunc)
            });
        }
    });
    // entry point documents
    let good = json!({"zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_key_suffix": ".json",
        "extensions": [{"extension": "e", "must_understand": false, "configuration": {"a": 1}}]});
    let mut items: Vec<(String, Vec<u8>, Option<bool>)> = vec![];
    for (fmt, text) in [("compact", good.to_string()), ("pretty", serde_json::to_string_pretty(&good).unwrap())] {
        for n in 0..text.len() {
            items.push((format!("{} truncated to {}", fmt, n), text.as_bytes()[..n].to_vec(), Some(false)));
        }
        for tail in ["x", "}", "{}", ",", "\0"] {
            items.push((format!("{} with {:?} behind", fmt, tail), format!("{}{}", text, tail).into_bytes(), Some(false)));
        }
    }
    for p in places(&good) {
        let old = p.iter().fold(good.clone(), |v, k| match &v {
            Value::Object(o) => o[k].clone(),
            Value::Array(a) => a[k.parse::<usize>().unwrap()].clone(),
            _ => Value::Null,
        });
        for x in alphabet(&old) {
            if p.is_empty() && x.is_none() {
                continue;
            }
            let mut n = good.clone();
            put_at(&mut n, &p, x.clone());
            let ok = (|| {
                let o = n.as_object()?;
                let f = o.get("zarr_format")?.as_str()?.to_string();
                if f == "x" {
                    return Some(false); // a range, left open
                }
                if f != good["zarr_format"].as_str().unwrap() {
                    return None;
                }
                if o.get("metadata_key_suffix").map_or(true, |s| !s.is_string()) {
                    return None;
                }
                let mut open = false;
                match o.get("metadata_encoding") {
                    Some(Value::String(s)) => open |= s != good["metadata_encoding"].as_str().unwrap(),
                    None => open = true,
                    _ => return None,
                }
                match o.get("extensions") {
                    None => open = true,
                    Some(Value::Array(a)) => {
                        for e in a {
                            let e = e.as_object()?;
                            e.get("extension")?.as_str()?;
                            if e.get("must_understand")?.as_bool()? {
                                return None;
                            }
                            match e.get("configuration") {
                                None | Some(Value::Null) | Some(Value::Object(_)) => {}
                                _ => return None,
                            }
                        }
                    }
                    _ => return None,
                }
                Some(!open)
            })();
            let verdict = match ok {
                None => Some(false),
                Some(true) => Some(true),
                Some(false) => None,
            };
            items.push((format!("/{}={:?}", p.join("/"), x.map(|x| cut(&x.to_string()))), n.to_string().into_bytes(), verdict));
        }
    }
    for (what, b) in [("empty", &b""[..]), ("null", b"null"), ("[]", b"[]"), ("{}", b"{}"), ("binary", &[0xff, 0, 1]), ("3.0", b"3.0"), ("\"3.0\"", b"\"3.0\"")] {
        items.push((what.into(), b.to_vec(), Some(false)));
    }
    items.push(("deep".into(), "[".repeat(100_000).into_bytes(), Some(false)));
    for x in ["/", "/x", "x/", "a/b", ".json/", "/../x", "./x", "..", "...", ".", "", "json", "\\", "a\\b", "\0", ".\0", "\n", " ", "é", "\u{10ffff}", ".array.json", ".json.json", "%2f"] {
        let mut n = good.clone();
        n["metadata_key_suffix"] = json!(x);
        items.push((format!("suffix {:?}", x), n.to_string().into_bytes(), None));
    }
    for n in [200usize, 255, 256, 5000] {
        let mut d = good.clone();
        d["metadata_key_suffix"] = json!(format!(".{}", "j".repeat(n)));
        items.push((format!("suffix of {}", n), d.to_string().into_bytes(), None));
    }
    ctx.par(&items, |(what, bytes, ok)| {
        for opener in ["open", "open_or_create"] {
            ctx.case(format!("entry by={} {}", opener, what), || {
                let dir = Dir::new();
                dir.put("zarr.json", bytes);
                dir.put("meta/root/g.group.json", b"{\"extensions\":[],\"attributes\":{}}");
                let before = dir.snap();
                let r = guard(|| if opener == "open" { FilesystemHierarchy::open(&dir.base) } else { FilesystemHierarchy::open_or_create(&dir.base) })?;
                if dir.snap() != before {
                    return Err(format!("changed the directory: {}", snap_diff(&before, &dir.snap())));
                }
                if let Ok(h) = &r {
                    // what was opened can be worked with, or errors say why not
                    guard(|| {
                        let m = M::new(&[2], &[2], "u1").build();
                        let made = h.create_array("q", &m).is_ok();
                        let there = h.array_exists("q");
                        if made && !matches!(there, Ok(true)) {
                            return Err(format!("an array created under it is not found: {:?}", there));
                        }
                        let _ = h.get_array_metadata("q");
                        let _ = h.exists("");
                        let _ = h.list_nodes("");
                        let _ = h.create_group("p/r");
                        let _ = h.set_attribute("q", "k".into(), 1);
                        if made && !matches!(h.list_attributes("q"), Ok(a) if a.get("k") == Some(&json!(1))) {
                            return Err("attributes set under it are lost".into());
                        }
                        let _ = <u8 as Elem>::wr(h, "q", &m, &[0], &[1, 2]);
                        let _ = h.remove("q");
                        let _ = h.remove("");
                        Ok(())
                    })??;
                }
                match (ok, r) {
                    (Some(false), Ok(_)) => Err("accepted".into()),
                    (Some(true), Err(e)) => Err(format!("refused: {}", e)),
                    _ => Ok(true),
                }
            });
        }
    });
    ("exploration", true)
}
