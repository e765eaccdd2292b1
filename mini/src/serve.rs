//! Questions about a hierarchy on disk, answered by whatever build this is part of.
use serde_json::{json, Value};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zarr::chunk::{DataChunk, SliceDataChunk};
use zarr::compression::CompressionType;
use zarr::prelude::*;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

macro_rules! by_type {
    ($e:expr, $go:ident) => {
        match $e {
            "bool" => $go!(bool, 1, |b: [u8; 1]| b[0] != 0, |x: bool| [x as u8]),
            "u1" => $go!(u8, 1, u8::from_le_bytes, u8::to_le_bytes),
            "u2" => $go!(u16, 2, u16::from_le_bytes, u16::to_le_bytes),
            "u4" => $go!(u32, 4, u32::from_le_bytes, u32::to_le_bytes),
            "u8" => $go!(u64, 8, u64::from_le_bytes, u64::to_le_bytes),
            "i1" => $go!(i8, 1, i8::from_le_bytes, i8::to_le_bytes),
            "i2" => $go!(i16, 2, i16::from_le_bytes, i16::to_le_bytes),
            "i4" => $go!(i32, 4, i32::from_le_bytes, i32::to_le_bytes),
            "i8" => $go!(i64, 8, i64::from_le_bytes, i64::to_le_bytes),
            "f2" => $go!(half::f16, 2, |b| half::f16::from_bits(u16::from_le_bytes(b)), |x: half::f16| x.to_bits().to_le_bytes()),
            "f4" => $go!(f32, 4, |b| f32::from_bits(u32::from_le_bytes(b)), |x: f32| x.to_bits().to_le_bytes()),
            "f8" => $go!(f64, 8, |b| f64::from_bits(u64::from_le_bytes(b)), |x: f64| x.to_bits().to_le_bytes()),
            e => panic!("no element type {}", e),
        }
    };
}

fn one(dir: &str, q: &Value) -> io::Result<Value> {
    let s = |k: &str| q[k].as_str().unwrap_or("");
    let open = || FilesystemHierarchy::open(dir);
    let pos = || -> GridCoord { q["pos"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect() };
    Ok(match s("op") {
        "init" => {
            FilesystemHierarchy::open_or_create(dir)?;
            Value::Null
        }
        "create" => {
            let m: ArrayMetadata = serde_json::from_value(q["meta"].clone())?;
            open()?.create_array(s("path"), &m)?;
            Value::Null
        }
        "group" => {
            open()?.create_group(s("path"))?;
            Value::Null
        }
        "attrs" => {
            open()?.set_attributes(s("path"), q["attrs"].as_object().unwrap().clone())?;
            Value::Null
        }
        "remove" => {
            open()?.remove(s("path"))?;
            Value::Null
        }
        "delete" => {
            let h = open()?;
            let m = h.get_array_metadata(s("path"))?;
            json!(h.delete_chunk(s("path"), &m, &pos())?)
        }
        "write" => {
            let h = open()?;
            let m = h.get_array_metadata(s("path"))?;
            let d = unhex(s("data"));
            macro_rules! go {
                ($t:ty, $n:literal, $from:expr, $to:expr) => {{
                    let from: fn([u8; $n]) -> $t = $from;
                    let v: Vec<$t> = d
                        .chunks($n)
                        .map(|c| {
                            let mut b = [0u8; $n];
                            b.copy_from_slice(c);
                            from(b)
                        })
                        .collect();
                    h.write_chunk(s("path"), &m, &SliceDataChunk::new(pos(), v))?;
                }};
            }
            by_type!(s("e"), go);
            Value::Null
        }
        "read" => {
            let h = open()?;
            let m = h.get_array_metadata(s("path"))?;
            macro_rules! go {
                ($t:ty, $n:literal, $from:expr, $to:expr) => {{
                    let to: fn($t) -> [u8; $n] = $to;
                    match h.read_chunk::<$t>(s("path"), &m, pos())? {
                        None => Value::Null,
                        Some(c) => {
                            let b: Vec<u8> = c.get_data().iter().flat_map(|x| to(*x).to_vec()).collect();
                            json!(hex(&b))
                        }
                    }
                }};
            }
            by_type!(s("e"), go)
        }
        "exists" => json!(open()?.exists(s("path"))?),
        "is_array" => json!(open()?.array_exists(s("path"))?),
        "list" => json!(open()?.list_nodes(s("path"))?),
        "attributes" => Value::Object(open()?.list_attributes(s("path"))?),
        "meta" => serde_json::to_value(open()?.get_array_metadata(s("path"))?)?,
        "codec" => {
            let c: CompressionType = s("name").parse()?;
            json!([c.to_string(), serde_json::to_value(&c)?])
        }
        o => panic!("no operation {}", o),
    })
}

pub fn answer(dir: &str, q: &Value) -> Value {
    match catch_unwind(AssertUnwindSafe(|| one(dir, q))) {
        Ok(Ok(v)) => json!({ "ok": v }),
        Ok(Err(e)) => json!({"err": e.to_string()}),
        Err(p) => {
            let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            json!({"panic": s.unwrap_or_default()})
        }
    }
}

pub fn answer_all(q: &Value) -> Value {
    let dir = q["dir"].as_str().unwrap();
    q["do"].as_array().unwrap().iter().map(|x| answer(dir, x)).collect()
}
