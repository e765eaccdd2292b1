//! Properties of stored chunk data: C01 round trip, C02 stored format,
//! C10 codecs and settings.
use crate::eng::*;
use crate::mem::Mem;
use crate::util::*;
use crate::with_elem;
use serde_json::json;
use zarr::compression::CompressionType;
use zarr::prelude::*;
use zarr::storage::get_chunk_key;

/// All (element type, data type string) pairs.
pub fn all_dtypes() -> Vec<(&'static str, String)> {
    ETYPES
        .iter()
        .flat_map(|e| dtypes(e).into_iter().map(move |d| (*e, d)))
        .collect()
}

/// A codec with the settings that decide its code paths.
pub fn codecs_basic() -> Vec<Codec> {
    CODECS.iter().map(|c| codec(c)).collect()
}

pub fn check_read<T: Elem, H: HierarchyReader>(
    h: &H,
    path: &str,
    m: &zarr::ArrayMetadata,
    pos: &[u64],
    want: &[T],
) -> Result<(), String> {
    match T::rd(h, path, m, pos) {
        Ok(Some((p, d))) => {
            if p != pos {
                return Err(format!("read_chunk labels {:?} as {:?}", pos, p));
            }
            cmp_bits(want, &d).map_err(|e| format!("read_chunk: {}", e))?;
        }
        Ok(None) => return Err("read_chunk: no chunk".into()),
        Err(e) => return Err(format!("read_chunk: {}", e)),
    }
    // a used buffer of another size and position
    let mut buf = vchunk::<T>(&[7, 7], vec![T::fb(!0); 3]);
    match T::rd_into(h, path, m, pos, &mut buf) {
        Ok(Some(())) => {
            let (p, d) = chunk_parts(&buf);
            if p != pos {
                return Err(format!("read_chunk_into labels {:?} as {:?}", pos, p));
            }
            cmp_bits(want, &d).map_err(|e| format!("read_chunk_into: {}", e))
        }
        Ok(None) => Err("read_chunk_into: no chunk".into()),
        Err(e) => Err(format!("read_chunk_into: {}", e)),
    }
}

fn round_trip<T: Elem>(m: &M, pos: &[u64], data: &[T], fs: bool) -> CaseResult {
    let meta = m.build();
    if fs {
        let d = Dir::new();
        let h = d.create();
        h.create_array("a", &meta).map_err(|e| format!("create_array: {}", e))?;
        T::wr(&h, "a", &meta, pos, data).map_err(|e| format!("write_chunk: {}", e))?;
        check_read(&h, "a", &meta, pos, data)?;
        let h2 = d.open();
        let meta2 = h2.get_array_metadata("a").map_err(|e| e.to_string())?;
        check_read(&h2, "a", &meta2, pos, data).map_err(|e| format!("re-opened: {}", e))?;
    } else {
        let h = Mem::new();
        T::wr(&h, "a", &meta, pos, data).map_err(|e| format!("write_chunk: {}", e))?;
        check_read(&h, "a", &meta, pos, data)?;
    }
    Ok(!data.is_empty())
}

fn sizes(esz: usize, thorough: bool) -> Vec<usize> {
    let mut v = vec![1, 2, 3, 7, 8, 9, 255, 256, 257, 511, 512, 513, 767, 768, 769, 1000];
    // around the 8 KiB buffers of the file store
    for b in [4096usize, 8192, 16384] {
        for d in [-1i64, 0, 1] {
            v.push((((b / esz) as i64) + d) as usize);
        }
    }
    if thorough {
        for b in [32768usize, 65536, 131072, 262144] {
            for d in [-1i64, 0, 1] {
                v.push((((b / esz) as i64) + d) as usize);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c01(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (element type and byte order, codec and setting, chunk size or shape and \
         position, content, store): written through the API, read back by both chunk-reading \
         calls through the same and a re-opened handle, compared bit by bit; sequences of \
         rewrites of one chunk; chunks held in slices, boxes and a chunk type of the caller's own; \
         non-trivial when the chunk has elements",
    );
    ctx.assume("chunk contents range over 7 families (zeros, ones, counter, xorshift, special bit patterns, runs, all 16-bit patterns), not all contents");
    let thorough = ctx.thorough;
    // A: types x byte orders x codecs x sizes x contents x stores
    let mut items = vec![];
    for (e, dt) in all_dtypes() {
        for c in CODECS {
            items.push((e, dt.clone(), c));
        }
    }
    ctx.par(&items, |(e, dt, c)| {
        with_elem!(*e, T => {
            for n in sizes(T::SIZE, thorough) {
                for k in ["count", "special", "mix", "runs", "zero", "ones"] {
                    if !thorough && n > 1000 && !matches!(k, "count" | "mix") { continue; }
                    if !thorough && *c == "xz" && n > 600 && k != "mix" { continue; }
                    for fs in [false, true] {
                        if fs && !thorough && (k == "zero" || k == "ones") { continue; }
                        ctx.case(format!("A dtype={} codec={} n={} content={} fs={}", dt, c, n, k, fs), || {
                            round_trip::<T>(&M::new(&[n as u64], &[n as u32], dt).codec(&codec(c)), &[0], &content::<T>(k, n), fs)
                        });
                    }
                }
            }
        })
    });
    // large chunks across codec block boundaries
    let mut items = vec![];
    for (e, dt) in all_dtypes() {
        for c in CODECS {
            for bytes in [65535usize, 65536, 65537, 262144, 262145, 1 << 20, (1 << 20) + 1, 900_001, (4 << 20) + 5] {
                let quick = match c {
                    "lz4" | "raw" => bytes <= (1 << 20) + 1,
                    "gzip" => bytes <= 262145,
                    _ => bytes <= 65537,
                } && matches!(e, "u1" | "bool" | "i2" | "f2" | "u4" | "f8");
                if thorough || quick {
                    items.push((e, dt.clone(), c, bytes));
                }
            }
        }
    }
    // element-count boundaries, whatever the element size
    for (e, dt) in all_dtypes() {
        for n in [32767usize, 32768, 32769, 65535, 65536, 65537] {
            items.push((e, dt.clone(), "raw", n * esize(e)));
        }
    }
    items.sort_by_key(|i| std::cmp::Reverse(i.3));
    ctx.par(&items, |(e, dt, c, bytes)| {
        with_elem!(*e, T => {
            for k in ["mix", "runs"] {
                if !thorough && (k == "runs") == (*c == "lz4" || *c == "gzip") && *bytes > 65537 { continue; }
                let n = (*bytes + T::SIZE - 1) / T::SIZE;
                ctx.case(format!("L dtype={} codec={} n={} content={}", dt, c, n, k), || {
                    round_trip::<T>(&M::new(&[n as u64], &[n as u32], dt).codec(&codec(c)), &[0], &content::<T>(k, n), true)
                });
            }
        })
    });
    // B: dimensionalities, shapes, positions, separators, orders
    let mut shapes: Vec<(Vec<u64>, Vec<u32>)> = vec![];
    let ext: [(u64, u32); 6] = [(1, 1), (3, 1), (4, 2), (5, 3), (2, 7), (120, 10)];
    shapes.push((vec![], vec![]));
    for nd in 1..=8usize {
        for s in 0..ext.len() {
            let v: Vec<(u64, u32)> = (0..nd)
                .map(|i| {
                    let (a, b) = ext[(s + i * (s + 1)) % ext.len()];
                    // keep the element count small in many dimensions
                    if nd > 4 && i > 2 { (a, b.min(2)) } else { (a, b) }
                })
                .collect();
            shapes.push((v.iter().map(|x| x.0).collect(), v.iter().map(|x| x.1).collect()));
        }
    }
    // large coordinates
    for (a, b) in [
        (1u64 << 32, 1u32),
        ((1 << 32) + 5, 2),
        (1 << 33, 3),
        (1 << 40, 1),
        (1 << 53, 1),
        ((1 << 53) + 3, 1),
        (u64::MAX - 1, 1),
        (u64::MAX - 1, 7),
        (u64::MAX, 1),
        (u64::MAX, 1000),
        (1_000_000, 64),
    ] {
        shapes.push((vec![a], vec![b]));
        shapes.push((vec![3, a], vec![2, b]));
    }
    ctx.par(&shapes, |(shape, chunk)| {
        // independent extent: number of chunks covering each dimension
        let ext: Vec<u64> = shape.iter().zip(chunk).map(|(s, c)| {
            let c = *c as u64;
            s / c + if s % c != 0 { 1 } else { 0 }
        }).collect();
        let mut cand: Vec<Vec<u64>> = vec![vec![]];
        for e in &ext {
            let mut vals: Vec<u64> = vec![0, e - 1];
            for v in [1, 9, 10, 11, e / 2] {
                if v < *e && shape.len() < 4 { vals.push(v) }
            }
            vals.sort();
            vals.dedup();
            cand = cand.into_iter().flat_map(|p| vals.iter().map(move |v| { let mut p = p.clone(); p.push(*v); p })).collect();
        }
        let n: usize = chunk.iter().map(|c| *c as usize).product();
        for pos in cand {
            for order in ['C', 'F'] {
                for (e, dt) in [("u2", "<u2"), ("f8", ">f8")] {
                    for fs in [false, true] {
                        if shape.len() > 4 && fs && !thorough && order == 'F' { continue; }
                        ctx.case(format!("B shape={} chunk={} pos={} order={} dtype={} fs={}", shape_str(shape), shape_str(chunk), shape_str(&pos), order, dt, fs), || {
                            with_elem!(e, T => round_trip::<T>(&M::new(shape, chunk, dt).order(order), &pos, &content::<T>("count", n), fs))
                        });
                    }
                }
            }
        }
    });
    // C: settings
    let mut sets: Vec<Codec> = vec![];
    for l in -1..=9 { sets.push(Codec::new("gzip", Some(l))); }
    for l in 1..=9 { sets.push(Codec::new("bzip2", Some(l))); }
    for l in 0..=(if thorough { 8 } else { 6 }) { sets.push(Codec::new("xz", Some(l))); }
    for b in [65535i64, 65536, 65537, 262144, 262145, 1 << 20, (1 << 20) + 1, 4 << 20] {
        sets.push(Codec::new("lz4", Some(b)));
    }
    ctx.par(&sets, |c| {
        for (e, dt) in [("u1", "u1"), ("i2", ">i2"), ("f4", "<f4")] {
            with_elem!(e, T => {
                for n in [1usize, 257, 5000, 70001] {
                    if c.name == "xz" && n > 5000 && !thorough { continue; }
                    for k in ["mix", "runs"] {
                        ctx.case(format!("C codec={} dtype={} n={} content={}", c.show(), dt, n, k), || {
                            round_trip::<T>(&M::new(&[n as u64], &[n as u32], dt).codec(c), &[0], &content::<T>(k, n), k == "mix")
                        });
                    }
                }
            })
        }
    });
    // D: rewrites of one chunk with contents that compress differently
    let mut items = vec![];
    for c in CODECS {
        for fs in [false, true] {
            for a in 0..5usize {
                for b in 0..5usize {
                    items.push((c, fs, a, b));
                }
            }
        }
    }
    ctx.par(&items, |(c, fs, a, b)| {
        let kinds = ["zero", "mix", "runs", "ones", "count"];
        for x in 0..5usize {
            let seq = [*a, *b, x];
            ctx.case(format!("D codec={} fs={} seq={:?}", c, fs, seq.map(|i| kinds[i])), || {
                let n = 3000;
                let meta = M::new(&[2 * n], &[n as u32], "<u4").codec(&codec(c)).build();
                let neighbour = content::<u32>("special", n as usize);
                let body = |h: &dyn Fn(&[u32]) -> Result<(), String>| -> CaseResult {
                    for i in seq {
                        h(&content::<u32>(kinds[i], n as usize))?;
                    }
                    Ok(true)
                };
                if *fs {
                    let d = Dir::new();
                    let (h, h2) = (d.create(), d.open());
                    h.create_array("a", &meta).map_err(|e| e.to_string())?;
                    u32::wr(&h, "a", &meta, &[1], &neighbour).map_err(|e| e.to_string())?;
                    body(&|data| {
                        u32::wr(&h2, "a", &meta, &[0], data).map_err(|e| e.to_string())?;
                        check_read(&h, "a", &meta, &[0], data)?;
                        check_read(&h2, "a", &meta, &[1], &neighbour)
                    })
                } else {
                    let h = Mem::new();
                    u32::wr(&h, "a", &meta, &[1], &neighbour).map_err(|e| e.to_string())?;
                    body(&|data| {
                        u32::wr(&h, "a", &meta, &[0], data).map_err(|e| e.to_string())?;
                        check_read(&h, "a", &meta, &[0], data)?;
                        check_read(&h, "a", &meta, &[1], &neighbour)
                    })
                }
            });
        }
    });
    // E: every bit pattern of every 16-bit type, every byte value
    let mut items = vec![];
    for (e, dt) in all_dtypes() {
        for c in ["raw", "gzip", "lz4"] {
            items.push((e, dt.clone(), c));
        }
    }
    ctx.par(&items, |(e, dt, c)| {
        with_elem!(*e, T => {
            let n = 65536;
            ctx.case(format!("E dtype={} codec={}", dt, c), || {
                round_trip::<T>(&M::new(&[n], &[n as u32], dt).codec(&codec(c)), &[0], &content::<T>("all16", n as usize), false)
            });
        })
    });
    // F: node paths
    let paths = ["a", "/a/b", "x.y/z", "a b", "ünï/cödé", "", "/", "c0", "data/root", "a/c/c1"];
    let items: Vec<&str> = paths.to_vec();
    ctx.par(&items, |p| {
        ctx.case(format!("F path={:?}", p), || {
            let meta = M::new(&[4, 4], &[2, 2], "<i4").build();
            let d = Dir::new();
            let h = d.create();
            let all: Vec<Vec<i32>> = (0..4).map(|k| (0..4).map(|i| k * 10 + i).collect()).collect();
            for (k, data) in all.iter().enumerate() {
                i32::wr(&h, p, &meta, &[k as u64 / 2, k as u64 % 2], data).map_err(|e| e.to_string())?;
            }
            for (k, data) in all.iter().enumerate() {
                check_read(&h, p, &meta, &[k as u64 / 2, k as u64 % 2], data)?;
            }
            Ok(true)
        })
    });
    crate::p_stream::containers(ctx);
    ("exploration", true)
}

/// The stored bytes of the one chunk `pos` of array "a".
fn stored(d: &Dir, m: &zarr::ArrayMetadata, pos: &[u64]) -> Result<Vec<u8>, String> {
    d.bytes(&get_chunk_key("a", m, pos)).ok_or_else(|| "no chunk file".to_string())
}

fn big(dt: &str) -> bool {
    dt.starts_with('>')
}

fn c02_forward<T: Elem>(dt: &str, c: &Codec, data: &[T], fs: bool) -> CaseResult {
    let n = data.len();
    let m = M::new(&[n as u64], &[n as u32], dt).codec(c).build();
    let b = if fs {
        let d = Dir::new();
        let h = d.create();
        T::wr(&h, "a", &m, &[0], data).map_err(|e| format!("write_chunk: {}", e))?;
        stored(&d, &m, &[0])?
    } else {
        let h = Mem::new();
        T::wr(&h, "a", &m, &[0], data).map_err(|e| format!("write_chunk: {}", e))?;
        h.bytes(&get_chunk_key("a", &m, &[0])).ok_or("nothing stored")?
    };
    let (payload, rest) = ref_decompress(c.name, &b)
        .map_err(|e| format!("the stored stream is not a complete {} stream: {}", c.name, e))?;
    if rest != 0 {
        return Err(format!("{} bytes after the end of the {} stream", rest, c.name));
    }
    let want = encode(data, big(dt));
    if payload != want {
        let i = payload.iter().zip(&want).position(|(a, b)| a != b);
        return Err(format!(
            "payload of {} bytes instead of {}, first difference at {:?}",
            payload.len(),
            want.len(),
            i
        ));
    }
    Ok(n > 0)
}

fn c02_backward<T: Elem>(dt: &str, c: &str, stream: &[u8], data: &[T]) -> CaseResult {
    let n = data.len();
    let m = M::new(&[n as u64], &[n as u32], dt).codec(&codec(c)).build();
    let d = Dir::new();
    let h = d.create();
    d.put(&get_chunk_key("a", &m, &[0]), stream);
    check_read(&h, "a", &m, &[0], data)?;
    let h = Mem::new();
    h.put(&get_chunk_key("a", &m, &[0]), stream);
    check_read(&h, "a", &m, &[0], data)?;
    Ok(n > 0)
}

pub fn c02(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per (element type and byte order, codec and setting, size, content, direction): \
         stored bytes against an independent encoder of the elements and the codec library driven \
         directly, both ways; non-trivial when the chunk has elements",
    );
    ctx.assume("the codec libraries (zlib, libbz2, liblzma, liblz4), driven directly by the harness, define what a valid stream is");
    let thorough = ctx.thorough;
    let mut items = vec![];
    for (e, dt) in all_dtypes() {
        for c in CODECS {
            items.push((e, dt.clone(), c));
        }
    }
    ctx.par(&items, |(e, dt, c)| {
        with_elem!(*e, T => {
            let mut ns = vec![1usize, 2, 3, 255, 256, 257, 512, 513, 1025, 8192 / T::SIZE, 8192 / T::SIZE + 1];
            if *c != "xz" || thorough { ns.push(65536 / T::SIZE + 1); ns.push(140_001 / T::SIZE); }
            for n in ns {
                for k in ["count", "special", "mix", "runs"] {
                    if !thorough && n > 2000 && k != "mix" && k != "runs" { continue; }
                    if !thorough && *c == "xz" && n > 300 && k != "mix" { continue; }
                    let data = content::<T>(k, n);
                    for fs in [false, true] {
                        ctx.case(format!("fwd dtype={} codec={} n={} content={} fs={}", dt, c, n, k, fs), || {
                            c02_forward::<T>(dt, &codec(c), &data, fs)
                        });
                    }
                    let levels: &[u32] = match *c {
                        "raw" => &[0],
                        "gzip" => &[0, 1, 6, 9],
                        "bzip2" => &[1, 9],
                        "xz" => &[0, 6],
                        _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
                    };
                    for l in levels {
                        if n > 2000 && !thorough && *l > 3 { continue; }
                        ctx.case(format!("bwd dtype={} codec={} level={} n={} content={}", dt, c, l, n, k), || {
                            c02_backward::<T>(dt, c, &ref_compress(c, *l, &encode(&data, big(dt))), &data)
                        });
                    }
                }
            }
        })
    });
    // settings
    let mut sets: Vec<Codec> = vec![];
    for l in [-100i64, -1, 0, 1, 5, 9, 10, 100] { sets.push(Codec::new("gzip", Some(l))); }
    for l in 1..=9 { sets.push(Codec::new("bzip2", Some(l))); }
    for l in 0..=6 { sets.push(Codec::new("xz", Some(l))); }
    for b in [-1i64, 0, 1, 65536, 65537, 262144, 262145, 1 << 20, 1 << 22, 1 << 30] { sets.push(Codec::new("lz4", Some(b))); }
    ctx.par(&sets, |c| {
        for n in [6usize, 3000, 50_000] {
            if c.name == "xz" && n > 3000 && !thorough { continue; }
            ctx.case(format!("fwd codec={} n={}", c.show(), n), || {
                c02_forward::<i16>(">i2", c, &content::<i16>("mix", n), true)
            });
        }
    });
    // other producers: gzip header fields, xz checks, lz4 without content size/checksum
    let data = content::<u32>("mix", 777);
    let payload = encode(&data, true);
    let mut streams: Vec<(String, &str, Vec<u8>)> = vec![];
    {
        use std::io::Write;
        for k in 0..16 {
            let mut b = flate2::GzBuilder::new();
            if k & 1 != 0 { b = b.filename("file.bin"); }
            if k & 2 != 0 { b = b.comment("a comment"); }
            if k & 4 != 0 { b = b.extra(vec![1, 2, 3, 4]); }
            if k & 8 != 0 { b = b.mtime(1_600_000_000).operating_system(3); }
            let mut e = b.write(vec![], flate2::Compression::new(6));
            e.write_all(&payload).unwrap();
            streams.push((format!("gzip header fields {:04b}", k), "gzip", e.finish().unwrap()));
        }
        use xz2::stream::{Check, Stream};
        for (n, ck) in [("none", Check::None), ("crc32", Check::Crc32), ("crc64", Check::Crc64), ("sha256", Check::Sha256)] {
            let s = Stream::new_easy_encoder(3, ck).unwrap();
            let mut e = xz2::write::XzEncoder::new_stream(vec![], s);
            e.write_all(&payload).unwrap();
            streams.push((format!("xz check {}", n), "xz", e.finish().unwrap()));
        }
    }
    ctx.par(&streams, |(what, c, s)| {
        ctx.case(format!("bwd {}", what), || c02_backward::<u32>(">u4", c, s, &data));
    });
    // booleans: every byte value; stored as 0/1
    for c in CODECS {
        ctx.case(format!("bool bytes codec={}", c), || {
            let b: Vec<u8> = (0..=255).chain((0..=255).rev()).chain([0, 2, 128]).collect();
            let want: Vec<bool> = b.iter().map(|x| *x != 0).collect();
            c02_backward::<bool>("bool", c, &ref_compress(c, 1, &b), &want)
        });
    }
    // all 16-bit patterns, both byte orders, literal expectation
    for (e, dt) in [("u2", "<u2"), ("u2", ">u2"), ("i2", "<i2"), ("i2", ">i2"), ("f2", "<f2"), ("f2", ">f2")] {
        with_elem!(e, T => {
            ctx.case(format!("all16 dtype={}", dt), || {
                c02_forward::<T>(dt, &codec("raw"), &content::<T>("all16", 65536), false)
            });
        });
    }
    // extension types are stored as their fallback
    for fb in [">u4", "<u4"] {
        ctx.case(format!("fallback {}", fb), || {
            let mut m = M::new(&[5], &[5], "<u4");
            m.dtype = json!({"extension": "http://x/y", "type": "<M8[ns]", "fallback": fb});
            let m = m.build();
            let h = Mem::new();
            let data = content::<u32>("count", 5);
            u32::wr(&h, "a", &m, &[0], &data).map_err(|e| e.to_string())?;
            let b = h.bytes("data/root/a/c0").ok_or("nothing stored")?;
            if b != encode(&data, big(fb)) {
                return Err(format!("stored {:?}", b));
            }
            check_read(&h, "a", &m, &[0], &data)?;
            Ok(true)
        });
    }
    ("exploration", true)
}

pub fn c10(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "every codec name in every letter case and every single edit of a name; every codec x \
         settings value (all in range, boundaries, out of range, wrong JSON types) stored as \
         metadata and used to store and restore data; non-trivial: all",
    );
    let names = [("Raw", "raw"), ("Bzip2", "bzip2"), ("Gzip", "gzip"), ("Lz4", "lz4"), ("Xz", "xz")];
    let default_of = |n: &str| -> CompressionType {
        serde_json::from_value(codec(n).json()).expect("codec")
    };
    // names
    for (_, n) in names {
        ctx.case(format!("display {}", n), || {
            let c = default_of(n);
            let s = c.to_string();
            let back: CompressionType = s.parse().map_err(|e| format!("{} does not parse: {}", s, e))?;
            if back != c {
                return Err(format!("{} parses as {:?}, not {:?}", s, back, c));
            }
            Ok(true)
        });
        for bits in 0..(1u32 << n.len()) {
            let s: String = n.chars().enumerate()
                .map(|(i, ch)| if bits >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect();
            ctx.case(format!("parse {} #{}", s, bits), || {
                let c: CompressionType = s.parse().map_err(|e| format!("{} does not parse: {}", s, e))?;
                if c != default_of(n) { return Err(format!("{} parses as {:?}", s, c)); }
                Ok(true)
            });
        }
    }
    ctx.case("printed names are distinct", || {
        let mut v: Vec<String> = names.iter().map(|n| default_of(n.1).to_string().to_lowercase()).collect();
        v.sort();
        v.dedup();
        if v.len() != names.len() { return Err(format!("{:?}", v)); }
        Ok(true)
    });
    // settings do not change the printed name
    // unknown names: every string of length <= 3 and every single edit of a name
    let alpha: Vec<char> = "rawbzip2g4lx 0A".chars().collect();
    let mut cand: std::collections::BTreeSet<String> = Default::default();
    cand.insert(String::new());
    for a in &alpha {
        cand.insert(a.to_string());
        for b in &alpha {
            cand.insert(format!("{}{}", a, b));
            for c in &alpha {
                cand.insert(format!("{}{}{}", a, b, c));
            }
        }
    }
    for (_, n) in names {
        let n: Vec<char> = n.chars().collect();
        for i in 0..=n.len() {
            for a in &alpha {
                let mut v = n.clone();
                v.insert(i, *a);
                cand.insert(v.iter().collect());
                if i < n.len() {
                    let mut v = n.clone();
                    v[i] = *a;
                    cand.insert(v.iter().collect());
                }
            }
            if i < n.len() {
                let mut v = n.clone();
                v.remove(i);
                cand.insert(v.iter().collect());
            }
        }
    }
    for s in ["zlib", "blosc", "zstd", "deflate", "none", "lzma", "lz4hc", "gz", "bz2", GZIP, "default"] {
        cand.insert(s.into());
    }
    for s in cand {
        let known = names.iter().any(|(_, n)| *n == s.to_ascii_lowercase());
        if known { continue; }
        ctx.case(format!("unknown name {:?}", s), || {
            match s.parse::<CompressionType>() {
                Ok(c) => Err(format!("accepted as {:?}", c)),
                Err(_) => Ok(true),
            }
        });
        if s == GZIP { continue; }
        ctx.case(format!("unknown codec {:?}", s), || {
            let mut m = M::new(&[4], &[2], "<u2");
            m.codec = json!({"codec": s, "configuration": {}});
            match serde_json::from_value::<zarr::ArrayMetadata>(m.json()) {
                Ok(m) => Err(format!("accepted as {:?}", m.get_compressor())),
                Err(_) => Ok(true),
            }
        });
    }
    // settings
    let mut sets: Vec<Codec> = vec![];
    let i32s: Vec<i64> = (-3..=13).chain([31, 32, 64, 99, 100, 127, 128, 255, 256, 1000, 4095, 65535, 65536, 65537, 262143, 262144, 262145, 1 << 20, (1 << 20) + 1, 4 << 20, (4 << 20) + 1, 1 << 30,
        i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 6, i32::MIN as i64 + 1, -100, -65536]).collect();
    for n in ["gzip", "lz4", "xz"] {
        for v in &i32s { sets.push(Codec::new(n, Some(*v))); }
        sets.push(codec(n));
    }
    for v in 0..=255 { sets.push(Codec::new("bzip2", Some(v))); }
    sets.push(codec("bzip2"));
    sets.push(codec("raw"));
    if !ctx.thorough {
        // presets 7 to 9 need up to 700 MB each
        sets.retain(|c| !(c.name == "xz" && matches!(c.set, Some(7..=9))));
    }
    ctx.par(&sets, |c| {
        ctx.case(format!("settings {}", c.show()), || {
            let doc = M::new(&[40], &[10], ">u4").codec(c);
            let m = doc.build();
            // through the store
            let d = Dir::new();
            let h = d.create();
            h.create_array("a", &m).map_err(|e| format!("create: {}", e))?;
            let back = d.open().get_array_metadata("a").map_err(|e| format!("get: {}", e))?;
            if back != m {
                return Err(format!("stored {:?}, got {:?}", m.get_compressor(), back.get_compressor()));
            }
            let raw: serde_json::Value = serde_json::from_slice(&d.bytes("meta/root/a.array.json").ok_or("no document")?).map_err(|e| e.to_string())?;
            match (c.name, raw.get("compressor")) {
                ("raw", None) => {}
                ("raw", Some(v)) if v["codec"] == "raw" => {}
                (_, Some(v)) => {
                    if v["codec"] != c.id() {
                        return Err(format!("stored codec {}", v));
                    }
                    if let Some(s) = c.set {
                        if v["configuration"][c.setting_name()] != json!(s) {
                            return Err(format!("stored configuration {}", v));
                        }
                    }
                }
                (_, None) => return Err("no compressor in the document".into()),
            }
            // printed name is still the codec's
            let named: CompressionType = m.get_compressor().to_string().parse().map_err(|e| format!("{}", e))?;
            if named != default_of(c.name) {
                return Err(format!("prints as {}", m.get_compressor()));
            }
            // data through these settings
            for (k, data) in [("mix", content::<u32>("mix", 10)), ("runs", content::<u32>("runs", 10))] {
                u32::wr(&h, "a", &m, &[1], &data).map_err(|e| format!("write {}: {}", k, e))?;
                check_read(&h, "a", &m, &[1], &data)?;
                let b = d.bytes("data/root/a/c1").ok_or("no chunk")?;
                let (p, rest) = ref_decompress(c.name, &b)?;
                if p != encode(&data, true) || rest != 0 {
                    return Err("stored stream does not hold the elements".into());
                }
            }
            // a larger chunk
            let n = 20_000u32;
            let m = M::new(&[n as u64], &[n], "<u4").codec(c).build();
            let data = content::<u32>("runs", n as usize);
            u32::wr(&h, "b", &m, &[0], &data).map_err(|e| format!("write large: {}", e))?;
            check_read(&h, "b", &m, &[0], &data)?;
            Ok(true)
        });
    });
    // a setting within the codec's range, or left to its default, is the one
    // the stored stream is made with
    let text = settings_text();
    let refs: Vec<(&str, i64, Vec<u8>)> = {
        let mut jobs: Vec<(&str, i64)> = vec![];
        for l in 0..=9 { jobs.push(("gzip", l)); }
        for l in 1..=9 { jobs.push(("bzip2", l)); }
        for l in 0..=if ctx.thorough { 9 } else { 6 } { jobs.push(("xz", l)); }
        for l in 0..4 { jobs.push(("lz4", l)); }
        jobs.into_iter().map(|(n, l)| (n, l, setting_stream(n, l, &text))).collect()
    };
    let mut eff: Vec<(Codec, i64)> = vec![];
    for (n, l, _) in &refs {
        if *n != "lz4" { eff.push((Codec::new(n, Some(*l)), *l)); }
    }
    for v in &i32s {
        let class = match *v { 65536..=65536 => 0, 65537..=262144 => 1, 262145..=1048576 => 2, 1048577..=4194304 => 3, _ => continue };
        eff.push((Codec::new("lz4", Some(*v)), class));
    }
    for (n, l) in [("gzip", 6), ("bzip2", 9), ("lz4", 0), ("xz", 6)] { eff.push((codec(n), l)); }
    eff.push((Codec::new("gzip", Some(-1)), 6));
    ctx.par(&eff, |(c, l)| {
        ctx.case(format!("settings take effect {}", c.show()), || {
            let m = M::new(&[text.len() as u64], &[text.len() as u32], "<u1").codec(c).build();
            let h = Mem::new();
            u8::wr(&h, "a", &m, &[0], &text).map_err(|e| e.to_string())?;
            let mut b = h.bytes("data/root/a/c0").ok_or("no chunk")?;
            if c.name == "lz4" {
                // the block size class in the frame descriptor
                let got = (b[5] >> 4) as i64 - 4;
                if got != *l { return Err(format!("blocks of class {}, not {}", got, l)); }
                return Ok(true);
            }
            if c.name == "gzip" { b[8] = 0; b[9] = 0; }
            let same: Vec<i64> = refs.iter().filter(|(n, _, s)| *n == c.name && *s == b).map(|(_, l, _)| *l).collect();
            if !same.is_empty() && !same.contains(l) {
                return Err(format!("the stream is the one of setting {}, not {}", same[0], l));
            }
            if same.is_empty() { ctx.add_note("streams of no setting of the reference encoder", 1); }
            Ok(true)
        });
    });
    // the documented default of each setting
    for (c, v) in [("gzip", json!(-1)), ("bzip2", json!(9)), ("lz4", json!(65536)), ("xz", json!(6))] {
        ctx.case(format!("default of {}", c), || {
            let a = default_of(c);
            let b: CompressionType = serde_json::from_value(Codec::new(codec(c).name, v.as_i64()).json()).map_err(|e| e.to_string())?;
            if a != b { return Err(format!("{:?} is not {:?}", a, b)); }
            Ok(true)
        });
    }
    ctx.case("no compressor means raw", || {
        let mut m = M::new(&[4], &[2], "<u2");
        m.codec = serde_json::Value::Null;
        if *m.build().get_compressor() != default_of("raw") {
            return Err("not raw".into());
        }
        Ok(true)
    });
    // settings of the wrong type or unrepresentable: an error or a working codec
    let mut bad = vec![];
    for c in ["gzip", "bzip2", "lz4", "xz"] {
        for v in [json!("6"), json!(1.5), json!(null), json!([6]), json!({}), json!(true), json!(1u64 << 40), json!(-(1i64 << 40)), json!(256), json!(-1)] {
            bad.push((c, v));
        }
    }
    ctx.par(&bad, |(c, v)| {
        ctx.case(format!("odd setting {} {}", c, v), || {
            let mut m = M::new(&[4], &[4], "<u2");
            m.codec = json!({"codec": codec(c).id(), "configuration": {codec(c).setting_name(): v}});
            if let Ok(m) = serde_json::from_value::<zarr::ArrayMetadata>(m.json()) {
                let h = Mem::new();
                let data = content::<u16>("mix", 4);
                u16::wr(&h, "a", &m, &[0], &data).map_err(|e| e.to_string())?;
                check_read(&h, "a", &m, &[0], &data)?;
            }
            Ok(true)
        });
    });
    ("exploration", true)
}

/// Some text which the settings of a codec compress differently.
fn settings_text() -> Vec<u8> {
    let words: Vec<String> = (0..400u32).map(|i| format!("{:x}", i.wrapping_mul(2654435761) >> (i % 19))).collect();
    let mut v = vec![];
    let mut x = 12345u32;
    while v.len() < 120_000 {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        v.extend_from_slice(words[(x >> 16) as usize % words.len()].as_bytes());
        v.push(b" ,.\n"[(x >> 9) as usize % 4]);
    }
    v
}

/// The stream of a setting from the reference encoders, without the bytes of
/// a gzip header which say nothing about the data.
fn setting_stream(name: &str, l: i64, b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    match name {
        "xz" => {
            let mut e = xz2::write::XzEncoder::new(vec![], l as u32);
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "lz4" => vec![],
        n => {
            let mut v = ref_compress(n, l as u32, b);
            if n == "gzip" { v[8] = 0; v[9] = 0; }
            v
        }
    }
}
