//! Shared pieces: element types, metadata, contents, scratch directories.
use half::f16;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;
use zarr::chunk::{DataChunk, SliceDataChunk};
use zarr::ndarray::{BoundingBox, ZarrNdarrayReader, ZarrNdarrayWriter};
use zarr::prelude::*;
use zarr::store::filesystem::FilesystemHierarchy;
use zarr::chunk::VecDataChunk;
use zarr::{ArrayMetadata, CoordVec, GridCoord, ReflectedType};

// ---------------------------------------------------------------- scratch

static SCRATCH: OnceLock<String> = OnceLock::new();
static SERIAL: AtomicU64 = AtomicU64::new(0);

pub fn make_scratch() -> String {
    for base in ["/dev/shm", "/tmp"] {
        let p = format!("{}/zmc-{}-{}", base, std::process::id(), now());
        if std::fs::create_dir(&p).is_ok() && std::fs::write(format!("{}/probe", p), b"x").is_ok() {
            return p;
        }
    }
    panic!("no scratch directory");
}
fn now() -> u128 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_nanos())
        .unwrap_or(0)
}
pub fn set_scratch(p: &str) {
    let _ = SCRATCH.set(p.into());
}
pub fn scratch() -> &'static str {
    SCRATCH.get().expect("scratch")
}
pub fn remove_scratch(p: &str) {
    if p.contains("/zmc-") {
        let _ = std::fs::remove_dir_all(p);
    }
}
pub fn empty_scratch(p: &str) {
    if p.contains("/zmc-") {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}

/// A directory of its own for one case, removed afterwards.
/// Always scratch/<w>/<n>/... so that traces can leave these parts out.
pub struct Dir {
    top: PathBuf,
    pub base: PathBuf,
}
impl Dir {
    pub fn new() -> Dir {
        let w = crate::eng::WORKER.with(|w| w.get());
        let n = SERIAL.fetch_add(1, Relaxed);
        let top = PathBuf::from(format!("{}/w{}/{}", scratch(), w, n));
        crate::sys::unhooked(|| std::fs::create_dir_all(&top).expect("scratch"));
        Dir {
            base: top.join("h"),
            top,
        }
    }
    pub fn top(&self) -> &Path {
        &self.top
    }
    pub fn create(&self) -> FilesystemHierarchy {
        FilesystemHierarchy::open_or_create(&self.base).expect("create hierarchy")
    }
    pub fn open(&self) -> FilesystemHierarchy {
        FilesystemHierarchy::open(&self.base).expect("open hierarchy")
    }
    pub fn file(&self, key: &str) -> PathBuf {
        self.base.join(key.trim_start_matches('/'))
    }
    pub fn bytes(&self, key: &str) -> Option<Vec<u8>> {
        std::fs::read(self.file(key)).ok()
    }
    pub fn put(&self, key: &str, b: &[u8]) {
        let p = self.file(key);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
    pub fn snap(&self) -> Snap {
        snapshot(&self.base)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        crate::sys::unhooked(|| {
            let _ = std::fs::remove_dir_all(&self.top);
        })
    }
}

/// Everything below a directory: files with contents, directories as None.
pub type Snap = BTreeMap<String, Option<Vec<u8>>>;
pub fn snapshot(base: &Path) -> Snap {
    fn walk(base: &Path, rel: &str, out: &mut Snap) {
        let dir = if rel.is_empty() { base.to_path_buf() } else { base.join(rel) };
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                let name = e.file_name().to_string_lossy().into_owned();
                let r = if rel.is_empty() { name } else { format!("{}/{}", rel, name) };
                match e.file_type() {
                    Ok(t) if t.is_dir() => {
                        out.insert(r.clone(), None);
                        walk(base, &r, out);
                    }
                    _ => {
                        out.insert(r.clone(), Some(std::fs::read(e.path()).unwrap_or_default()));
                    }
                }
            }
        }
    }
    let mut s = Snap::new();
    crate::sys::unhooked(|| walk(base, "", &mut s));
    s
}
/// Only the files of a snapshot.
pub fn files(s: &Snap) -> BTreeMap<String, Vec<u8>> {
    s.iter()
        .filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v)))
        .collect()
}
pub fn snap_diff(a: &Snap, b: &Snap) -> String {
    let mut out = vec![];
    for (k, v) in a {
        match b.get(k) {
            None => out.push(format!("-{}", k)),
            Some(w) if w != v => out.push(format!(
                "~{} ({:?} -> {:?} bytes)",
                k,
                v.as_ref().map(|v| v.len()),
                w.as_ref().map(|v| v.len())
            )),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            out.push(format!("+{}", k));
        }
    }
    out.join(", ")
}

// ------------------------------------------------------------ panic hook

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static QUIET: Cell<u32> = const { Cell::new(0) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        if QUIET.with(|q| q.get()) == 0 && std::env::var("ZMC_PANIC").is_ok() {
            eprintln!("{}", m);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

// ---------------------------------------------------------- element types

pub fn gc(v: &[u64]) -> GridCoord {
    v.iter().copied().collect()
}
pub fn cc(v: &[u32]) -> CoordVec<u32> {
    v.iter().copied().collect()
}

pub type ArrD<T> = ndarray::ArrayD<T>;

/// An element type of the library, with the calls that are only implemented
/// for concrete types.
pub trait Elem: ReflectedType + Copy + PartialEq + std::fmt::Debug {
    const NAME: &'static str;
    const SIZE: usize;
    fn bits(self) -> u64;
    /// Any 64-bit pattern, cut down to this type.
    fn fb(b: u64) -> Self;
    fn wr<H: HierarchyWriter>(
        h: &H,
        p: &str,
        m: &ArrayMetadata,
        pos: &[u64],
        data: &[Self],
    ) -> io::Result<()>;
    fn rd<H: HierarchyReader>(
        h: &H,
        p: &str,
        m: &ArrayMetadata,
        pos: &[u64],
    ) -> io::Result<Option<(Vec<u64>, Vec<Self>)>>;
    fn rd_into<H: HierarchyReader>(
        h: &H,
        p: &str,
        m: &ArrayMetadata,
        pos: &[u64],
        buf: &mut VecDataChunk<Self>,
    ) -> io::Result<Option<()>>;
    fn nd_rd<H: HierarchyReader>(
        h: &H,
        p: &str,
        m: &ArrayMetadata,
        b: &BoundingBox,
    ) -> io::Result<ArrD<Self>>;
    fn nd_rd_into<H: HierarchyReader>(
        h: &H,
        p: &str,
        m: &ArrayMetadata,
        b: &BoundingBox,
        a: ndarray::ArrayViewMutD<Self>,
    ) -> io::Result<()>;
    fn nd_rd_buf<H: HierarchyReader>(
        h: &H,
        p: &str,
        m: &ArrayMetadata,
        b: &BoundingBox,
        a: ndarray::ArrayViewMutD<Self>,
        buf: &mut Option<VecDataChunk<Self>>,
    ) -> io::Result<()>;
    fn nd_wr<H: HierarchyWriter>(
        h: &H,
        p: &str,
        m: &ArrayMetadata,
        off: &[u64],
        a: ndarray::ArrayViewD<Self>,
    ) -> io::Result<()>;
}

/// Unstructured access to a chunk's parts.
pub fn chunk_parts<T: Elem>(c: &VecDataChunk<T>) -> (Vec<u64>, Vec<T>) {
    (c.get_grid_position().to_vec(), c.get_data().to_vec())
}
pub fn vchunk<T: Elem>(pos: &[u64], d: Vec<T>) -> VecDataChunk<T> {
    SliceDataChunk::new(gc(pos), d)
}

macro_rules! elem {
    ($t:ty, $name:literal, $size:literal, $bits:expr, $from:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $name;
            const SIZE: usize = $size;
            fn bits(self) -> u64 {
                let f: fn($t) -> u64 = $bits;
                f(self)
            }
            fn fb(b: u64) -> Self {
                let f: fn(u64) -> $t = $from;
                f(b)
            }
            fn wr<H: HierarchyWriter>(
                h: &H,
                p: &str,
                m: &ArrayMetadata,
                pos: &[u64],
                data: &[Self],
            ) -> io::Result<()> {
                let c = SliceDataChunk::<$t, _>::new(gc(pos), data);
                h.write_chunk(p, m, &c)
            }
            fn rd<H: HierarchyReader>(
                h: &H,
                p: &str,
                m: &ArrayMetadata,
                pos: &[u64],
            ) -> io::Result<Option<(Vec<u64>, Vec<Self>)>> {
                Ok(h.read_chunk::<$t>(p, m, gc(pos))?.map(|c| chunk_parts(&c)))
            }
            fn rd_into<H: HierarchyReader>(
                h: &H,
                p: &str,
                m: &ArrayMetadata,
                pos: &[u64],
                buf: &mut VecDataChunk<Self>,
            ) -> io::Result<Option<()>> {
                h.read_chunk_into(p, m, gc(pos), buf)
            }
            fn nd_rd<H: HierarchyReader>(
                h: &H,
                p: &str,
                m: &ArrayMetadata,
                b: &BoundingBox,
            ) -> io::Result<ArrD<Self>> {
                h.read_ndarray::<$t>(p, m, b)
            }
            fn nd_rd_into<H: HierarchyReader>(
                h: &H,
                p: &str,
                m: &ArrayMetadata,
                b: &BoundingBox,
                a: ndarray::ArrayViewMutD<Self>,
            ) -> io::Result<()> {
                h.read_ndarray_into(p, m, b, a)
            }
            fn nd_rd_buf<H: HierarchyReader>(
                h: &H,
                p: &str,
                m: &ArrayMetadata,
                b: &BoundingBox,
                a: ndarray::ArrayViewMutD<Self>,
                buf: &mut Option<VecDataChunk<Self>>,
            ) -> io::Result<()> {
                h.read_ndarray_into_with_buffer(p, m, b, a, buf)
            }
            fn nd_wr<H: HierarchyWriter>(
                h: &H,
                p: &str,
                m: &ArrayMetadata,
                off: &[u64],
                a: ndarray::ArrayViewD<Self>,
            ) -> io::Result<()> {
                h.write_ndarray(p, m, gc(off), a)
            }
        }
    };
}
elem!(bool, "bool", 1, |x| x as u64, |b| b & 1 != 0);
elem!(u8, "u1", 1, |x| x as u64, |b| b as u8);
elem!(u16, "u2", 2, |x| x as u64, |b| b as u16);
elem!(u32, "u4", 4, |x| x as u64, |b| b as u32);
elem!(u64, "u8", 8, |x| x, |b| b);
elem!(i8, "i1", 1, |x| x as u8 as u64, |b| b as i8);
elem!(i16, "i2", 2, |x| x as u16 as u64, |b| b as i16);
elem!(i32, "i4", 4, |x| x as u32 as u64, |b| b as i32);
elem!(i64, "i8", 8, |x| x as u64, |b| b as i64);
elem!(f16, "f2", 2, |x| x.to_bits() as u64, |b| f16::from_bits(b as u16));
elem!(f32, "f4", 4, |x| x.to_bits() as u64, |b| f32::from_bits(b as u32));
elem!(f64, "f8", 8, |x| x.to_bits(), f64::from_bits);

pub const ETYPES: [&str; 12] = [
    "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8", "bool",
];

/// Run generic code for the element type with this name.
#[macro_export]
macro_rules! with_elem {
    ($name:expr, $T:ident => $body:expr) => {
        match $name {
            "bool" => { type $T = bool; $body }
            "u1" => { type $T = u8; $body }
            "u2" => { type $T = u16; $body }
            "u4" => { type $T = u32; $body }
            "u8" => { type $T = u64; $body }
            "i1" => { type $T = i8; $body }
            "i2" => { type $T = i16; $body }
            "i4" => { type $T = i32; $body }
            "i8" => { type $T = i64; $body }
            "f2" => { type $T = half::f16; $body }
            "f4" => { type $T = f32; $body }
            "f8" => { type $T = f64; $body }
            n => panic!("no element type {}", n),
        }
    };
}

pub fn esize(name: &str) -> usize {
    match name {
        "bool" => 1,
        n => n[1..].parse().unwrap(),
    }
}

/// The data type strings of an element type: one, or one per byte order.
pub fn dtypes(name: &str) -> Vec<String> {
    if esize(name) == 1 {
        vec![name.into()]
    } else {
        vec![format!("<{}", name), format!(">{}", name)]
    }
}

/// The bytes the format prescribes for these elements.
pub fn encode<T: Elem>(d: &[T], big: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(d.len() * T::SIZE);
    for x in d {
        let le = x.bits().to_le_bytes();
        if big {
            v.extend(le[..T::SIZE].iter().rev());
        } else {
            v.extend(&le[..T::SIZE]);
        }
    }
    v
}

/// The elements of their stored bytes.
pub fn decode<T: Elem>(b: &[u8], big: bool) -> Vec<T> {
    b.chunks(T::SIZE)
        .map(|c| {
            let bytes = |x: u64, y: &u8| x << 8 | *y as u64;
            T::fb(if big { c.iter().fold(0, bytes) } else { c.iter().rev().fold(0, bytes) })
        })
        .collect()
}

pub fn bits_of<T: Elem>(d: &[T]) -> Vec<u64> {
    d.iter().map(|x| x.bits()).collect()
}

/// Where two element sequences first differ, by bit pattern.
pub fn cmp_bits<T: Elem>(want: &[T], got: &[T]) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("{} elements instead of {}", got.len(), want.len()));
    }
    for i in 0..want.len() {
        if want[i].bits() != got[i].bits() {
            return Err(format!(
                "element {} is {:?} (bits {:x}) instead of {:?} (bits {:x})",
                i,
                got[i],
                got[i].bits(),
                want[i],
                want[i].bits()
            ));
        }
    }
    Ok(())
}

// -------------------------------------------------------------- metadata

/// An array document under construction.
#[derive(Clone, Debug)]
pub struct M {
    pub shape: Vec<u64>,
    pub chunk: Vec<u32>,
    pub dtype: Value,
    pub sep: String,
    pub order: char,
    pub fill: Value,
    pub codec: Value,
    pub ext: Value,
    pub attrs: Value,
}
impl M {
    pub fn new(shape: &[u64], chunk: &[u32], dtype: &str) -> M {
        M {
            shape: shape.to_vec(),
            chunk: chunk.to_vec(),
            dtype: json!(dtype),
            sep: "/".into(),
            order: 'C',
            fill: Value::Null,
            codec: json!({"codec": "raw", "configuration": null}),
            ext: json!([]),
            attrs: json!({}),
        }
    }
    pub fn order(mut self, o: char) -> M {
        self.order = o;
        self
    }
    pub fn codec(mut self, c: &Codec) -> M {
        self.codec = c.json();
        self
    }
    pub fn fill(mut self, f: Value) -> M {
        self.fill = f;
        self
    }
    pub fn sep(mut self, s: &str) -> M {
        self.sep = s.into();
        self
    }
    pub fn json(&self) -> Value {
        let mut v = json!({
            "shape": self.shape, "data_type": self.dtype,
            "chunk_grid": {"type": "regular", "chunk_shape": self.chunk, "separator": self.sep},
            "chunk_memory_layout": self.order.to_string(),
            "fill_value": self.fill, "extensions": self.ext, "attributes": self.attrs,
        });
        if !self.codec.is_null() {
            v["compressor"] = self.codec.clone();
        }
        v
    }
    pub fn build(&self) -> ArrayMetadata {
        serde_json::from_value(self.json())
            .unwrap_or_else(|e| panic!("metadata {} does not parse: {}", self.json(), e))
    }
    pub fn show(&self) -> String {
        format!(
            "{}{:?}/{:?}{}",
            self.dtype.as_str().unwrap_or("?"),
            self.shape,
            self.chunk,
            self.order
        )
        .replace(' ', "")
    }
}

/// A codec and one settings value.
#[derive(Clone, Debug, PartialEq)]
pub struct Codec {
    pub name: &'static str,
    pub set: Option<i64>,
}
pub const GZIP: &str = "https://purl.org/zarr/spec/codec/gzip/1.0";
impl Codec {
    pub fn new(name: &'static str, set: Option<i64>) -> Codec {
        Codec { name, set }
    }
    pub fn id(&self) -> &'static str {
        match self.name {
            "gzip" => GZIP,
            n => n,
        }
    }
    pub fn setting_name(&self) -> &'static str {
        match self.name {
            "gzip" => "level",
            "xz" => "preset",
            _ => "blockSize",
        }
    }
    pub fn json(&self) -> Value {
        match (self.name, self.set) {
            ("raw", _) => json!({"codec": "raw", "configuration": null}),
            (_, Some(s)) => {
                json!({"codec": self.id(), "configuration": {self.setting_name(): s}})
            }
            (_, None) => json!({"codec": self.id(), "configuration": {}}),
        }
    }
    pub fn show(&self) -> String {
        match self.set {
            Some(s) => format!("{}({})", self.name, s),
            None => self.name.into(),
        }
    }
}
pub const CODECS: [&str; 5] = ["raw", "gzip", "bzip2", "lz4", "xz"];
pub fn codec(name: &str) -> Codec {
    let n = CODECS.iter().find(|c| **c == name).unwrap();
    Codec::new(n, None)
}

/// Independent reference encoders (the codec libraries, driven directly).
pub fn ref_compress(name: &str, level: u32, b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    match name {
        "raw" => b.to_vec(),
        "gzip" => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level.min(9)));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "bzip2" => {
            let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(level.clamp(1, 9)));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "xz" => {
            let mut e = xz2::write::XzEncoder::new(vec![], level.min(6));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "lz4" => {
            use lz4::{BlockMode, BlockSize, ContentChecksum, EncoderBuilder};
            let mut e = EncoderBuilder::new()
                .level(level)
                .block_size(match level % 4 {
                    0 => BlockSize::Max64KB,
                    1 => BlockSize::Max256KB,
                    2 => BlockSize::Max1MB,
                    _ => BlockSize::Max4MB,
                })
                .block_mode(if level % 2 == 0 { BlockMode::Independent } else { BlockMode::Linked })
                .checksum(if level % 3 == 0 {
                    ContentChecksum::ChecksumEnabled
                } else {
                    ContentChecksum::NoChecksum
                })
                .build(vec![])
                .unwrap();
            e.write_all(b).unwrap();
            let (v, r) = e.finish();
            r.unwrap();
            v
        }
        n => panic!("codec {}", n),
    }
}

/// Decode exactly one complete stream; the rest of the input is returned too.
pub fn ref_decompress(name: &str, b: &[u8]) -> Result<(Vec<u8>, usize), String> {
    use std::io::{BufRead, Read};
    let mut out = vec![];
    let e = |e: io::Error| e.to_string();
    match name {
        "raw" => Ok((b.to_vec(), 0)),
        "gzip" => {
            let mut r = b;
            let mut d = flate2::bufread::GzDecoder::new(&mut r);
            d.read_to_end(&mut out).map_err(e)?;
            drop(d);
            Ok((out, r.len()))
        }
        "bzip2" => {
            let mut r = b;
            let mut d = bzip2::bufread::BzDecoder::new(&mut r);
            d.read_to_end(&mut out).map_err(e)?;
            drop(d);
            Ok((out, r.len()))
        }
        "xz" => {
            // bufread::XzDecoder stops at the end of the first stream
            let mut r = io::BufReader::with_capacity(1, b);
            let mut d = xz2::bufread::XzDecoder::new(&mut r);
            d.read_to_end(&mut out).map_err(e)?;
            let used = d.total_in() as usize;
            let _ = r.fill_buf();
            Ok((out, b.len() - used))
        }
        "lz4" => {
            let mut d = lz4::Decoder::new(b).map_err(e)?;
            d.read_to_end(&mut out).map_err(e)?;
            let (_, r) = d.finish();
            r.map_err(e)?;
            Ok((out, lz4_rest(b)?))
        }
        n => Err(format!("codec {}", n)),
    }
}

/// Walk an LZ4 frame and return how many bytes follow it.
pub fn lz4_rest(b: &[u8]) -> Result<usize, String> {
    let g = |i: usize| b.get(i).copied().ok_or("lz4 frame is too short".to_string());
    if b.len() < 7 || b[..4] != [0x04, 0x22, 0x4d, 0x18] {
        return Err("no lz4 frame magic".into());
    }
    let flg = g(4)?;
    let mut i = 6;
    if flg & 8 != 0 {
        i += 8;
    }
    if flg & 1 != 0 {
        i += 4;
    }
    i += 1;
    loop {
        let n = u32::from_le_bytes([g(i)?, g(i + 1)?, g(i + 2)?, g(i + 3)?]);
        i += 4;
        if n == 0 {
            break;
        }
        i += (n & 0x7fff_ffff) as usize;
        if flg & 16 != 0 {
            i += 4;
        }
    }
    if flg & 4 != 0 {
        i += 4;
    }
    if i > b.len() {
        return Err("lz4 frame is too short".into());
    }
    Ok(b.len() - i)
}

// -------------------------------------------------------------- contents

/// Deterministic contents of several kinds.
pub fn content<T: Elem>(kind: &str, n: usize) -> Vec<T> {
    let mut x = 0x9e37_79b9_7f4a_7c15u64 ^ (n as u64);
    (0..n)
        .map(|i| {
            let b = match kind {
                "zero" => 0,
                "ones" => u64::MAX,
                // distinct bytes within an element; adjacent elements differ
                "count" => (i as u64).wrapping_mul(0x0102_0304_0506_0708).wrapping_add(0x1122_3344_5566_7788 + i as u64),
                "mix" => {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x
                }
                "special" => SPECIALS[i % SPECIALS.len()],
                // compressible with long runs
                "runs" => ((i / 37) as u64).wrapping_mul(0x0101_0101_0101_0101),
                // every 16-bit pattern in turn
                "all16" => (i as u64) | ((i as u64) << 16) | ((i as u64) << 32) | ((i as u64) << 48),
                k => panic!("content {}", k),
            };
            T::fb(b)
        })
        .collect()
}
pub const SPECIALS: [u64; 30] = [
    0,
    1,
    0xff,
    0x80,
    0x7f,
    0x8000,
    0x7fff,
    0x00ff,
    0xff00,
    0x7c01, // f16 signalling NaN
    0x7e55,
    0xfc00,
    0x0400,
    0x8000_0000, // -0.0f32
    0x7fa0_0001, // f32 signalling NaN with payload
    0xffc1_2345,
    0x7f80_0000,
    0xff80_0000,
    0x0000_0001,
    0x7fff_ffff,
    0x8000_0000_0000_0000, // -0.0f64
    0x7ff0_0000_0000_0001, // f64 signalling NaN
    0xfff8_dead_beef_cafe,
    0x7ff0_0000_0000_0000,
    0xfff0_0000_0000_0000,
    0x0000_0000_0000_0001,
    0x7fff_ffff_ffff_ffff,
    u64::MAX,
    0x0102_0304_0506_0708,
    0xf0e0_d0c0_b0a0_9080,
];

/// Human-readable short form of an io result.
pub fn ekind<T>(r: &io::Result<T>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("err({:?}: {})", e.kind(), e),
    }
}

pub fn shape_str<T: std::fmt::Display>(v: &[T]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("x")
}
