//! The stream level of the API: chunks and codecs on the caller's own readers
//! and writers (parts of C19, C20, C21, C31 and C01).
use crate::eng::*;
use crate::with_elem;
use crate::mem::Mem;
use crate::p_data::all_dtypes;
use crate::util::*;
use serde_json::json;
use std::io::{self, Error, ErrorKind, Read, Write};
use std::sync::atomic::Ordering::Relaxed;
use zarr::chunk::*;
use zarr::compression::Compression;
use zarr::prelude::*;

/// Moves at most `k` bytes at a time, after `stutter` interruptions of each
/// call, and fails once `limit` bytes were moved.
#[derive(Clone)]
struct Way {
    k: usize,
    stutter: usize,
    limit: usize,
}
struct Slow<'a> {
    way: Way,
    turn: usize,
    moved: usize,
    failed: &'a std::cell::Cell<bool>,
    input: &'a [u8],
    output: &'a std::cell::RefCell<Vec<u8>>,
}
impl<'a> Slow<'a> {
    fn allow(&mut self, want: usize) -> io::Result<usize> {
        self.turn += 1;
        if self.turn % (self.way.stutter + 1) != 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.moved >= self.way.limit && (want > 0) {
            self.failed.set(true);
            return Err(Error::new(ErrorKind::Other, "injected"));
        }
        let n = want.min(self.way.k).min(self.way.limit - self.moved);
        self.moved += n;
        Ok(n)
    }
}
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        // (the end of the data can only be seen by asking for more)
        let want = b.len().min(self.input.len().max(1));
        if self.input.is_empty() && self.moved < self.way.limit {
            return Ok(0);
        }
        let n = self.allow(want)?;
        b[..n].copy_from_slice(&self.input[..n]);
        self.input = &self.input[n..];
        Ok(n)
    }
}
impl<'a> Write for Slow<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.allow(b.len())?;
        self.output.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Run something on a slow stream; also returns what was written and whether a failure was reported to it.
fn on<R>(way: &Way, input: &[u8], f: impl FnOnce(Slow) -> R) -> (R, Vec<u8>, bool) {
    let failed = std::cell::Cell::new(false);
    let output = std::cell::RefCell::new(vec![]);
    let r = f(Slow { way: way.clone(), turn: 0, moved: 0, failed: &failed, input, output: &output });
    let o = output.borrow().clone();
    (r, o, failed.get())
}
fn whole() -> Way {
    Way { k: usize::MAX, stutter: 0, limit: usize::MAX }
}

struct Sample {
    e: &'static str,
    name: String,
    n: usize,
    m: M,
}
fn samples(t: bool, codecs: bool) -> Vec<Sample> {
    let mut v = vec![];
    for (e, dt) in all_dtypes() {
        for c in CODECS {
            if c != "raw" && !codecs {
                continue;
            }
            for n in [1usize, 3, 300] {
                if !t && c != "raw" && n == 1 {
                    continue;
                }
                v.push(Sample { e, name: format!("{} {}x{}", dt, n, c), n, m: M::new(&[n as u64], &[n as u32], &dt).codec(&codec(c)) });
            }
        }
    }
    v
}
fn ways() -> Vec<Way> {
    let mut v = vec![];
    for k in [1usize, 2, 3, 5, 7, 8, 9, 255, 256, 257] {
        for stutter in [0, 1] {
            v.push(Way { k, stutter, limit: usize::MAX });
        }
    }
    v.push(Way { k: usize::MAX, stutter: 2, limit: usize::MAX });
    v
}
fn pos(p: &[u64]) -> GridCoord {
    p.iter().cloned().collect()
}

/// C21 on the caller's own streams.
pub fn split(ctx: &Ctx) {
    let s = samples(ctx.thorough, true);
    ctx.par(&s, |s| {
        let m = s.m.build();
        with_elem!(s.e, T => {
            let data = content::<T>("mix", s.n);
            let chunk = VecDataChunk::new(pos(&[0]), data.clone());
            let write = |w: Slow| <DefaultChunk as DefaultChunkWriter<T, _, _>>::write_chunk(w, &m, &chunk);
            let read = |r: Slow| <DefaultChunk as DefaultChunkReader<T, _>>::read_chunk(r, &m, pos(&[5]));
            let (r, stored, _) = on(&whole(), &[], write);
            if let Err(e) = r {
                return ctx.case(format!("stream {}", s.name), || Err(format!("write_chunk fails: {}", e)));
            }
            let (_, plain, _) = on(&whole(), &[], |w| chunk.write_data(w, &m));
            for way in ways() {
                ctx.case(format!("stream {} in pieces of {} with {} interruptions", s.name, way.k, way.stutter), || {
                    let (r, out, _) = on(&way, &[], write);
                    r.map_err(|e| format!("write_chunk fails: {}", e))?;
                    if out != stored {
                        return Err(format!("write_chunk writes {} bytes, not the {} of a whole transfer", out.len(), stored.len()));
                    }
                    let (r, out, _) = on(&way, &[], |w| chunk.write_data(w, &m));
                    r.map_err(|e| format!("write_data fails: {}", e))?;
                    if out != plain {
                        return Err(format!("write_data writes {} bytes, not the {} of a whole transfer", out.len(), plain.len()));
                    }
                    let c = on(&way, &stored, read).0.map_err(|e| format!("read_chunk fails: {}", e))?;
                    if bits_of(c.get_data()) != bits_of(&data) || c.get_grid_position() != [5] {
                        return Err("read_chunk gives another chunk".into());
                    }
                    let mut b = VecDataChunk::new(pos(&[]), content::<T>("count", 7));
                    on(&way, &stored, |r| <DefaultChunk as DefaultChunkReader<T, _>>::read_chunk_into(r, &m, pos(&[6]), &mut b))
                        .0
                        .map_err(|e| format!("read_chunk_into fails: {}", e))?;
                    if bits_of(b.get_data()) != bits_of(&data) || b.get_grid_position() != [6] {
                        return Err("read_chunk_into gives another chunk".into());
                    }
                    let mut b = VecDataChunk::new(pos(&[]), content::<T>("count", s.n));
                    on(&way, &plain, |r| b.read_data(r, &m)).0.map_err(|e| format!("read_data fails: {}", e))?;
                    if bits_of(b.get_data()) != bits_of(&data) {
                        return Err("read_data gives other elements".into());
                    }
                    ctx.traces.fetch_add(1, Relaxed);
                    Ok(true)
                });
            }
        })
    });
    // the codecs themselves, with data given and taken in pieces
    let mut items = vec![];
    for c in CODECS {
        for kind in ["mix", "runs", "zero"] {
            for n in [0usize, 1, 2, 255, 256, 257, 5000, 70000] {
                items.push((c, kind, n));
            }
        }
    }
    ctx.par(&items, |(c, kind, n)| {
        let ct = M::new(&[1], &[1], "u1").codec(&codec(c)).build().get_compressor().clone();
        let data = content::<u8>(kind, *n);
        for piece in [1usize, 2, 3, 7, 64, 255, 256, 257, 1000, 4096, 65536, 1 << 20] {
            if n / piece > if ctx.thorough { 10000 } else { 300 } {
                continue;
            }
            for flush in [0usize, 1, 3] {
                // (flushing often makes streams long, which is all right)
                ctx.case(format!("codec {} {} {} bytes in pieces of {} flushed every {}", c, kind, n, piece, flush), || {
                    let mut out = vec![];
                    {
                        let mut e = ct.encoder(&mut out);
                        for (i, p) in data.chunks(piece).enumerate() {
                            e.write_all(p).map_err(|e| format!("write fails: {}", e))?;
                            if flush > 0 && i % flush == 0 {
                                e.flush().map_err(|e| format!("flush fails: {}", e))?;
                            }
                        }
                    }
                    for k in [1usize, 7, 256, usize::MAX] {
                        if n / k > if ctx.thorough { 100000 } else { 6000 } {
                            continue;
                        }
                        let way = Way { k, stutter: (k == 7) as usize, limit: usize::MAX };
                        let (r, _, _) = on(&way, &out, |r| {
                            let mut d = ct.decoder(r);
                            let mut got = vec![];
                            let mut buf = vec![0; piece];
                            loop {
                                match d.read(&mut buf) {
                                    Ok(0) => return Ok(got),
                                    Ok(n) => got.extend_from_slice(&buf[..n]),
                                    Err(e) if e.kind() == ErrorKind::Interrupted => (),
                                    Err(e) => return Err(e),
                                }
                            }
                        });
                        if r.map_err(|e| format!("decoding fails: {}", e))? != data {
                            return Err("decoding gives other data".into());
                        }
                    }
                    ctx.traces.fetch_add(1, Relaxed);
                    Ok(*n > 0)
                });
            }
        }
    });
}

/// C19 on the caller's own streams: the writer fails after any number of bytes.
pub fn failing_writers(ctx: &Ctx) {
    let s = samples(ctx.thorough, true);
    ctx.par(&s, |s| {
        let m = s.m.build();
        with_elem!(s.e, T => {
            let data = content::<T>("mix", s.n);
            let chunk = VecDataChunk::new(pos(&[0]), data.clone());
            let write = |w: Slow| <DefaultChunk as DefaultChunkWriter<T, _, _>>::write_chunk(w, &m, &chunk);
            let (_, stored, _) = on(&whole(), &[], write);
            let (_, plain, _) = on(&whole(), &[], |w| chunk.write_data(w, &m));
            let check = |what: &str, limit: usize, k: usize, r: io::Result<()>, out: &[u8], failed: bool, want: &[u8]| -> CaseResult {
                if failed && r.is_ok() {
                    return Err(format!("{} succeeds though the writer failed after {} bytes", what, limit));
                }
                if r.is_ok() && out != want {
                    return Err(format!("{} succeeds but wrote {} of {} bytes", what, out.len(), want.len()));
                }
                if !failed && r.is_err() && k > 0 {
                    return Err(format!("{} fails: {}", what, r.unwrap_err()));
                }
                Ok(failed)
            };
            for limit in 0..=stored.len().max(plain.len()) {
                for k in [usize::MAX, 3] {
                    ctx.case(format!("stream {} failing after {} bytes, {} at a time", s.name, limit, k), || {
                        let way = Way { k, stutter: 0, limit };
                        let (r, out, f) = on(&way, &[], write);
                        let a = check("write_chunk", limit, k, r, &out, f, &stored)?;
                        let (r, out, f) = on(&way, &[], |w| chunk.write_data(w, &m));
                        let b = check("write_data", limit, k, r, &out, f, &plain)?;
                        ctx.traces.fetch_add(2, Relaxed);
                        Ok(a || b)
                    });
                }
            }
        })
    });
}

/// C20 on the caller's own streams: the reader fails after any number of bytes.
pub fn failing_readers(ctx: &Ctx) {
    let s = samples(ctx.thorough, true);
    ctx.par(&s, |s| {
        let m = s.m.build();
        with_elem!(s.e, T => {
            let data = content::<T>("mix", s.n);
            let chunk = VecDataChunk::new(pos(&[0]), data.clone());
            let (_, stored, _) = on(&whole(), &[], |w| <DefaultChunk as DefaultChunkWriter<T, _, _>>::write_chunk(w, &m, &chunk));
            let (_, plain, _) = on(&whole(), &[], |w| chunk.write_data(w, &m));
            let check = |what: &str, limit: usize, r: io::Result<Vec<u64>>, failed: bool, len: usize| -> CaseResult {
                match r {
                    Ok(_) if failed => Err(format!("{} succeeds though the reader failed after {} of {} bytes", what, limit, len)),
                    Ok(v) if v != bits_of(&data) => Err(format!("{} gives other elements", what)),
                    Ok(_) if limit < len => Err(format!("{} succeeds with {} of {} bytes", what, limit, len)),
                    Err(e) if !failed => Err(format!("{} fails: {}", what, e)),
                    _ => Ok(failed),
                }
            };
            for limit in 0..=stored.len().max(plain.len()) {
                for k in [usize::MAX, 3] {
                    ctx.case(format!("stream {} failing after {} bytes, {} at a time", s.name, limit, k), || {
                        let way = Way { k, stutter: 0, limit };
                        let (r, _, f) = on(&way, &stored, |r| <DefaultChunk as DefaultChunkReader<T, _>>::read_chunk(r, &m, pos(&[5])));
                        let a = check("read_chunk", limit, r.map(|c| bits_of(c.get_data())), f, stored.len())?;
                        let mut b = VecDataChunk::new(pos(&[]), content::<T>("count", s.n));
                        let (r, _, f) = on(&way, &stored, |r| <DefaultChunk as DefaultChunkReader<T, _>>::read_chunk_into(r, &m, pos(&[5]), &mut b));
                        check("read_chunk_into", limit, r.map(|_| bits_of(b.get_data())), f, stored.len())?;
                        let mut b = VecDataChunk::new(pos(&[]), content::<T>("count", s.n));
                        let (r, _, f) = on(&way, &plain, |r| b.read_data(r, &m));
                        check("read_data", limit, r.map(|_| bits_of(b.get_data())), f, plain.len())?;
                        ctx.traces.fetch_add(3, Relaxed);
                        Ok(a)
                    });
                }
            }
        })
    });
}

/// C31: a chunk made from another one, whatever it held before.
pub fn reinit(ctx: &Ctx) {
    for (e, _) in all_dtypes() {
        with_elem!(e, T => {
            for from in 0..6usize {
                for to in 0..6usize {
                    ctx.case(format!("reinitialize {} of {} from {}", e, from, to), || {
                        let old = content::<T>("count", from);
                        let new = content::<T>("mix", to);
                        let mut b = VecDataChunk::new(pos(&[7, 8][..from % 3]), old.clone());
                        b.reinitialize_with(&SliceDataChunk::new(pos(&[3, 4][..to % 3]), &new[..]));
                        if bits_of(b.get_data()) != bits_of(&new) || b.get_num_elements() as usize != to || b.get_grid_position() != &[3, 4][..to % 3] {
                            return Err(format!("reinitialize_with gives {:?} at {:?}", bits_of(b.get_data()), b.get_grid_position()));
                        }
                        b.reinitialize(&pos(&[9]), from as u32);
                        if b.get_num_elements() as usize != from || b.get_data().len() != from || b.get_grid_position() != [9] {
                            return Err(format!("reinitialize gives {} elements at {:?}", b.get_data().len(), b.get_grid_position()));
                        }
                        Ok(true)
                    });
                }
            }
        })
    }
}

/// A data chunk type of the caller's own.
#[derive(Debug)]
pub struct Own<T> {
    at: Vec<u64>,
    data: std::collections::VecDeque<T>,
}
impl<T> Own<T> {
    fn new(at: &[u64], data: Vec<T>) -> Own<T> {
        Own { at: at.to_vec(), data: data.into() }
    }
}
impl<T: Elem> DataChunk<T> for Own<T> {
    fn get_grid_position(&self) -> &[u64] {
        &self.at
    }
    fn get_data(&self) -> &[T] {
        self.data.as_slices().0
    }
    fn get_num_elements(&self) -> u32 {
        self.data.len() as u32
    }
}
impl<T: Elem> ReinitDataChunk<T> for Own<T> {
    fn reinitialize(&mut self, grid_position: &GridCoord, num_el: u32) {
        self.at = grid_position.to_vec();
        self.data = vec![T::fb(0); num_el as usize].into();
    }
    fn reinitialize_with<B: DataChunk<T>>(&mut self, other: &B) {
        self.at = other.get_grid_position().to_vec();
        self.data = other.get_data().to_vec().into();
    }
}
/// Its elements travel one by one, in the byte order of the array.
impl<T: Elem> ReadableDataChunk for Own<T> {
    fn read_data<R: Read>(&mut self, mut source: R, m: &ArrayMetadata) -> io::Result<()> {
        let big = big_endian(m);
        for x in self.data.iter_mut() {
            let mut b = vec![0; T::SIZE];
            source.read_exact(&mut b)?;
            *x = decode::<T>(&b, big)[0];
        }
        Ok(())
    }
}
impl<T: Elem> WriteableDataChunk for Own<T> {
    fn write_data<W: Write>(&self, mut target: W, m: &ArrayMetadata) -> io::Result<()> {
        let big = big_endian(m);
        for x in &self.data {
            target.write_all(&encode::<T>(&[*x], big))?;
        }
        Ok(())
    }
}
fn big_endian(m: &ArrayMetadata) -> bool {
    serde_json::to_value(m).unwrap()["data_type"].as_str().map_or(false, |d| d.starts_with('>'))
}

/// C01 with chunks held in other containers and in a type of the caller's own.
pub fn containers(ctx: &Ctx) {
    let s = samples(ctx.thorough, true);
    ctx.par(&s, |s| {
        let m = s.m.build();
        with_elem!(s.e, T => {
            let data = content::<T>("mix", s.n);
            ctx.case(format!("containers {}", s.name), || {
                let e = |e: io::Error| e.to_string();
                let h = Mem::new();
                h.create_array("a", &m).map_err(e)?;
                let mut stored: Option<Vec<u8>> = None;
                let check = |what: &str, stored: &mut Option<Vec<u8>>| -> Result<(), String> {
                    let b = h.bytes("data/root/a/c0").ok_or(format!("{} stores nothing", what))?;
                    let (p, d) = T::rd(&h, "a", &m, &[0]).map_err(|e| format!("{}: read_chunk: {}", what, e))?.ok_or(format!("{}: no chunk", what))?;
                    if bits_of(&d) != bits_of(&data) || p != [0] {
                        return Err(format!("{} reads back as other elements", what));
                    }
                    if *stored.get_or_insert(b.clone()) != b {
                        return Err(format!("{} is stored in other bytes", what));
                    }
                    h.delete_chunk("a", &m, &[0]).map_err(e)?;
                    Ok(())
                };
                h.write_chunk("a", &m, &SliceDataChunk::new(pos(&[0]), data.clone())).map_err(e)?;
                check("a vector", &mut stored)?;
                h.write_chunk("a", &m, &SliceDataChunk::new(pos(&[0]), &data[..])).map_err(e)?;
                check("a slice", &mut stored)?;
                h.write_chunk("a", &m, &SliceDataChunk::new(pos(&[0]), data.clone().into_boxed_slice())).map_err(e)?;
                check("a boxed slice", &mut stored)?;
                h.write_chunk("a", &m, &SliceDataChunk::new(pos(&[0]), std::rc::Rc::<[T]>::from(data.clone()))).map_err(e)?;
                check("a shared slice", &mut stored)?;
                let wrong: Vec<T> = content::<T>("mix", s.n + 1);
                if h.write_chunk("a", &m, &Own::<T>::new(&[0], wrong)).is_ok() || h.bytes("data/root/a/c0").is_some() {
                    return Err("a chunk of another length is accepted".into());
                }
                // (this type writes elements one by one, so that codecs may choose other bytes)
                h.write_chunk("a", &m, &Own::<T>::new(&[0], data.clone())).map_err(e)?;
                let mut own = Own::<T>::new(&[5, 6], content::<T>("count", 2));
                h.read_chunk_into::<T, Own<T>>("a", &m, pos(&[0]), &mut own).map_err(e)?.ok_or("no chunk")?;
                if bits_of(own.get_data()) != bits_of(&data) || own.at != [0] {
                    return Err("a chunk type of its own is not read back".into());
                }
                check("a chunk type of its own", &mut None)?;
                if h.read_chunk_into::<T, Own<T>>("a", &m, pos(&[0]), &mut own).map_err(e)?.is_some() || bits_of(own.get_data()) != bits_of(&data) {
                    return Err("an absent chunk changes the buffer".into());
                }
                let _ = json!(null);
                ctx.traces.fetch_add(1, Relaxed);
                Ok(true)
            });
        })
    });
}

/// C18: a chunk that has too many elements by a multiple of 2^32 (the memory
/// is never touched unless it is written).
pub fn wrapped_sizes(ctx: &Ctx) {
    struct Count<'a>(&'a std::cell::Cell<u64>);
    impl<'a> Write for Count<'a> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.set(self.0.get() + b.len() as u64);
            Err(Error::new(ErrorKind::Other, "the check has seen enough"))
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    for (dt, n) in [("u1", 4u64), ("i1", 1)] {
        ctx.case(format!("chunk of 2^32 elements too many, {} of {}", n, dt), || {
            let m = M::new(&[n], &[n as u32], dt).build();
            let len = ((1u64 << 32) + m.get_chunk_num_elements() as u64) as usize;
            let seen = std::cell::Cell::new(0);
            let r = if dt == "u1" {
                let chunk = VecDataChunk::new(pos(&[0]), vec![0u8; len]);
                <DefaultChunk as DefaultChunkWriter<u8, _, _>>::write_chunk(Count(&seen), &m, &chunk)
            } else {
                let chunk = VecDataChunk::new(pos(&[0]), vec![0i8; len]);
                <DefaultChunk as DefaultChunkWriter<i8, _, _>>::write_chunk(Count(&seen), &m, &chunk)
            };
            if r.is_ok() || seen.get() > 0 {
                return Err(format!("it is not refused: {} bytes were written", seen.get()));
            }
            Ok(true)
        });
    }
}
