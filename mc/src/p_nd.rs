//! C06 regions as one dense array, C07 fill values.
use crate::eng::*;
use crate::hist::*;
use crate::mem::Mem;
use crate::p_geom::{bb, grid};
use crate::util::*;
use crate::with_elem;
use ndarray::{ArrayD, ArrayViewD, IxDyn};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use zarr::prelude::*;
use zarr::ArrayMetadata;

pub const LAYOUTS: [&str; 5] = ["C", "F", "rev", "step", "perm"];

fn us(v: &[u64]) -> Vec<usize> {
    v.iter().map(|x| *x as usize).collect()
}

/// An array of this shape whose memory is laid out in the given way, passed to
/// `f` as a view; element at `idx` is `val(idx)`.
fn with_layout<T: Elem, R>(
    layout: &str,
    shape: &[u64],
    val: &dyn Fn(&[u64]) -> T,
    f: impl FnOnce(ArrayViewD<T>) -> R,
) -> R {
    let mut a = make_layout::<T>(layout, shape, T::fb(0));
    {
        let mut v = view_layout_mut(layout, shape, &mut a);
        for idx in grid(shape) {
            v[IxDyn(&us(&idx))] = val(&idx);
        }
    }
    let v = view_layout(layout, shape, &a);
    f(v)
}
/// Backing memory for a layout.
fn make_layout<T: Elem>(layout: &str, shape: &[u64], x: T) -> ArrayD<T> {
    use ndarray::ShapeBuilder;
    let s = us(shape);
    match layout {
        "F" => ArrayD::from_elem(IxDyn(&s).f(), x),
        // one element of padding on both sides, every second element used
        "step" => ArrayD::from_elem(IxDyn(&s.iter().map(|n| 2 * n + 1).collect::<Vec<_>>()), x),
        "perm" => {
            let mut r = s.clone();
            if !r.is_empty() {
                r.rotate_left(1);
            }
            ArrayD::from_elem(IxDyn(&r), x)
        }
        _ => ArrayD::from_elem(IxDyn(&s), x),
    }
}
fn view_layout<'a, T: Elem>(layout: &str, shape: &[u64], a: &'a ArrayD<T>) -> ArrayViewD<'a, T> {
    let n = shape.len();
    let mut v = a.view();
    match layout {
        "rev" => {
            for i in 0..n {
                v.invert_axis(ndarray::Axis(i));
            }
        }
        "step" => {
            for i in 0..n {
                v.slice_axis_inplace(ndarray::Axis(i), ndarray::Slice::new(1, Some(1 + 2 * shape[i] as isize), 2));
            }
        }
        "perm" if n > 0 => {
            let ax: Vec<usize> = (0..n).map(|i| (i + n - 1) % n).collect();
            v = v.permuted_axes(IxDyn(&ax));
        }
        _ => {}
    }
    v
}
fn view_layout_mut<'a, T: Elem>(layout: &str, shape: &[u64], a: &'a mut ArrayD<T>) -> ndarray::ArrayViewMutD<'a, T> {
    let n = shape.len();
    let mut v = a.view_mut();
    match layout {
        "rev" => {
            for i in 0..n {
                v.invert_axis(ndarray::Axis(i));
            }
        }
        "step" => {
            for i in 0..n {
                v.slice_axis_inplace(ndarray::Axis(i), ndarray::Slice::new(1, Some(1 + 2 * shape[i] as isize), 2));
            }
        }
        "perm" if n > 0 => {
            let ax: Vec<usize> = (0..n).map(|i| (i + n - 1) % n).collect();
            v = v.permuted_axes(IxDyn(&ax));
        }
        _ => {}
    }
    v
}

/// The array as one dense map, and which chunks exist.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Dense {
    pub val: BTreeMap<Vec<u64>, u64>,
    pub chunks: std::collections::BTreeSet<Vec<u64>>,
}

#[derive(Clone)]
pub struct Cfg {
    pub shape: Vec<u64>,
    pub chunk: Vec<u32>,
    pub order: char,
    pub dtype: String,
    pub e: &'static str,
    pub fill: Value,
    pub fill_bits: u64,
}
impl Cfg {
    pub fn new(shape: &[u64], chunk: &[u32], order: char) -> Cfg {
        Cfg {
            shape: shape.to_vec(),
            chunk: chunk.to_vec(),
            order,
            dtype: "<i4".into(),
            e: "i4",
            fill: json!(-7),
            fill_bits: -7i32 as u32 as u64,
        }
    }
    pub fn meta(&self) -> ArrayMetadata {
        M::new(&self.shape, &self.chunk, &self.dtype).order(self.order).fill(self.fill.clone()).build()
    }
    pub fn show(&self) -> String {
        format!("{}[{}]/[{}]{}", self.dtype, shape_str(&self.shape), shape_str(&self.chunk), self.order)
    }
    fn chunk_of(&self, idx: &[u64]) -> Vec<u64> {
        idx.iter().zip(&self.chunk).map(|(i, c)| i / *c as u64).collect()
    }
    fn lin(&self, idx: &[u64]) -> usize {
        let mut k = 0usize;
        let n = idx.len();
        for j in 0..n {
            let i = if self.order == 'C' { j } else { n - 1 - j };
            k = k * self.chunk[i] as usize + (idx[i] % self.chunk[i] as u64) as usize;
        }
        k
    }
    pub fn chunk_len(&self) -> usize {
        self.chunk.iter().map(|c| *c as usize).product()
    }
    pub fn inside(&self, idx: &[u64]) -> bool {
        idx.iter().zip(&self.shape).all(|(i, s)| i < s)
    }
    pub fn positions(&self) -> Vec<Vec<u64>> {
        let ext: Vec<u64> =
            self.shape.iter().zip(&self.chunk).map(|(s, c)| (s + *c as u64 - 1) / *c as u64).collect();
        grid(&ext)
    }
    fn region(&self, o: &[u64], s: &[u64]) -> Vec<Vec<u64>> {
        grid(s)
            .into_iter()
            .map(|r| r.iter().zip(o).map(|(a, b)| a + b).collect::<Vec<u64>>())
            .filter(|i| self.inside(i))
            .collect()
    }
    fn get(&self, d: &Dense, idx: &[u64]) -> u64 {
        *d.val.get(idx).unwrap_or(&self.fill_bits)
    }
    pub fn model_chunk(&self, d: &mut Dense, pos: &[u64], data: &[u64]) {
        for r in grid(&self.chunk.iter().map(|c| *c as u64).collect::<Vec<_>>()) {
            let idx: Vec<u64> = r.iter().zip(pos).zip(&self.chunk).map(|((r, p), c)| r + p * *c as u64).collect();
            if self.inside(&idx) {
                d.val.insert(idx.clone(), data[self.lin(&idx)]);
            }
        }
        d.chunks.insert(pos.to_vec());
    }
    pub fn model_delete(&self, d: &mut Dense, pos: &[u64]) {
        let c = pos.to_vec();
        d.val.retain(|i, _| self.chunk_of(i) != c);
        d.chunks.remove(&c);
    }
    pub fn model_write(&self, d: &mut Dense, o: &[u64], s: &[u64], val: &dyn Fn(&[u64]) -> u64) {
        for idx in self.region(o, s) {
            let rel: Vec<u64> = idx.iter().zip(o).map(|(a, b)| a - b).collect();
            d.chunks.insert(self.chunk_of(&idx));
            d.val.insert(idx, val(&rel));
        }
    }
    /// Read a region in all the ways there are and compare.
    pub fn check_region<T: Elem, H: HierarchyReader>(
        &self,
        h: &H,
        m: &ArrayMetadata,
        d: &Dense,
        o: &[u64],
        s: &[u64],
        layouts: &[&str],
    ) -> Result<(), String> {
        let b = bb(o, s);
        let judge = |v: ArrayViewD<T>, who: &str| -> Result<(), String> {
            for idx in self.region(o, s) {
                let rel: Vec<u64> = idx.iter().zip(o).map(|(a, b)| a - b).collect();
                let (g, w) = (v[IxDyn(&us(&rel))].bits(), self.get(d, &idx));
                if g != w {
                    return Err(format!(
                        "{} of region at {:?} size {:?}: element {:?} is {:?}, not {:?}",
                        who, o, s, idx, T::fb(g), T::fb(w)
                    ));
                }
            }
            Ok(())
        };
        let a = T::nd_rd(h, "a", m, &b).map_err(|e| format!("read_ndarray of region at {:?} size {:?}: {}", o, s, e))?;
        if a.shape() != us(s) {
            return Err(format!("read_ndarray returns shape {:?}, not {:?}", a.shape(), s));
        }
        judge(a.view(), "read_ndarray")?;
        for l in layouts {
            let mut mem = make_layout::<T>(l, s, T::fb(self.fill_bits));
            let before = mem.clone();
            T::nd_rd_into(h, "a", m, &b, view_layout_mut(l, s, &mut mem)).map_err(|e| format!("read_ndarray_into: {}", e))?;
            judge(view_layout(l, s, &mem), "read_ndarray_into")?;
            if *l == "step" {
                // memory between the elements of the view
                for (idx, x) in mem.indexed_iter() {
                    if (0..s.len()).any(|i| idx[i] % 2 == 0) && x.bits() != before[&idx].bits() {
                        return Err("read_ndarray_into changed memory outside the view".into());
                    }
                }
            }
            let mut mem = make_layout::<T>(l, s, T::fb(self.fill_bits));
            let mut buf = if *l == "C" { None } else { Some(vchunk::<T>(&[9], vec![T::fb(!0); 2])) };
            T::nd_rd_buf(h, "a", m, &b, view_layout_mut(l, s, &mut mem), &mut buf)
                .map_err(|e| format!("read_ndarray_into_with_buffer: {}", e))?;
            judge(view_layout(l, s, &mem), "read_ndarray_into_with_buffer")?;
        }
        Ok(())
    }
    /// Everything: one region covering the array and more, and every chunk.
    pub fn check_all<T: Elem, H: HierarchyReader>(&self, h: &H, m: &ArrayMetadata, d: &Dense) -> Result<(), String> {
        let n = self.shape.len();
        self.check_region::<T, H>(h, m, d, &vec![0; n], &self.shape.iter().map(|s| s + 1).collect::<Vec<_>>(), &[])?;
        for pos in self.positions() {
            match T::rd(h, "a", m, &pos).map_err(|e| format!("read_chunk {:?}: {}", pos, e))? {
                None if !d.chunks.contains(&pos) => {}
                None => return Err(format!("chunk {:?} is missing", pos)),
                Some(_) if !d.chunks.contains(&pos) => return Err(format!("chunk {:?} should not exist", pos)),
                Some((_, data)) => {
                    if data.len() != self.chunk_len() {
                        return Err(format!("chunk {:?} has {} elements", pos, data.len()));
                    }
                    for r in grid(&self.chunk.iter().map(|c| *c as u64).collect::<Vec<_>>()) {
                        let idx: Vec<u64> =
                            r.iter().zip(&pos).zip(&self.chunk).map(|((r, p), c)| r + p * *c as u64).collect();
                        if self.inside(&idx) && data[self.lin(&idx)].bits() != self.get(d, &idx) {
                            return Err(format!("chunk {:?}: element {:?} is {:?}", pos, idx, data[self.lin(&idx)]));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// Keys that changed between two images, apart from those of these chunks.
fn others_changed(c: &Cfg, a: &Image, b: &Image, touched: &[Vec<u64>]) -> Option<String> {
    let name = |p: &Vec<u64>| {
        let s = p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/");
        format!("data/root/a/c{}", s)
    };
    let t: Vec<String> = touched.iter().map(name).collect();
    let _ = c;
    let (fa, fb) = (files(a), files(b));
    for k in fa.keys().chain(fb.keys()) {
        if fa.get(k) != fb.get(k) && !t.contains(k) {
            return Some(k.clone());
        }
    }
    None
}

fn val_of(seed: u64, rel: &[u64]) -> u64 {
    let mut x = 1000 * (seed + 1);
    for r in rel {
        x = x * 8 + r;
    }
    // distinct and nonzero for small regions in every type of at least 16 bits
    x & 0x7fff_ffff
}

fn prior<T: Elem, H: HierarchyWriter>(c: &Cfg, h: &H, m: &ArrayMetadata, kind: &str) -> Result<Dense, String> {
    let mut d = Dense::default();
    for (k, pos) in c.positions().iter().enumerate() {
        if kind == "none" || (kind == "some" && pos.iter().sum::<u64>() % 2 == 1) {
            continue;
        }
        let data: Vec<T> = (0..c.chunk_len()).map(|i| T::fb((k * 50 + i + 1) as u64)).collect();
        T::wr(h, "a", m, pos, &data).map_err(|e| format!("write_chunk: {}", e))?;
        c.model_chunk(&mut d, pos, &bits_of(&data));
    }
    // a neighbour that must not be touched
    Ok(d)
}

fn one_write<T: Elem>(c: &Cfg, kind: &str, o: &[u64], s: &[u64], layout: &str) -> CaseResult {
    let h = Mem::new();
    let m = c.meta();
    let mut d = prior::<T, Mem>(c, &h, &m, kind)?;
    h.put("data/root/a2/c0", b"x");
    h.put("data/root/a/d", b"y");
    let before: Image = h.snap().into_iter().map(|(k, v)| (k, Some(v))).collect();
    let val = |r: &[u64]| T::fb(val_of(3, r)).bits();
    let r = with_layout::<T, _>(layout, s, &|r| T::fb(val_of(3, r)), |v| T::nd_wr(&h, "a", &m, o, v));
    r.map_err(|e| format!("write_ndarray: {}", e))?;
    c.model_write(&mut d, o, s, &val);
    let mut touched: Vec<Vec<u64>> = c.region(o, s).iter().map(|i| c.chunk_of(i)).collect();
    touched.sort();
    touched.dedup();
    let after: Image = h.snap().into_iter().map(|(k, v)| (k, Some(v))).collect();
    if let Some(k) = others_changed(c, &before, &after, &touched) {
        return Err(format!("write_ndarray changed {}", k));
    }
    c.check_all::<T, Mem>(&h, &m, &d)?;
    Ok(!touched.is_empty())
}

#[derive(Clone, Debug)]
enum Op {
    Region(Vec<u64>, Vec<u64>, u64, &'static str),
    Chunk(Vec<u64>, u64),
    Delete(Vec<u64>),
}
impl Op {
    fn show(&self) -> String {
        match self {
            Op::Region(o, s, v, l) => format!("region {}+{} seed{} {}", shape_str(o), shape_str(s), v, l),
            Op::Chunk(p, v) => format!("chunk {} seed{}", shape_str(p), v),
            Op::Delete(p) => format!("delete {}", shape_str(p)),
        }
    }
}

fn histories<B: Back>(ctx: &Ctx, c: &Cfg, ops: &[Op], depth: usize) {
    let m = c.meta();
    let (_, img) = B::run(&B::empty(), |h| h.create_array("a", &m).unwrap());
    let step = |st: &State<Dense>, op: usize| -> Result<State<Dense>, String> {
        with_elem!(c.e, T => {
            let mut d = st.model.clone();
            let (r, img) = B::run(&st.img, |h| -> Result<(), String> {
                let m = h.get_array_metadata("a").map_err(|e| e.to_string())?;
                match &ops[op] {
                    Op::Region(o, s, v, l) => {
                        with_layout::<T, _>(l, s, &|r| T::fb(val_of(*v, r)), |a| T::nd_wr(h, "a", &m, o, a))
                            .map_err(|e| format!("write_ndarray: {}", e))?;
                        c.model_write(&mut d, o, s, &|r| T::fb(val_of(*v, r)).bits());
                    }
                    Op::Chunk(p, v) => {
                        let data: Vec<T> = (0..c.chunk_len()).map(|i| T::fb(val_of(*v, &[i as u64 + 1]))).collect();
                        T::wr(h, "a", &m, p, &data).map_err(|e| format!("write_chunk: {}", e))?;
                        c.model_chunk(&mut d, p, &bits_of(&data));
                    }
                    Op::Delete(p) => {
                        if !h.delete_chunk("a", &m, p).map_err(|e| format!("delete_chunk: {}", e))? {
                            return Err("delete_chunk returned false".into());
                        }
                        c.model_delete(&mut d, p);
                    }
                }
                c.check_all::<T, B::H>(h, &m, &d)
            });
            r?;
            Ok(State { model: d, img })
        })
    };
    explore(
        ctx,
        &format!("history {} {}", B::NAME, c.show()),
        State { model: Dense::default(), img },
        ops.len(),
        depth,
        &|i| ops[i].show(),
        &step,
    );
}

/// Region and chunk writes through two handles that stay open.
fn handles_nd<B: Back>(ctx: &Ctx, c: &Cfg, ops: &[Op], depth: usize) {
    let m = c.meta();
    let (_, img) = B::run(&B::empty(), |h| h.create_array("a", &m).unwrap());
    with_elem!(c.e, T => alternate::<B, Dense>(
        ctx,
        &c.show(),
        &img,
        &Dense::default(),
        ops.len(),
        depth,
        &|i| ops[i].show(),
        &|h, d, op| {
            let mut d = d.clone();
            match &ops[op] {
                Op::Region(o, s, v, l) => {
                    with_layout::<T, _>(l, s, &|r| T::fb(val_of(*v, r)), |a| T::nd_wr(h, "a", &m, o, a)).map_err(|e| format!("write_ndarray: {}", e))?;
                    c.model_write(&mut d, o, s, &|r| T::fb(val_of(*v, r)).bits());
                }
                Op::Chunk(p, v) => {
                    let data: Vec<T> = (0..c.chunk_len()).map(|i| T::fb(val_of(*v, &[i as u64 + 1]))).collect();
                    T::wr(h, "a", &m, p, &data).map_err(|e| format!("write_chunk: {}", e))?;
                    c.model_chunk(&mut d, p, &bits_of(&data));
                }
                Op::Delete(p) => {
                    h.delete_chunk("a", &m, p).map_err(|e| format!("delete_chunk: {}", e))?;
                    c.model_delete(&mut d, p);
                }
            }
            Ok(d)
        },
        &|h, d| c.check_all::<T, B::H>(h, &m, d),
    ));
}

fn op_alphabet(c: &Cfg) -> Vec<Op> {
    let n = c.shape.len();
    let mut v = vec![];
    let one = vec![1u64; n];
    let zero = vec![0u64; n];
    v.push(Op::Region(zero.clone(), c.shape.clone(), 1, "C"));
    v.push(Op::Region(zero.clone(), one.clone(), 2, "F"));
    // straddling the first chunk boundary
    let o: Vec<u64> = c.chunk.iter().zip(&c.shape).map(|(c, s)| (*c as u64 - 1).min(s.saturating_sub(1))).collect();
    v.push(Op::Region(o.clone(), vec![2; n], 3, "rev"));
    // reaching beyond the array, partly and wholly
    let last: Vec<u64> = c.shape.iter().map(|s| s.saturating_sub(1)).collect();
    v.push(Op::Region(last.clone(), vec![3; n], 4, "step"));
    v.push(Op::Region(c.shape.clone(), vec![2; n], 5, "C"));
    // the same elements with other values
    v.push(Op::Region(o.clone(), vec![2; n], 30, "perm"));
    // exactly one chunk
    v.push(Op::Region(zero.clone(), c.chunk.iter().map(|c| *c as u64).collect(), 6, "perm"));
    for (k, p) in c.positions().iter().enumerate() {
        if k < 2 || k + 1 == c.positions().len() {
            v.push(Op::Chunk(p.clone(), 7 + k as u64));
            v.push(Op::Delete(p.clone()));
        }
    }
    v
}

pub fn c06(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "states are store contents with the dense reference array, reached by all histories of region writes, \
         chunk writes and deletions up to the depth, each on a restored store through a newly opened handle; \
         all shorter sequences through two handles that stay open, of one hierarchy or of two; \
         plus one case per (array, prior content, region, memory layout) for every region of small arrays, \
         written or read in every way; non-trivial when the region meets the array",
    );
    ctx.assume("elements of a region outside the array are not compared");
    let t = ctx.thorough;
    let mut cfgs = vec![];
    for (s, c) in [
        (vec![5u64], vec![2u32]), (vec![4], vec![2]), (vec![3], vec![5]), (vec![7], vec![3]), (vec![1], vec![1]), (vec![0], vec![2]),
        (vec![3, 4], vec![2, 2]), (vec![4, 3], vec![3, 2]), (vec![2, 5], vec![1, 3]), (vec![3, 3], vec![5, 2]), (vec![4, 0], vec![2, 2]),
        (vec![], vec![]),
    ] {
        for o in ['C', 'F'] {
            cfgs.push(Cfg::new(&s, &c, o));
        }
    }
    // every region of small arrays, written
    let mut items = vec![];
    for c in &cfgs {
        let margin = if c.shape.len() < 2 || t { 2 } else { 1 };
        for o in grid(&c.shape.iter().map(|s| s + margin).collect::<Vec<_>>()) {
            items.push((c.clone(), o));
        }
    }
    let m3: Vec<Cfg> = [(vec![2u64, 3, 2], vec![1u32, 2, 2]), (vec![3, 2, 2], vec![2, 2, 3]), (vec![3, 3, 3], vec![2, 2, 2])]
        .iter()
        .flat_map(|(s, c)| ['C', 'F'].map(|o| Cfg::new(s, c, o)))
        .collect();
    for c in &m3 {
        for o in grid(&c.shape.iter().map(|s| s + 1).collect::<Vec<_>>()) {
            items.push((c.clone(), o));
        }
    }
    ctx.par(&items, |(c, o)| {
        let three = c.shape.len() > 2;
        for s in grid(&c.shape.iter().map(|s| s + if three { 1 } else { 2 }).collect::<Vec<_>>()) {
            for kind in ["none", "full", "some"] {
                for l in LAYOUTS {
                    if three && !t && (kind == "full" || l == "rev") && s.iter().sum::<u64>() % 2 == 0 { continue; }
                    ctx.case(format!("write {} prior={} at={} size={} layout={}", c.show(), kind, shape_str(o), shape_str(&s), l), || {
                        one_write::<i32>(c, kind, o, &s, l)
                    });
                }
            }
        }
    });
    // every region of small arrays, read
    ctx.par(&items, |(c, o)| {
        for kind in ["none", "full", "some"] {
            let h = Mem::new();
            let m = c.meta();
            let d = match prior::<i32, Mem>(c, &h, &m, kind) {
                Ok(d) => d,
                Err(e) => return ctx.violation(&format!("prior {}", c.show()), &e),
            };
            for s in grid(&c.shape.iter().map(|s| s + 2).collect::<Vec<_>>()) {
                ctx.case(format!("read {} prior={} at={} size={}", c.show(), kind, shape_str(o), shape_str(&s)), || {
                    c.check_region::<i32, Mem>(&h, &m, &d, o, &s, if c.shape.len() > 2 { &LAYOUTS[2..] } else { &LAYOUTS })?;
                    Ok(!c.region(o, &s).is_empty())
                });
            }
        }
    });
    // other element types, many dimensions, larger arrays, far positions
    let mut items: Vec<(Cfg, Vec<u64>, Vec<u64>)> = vec![];
    for e in ETYPES {
        for dt in dtypes(e) {
            for o in ['C', 'F'] {
                let mut c = Cfg::new(&[5, 4], &[2, 3], o);
                c.e = e;
                c.dtype = dt.clone();
                c.fill = Value::Null;
                c.fill_bits = 0;
                for (a, s) in [(vec![0u64, 0], vec![5u64, 4]), (vec![1, 2], vec![3, 1]), (vec![1, 1], vec![9, 9]), (vec![2, 0], vec![2, 3])] {
                    items.push((c.clone(), a, s));
                }
            }
        }
    }
    for nd in 4..=8usize {
        for o in ['C', 'F'] {
            let s: Vec<u64> = (0..nd).map(|i| [3, 1, 2, 2][i % 4]).collect();
            let c: Vec<u32> = (0..nd).map(|i| [2, 1, 1, 2][(i + nd) % 4]).collect();
            let c = Cfg::new(&s, &c, o);
            items.push((c.clone(), vec![0; nd], s.clone()));
            items.push((c.clone(), s.iter().map(|x| x / 2).collect(), vec![2; nd]));
            items.push((c.clone(), s.iter().map(|x| x - 1).collect(), vec![1; nd]));
        }
    }
    for o in ['C', 'F'] {
        let c = Cfg::new(&[40, 50], &[11, 17], o);
        for (a, s) in [(vec![0u64, 0], vec![40u64, 50]), (vec![10, 16], vec![2, 2]), (vec![11, 17], vec![11, 17]), (vec![5, 3], vec![30, 44]), (vec![39, 49], vec![10, 10])] {
            items.push((c.clone(), a, s));
        }
        let c = Cfg::new(&[300, 3], &[100, 2], o);
        items.push((c.clone(), vec![50, 1], vec![200, 2]));
    }
    ctx.par(&items, |(c, o, s)| {
        for kind in ["none", "full", "some"] {
            for l in LAYOUTS {
                ctx.case(format!("shape {} prior={} at={} size={} layout={}", c.show(), kind, shape_str(o), shape_str(s), l), || {
                    with_elem!(c.e, T => one_write::<T>(c, kind, o, s, l))
                });
            }
        }
    });
    // far positions: only the region's neighbourhood is looked at
    let mut items = vec![];
    for sh in [1u64 << 31, 1 << 32, (1 << 32) + 7, 1 << 40, (1 << 53) + 1, 1 << 62] {
        for ch in [1u32, 3, 5, 1 << 10] {
            for back in [1u64, 4, 9] {
                for len in [1u64, 3, 12] {
                    items.push((sh, ch, sh - back, len));
                }
            }
        }
    }
    ctx.par(&items, |(sh, ch, o, len)| {
        ctx.case(format!("far shape={} chunk={} at={} size={}", sh, ch, o, len), || {
            let h = Mem::new();
            let m = M::new(&[3, *sh], &[2, *ch], "<u4").fill(json!(9)).build();
            with_layout::<u32, _>("C", &[2, *len], &|r| val_of(1, r) as u32, |v| u32::nd_wr(&h, "a", &m, &[1, *o], v)).map_err(|e| e.to_string())?;
            let lo = o - 5;
            let a = u32::nd_rd(&h, "a", &m, &bb(&[0, lo], &[3, len + 10])).map_err(|e| e.to_string())?;
            for y in 0..3u64 {
                for x in lo..(lo + len + 10).min(*sh) {
                    let want = if y >= 1 && x >= *o && x < o + len { val_of(1, &[y - 1, x - o]) as u32 } else { 9 };
                    let got = a[[y as usize, (x - lo) as usize].as_ref()];
                    if got != want {
                        return Err(format!("element [{},{}] is {}, not {}", y, x, got, want));
                    }
                }
            }
            Ok(true)
        });
    });
    // histories
    let hc: Vec<Cfg> = vec![
        Cfg::new(&[5], &[2], 'C'),
        Cfg::new(&[3, 4], &[2, 2], 'C'),
        Cfg::new(&[3, 4], &[2, 2], 'F'),
        Cfg::new(&[3, 2, 3], &[2, 2, 2], 'F'),
        Cfg::new(&[], &[], 'C'),
    ];
    for c in &hc {
        let ops = op_alphabet(c);
        histories::<MemB>(ctx, c, &ops, if t { 9 } else { 5 });
        histories::<FsB>(ctx, c, &ops, if t { 5 } else { 3 });
        handles_nd::<MemB>(ctx, c, &ops, if t { 3 } else { 2 });
        handles_nd::<FsB>(ctx, c, &ops, 2);
    }
    ("model_checking", true)
}

// ------------------------------------------------------------------- C07

/// What a declared fill value stands for: Some(bits), or an error.
enum Want {
    Bits(u64),
    Error,
    /// either an error or exactly these bits
    Either(u64),
}

fn fill_cases(e: &str) -> Vec<(Value, Want)> {
    use Want::*;
    let mut v: Vec<(Value, Want)> = vec![(Value::Null, Bits(0))];
    for bad in [json!("x"), json!(""), json!([]), json!([0]), json!({}), json!({"a": 0}), json!("nan"), json!("inf"), json!("infinity"), json!("+Infinity"), json!("-NaN"), json!("Nan"), json!("NaN "), json!(" Infinity")] {
        v.push((bad, Error));
    }
    for s in ["NaN", "Infinity", "-Infinity"] {
        match e {
            "f2" | "f4" | "f8" => {}
            _ => v.push((json!(s), Error)),
        }
    }
    match e {
        "bool" => {
            v.push((json!(true), Bits(1)));
            v.push((json!(false), Bits(0)));
            v.push((json!(1), Either(1)));
            v.push((json!(0), Either(0)));
            for b in [json!(2), json!(-1), json!("true"), json!("false"), json!(0.5)] {
                v.push((b, Error));
            }
        }
        "f2" | "f4" | "f8" => {
            v.push((json!(true), Error));
            v.push((json!(false), Error));
            v.push((json!("1.0"), Error));
            let mut put = |x: f64, j: Value| {
                let (bits, over) = match e {
                    "f2" => (half::f16::from_f64(x).to_bits() as u64, half::f16::from_f64(x).is_infinite()),
                    "f4" => ((x as f32).to_bits() as u64, (x as f32).is_infinite()),
                    _ => (x.to_bits(), false),
                };
                v.push((j, if over && x.is_finite() { Error } else { Bits(bits) }));
            };
            for x in [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 3.140625, 100.0, 1e-3, -9999.0, 65504.0, 65520.0, -65536.0, 1e5, 1e20, 3.4e38, 3.5e38, -1e39, 1e300, 5e-324, 1e-45, 6e-8, f64::MAX, f64::MIN_POSITIVE, 0.1, 16777217.0] {
                put(x, json!(x));
            }
            for i in [0i64, 1, -1, 5, -7, 255, 2048, -65504, 70000, 1 << 24, 1 << 53, i64::MIN] {
                put(i as f64, json!(i));
            }
            put(u64::MAX as f64, json!(u64::MAX));
            put(f64::INFINITY, json!("Infinity"));
            put(f64::NEG_INFINITY, json!("-Infinity"));
        }
        _ => {
            let bits = 8 * esize(e) as u32;
            let signed = e.starts_with('i');
            let (lo, hi): (i128, i128) =
                if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
            let mask: u64 = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
            let mut xs: Vec<i128> = vec![0, 1, 2, -1, -2, 42, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536];
            for b in [31u32, 32, 53, 63, 64] {
                for d in -1..=1i128 {
                    xs.push((1i128 << b) + d);
                    xs.push(-(1i128 << b) + d);
                }
            }
            if bits <= 16 {
                xs.extend(lo - 3..=hi + 3);
            }
            for x in xs {
                let j = if x >= 0 && x <= u64::MAX as i128 {
                    json!(x as u64)
                } else if x < 0 && x >= i64::MIN as i128 {
                    json!(x as i64)
                } else {
                    // beyond 64 bits JSON numbers are floats: whole, but out of range
                    json!(x as f64)
                };
                v.push((j, if x >= lo && x <= hi { Bits(x as u64 & mask) } else { Error }));
            }
            for f in [0.5, 1.5, -0.5, 1e300] {
                v.push((json!(f), Error));
            }
            v.push((json!(1.0), Either(1)));
            v.push((json!(0.0), Either(0)));
            v.push((json!(true), Error));
            v.push((json!("0"), Error));
        }
    }
    v
}

fn is_nan(e: &str, b: u64) -> bool {
    match e {
        "f2" => half::f16::from_bits(b as u16).is_nan(),
        "f4" => f32::from_bits(b as u32).is_nan(),
        "f8" => f64::from_bits(b).is_nan(),
        _ => false,
    }
}

fn effective<T: Elem>(m: &ArrayMetadata) -> Result<u64, String> {
    m.get_effective_fill_value::<T>().map(|x| x.bits()).map_err(|e| e.to_string())
}

/// The same fill value seen through every operation that uses it.
fn fill_everywhere<T: Elem>(h_kind: &str, dt: &str, fill: &Value, order: char, judge: &dyn Fn(Result<u64, String>) -> Result<(), String>) -> CaseResult {
    let m = M::new(&[5, 3], &[2, 2], dt).order(order).fill(fill.clone()).build();
    fn go<T: Elem, H: HierarchyWriter>(h: &H, judge: &dyn Fn(Result<u64, String>) -> Result<(), String>, count: &dyn Fn() -> usize) -> Result<(), String> {
        let m = h.get_array_metadata("a").map_err(|e| format!("get_array_metadata: {}", e))?;
        judge(effective::<T>(&m)).map_err(|e| format!("get_effective_fill_value: {}", e))?;
        let all = bb(&[0, 0], &[5, 3]);
        let see = |what: &str, r: std::io::Result<ArrayD<T>>, written: &dyn Fn(usize, usize) -> Option<T>| -> Result<(), String> {
            match r {
                Err(e) => judge(Err(e.to_string())).map_err(|e| format!("{}: {}", what, e)),
                Ok(a) => {
                    for y in 0..5 {
                        for x in 0..3 {
                            let g = a[[y, x].as_ref()];
                            match written(y, x) {
                                Some(w) if w.bits() != g.bits() => return Err(format!("{}: [{},{}] is {:?}, not the written {:?}", what, y, x, g, w)),
                                Some(_) => {}
                                None => judge(Ok(g.bits())).map_err(|e| format!("{}: [{},{}]: {}", what, y, x, e))?,
                            }
                        }
                    }
                    Ok(())
                }
            }
        };
        see("never written", T::nd_rd(h, "a", &m, &all), &|_, _| None)?;
        // a partial write leaves the rest of the chunk at the fill value
        let n0 = count();
        let v = T::fb(1);
        let r = T::nd_wr(h, "a", &m, &[1, 1], ArrayD::from_elem(IxDyn(&[1, 1]), v).view());
        match r {
            Ok(()) => {
                see("rest of a chunk", T::nd_rd(h, "a", &m, &all), &|y, x| if (y, x) == (1, 1) { Some(v) } else { None })?;
                let (_, c) = T::rd(h, "a", &m, &[0, 0]).map_err(|e| e.to_string())?.ok_or("chunk is missing")?;
                for (i, x) in c.iter().enumerate() {
                    if i == 3 { if x.bits() != v.bits() { return Err("written element of the chunk".into()); } }
                    else { judge(Ok(x.bits())).map_err(|e| format!("chunk element {}: {}", i, e))?; }
                }
                // a chunk that overhangs the array
                T::nd_wr(h, "a", &m, &[4, 2], ArrayD::from_elem(IxDyn(&[1, 1]), v).view()).map_err(|e| e.to_string())?;
                let (_, c) = T::rd(h, "a", &m, &[2, 1]).map_err(|e| e.to_string())?.ok_or("chunk is missing")?;
                for x in &c[1..] {
                    judge(Ok(x.bits())).map_err(|e| format!("overhanging chunk element: {}", e))?;
                }
                // deleted again
                for p in [[0u64, 0], [2, 1]] {
                    h.delete_chunk("a", &m, &p).map_err(|e| e.to_string())?;
                }
                see("after deletion", T::nd_rd(h, "a", &m, &all), &|_, _| None)?;
            }
            Err(e) => {
                judge(Err(e.to_string())).map_err(|e| format!("write_ndarray: {}", e))?;
                if count() != n0 {
                    return Err("a refused write_ndarray stored something".into());
                }
            }
        }
        Ok(())
    }
    if h_kind == "mem" {
        let h = Mem::new();
        h.create_array("a", &m).map_err(|e| e.to_string())?;
        go::<T, Mem>(&h, judge, &|| h.snap().len())?;
    } else {
        let d = Dir::new();
        let h = d.create();
        h.create_array("a", &m).map_err(|e| e.to_string())?;
        go::<T, _>(&d.open(), judge, &|| files(&d.snap()).len())?;
    }
    Ok(true)
}

pub fn c07(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per element type and declared fill value: all values of 8 and 16 bit types and their \
         neighbours out of range, all 65536 half floats, and an alphabet of limits, specials and values of \
         other JSON types for the others, each seen through the metadata, an unwritten array, a partly \
         written and an overhanging chunk, and a deleted chunk; non-trivial always",
    );
    ctx.assume("0/1 for bool and 1.0/0.0 for integer types may be refused or taken at face value");
    let t = ctx.thorough;
    let mut items = vec![];
    for e in ETYPES {
        for dt in dtypes(e) {
            let n = fill_cases(e).len();
            for k in 0..(n + 999) / 1000 {
                items.push((e, dt.clone(), k));
            }
        }
    }
    ctx.par(&items, |(e, dt, k)| {
        let cases = fill_cases(e);
        for (i, (fill, want)) in cases.iter().enumerate().skip(k * 1000).take(1000) {
            let judge = |r: Result<u64, String>| -> Result<(), String> {
                if let (Want::Bits(b), Ok(x), Some(_)) = (want, &r, fill.as_f64()) {
                    // what the JSON library makes of the number's shortest text
                    let again: f64 = serde_json::from_str(&fill.to_string()).unwrap_or(0.0);
                    if *e == "f8" && b.abs_diff(*x) == 1 && again.to_bits() == *x {
                        return Err(format!("SIG[f8 {}] reads as bits {:x}, not {:x}", fill, x, b));
                    }
                }
                match (want, r) {
                    (Want::Bits(b), Ok(x)) | (Want::Either(b), Ok(x)) => {
                        if *b == x { Ok(()) } else { Err(format!("reads as bits {:x}, not {:x}", x, b)) }
                    }
                    (Want::Bits(_), Err(x)) => Err(format!("refused: {}", x)),
                    (Want::Either(_), Err(_)) | (Want::Error, Err(_)) => Ok(()),
                    (Want::Error, Ok(x)) => Err(format!("reads as bits {:x}, although the type can not hold it", x)),
                }
            };
            // the sweep over all small integers through the metadata alone
            let sweep = i > 120 && i % 97 != 0 && !t;
            with_elem!(*e, T => {
                if sweep {
                    ctx.case(format!("fill dtype={} value={}", dt, fill), || {
                        let m = M::new(&[5, 3], &[2, 2], dt).fill(fill.clone()).build();
                        judge(effective::<T>(&m))?;
                        Ok(true)
                    });
                } else {
                    for h in ["mem", "fs"] {
                        for o in ['C', 'F'] {
                            if h == "fs" && o == 'F' && !t { continue; }
                            ctx.case(format!("fill dtype={} value={} store={} order={}", dt, fill, h, o), || fill_everywhere::<T>(h, dt, fill, o, &judge));
                        }
                    }
                }
            })
        }
    });
    // NaN: any NaN will do
    let items: Vec<(&str, String)> = ["f2", "f4", "f8"].iter().flat_map(|e| dtypes(e).into_iter().map(move |d| (*e, d))).collect();
    ctx.par(&items, |(e, dt)| {
        with_elem!(*e, T => {
            for h in ["mem", "fs"] {
                for o in ['C', 'F'] {
                    ctx.case(format!("fill dtype={} value=NaN store={} order={}", dt, h, o), || {
                        fill_everywhere::<T>(h, dt, &json!("NaN"), o, &|r| match r {
                            Ok(b) if is_nan(e, b) => Ok(()),
                            Ok(b) => Err(format!("reads as bits {:x}", b)),
                            Err(x) => Err(format!("refused: {}", x)),
                        })
                    });
                }
            }
        })
    });
    // every half float that JSON can declare
    let blocks: Vec<u32> = (0..64).collect();
    ctx.par(&blocks, |b| {
        for k in 0..1024u32 {
            let h = half::f16::from_bits((b * 1024 + k) as u16);
            if h.is_nan() || h.is_infinite() {
                continue;
            }
            ctx.case(format!("half {:04x}", h.to_bits()), || {
                let m = M::new(&[2], &[2], "<f2").fill(json!(h.to_f64())).build();
                match effective::<half::f16>(&m) {
                    Ok(x) if x == h.to_bits() as u64 => Ok(true),
                    r => Err(format!("fill value {} reads as {:x?}", h, r)),
                }
            });
        }
    });
    ("exploration", true)
}
