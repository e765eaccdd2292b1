//! C04 chunk grid geometry, C05 bounding boxes.
use crate::eng::*;
use crate::util::*;
use zarr::ndarray::BoundingBox;
#[allow(unused_imports)]
use zarr::prelude::*;
use zarr::ArrayMetadata;

pub fn bb(o: &[u64], s: &[u64]) -> BoundingBox {
    BoundingBox::new(gc(o), gc(s))
}

/// All vectors with the i-th entry below lim[i].
pub fn grid(lim: &[u64]) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![vec![]];
    for l in lim {
        let mut n = Vec::with_capacity(v.len() * *l as usize);
        for p in &v {
            for x in 0..*l {
                let mut q = p.clone();
                q.push(x);
                n.push(q);
            }
        }
        v = n;
    }
    v
}

fn meta(shape: &[u64], chunk: &[u32]) -> ArrayMetadata {
    M::new(shape, chunk, "u1").build()
}

/// Walk an iterator, checking its remaining length before every step.
fn walk<I: Iterator<Item = Vec<u64>> + ExactSizeIterator>(
    mut it: I,
    expect: usize,
) -> Result<Vec<Vec<u64>>, String> {
    let mut out = vec![];
    loop {
        let len = it.len();
        if it.size_hint() != (len, Some(len)) {
            return Err("size_hint and len differ".into());
        }
        if len != expect.saturating_sub(out.len()) {
            return Err(format!("remaining length is {} after {} of {}", len, out.len(), expect));
        }
        match it.next() {
            Some(c) => {
                out.push(c);
                if out.len() > expect {
                    return Err(format!("more than {} positions: {:?}", expect, out.last()));
                }
            }
            None => break,
        }
    }
    if it.len() != 0 || it.next().is_some() || it.len() != 0 {
        return Err("not at its end after the end".into());
    }
    Ok(out)
}

fn same_set(mut got: Vec<Vec<u64>>, mut want: Vec<Vec<u64>>) -> Result<(), String> {
    got.sort();
    want.sort();
    if got == want {
        return Ok(());
    }
    let n = got.len();
    let mut d = got.clone();
    d.dedup();
    if d.len() != n {
        return Err(format!("a position is visited more than once: {:?}", got));
    }
    Err(format!("visited {:?}, not {:?}", got, want))
}

/// Number of chunks covering each dimension, counted by elements.
fn extent_of(shape: &[u64], chunk: &[u32]) -> Vec<u64> {
    shape
        .iter()
        .zip(chunk)
        .map(|(s, c)| {
            let mut n = 0u64;
            while (n as u128) * (*c as u128) < *s as u128 {
                n += 1;
            }
            n
        })
        .collect()
}

fn check_grid(shape: &[u64], chunk: &[u32]) -> CaseResult {
    let m = meta(shape, chunk);
    let ext = extent_of(shape, chunk);
    if m.get_grid_extent().to_vec() != ext {
        return Err(format!("extent {:?}, not {:?}", m.get_grid_extent(), ext));
    }
    let n: u64 = ext.iter().product();
    if m.get_num_chunks() != n {
        return Err(format!("{} chunks, not {}", m.get_num_chunks(), n));
    }
    if m.get_ndim() != shape.len()
        || m.get_num_elements() as u64 != shape.iter().product::<u64>()
        || m.get_chunk_num_elements() as u64 != chunk.iter().map(|c| *c as u64).product::<u64>()
    {
        return Err("element counts".into());
    }
    // in bounds: decided by the elements of the chunk
    for pos in grid(&ext.iter().map(|e| e + 2).collect::<Vec<_>>()) {
        let want = pos
            .iter()
            .zip(chunk)
            .zip(shape)
            .all(|((p, c), s)| (0..*c as u64).any(|k| p * *c as u64 + k < *s));
        if m.in_bounds(&gc(&pos)) != want {
            return Err(format!("in_bounds({:?}) is not {}", pos, want));
        }
    }
    let mut longer = vec![0; shape.len() + 1];
    if m.in_bounds(&gc(&longer)) {
        return Err("in_bounds accepts a position with too many coordinates".into());
    }
    if !shape.is_empty() {
        longer.truncate(shape.len() - 1);
        if m.in_bounds(&gc(&longer)) {
            return Err("in_bounds accepts a position with too few coordinates".into());
        }
    }
    let got = walk(m.coord_iter(), n as usize).map_err(|e| format!("coord_iter: {}", e))?;
    same_set(got, grid(&ext)).map_err(|e| format!("coord_iter: {}", e))?;
    if m.coord_iter().count() as u64 != n {
        return Err("coord_iter().count()".into());
    }
    Ok(n > 0)
}

fn check_region(m: &ArrayMetadata, shape: &[u64], chunk: &[u32], o: &[u64], s: &[u64]) -> CaseResult {
    // positions with an element in the array and the region
    let mut per: Vec<Vec<u64>> = vec![];
    for i in 0..shape.len() {
        let mut v: Vec<u64> = vec![];
        for x in o[i]..o[i] + s[i] {
            if x < shape[i] {
                v.push(x / chunk[i] as u64);
            }
        }
        v.dedup();
        per.push(v);
    }
    let mut want: Vec<Vec<u64>> = vec![vec![]];
    for p in &per {
        want = want
            .into_iter()
            .flat_map(|w| {
                p.iter().map(move |x| {
                    let mut w = w.clone();
                    w.push(*x);
                    w
                })
            })
            .collect();
    }
    let got = walk(m.bounded_coord_iter(&bb(o, s)), want.len())?;
    let nt = !want.is_empty();
    same_set(got, want)?;
    Ok(nt)
}

/// Regions and shapes too large to count element by element.
fn check_large(shape: &[u64], chunk: &[u32]) -> CaseResult {
    let m = meta(shape, chunk);
    let ext: Vec<u64> = shape
        .iter()
        .zip(chunk)
        .map(|(s, c)| ((*s as u128 + *c as u128 - 1) / *c as u128) as u64)
        .collect();
    if m.get_grid_extent().to_vec() != ext {
        return Err(format!("extent {:?}, not {:?}", m.get_grid_extent(), ext));
    }
    if let Some(n) = ext.iter().try_fold(1u64, |a, e| a.checked_mul(*e)) {
        if m.get_num_chunks() != n {
            return Err("number of chunks".into());
        }
        let it = m.coord_iter();
        if it.len() as u64 != n {
            return Err(format!("coord_iter has length {}, not {}", it.len(), n));
        }
        let head: Vec<_> = it.take(3).collect();
        if head.iter().any(|h| h.iter().zip(&ext).any(|(a, b)| a >= b)) || head.len() as u64 != n.min(3) {
            return Err("coord_iter leaves the grid".into());
        }
    }
    let nd = shape.len();
    for d in 0..nd {
        let mut p: Vec<u64> = vec![0; nd];
        for (x, want) in [(ext[d] - 1, true), (ext[d], false), (u64::MAX, u64::MAX < ext[d])] {
            p[d] = x;
            if m.in_bounds(&gc(&p)) != want {
                return Err(format!("in_bounds({:?}) is not {}", p, want));
            }
        }
    }
    // regions at the far corner
    let c: Vec<u64> = chunk.iter().map(|c| *c as u64).collect();
    for back in 1..=3u64 {
        for len in 1..=back {
            let o: Vec<u64> = shape.iter().map(|s| s.saturating_sub(back)).collect();
            let s: Vec<u64> = shape.iter().zip(&o).map(|(s, o)| len.min(s - o)).collect();
            let lo: Vec<u64> = o.iter().zip(&c).map(|(o, c)| o / c).collect();
            let lim: Vec<u64> = (0..nd).map(|i| (o[i] + (s[i] - 1)) / c[i] - lo[i] + 1).collect();
            let want: Vec<Vec<u64>> = grid(&lim)
                .into_iter()
                .map(|g| g.iter().zip(&lo).map(|(a, b)| a + b).collect())
                .collect();
            let got = walk(m.bounded_coord_iter(&bb(&o, &s)), want.len())
                .map_err(|e| format!("region at {:?} of {:?}: {}", o, s, e))?;
            same_set(got, want).map_err(|e| format!("region at {:?} of {:?}: {}", o, s, e))?;
        }
    }
    Ok(true)
}

pub fn c04(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per array shape and chunk shape (extent, count, bounds of every position up to two past \
         the grid, all positions enumerated with the remaining length at each step) and per region of it \
         (every offset and size up to past the array's end); judged by counting elements; non-trivial \
         when at least one chunk is visited",
    );
    let t = ctx.thorough;
    let mut cfg: Vec<(Vec<u64>, Vec<u32>)> = vec![(vec![], vec![])];
    for s in 0..=(if t { 60u64 } else { 30 }) {
        for c in 1..=(if t { 25u32 } else { 13 }) {
            cfg.push((vec![s], vec![c]));
        }
    }
    let (s2, c2) = if t { (9, 5) } else { (6, 4) };
    for s in grid(&[s2, s2]) {
        for c in grid(&[c2, c2]) {
            cfg.push((s.clone(), c.iter().map(|x| *x as u32 + 1).collect()));
        }
    }
    let (s3, c3) = if t { (5, 3) } else { (4, 2) };
    for s in grid(&[s3, s3, s3]) {
        for c in grid(&[c3, c3, c3]) {
            cfg.push((s.clone(), c.iter().map(|x| *x as u32 + 1).collect()));
        }
    }
    for nd in 4..=8usize {
        for v in 0..4u64 {
            let s: Vec<u64> = (0..nd).map(|i| [[2, 1, 3, 2], [1, 1, 2, 1], [3, 2, 0, 1], [2, 3, 1, 1]][v as usize][i % 4]).collect();
            let c: Vec<u32> = (0..nd).map(|i| [[1, 1, 2, 2], [1, 2, 1, 3], [2, 1, 1, 1], [2, 2, 1, 7]][v as usize][i % 4]).collect();
            cfg.push((s, c));
        }
    }
    ctx.par(&cfg, |(s, c)| {
        ctx.case(format!("grid shape={} chunk={}", shape_str(s), shape_str(c)), || check_grid(s, c));
        let m = meta(s, c);
        let (extra_o, extra_s) = if s.len() > 3 { (1, 1) } else { (2, 3) };
        if s.len() <= 3 {
            for o in grid(&s.iter().map(|x| x + extra_o).collect::<Vec<_>>()) {
                for z in grid(&s.iter().map(|x| x + extra_s).collect::<Vec<_>>()) {
                    ctx.case(
                        format!("region shape={} chunk={} at={} size={}", shape_str(s), shape_str(c), shape_str(&o), shape_str(&z)),
                        || check_region(&m, s, c, &o, &z),
                    );
                }
            }
        } else {
            // all regions with the same size in every dimension
            for o in grid(&s.iter().map(|x| x + extra_o).collect::<Vec<_>>()) {
                for z in 0..3u64 {
                    let z = vec![z; s.len()];
                    ctx.case(
                        format!("region shape={} chunk={} at={} size={}", shape_str(s), shape_str(c), shape_str(&o), shape_str(&z)),
                        || check_region(&m, s, c, &o, &z),
                    );
                }
            }
        }
    });
    let big: Vec<u64> = vec![
        255, 256, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1,
        1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX - 2, u64::MAX - 1, u64::MAX,
    ];
    let cs: Vec<u32> = vec![1, 2, 3, 7, 64, 255, 256, 1 << 16, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];
    let mut items = vec![];
    for b in &big {
        for c in &cs {
            items.push((vec![*b], vec![*c]));
            for (b2, c2) in [(1u64, 1u32), (5, 3), (*b, *c), (1 << 32, 1 << 16)] {
                items.push((vec![b2, *b], vec![c2, *c]));
                items.push((vec![*b, b2], vec![*c, c2]));
            }
        }
    }
    ctx.par(&items, |(s, c)| {
        ctx.case(format!("large shape={} chunk={}", shape_str(s), shape_str(c)), || check_large(s, c));
    });
    ("exploration", true)
}

// ------------------------------------------------------------------- C05

fn contains(o: &[u64], s: &[u64], p: &[u64]) -> bool {
    o.iter().zip(s).zip(p).all(|((o, s), p)| *p as u128 >= *o as u128 && (*p as u128) < *o as u128 + *s as u128)
}

fn parts(b: &BoundingBox) -> (Vec<u128>, Vec<u128>) {
    let s: Vec<u128> = b.shape_ndarray_shape().iter().map(|x| *x as u128).collect();
    let e: Vec<u128> = b.end().map(|x| x as u128).collect();
    (e, s)
}

fn check_pair(o1: &[u64], s1: &[u64], o2: &[u64], s2: &[u64]) -> CaseResult {
    let n = o1.len();
    let (a, b) = (bb(o1, s1), bb(o2, s2));
    let nonempty = |s: &[u64]| s.iter().all(|x| *x > 0);
    // intersection, by intervals per dimension in 128 bits
    let lo: Vec<u128> = (0..n).map(|i| o1[i].max(o2[i]) as u128).collect();
    let hi: Vec<u128> = (0..n)
        .map(|i| (o1[i] as u128 + s1[i] as u128).min(o2[i] as u128 + s2[i] as u128))
        .collect();
    let share = (0..n).all(|i| lo[i] < hi[i]);
    let mut r = a.clone();
    r.intersect(&b);
    if r.is_empty() == share {
        return Err(format!("intersection {:?} of {:?} and {:?}: is_empty is {}", r, a, b, !share == false));
    }
    if share {
        let want = bb(
            &lo.iter().map(|x| *x as u64).collect::<Vec<_>>(),
            &(0..n).map(|i| (hi[i] - lo[i]) as u64).collect::<Vec<_>>(),
        );
        if r != want {
            return Err(format!("intersection of {:?} and {:?} is {:?}, not {:?}", a, b, r, want));
        }
    }
    let (_, rs) = parts(&r);
    for i in 0..n {
        if rs[i] > s1[i].min(s2[i]) as u128 {
            return Err(format!("intersection of {:?} and {:?} has extent {:?}", a, b, rs));
        }
    }
    if nonempty(s1) && nonempty(s2) {
        let lo: Vec<u64> = (0..n).map(|i| o1[i].min(o2[i])).collect();
        let hi: Vec<u64> = (0..n).map(|i| (o1[i] + s1[i]).max(o2[i] + s2[i])).collect();
        let want = bb(&lo, &(0..n).map(|i| hi[i] - lo[i]).collect::<Vec<_>>());
        let mut u = a.clone();
        u.union(&b);
        if u != want {
            return Err(format!("union of {:?} and {:?} is {:?}, not {:?}", a, b, u, want));
        }
        if u.end().collect::<Vec<_>>() != hi {
            return Err("end of a union".into());
        }
    }
    Ok(share)
}

fn check_points(o1: &[u64], s1: &[u64], o2: &[u64], s2: &[u64], univ: &[Vec<u64>]) -> CaseResult {
    check_pair(o1, s1, o2, s2)?;
    // and again as sets of points, with no interval arithmetic
    let mut r = bb(o1, s1);
    r.intersect(&bb(o2, s2));
    let (e, s) = parts(&r);
    let mut any = false;
    for p in univ {
        let both = contains(o1, s1, p) && contains(o2, s2, p);
        let got = !r.is_empty() && (0..p.len()).all(|i| (p[i] as u128) < e[i] && p[i] as u128 + s[i] >= e[i]);
        if both != got {
            return Err(format!("point {:?}: in both {}, in the intersection {}", p, both, got));
        }
        any |= both;
    }
    Ok(any)
}

fn check_one(o: &[u64], s: &[u64], subs: &[Vec<u64>]) -> CaseResult {
    let b = bb(o, s);
    if b.is_empty() != s.contains(&0) {
        return Err("is_empty".into());
    }
    let end: Vec<u64> = b.end().collect();
    if end != o.iter().zip(s).map(|(a, b)| a + b).collect::<Vec<_>>() {
        return Err(format!("end {:?}", end));
    }
    if b.shape_ndarray_shape().iter().map(|x| *x as u64).collect::<Vec<_>>() != s {
        return Err("shape_ndarray_shape".into());
    }
    if s.iter().all(|x| *x <= u32::MAX as u64) && b.shape_chunk().iter().map(|x| *x as u64).collect::<Vec<_>>() != s {
        return Err("shape_chunk".into());
    }
    if end.iter().all(|e| *e <= isize::MAX as u64) {
        for (i, x) in b.to_ndarray_slice().iter().enumerate() {
            match x {
                ndarray::SliceOrIndex::Slice { start, end: Some(e), step: 1 }
                    if *start as u64 == o[i] && *e as u64 == end[i] => {}
                x => return Err(format!("slice {:?}", x)),
            }
        }
    }
    for d in subs {
        if d.iter().zip(o).all(|(d, o)| d <= o) {
            let t = b.clone() - &gc(d);
            if t != bb(&o.iter().zip(d).map(|(o, d)| o - d).collect::<Vec<_>>(), s) {
                return Err(format!("{:?} translated by {:?} is {:?}", b, d, t));
            }
        }
    }
    Ok(true)
}

fn linear(idx: &[u64], shape: &[u32], order: char) -> usize {
    let mut k = 0usize;
    let it: Box<dyn Iterator<Item = usize>> =
        if order == 'C' { Box::new(0..idx.len()) } else { Box::new((0..idx.len()).rev()) };
    for i in it {
        k = k * shape[i] as usize + idx[i] as usize;
    }
    k
}

fn check_chunk_bounds(shape: &[u64], chunk: &[u32], order: char) -> CaseResult {
    let m = M::new(shape, chunk, "<u2").order(order).build();
    if m.get_bounds() != bb(&vec![0; shape.len()], shape) {
        return Err(format!("bounds of the array: {:?}", m.get_bounds()));
    }
    let ext = extent_of(shape, chunk);
    let n: usize = chunk.iter().map(|x| *x as usize).product();
    let cs: Vec<u64> = chunk.iter().map(|x| *x as u64).collect();
    for pos in grid(&ext) {
        let want = bb(&pos.iter().zip(&cs).map(|(p, c)| p * c).collect::<Vec<_>>(), &cs);
        if m.get_chunk_bounds(&pos) != want {
            return Err(format!("bounds of chunk {:?}: {:?}", pos, m.get_chunk_bounds(&pos)));
        }
        let data: Vec<u16> = (0..n).map(|i| i as u16 + 1).collect();
        let c = vchunk::<u16>(&pos, data.clone());
        if c.get_bounds(&m) != want {
            return Err("SliceDataChunk::get_bounds".into());
        }
        let owned = c.clone().into_ndarray(&m);
        let view = c.as_ndarray(&m);
        let us: Vec<usize> = cs.iter().map(|x| *x as usize).collect();
        if view.shape() != us || owned.shape() != us {
            return Err(format!("ndarray of a chunk has shape {:?}", view.shape()));
        }
        for idx in grid(&cs) {
            let ui: Vec<usize> = idx.iter().map(|x| *x as usize).collect();
            let want = data[linear(&idx, chunk, order)];
            if view[&ui[..]] != want || owned[&ui[..]] != want {
                return Err(format!("element {:?} of a chunk's ndarray", idx));
            }
        }
    }
    Ok(!ext.contains(&0))
}

pub fn c05(ctx: &Ctx) -> (&'static str, bool) {
    ctx.rule(
        "one case per pair of boxes: all pairs within a bounded space, compared point by point, and pairs \
         with extreme coordinates, compared in 128-bit arithmetic; per box (end, emptiness, slices, \
         translations); per array and chunk shape (bounds and element order of every chunk); non-trivial \
         when a pair shares points or a chunk exists",
    );
    ctx.assume("boxes whose end corner exceeds u64 are not judged, nor unions with an empty box");
    let t = ctx.thorough;
    for (nd, no, ns) in if t {
        vec![(0, 1, 1), (1, 12, 12), (2, 5, 5), (3, 3, 3)]
    } else {
        vec![(0, 1, 1), (1, 8, 8), (2, 4, 4), (3, 2, 3)]
    } {
        let os = grid(&vec![no; nd]);
        let ss = grid(&vec![ns; nd]);
        let boxes: Vec<(Vec<u64>, Vec<u64>)> = os
            .iter()
            .flat_map(|o| ss.iter().map(move |s| (o.clone(), s.clone())))
            .collect();
        let univ = grid(&vec![no + ns; nd]);
        ctx.par(&boxes, |(o, s)| {
            ctx.case(format!("box at={} size={}", shape_str(o), shape_str(s)), || check_one(o, s, &univ));
            for (p, z) in &boxes {
                ctx.case(
                    format!("pair {}+{} {}+{}", shape_str(o), shape_str(s), shape_str(p), shape_str(z)),
                    || check_points(o, s, p, z, &univ),
                );
            }
        });
    }
    let vals: Vec<u64> = vec![
        0, 1, 2, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63,
        u64::MAX - 1, u64::MAX,
    ];
    let mut ivs: Vec<(u64, u64)> = vec![];
    for a in &vals {
        for b in &vals {
            if a.checked_add(*b).is_some() {
                ivs.push((*a, *b));
            }
        }
    }
    ctx.par(&ivs, |(o, s)| {
        ctx.case(format!("box at={} size={}", o, s), || check_one(&[*o], &[*s], &[vec![*o], vec![o / 2]]));
        for (p, z) in &ivs {
            ctx.case(format!("wide {}+{} {}+{}", o, s, p, z), || {
                check_pair(&[*o], &[*s], &[*p], &[*z])?;
                // the same in the middle of other dimensions, both ways round
                check_pair(&[1, *o, 2], &[4, *s, 1], &[3, *p, 0], &[2, *z, 5])?;
                check_pair(&[*p; 7], &[*z; 7], &[*o; 7], &[*s; 7])
            });
        }
    });
    let mut items = vec![];
    for s in grid(&[5, 5]) {
        for c in grid(&[3, 3]) {
            items.push((s.clone(), c.iter().map(|x| *x as u32 + 1).collect::<Vec<u32>>()));
        }
    }
    items.push((vec![], vec![]));
    for s in 0..9u64 {
        for c in 1..5u32 {
            items.push((vec![s], vec![c]));
            items.push((vec![s, 2, 3], vec![c, 2, 1]));
            items.push((vec![2, 1, s, 2], vec![1, 3, c, 2]));
        }
    }
    items.push((vec![2, 1, 3, 2, 1, 2, 2], vec![1, 1, 2, 2, 1, 1, 2]));
    items.push((vec![2, 1, 3, 1, 1, 2, 2, 1], vec![1, 1, 2, 2, 1, 1, 2, 3]));
    ctx.par(&items, |(s, c)| {
        for o in ['C', 'F'] {
            ctx.case(format!("chunks shape={} chunk={} order={}", shape_str(s), shape_str(c), o), || check_chunk_bounds(s, c, o));
        }
    });
    ("exploration", true)
}
