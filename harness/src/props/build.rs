//! C07, C08, C14, C15: construction.
use super::query::{gen_k, inst, Spec};
use super::*;

pub struct Checked {
    pub depth: usize,
    pub inner: usize,
}

/// Is the tree a well-formed kd-tree over exactly the data?
pub fn check_shape<T: Sc>(data: &Data<T>, leafsize: usize, s: &Shape<T>) -> Result<Checked, String> {
    let (d, n) = (data.d, data.n);
    if s.leafsize != leafsize {
        return Err(format!("leafsize is {} instead of {leafsize}", s.leafsize));
    }
    if s.size != s.nodes.len() + 1 {
        return Err(format!("size {} but {} nodes and a root", s.size, s.nodes.len()));
    }
    if s.data != (data.v.as_ptr() as usize, n * d) {
        return Err("the tree's data is not the caller's".into());
    }
    if s.nodes.is_empty() {
        if n > leafsize {
            return Err(format!("{n} points in one leaf of at most {leafsize}"));
        }
        return Ok(Checked { depth: 0, inner: 0 });
    }
    let m = s.nodes.len();
    let mut parents = vec![0usize; m];
    for x in &s.nodes {
        if let Dump::Stem { left, right, .. } = x {
            for c in [*left, *right] {
                if c >= m {
                    return Err(format!("child {c} of {m} nodes"));
                }
                parents[c] += 1;
            }
        }
    }
    if let Some(c) = parents.iter().position(|&p| p > 1) {
        return Err(format!("node {c} has {} parents", parents[c]));
    }
    let roots: Vec<usize> = (0..m).filter(|&i| parents[i] == 0).collect();
    if roots.len() != 2 {
        return Err(format!("{} nodes have no parent instead of the two children of the root", roots.len()));
    }
    // pre-order, then process backwards: children before parents
    let mut order = vec![];
    let mut stack: Vec<(usize, usize)> = roots.iter().map(|&r| (r, 1)).collect();
    let mut depth = 0;
    while let Some((i, l)) = stack.pop() {
        depth = depth.max(l);
        order.push(i);
        if let Dump::Stem { left, right, .. } = &s.nodes[i] {
            stack.push((*left, l + 1));
            stack.push((*right, l + 1));
        }
    }
    if order.len() != m {
        return Err(format!("{} of {m} nodes are not reachable", m - order.len()));
    }
    let mut seen = vec![0u32; n];
    let mut inner = 1;
    let mut mins = vec![f64::INFINITY; m * d];
    let mut maxs = vec![f64::NEG_INFINITY; m * d];
    for &i in order.iter().rev() {
        let mut lo_ = vec![f64::INFINITY; d];
        let mut hi_ = vec![f64::NEG_INFINITY; d];
        let mut add = |p: usize, lo_: &mut [f64], hi_: &mut [f64]| -> Res {
            if p >= n {
                return Err(format!("a point of node {i} is not a point of the data"));
            }
            seen[p] += 1;
            for (a, x) in data.row(p).iter().enumerate() {
                lo_[a] = lo_[a].min(x.f());
                hi_[a] = hi_[a].max(x.f());
            }
            Ok(())
        };
        let (lo, hi) = match &s.nodes[i] {
            Dump::Leaf { points, lo, hi } => {
                if points.len() > leafsize {
                    return Err(format!("leaf of {} points, leafsize {leafsize}", points.len()));
                }
                for &p in points {
                    add(p, &mut lo_, &mut hi_)?;
                }
                (lo, hi)
            }
            Dump::Stem { dim, point, left, right, lo, hi } => {
                inner += 1;
                add(*point, &mut lo_, &mut hi_)?;
                if *dim >= d {
                    return Err(format!("split along axis {dim} of {d}"));
                }
                let v = data.row(*point)[*dim].f();
                if maxs[left * d + dim] > v {
                    return Err(format!("a point on the left at {} of a split at {v} along axis {dim}", maxs[left * d + dim]));
                }
                if mins[right * d + dim] < v {
                    return Err(format!("a point on the right at {} of a split at {v} along axis {dim}", mins[right * d + dim]));
                }
                for c in [*left, *right] {
                    for a in 0..d {
                        lo_[a] = lo_[a].min(mins[c * d + a]);
                        hi_[a] = hi_[a].max(maxs[c * d + a]);
                    }
                }
                (lo, hi)
            }
        };
        for a in 0..d {
            if lo_[a] < lo[a].f() || hi_[a] > hi[a].f() {
                return Err(format!("points of a node at {}..{} on axis {a}, outside its bounds {}..{}", lo_[a], hi_[a], lo[a], hi[a]));
            }
        }
        mins[i * d..(i + 1) * d].copy_from_slice(&lo_);
        maxs[i * d..(i + 1) * d].copy_from_slice(&hi_);
    }
    if let Some(p) = seen.iter().position(|&c| c > 1) {
        return Err(format!("point {p} occurs {} times", seen[p]));
    }
    let missing: Vec<usize> = (0..n).filter(|&p| seen[p] == 0).collect();
    if missing.len() != 1 {
        return Err(format!("{} points besides the root's are in no node: {:?}", missing.len() as i64 - 1, &missing[..missing.len().min(5)]));
    }
    let p = data.row(missing[0]);
    let ok = |l: usize, r: usize| (0..d).any(|a| maxs[l * d + a] <= p[a].f() && p[a].f() <= mins[r * d + a]);
    if !ok(roots[0], roots[1]) && !ok(roots[1], roots[0]) {
        return Err(format!("the root's split point {p:?} separates its subtrees along no axis"));
    }
    Ok(Checked { depth, inner })
}

fn shape<T: Build>(src: &mut Src, info: &mut Info, size: Size) -> Res {
    let range = if src.below(5) == 4 && size != Size::Big { Range::Extreme } else { Range::Normal };
    let s = Spec::<T>::gen(src, info, MANY, size, range, false);
    let t = s.tree()?;
    let c = check_shape(&s.data, s.leafsize, &t.shape())?;
    info.label(c.inner > 7, ">7 inner nodes");
    info.nontrivial = c.inner > 1;
    Ok(())
}
inst!(c07_small, true, shape, Size::Small);
inst!(c07_mid, false, shape, Size::Mid);
inst!(c07_big, false, shape, Size::Big);

/// Do two trees over the same data answer alike?
fn same_answers<T: Build>(src: &mut Src, s: &Spec<T>, a: &Bx<T>, b: &Bx<T>, nq: usize) -> Res {
    let o = s.orc();
    let mut qs = vec![];
    for _ in 0..nq {
        let q = gen_query(src, &s.data, s.bx.as_deref(), Range::Normal);
        let (x, y) = (a.q1(&q).map_err(|e| err("serial query", e))?, b.q1(&q).map_err(|e| err("query of the parallel build", e))?);
        let m = dd(x.d[0]);
        if !((m - dd(y.d[0])).abs() <= o.tol(m)) {
            return Err(format!("nearest neighbour of {q:?}: {} by the serial build, {} by the parallel build", x.d[0], y.d[0]));
        }
        o.check_one(&q, &y)?;
        let k = gen_k(src, s.data.n).min(300);
        let (x, y) = (a.qk(&q, k).map_err(|e| err("serial query", e))?, b.qk(&q, k).map_err(|e| err("query of the parallel build", e))?);
        if x.d.len() != y.d.len() {
            return Err(format!("k={k} at {q:?}: {} neighbours by the serial build, {} by the parallel build", x.d.len(), y.d.len()));
        }
        for j in 0..x.d.len() {
            let m = dd(x.d[j]);
            if !((m - dd(y.d[j])).abs() <= o.tol(m)) {
                return Err(format!("k={k} at {q:?}: {j}-th distance {} by the serial build, {} by the parallel build", x.d[j], y.d[j]));
            }
        }
        qs.extend_from_slice(&q);
    }
    if BATCH && nq > 0 {
        let k = 1 + src.below(6) as usize;
        let (x, y) = (a.batch(Batch::Par, &qs, k).map_err(|e| err("serial batch", e))?, b.batch(Batch::Par, &qs, k).map_err(|e| err("batch of the parallel build", e))?);
        if x.d.len() != y.d.len() || x.d.iter().zip(&y.d).any(|(x, y)| !((dd(*x) - dd(*y)).abs() <= o.tol(dd(*x)))) {
            return Err(format!("batches with k={k} differ: {:?} by the serial build, {:?} by the parallel build", x.d, y.d));
        }
    }
    Ok(())
}

fn equiv<T: Build>(src: &mut Src, info: &mut Info, size: Size, perturb: bool) -> Res {
    let boxed = src.below(3) == 2;
    let maxd = if boxed { 4 } else { MANY };
    let mut s = Spec::<T>::gen(src, info, maxd, size, Range::Normal, boxed);
    let level = match src.weighted(&[3, 3, 2, 1]) {
        0 => 1 + src.below(3) as usize,
        1 => 1 + src.below(5) as usize,
        2 => 0,
        _ if s.data.n <= 200 => [7, 10, 100, usize::MAX][src.below(4) as usize],
        _ => 6,
    };
    let pool = s.pool;
    let broken = size == Size::Small && src.weighted(&[12, 1]) == 1;
    info.desc += &format!(" split level {level}, pool {} (0: none){}", pool_size(pool), if broken { ", a non-finite coordinate" } else { "" });
    info.label(level == 0, "level 0");
    info.label(level > 5, "level>5");
    if broken {
        let i = src.below(s.data.v.len() as u64) as usize;
        s.data.v[i] = T::of([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][src.below(3) as usize]);
        info.label(true, "refused-data");
        let (a, b) = (T::build(s.data.d, &s.data.v, s.leafsize, None), in_pool(pool, || T::build(s.data.d, &s.data.v, s.leafsize, Some(level))));
        return match (a.err(), b.err()) {
            (Some(Er::Invalid(_)), Some(Er::Invalid(_))) => Ok(()),
            (a, b) => Err(format!("non-finite data: serial build {a:?}, parallel build {b:?} (None: accepted)")),
        };
    }
    s.par = None;
    let a = s.tree()?;
    if perturb {
        PERTURB.store(1 + src.below(1 << 40), Relaxed);
    }
    let together = src.weighted(&[4, 1]) == 1;
    info.label(together, "several-builds-at-once");
    let built: Vec<Result<Bx<T>, String>> = if together {
        std::thread::scope(|sc| {
            let h: Vec<_> = (0..3)
                .map(|_| {
                    let s = &s;
                    sc.spawn(move || build_in(pool, &s.data, s.leafsize, Some(level)))
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a parallel build panicked".into()))).collect()
        })
    } else {
        vec![build_in(pool, &s.data, s.leafsize, Some(level))]
    };
    PERTURB.store(0, Relaxed);
    let mut inner = 0;
    for b in built {
        let b = b?;
        let c = check_shape(&s.data, s.leafsize, &b.shape()).map_err(|e| format!("parallel build: {e}"))?;
        inner = inner.max(c.inner);
        let b = match &s.bx {
            Some(x) => b.set_box(x).map_err(|e| err("setting a box on the parallel build", e))?,
            None => b,
        };
        same_answers(src, &s, &a, &b, if size == Size::Small { 2 } else { 6 })?;
    }
    info.nontrivial = level > 0 && inner > 1;
    Ok(())
}
inst!(c08_small, true, equiv, Size::Small, false);
inst!(c08_mid, false, equiv, Size::Mid, false);
inst!(c08_big, false, equiv, Size::Big, false);
pub fn c08_schedule(src: &mut Src, info: &mut Info) -> Res {
    let r = match src.below(4) {
        3 => equiv::<Cf>(src, info, Size::Mid, true),
        _ => equiv::<Cf>(src, info, Size::Small, true),
    };
    PERTURB.store(0, Relaxed);
    info.label(true, "perturbed-schedule");
    r
}

/// Partitioning
fn part<T: Build, const D: usize>(src: &mut Src, info: &mut Info, size: Size) -> Res {
    use fnntw::{moms::moms_seq, point::Point, NotNan};
    let range = if size == Size::Small && src.below(4) == 3 { Range::Extreme } else { Range::Normal };
    let data = match size {
        Size::Big if src.weighted(&[6, 1]) == 1 => {
            let n = src.range(900_000, 1_300_000);
            gen_data_n::<T>(src, D, n, range, false)
        }
        Size::Big => gen_data::<T>(src, D, Size::Big, range, false),
        _ => {
            let z = if src.weighted(&[4, 1]) == 1 { Size::Mid } else { Size::Small };
            gen_data::<T>(src, D, z, range, false)
        }
    };
    let n = data.n;
    let axis = src.below(D as u64) as usize;
    let chunk = match src.weighted(&[4, 1]) {
        0 => None,
        _ => Some([1, 2, 5, 100, 4097, 250_000, 10_000_000][src.below(7) as usize]),
    };
    let chunk = if chunk.is_some_and(|c| c < 5) && n > 150_000 { Some(7) } else { chunk };
    let pool = gen_pool(src);
    let lo = if src.below(4) == 3 { src.below(n as u64) as usize } else { 0 };
    // a sub-slice, as during a build
    let lo = if size == Size::Big && n - lo < 100_000 && lo > 0 { lo.min(n / 50) } else { lo };
    info.desc = format!("{} axis {axis}, chunks {chunk:?}, pool {} (0: none), points {lo}..{n}", data.show(), pool_size(pool));
    classify(info, &data, 0, None, None);
    info.label(chunk.is_some(), "given-chunk-size");
    let start = data.v.as_ptr() as usize;
    let rows: &[[NotNan<T>; D]] = unsafe { std::slice::from_raw_parts(data.v.as_ptr() as *const [NotNan<T>; D], n) };
    let mut pts: Vec<Point<T, D>> = rows[lo..].iter().map(Point::new).collect();
    let m = pts.len();
    let width = std::mem::size_of::<T>() * D;
    let at = |p: &Point<T, D>| (unsafe { p.get_unchecked(0) } as *const _ as usize).wrapping_sub(start);
    let base = pts.as_ptr() as usize;
    let (left, mid, right) = in_pool(pool, || {
        let (l, p, r) = moms_seq(&mut pts, chunk, axis);
        let whole = l.as_ptr() as usize == base
            && (p as *const _ as usize) == base + l.len() * std::mem::size_of::<Point<T, D>>()
            && l.len() + 1 + r.len() == m;
        if !whole {
            return Err(format!("parts of {} + 1 + {} points do not make up the slice of {m}", l.len(), r.len()));
        }
        Ok((l.iter().map(&at).collect::<Vec<_>>(), at(p), r.iter().map(&at).collect::<Vec<_>>()))
    })?;
    let mut seen = vec![false; n];
    let mut val = |off: usize| -> Result<f64, String> {
        if off % width != 0 || off / width >= n || off / width < lo || seen[off / width] {
            return Err(format!("point at offset {off} is no point of the slice, or there twice"));
        }
        seen[off / width] = true;
        Ok(data.row(off / width)[axis].f())
    };
    let p = val(mid)?;
    for &l in &left {
        let x = val(l)?;
        if x > p {
            return Err(format!("{x} on the left of the pivot {p}"));
        }
    }
    for &r in &right {
        let x = val(r)?;
        if x < p {
            return Err(format!("{x} on the right of the pivot {p}"));
        }
    }
    let (l, r) = (left.len(), right.len());
    info.label(m >= 100_000, "approximate-median");
    info.label(true, "partition");
    if m < 100_000 {
        if l > m / 2 || r > m / 2 {
            return Err(format!("{m} points split into {l} and {r}"));
        }
    } else if chunk.is_none() && (l < m / 5 || r < m / 5) {
        return Err(format!("{m} points split into {l} and {r}"));
    }
    info.nontrivial = l > 0 && r > 0 && (left.iter().any(|x| data.row(x / width)[axis].f() < p) || right.iter().any(|x| data.row(x / width)[axis].f() > p));
    Ok(())
}
fn parts(src: &mut Src, info: &mut Info, size: Size) -> Res {
    match src.below(4) {
        0 => part::<f64, 3>(src, info, size),
        1 => part::<f64, 1>(src, info, size),
        2 => part::<f32, 2>(src, info, size),
        _ => part::<f32, 5>(src, info, size),
    }
}
pub fn c14_small(src: &mut Src, info: &mut Info) -> Res {
    parts(src, info, Size::Small)
}
pub fn c14_big(src: &mut Src, info: &mut Info) -> Res {
    parts(src, info, Size::Big)
}

/// Partitioning of values that are settled during the selection, as badly as can be
pub fn c14_adversary(src: &mut Src, info: &mut Info) -> Res {
    use fnntw::{moms::moms_seq, point::Point, NotNan};
    let m = match src.weighted(&[3, 3, 2]) {
        0 => src.range(1, 3_000),
        1 => src.range(100_000, 110_000),
        _ => src.range(100_000, 300_000),
    };
    let lows = [256, 0, 128, 250, 6][src.weighted(&[4, 4, 1, 1, 1])];
    let seed = src.below(1 << 32);
    let pool = gen_pool(src);
    info.desc = format!("{m} points whose values an adversary settles ({lows} of 256 low, seed {seed}), pool {} (0: none)", pool_size(pool));
    info.label(true, "adversary");
    info.label(m >= 100_000, "approximate-median");
    info.nontrivial = m >= 3;
    let rows: Vec<[NotNan<Cf>; 1]> = (0..m).map(|i| [unsafe { NotNan::new_unchecked(Cf(i as f64)) }]).collect();
    let mut pts: Vec<Point<Cf, 1>> = rows.iter().map(Point::new).collect();
    let at = |p: &Point<Cf, 1>| unsafe { p.get_unchecked(0) }.into_inner().0 as usize;
    Adversary::start(m, lows, seed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        in_pool(pool, || {
            let (l, p, r) = moms_seq(&mut pts, None, 0);
            (l.iter().map(&at).collect::<Vec<_>>(), at(p), r.iter().map(&at).collect::<Vec<_>>())
        })
    }));
    let rank = Adversary::finish();
    let (left, mid, right) = r.unwrap_or_else(|e| std::panic::resume_unwind(e));
    let (l, r) = (left.len(), right.len());
    let mut all: Vec<usize> = left.iter().chain(&right).copied().chain([mid]).collect();
    all.sort();
    if all.len() != m || all.iter().enumerate().any(|(i, &x)| i != x) {
        return Err(format!("the parts of {l} + 1 + {r} points are not the {m} points"));
    }
    if left.iter().any(|&x| rank[x] > rank[mid]) || right.iter().any(|&x| rank[x] < rank[mid]) {
        return Err(format!("parts of {l} and {r} points are not divided by the pivot"));
    }
    if m < 100_000 && (l > m / 2 || r > m / 2) || m >= 100_000 && (l < m / 5 || r < m / 5) {
        return Err(format!("{m} points split into {l} and {r}"));
    }
    Ok(())
}

// ---- C15

pub fn depth_limit(n: usize, leafsize: usize) -> usize {
    (1.5 * (n as f64 / leafsize.max(1) as f64 + 2.0).log2() + 4.0) as usize
}

fn depth<T: Build>(src: &mut Src, info: &mut Info, size: Size) -> Res {
    let s = Spec::<T>::gen(src, info, 6, size, Range::Normal, false);
    let t = s.tree()?;
    let c = check_shape(&s.data, s.leafsize, &t.shape()).map_err(|e| format!("malformed tree: {e}"))?;
    let lim = depth_limit(s.data.n, s.leafsize);
    if c.depth > lim {
        return Err(format!("depth {} for {} points and leaf size {}, more than {lim}", c.depth, s.data.n, s.leafsize));
    }
    info.nontrivial = s.data.n / 4 > s.leafsize;
    Ok(())
}
inst!(depth_small, false, depth, Size::Small);
inst!(depth_mid, false, depth, Size::Mid);
inst!(c15_depth_big, false, depth, Size::Big);
pub fn c15_depth(src: &mut Src, info: &mut Info) -> Res {
    if src.below(2) == 0 { depth_small(src, info) } else { depth_mid(src, info) }
}

fn counted<R>(budget: u64, f: impl FnOnce() -> R) -> (R, u64) {
    BUDGET.store(budget, Relaxed);
    OPS.store(0, Relaxed);
    let r = f();
    let n = OPS.load(Relaxed);
    BUDGET.store(u64::MAX, Relaxed);
    (r, n)
}

/// Arithmetic of builds and queries, counted
pub fn c15_queries(src: &mut Src, info: &mut Info) -> Res {
    let d = [3, 2][src.below(2) as usize];
    let n = match src.weighted(&[4, 4, 1]) { 0 => src.range(4_000, 12_000), 1 => src.range(12_000, 60_000), _ => src.range(100_000, 140_000) };
    let any = src.weighted(&[3, 1]) == 1;
    let boxed = !any && src.below(2) == 1;
    let data = if any {
        gen_data_n::<Cf>(src, d, n, Range::Normal, false)
    } else {
        // spread over the region: uniform, jittered grid or sorted uniform
        let kind = src.below(4);
        let mut r = Rng::new(src.below(1 << 32));
        let side = (n as f64).powf(1.0 / d as f64).ceil() as u64;
        let mut v: Vec<Vec<f64>> = (0..n)
            .map(|i| match kind {
                1 => (0..d).map(|a| ((i as u64 / side.pow(a as u32)) % side) as f64 / side as f64).collect(),
                2 => (0..d).map(|_| r.below(1000) as f64 / 1000.0).collect(),
                _ => (0..d).map(|_| r.unit()).collect(),
            })
            .collect();
        if kind == 3 {
            v.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap());
        }
        Data { d, n, v: v.concat().into_iter().map(Cf).collect(), layout: ["uniform", "grid", "rounded", "uniform"][kind as usize], order: if kind == 3 { "ascending" } else { "as-is" } }
    };
    let leafsize = [16, 4, 1, 32, 64][src.below(5) as usize];
    let par = if src.below(2) == 1 { Some(src.below(4) as usize) } else { None };
    classify::<Cf>(info, &data, leafsize, par, None);
    info.desc = show::<Cf>(&data, leafsize, par, None);
    let lg = (n as f64).log2();
    let budget = (n as f64 * lg * BUILD_OPS + 1e6) as u64;
    let (t, ops) = counted(budget, || build_in(0, &data, leafsize, par));
    let mut t = t?;
    info.desc += &format!(" build: {:.2} n log2 n operations", ops as f64 / (n as f64 * lg));
    info.label(true, "build");
    let bx: Option<Vec<Cf>> = boxed.then(|| vec![Cf(1.0); d]);
    if let Some(b) = &bx {
        t = t.set_box(b).map_err(|e| err("setting a box", e))?;
    }
    info.nontrivial = true;
    if any {
        return Ok(());
    }
    info.label(boxed, "box");
    let nq = 48;
    let k = 1 + src.below(10) as usize;
    let mut r = Rng::new(src.below(1 << 32));
    let qs: Vec<Vec<Cf>> = (0..nq)
        .map(|_| if r.below(4) == 0 { data.row(r.below(n as u64) as usize).to_vec() } else { (0..d).map(|_| Cf(r.unit())).collect() })
        .collect();
    let f = qs.concat();
    let all = (n * d * nq) as u64;
    let mut note = vec![];
    let mut run = |what: &str, allow: f64, g: &mut dyn FnMut() -> Res| -> Res {
        let (x, ops) = counted(u64::MAX, g);
        x?;
        note.push(format!("{what}: {:.0} operations each", ops as f64 / nq as f64));
        if ops as f64 > allow * all as f64 {
            return Err(format!("{nq} {what} queries on {n} points in {d} dimensions (k={k}, leafsize {leafsize}) took {ops} operations, {:.3} of the {all} of a linear scan", ops as f64 / all as f64));
        }
        Ok(())
    };
    let allow = linear_share(n, d, k, leafsize);
    run("nearest-neighbour", linear_share(n, d, 1, leafsize), &mut || { for q in &qs { t.q1(q).map_err(|e| err("query", e))?; } Ok(()) })?;
    run("k-neighbour", allow, &mut || { for q in &qs { t.qk(q, k).map_err(|e| err("query", e))?; } Ok(()) })?;
    if BATCH {
        run("batched", allow, &mut || { t.batch(Batch::Par, &f, k).map_err(|e| err("batch", e))?; Ok(()) })?;
        run("buffered batched", allow, &mut || { t.batch(Batch::With, &f, k).map_err(|e| err("batch", e))?; Ok(()) })?;
        run("axis-decomposed", allow, &mut || { t.axis(&f, k, 0).map_err(|e| err("batch", e))?; Ok(()) })?;
    }
    info.desc += &format!(" k={k}; {}", note.join(", "));
    Ok(())
}
// Measured on the unchanged tree: at most 2.9 n log2 n operations per build, and at most 2.3 times
// the model below per query; see DESIGN.md.
const BUILD_OPS: f64 = 12.0;
fn linear_share(n: usize, d: usize, k: usize, leafsize: usize) -> f64 {
    let model = (n as f64).log2() * 10.0 * d as f64 + (leafsize + k) as f64 * (2 << d) as f64 * d as f64;
    (9.0 * model / (n * d) as f64).min(0.5)
}
