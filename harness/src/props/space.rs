//! C20: memory in proportion to what is asked, and given back.
use super::query::{gen_k, inst};
use super::*;
use crate::alloc::{live, peak_since, COUNT};

#[derive(Clone, Copy, Debug)]
enum Call {
    One,
    K(usize),
    /// queries, k, pool
    Batch(Batch, usize, usize, usize),
    /// queries, k, axis, pool
    Axis(usize, usize, usize, usize),
}

struct Setup<T> {
    leafsize: usize,
    par: Option<usize>,
    boxes: Vec<Vec<T>>,
    pool: usize,
    calls: Vec<Call>,
    /// each round on a thread of its own
    thread: bool,
    /// every so many calls have a query that is refused
    bad: u64,
}

fn in_bytes(x: f64) -> isize {
    if x > 1e15 { isize::MAX } else { x as isize }
}

/// Builds, asks and drops, all on data and queries drawn from the seed. What was in use meanwhile is
/// compared with the size of the input and output if `judge`.
fn round<T: Build>(data: &Data<T>, s: &Setup<T>, seed: u64, judge: bool) -> Res {
    let mut rng = Rng::new(seed);
    let data = data.clone();
    let (n, d, w) = (data.n, data.d, std::mem::size_of::<T>());
    let before = live().1;
    let built = peak_since(before);
    let mut t = build_in(s.pool, &data, s.leafsize, s.par)?;
    let (held, most) = (live().1 - before, built());
    if judge {
        let nodes = t.shape().size;
        let linear = (n * (32 + d * w) + (nodes + 2) * (2 * d * w + 96)) as f64;
        let threads = if s.par.is_some() { (nodes.min(1 << 12) * 2048) as f64 } else { 0.0 };
        if held > in_bytes(4.0 * linear + 262_144.0) {
            return Err(format!("the tree holds {held} bytes for {n} points of {} bytes in {nodes} nodes", d * w));
        }
        if most > in_bytes(12.0 * linear + threads + 524_288.0) {
            return Err(format!("building the tree took {most} bytes for {n} points of {} bytes in {nodes} nodes", d * w));
        }
    }
    for b in &s.boxes {
        t = t.set_box(b).map_err(|e| err("setting a box that contains the data", e))?;
    }
    let bx = s.boxes.last();
    let images = if bx.is_some() { (1u64 << d) as f64 } else { 1.0 };
    for (j, c) in s.calls.iter().enumerate() {
        let mut qs = |m: usize| -> Vec<T> { (0..m).flat_map(|_| gen_query(&mut rng, &data, bx.map(|b| &b[..]), Range::Normal)).collect() };
        let refuse = s.bad > 0 && (j as u64 + seed) % s.bad == 0;
        let spoil = |mut q: Vec<T>| {
            if refuse && !q.is_empty() {
                let l = q.len();
                q[l - 1] = T::of(f64::NAN);
            }
            q
        };
        let (before, rows, k, pool);
        let during;
        match *c {
            Call::One => {
                let q = spoil(qs(1));
                (before, rows, k, pool) = (live().1, 1, 1, 0);
                let p = peak_since(before);
                drop(t.q1(&q));
                during = p();
            }
            Call::K(x) => {
                let q = spoil(qs(1));
                (before, rows, k, pool) = (live().1, 1, x.min(n), 0);
                let p = peak_since(before);
                drop(t.qk(&q, x));
                during = p();
            }
            Call::Batch(b, m, x, p) => {
                let q = spoil(qs(m));
                (before, rows, k, pool) = (live().1, m, x.min(n), if matches!(b, Batch::With) { 70_000 } else { 64 });
                let pk = peak_since(before);
                drop(in_pool(p, || t.batch(b, &q, x)));
                during = pk();
            }
            Call::Axis(m, x, a, p) => {
                let q = spoil(qs(m));
                (before, rows, k, pool) = (live().1, m, x.min(n), 64);
                let pk = peak_since(before);
                drop(in_pool(p, || t.axis(&q, x, a)));
                during = pk();
            }
        }
        let _ = before;
        if judge {
            // a row of the answer, and what every thread needs for a query: k candidates and the images
            let row = 8.0 * (k as f64 + 1.0) * (3 * w + 16 + d * w) as f64;
            let each = 4.0 * (k as f64 + 2.0) * (4 * w + 64) as f64 + 8.0 * images * ((d * w) as f64 + 32.0) + 64.0 * 48.0;
            let fair = rows as f64 * row + pool.max(1) as f64 * each + 262_144.0;
            if during > in_bytes(fair) {
                return Err(format!("{c:?} took {during} bytes for {rows} rows of {k} entries in {d} dimensions, {n} points"));
            }
        }
    }
    Ok(())
}

fn space<T: Build>(src: &mut Src, info: &mut Info, mid: bool) -> Res {
    let d = dim::<T>(src, 8);
    let n = if mid { src.range(500, 20_000) } else { match src.below(3) { 0 => src.range(1, 8), 1 => src.range(2, 60), _ => src.range(30, 400) } };
    let boxed = src.below(2) == 1 && (d <= 5 || n < 100);
    let data = gen_data_n::<T>(src, d, n, Range::Normal, boxed);
    let leafsize = gen_leafsize(src, n);
    let leafsize = if mid { leafsize.max(2) } else { leafsize };
    let par = gen_par(src, n).map(|p| p.min(5));
    let boxes = if boxed { (0..1 + src.below(2)).map(|_| gen_box(src, &data)).collect() } else { vec![] };
    let calls: Vec<Call> = (0..src.below(5))
        .map(|_| {
            let m = match src.weighted(&[6, 3, if mid { 2 } else { 0 }]) { 0 => src.below(8), 1 => src.below(60), _ => src.below(3000) } as usize;
            let kmax = if boxed { 64 } else { 600 };
            match src.weighted(&[3, 4, if BATCH { 3 } else { 0 }, if BATCH { 3 } else { 0 }]) {
                0 => Call::One,
                1 => Call::K(gen_k(src, n).min(kmax)),
                2 => {
                    let b = if src.weighted(&[19, 1]) == 1 { Batch::With } else { Batch::Par };
                    Call::Batch(b, m, gen_k(src, n).min(if m > 60 { 8 } else { kmax }), gen_pool(src))
                }
                _ => Call::Axis(m, gen_k(src, n).min(if m > 60 { 8 } else { kmax }), src.below(d as u64) as usize, gen_pool(src)),
            }
        })
        .collect();
    let s = Setup { leafsize, par, boxes, pool: gen_pool(src), calls, thread: src.weighted(&[5, 1]) == 1, bad: [0, 1, 2, 3][src.weighted(&[6, 1, 1, 1])] };
    let seed = src.below(1 << 32);
    classify(info, &data, leafsize, par, s.boxes.last().map(|b| &b[..]));
    info.desc = format!("{} {:?} thread={} bad={}", show(&data, leafsize, par, s.boxes.last().map(|b| &b[..])), s.calls, s.thread, s.bad);
    COUNT.store(true, Relaxed);
    let r = leaks(&data, &s, seed, info);
    COUNT.store(false, Relaxed);
    info.label(s.thread, "thread-per-round");
    info.label(s.bad > 0, "refused-queries");
    info.label(s.boxes.len() > 1, "box-replaced");
    info.label(s.calls.iter().any(|c| matches!(c, Call::Batch(Batch::With, ..))), "batch-with-buffers");
    info.label(s.calls.iter().any(|c| matches!(c, Call::Batch(Batch::Par, ..))), "batch");
    info.label(s.calls.iter().any(|c| matches!(c, Call::Axis(..))), "axis");
    info.nontrivial = n > leafsize && !s.calls.is_empty();
    r
}

/// Rounds that differ only in their queries must not use more and more memory
fn leaks<T: Build>(data: &Data<T>, s: &Setup<T>, seed: u64, info: &mut Info) -> Res {
    let mut i = 0u64;
    let mut rounds = |m: usize| -> Result<(isize, isize), String> {
        let a = live();
        for _ in 0..m {
            i += 1;
            // (no memory is to be measured while others run)
            let f = || round(data, s, seed.wrapping_add(i * 7919), i == 2);
            if s.thread {
                std::thread::scope(|x| x.spawn(f).join()).map_err(|_| "a round panicked".to_string())??
            } else {
                f()?
            }
        }
        let b = live();
        Ok((b.0 - a.0, b.1 - a.1))
    };
    rounds(3)?;
    let w = 4;
    let (a, b) = (rounds(w)?, rounds(w)?);
    if a.0 + b.0 <= 0 && a.1 + b.1 <= 0 {
        return Ok(());
    }
    // something is still there: is it more and more? (the pools of threads keep and return blocks of their own)
    info.label(true, "looked-at-twice");
    let m = 16 * w;
    let c = rounds(m)?;
    let many = |g: (isize, isize), m: usize| g.0 >= (m / 2) as isize || g.1 >= 4096.max(8 * m as isize);
    if !many(c, m) {
        return Ok(());
    }
    let e = rounds(3 * m)?;
    if !many(e, 2 * m) {
        return Ok(());
    }
    Err(format!("after everything was dropped, {} blocks and {} bytes more are in use than {} rounds before", e.0, e.1, 3 * m))
}
inst!(c20_small, false, space, false);
inst!(c20_mid, false, space, true);
