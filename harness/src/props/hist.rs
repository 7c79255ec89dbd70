//! C12, C13, C19: degenerate inputs, histories, memory.
use super::query::{gen_k, inst, Spec};
use super::*;

/// An operation on a tree, and what it returned
#[derive(Clone, Debug)]
pub enum Op<T> {
    One(Vec<T>),
    K(Vec<T>, usize),
    Batch(Batch, Vec<T>, usize, usize),
    Axis(Vec<T>, usize, usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    /// distances (bits) and indices
    Ok(Vec<u64>, Vec<u64>),
    Err(&'static str),
}
fn tag<T>(e: &Er<T>) -> &'static str {
    match e {
        Er::Invalid(_) => "invalid data",
        Er::Empty => "empty",
        Er::Small => "small box",
        Er::BadBox => "bad box",
        Er::Axis => "axis",
        Er::Neg => "negative",
    }
}
impl<T: Sc> Op<T> {
    /// `bad`: how often (in 16ths) a query point is not finite
    pub fn gen(src: &mut Src, data: &Data<T>, bx: Option<&[T]>, bad: u64, with: bool) -> Self {
        let q = |src: &mut Src| {
            let mut q = gen_query(src, data, bx, Range::Normal);
            if src.chance(bad, 16) {
                let a = src.below(data.d as u64) as usize;
                q[a] = T::of([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][src.below(3) as usize]);
            }
            q
        };
        match src.weighted(&[3, 4, if BATCH { 3 } else { 0 }, if BATCH { 3 } else { 0 }]) {
            0 => Op::One(q(src)),
            1 => Op::K(q(src), gen_k(src, data.n)),
            w => {
                let m = match src.weighted(&[24, 8, 3]) { 0 => src.below(7), 1 => src.below(40), _ => 0 };
                let mut qs: Vec<T> = (0..m).flat_map(|_| q(src)).collect();
                let mut k = gen_k(src, data.n).min(64);
                // now and then many queries, from a single choice, whose boxes have not too many images
                if m == 0 && src.below(3) == 2 {
                    let top = match (data.n > 5000, src.below(6)) { (true, _) => 70, (_, 5) if bx.is_none() || data.d <= 3 => 6000, _ => 700 };
                    let m = src.range(40, top);
                    k = k.min(if m > 700 { 4 } else { 12 });
                    let mut rng = Rng::new(src.below(1 << 32));
                    qs = (0..m).flat_map(|_| gen_query(&mut rng, data, bx, Range::Normal)).collect();
                }
                let pool = gen_pool(src);
                if w == 2 {
                    let b = if with && src.weighted(&[3, 1]) == 1 { Batch::With } else { Batch::Par };
                    Op::Batch(b, qs, k, pool)
                } else {
                    let a = src.below(data.d as u64 + u64::from(bad > 0)) as usize;
                    Op::Axis(qs, k, a, pool)
                }
            }
        }
    }
    pub fn run(&self, t: &Bx<T>, n: usize) -> Result<Ans, String> {
        let bits = |v: &[T]| v.iter().map(|x| x.bits()).collect::<Vec<_>>();
        let (m, r) = match self {
            Op::One(q) => (1, t.q1(q).map(|r| (bits(&r.d), r.i))),
            Op::K(q, k) => (n.min(*k), t.qk(q, *k).map(|r| (bits(&r.d), r.i))),
            Op::Batch(b, qs, k, p) => (n.min(*k) * qs.len() / t.dim(), in_pool(*p, || t.batch(*b, qs, *k)).map(|r| (bits(&r.d), r.i))),
            Op::Axis(qs, k, a, p) => (2 * (n.min(*k) * qs.len() / t.dim()), in_pool(*p, || t.axis(qs, *k, *a)).map(|r| {
                let mut x = bits(&r.ax);
                x.extend(bits(&r.non));
                (x, r.i.unwrap_or_default())
            })),
        };
        Ok(match r {
            Ok((d, i)) => {
                if d.len() != m {
                    return Err(format!("{self:?}: {} distances instead of {m}", d.len()));
                }
                if let Some(x) = i.iter().find(|&&x| x >= n as u64) {
                    return Err(format!("{self:?}: index {x} of {n} points"));
                }
                if let Some(x) = d.iter().find(|&&x| !(T::from_b(x).f() >= 0.0)) {
                    return Err(format!("{self:?}: distance {}", T::from_b(*x)));
                }
                Ans::Ok(d, i)
            }
            Err(e) => Ans::Err(tag(&e)),
        })
    }
    /// is this what brute force finds?
    pub fn judge(&self, o: &Orc<T>, a: &Ans) -> Res {
        let (Ans::Ok(dist, ix), d) = (a, o.data.d) else { return Ok(()) };
        let v: Vec<T> = dist.iter().map(|&b| T::from_b(b)).collect();
        match self {
            Op::One(q) => o.check_one(q, &Nn { d: v, i: ix.clone(), pos: None }),
            Op::K(q, k) => o.check_k(q, *k, &v, ix, None),
            Op::Batch(_, qs, k, _) => {
                let w = o.data.n.min(*k);
                let m = qs.len() / d;
                (0..m).step_by(1 + m / 16).try_for_each(|j| o.check_k(&qs[j * d..(j + 1) * d], *k, &v[j * w..(j + 1) * w], &ix[j * w..(j + 1) * w], None))
            }
            Op::Axis(qs, k, axis, _) => {
                let h = v.len() / 2;
                let r = Ax { ax: v[..h].to_vec(), non: v[h..].to_vec(), i: IDX_AXIS.then(|| ix.clone()) };
                let m = qs.len() / d;
                (0..m).step_by(1 + m / 16).try_for_each(|j| o.check_axis(&qs[j * d..(j + 1) * d], *k, *axis, &r, j))
            }
        }
    }
}

// ---- C12

fn degenerate<T: Build>(src: &mut Src, info: &mut Info, big: bool) -> Res {
    let d = dim::<T>(src, if big { 5 } else { MANY });
    let shape = src.below(if big { 5 } else { 8 });
    let extreme = !big && shape == 7;
    let n = if big {
        match src.below(3) { 0 => src.range(99_998, 100_003), 1 => src.range(100_000, 150_000), _ => src.range(100_000, 320_000) }
    } else {
        match src.below(3) { 0 => 1 + src.below(3) as usize, 1 => src.range(1, 20), _ => src.range(1, 150) }
    };
    let boxed = !extreme && src.below(3) == 2 && (d <= 5 || n < 20 && d <= 8);
    let mut rng = Rng::new(src.below(1 << 32));
    let c: Vec<f64> = (0..d).map(|_| src.below(5) as f64).collect();
    let nd = 2 + src.below(3);
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|i| match shape {
            // all identical
            0 => c.clone(),
            // a few distinct points
            1 => (0..d).map(|a| if rng.below(nd) == 0 { c[a] } else { 3.0 }).collect(),
            // identical on all axes but one
            2 => (0..d).map(|a| if a == d - 1 { rng.unit() } else { c[a] }).collect(),
            // one outlier among identical points
            3 => if i == (n - 1) / 2 { c.iter().map(|x| x + 1.0).collect() } else { c.clone() },
            // a line
            4 => vec![i as f64; d],
            // two values, sorted
            5 => vec![if i < n / 3 { 0.0 } else { 1.0 }; d],
            _ => (0..d).map(|_| rng.unit()).collect(),
        })
        .collect();
    let data: Data<T> = if extreme {
        gen_data_n(src, d, n, Range::Extreme, false)
    } else {
        Data { d, n, v: rows.concat().into_iter().map(T::of).collect(), layout: ["identical", "few-distinct", "one-axis", "one-outlier", "line", "two-values", "tiny-uniform", ""][shape as usize], order: "as-is" }
    };
    let leafsize = match src.below(if big { 4 } else { 8 }) {
        0 => 16,
        1 => 1,
        2 => 3,
        3 => if big { 64 } else { 0 },
        4 => usize::MAX,
        5 => n,
        6 => n + 1,
        _ => usize::MAX / 2 + 1,
    };
    let par = match src.below(4) { 0 | 1 => None, 2 => Some(src.below(4) as usize), _ if !big => Some([5, 8, 30, usize::MAX][src.below(4) as usize]), _ => Some(3) };
    let pool = gen_pool(src);
    let bx: Option<Vec<T>> = boxed.then(|| gen_box(src, &data));
    classify(info, &data, leafsize, par, bx.as_deref());
    info.desc = show(&data, leafsize, par, bx.as_deref());
    info.label(leafsize > 1 << 40, "huge-leafsize");
    info.label(extreme, "extreme-magnitudes");
    let s = Spec { data, leafsize, par, bx, pool };
    let t = s.tree()?;
    let o = s.orc();
    let range = if extreme { Range::Extreme } else { Range::Normal };
    let nq = if big { 3 } else { 2 };
    for _ in 0..nq {
        let q = gen_query(src, &s.data, s.bx.as_deref(), range);
        info.desc += &format!(" q={q:?}");
        let r = t.q1(&q).map_err(|e| err("query", e))?;
        o.check_one(&q, &r)?;
        let k = match src.below(6) { 0 => 0, 1 => n, 2 => n + 1 + src.below(9) as usize, 3 => 1, 4 => n.saturating_mul(2), _ => 2 };
        let k = if big { [0, 1, 7, 40][src.below(4) as usize] } else { k };
        info.label(k == 0, "k=0");
        info.label(k > n, "k>n");
        let r = t.qk(&q, k).map_err(|e| err("query", e))?;
        if !boxed || (n << d) < 3_000_000 {
            o.check_k(&q, k, &r.d, &r.i, r.pos.as_deref())?;
        }
        if BATCH && (n << if boxed { d } else { 0 }) < 600_000 {
            let m = src.below(4) as usize;
            let qs: Vec<T> = (0..m).flat_map(|_| q.clone()).collect();
            info.label(m == 0, "empty-batch");
            let which = if src.weighted(&[9, 1]) == 1 && k < 64 { Batch::With } else { Batch::Par };
            let r = in_pool(pool, || t.batch(which, &qs, k)).map_err(|e| err("batch", e))?;
            let w = k.min(n);
            if r.d.len() != w * m || r.i.len() != w * m {
                return Err(format!("batch of {m} with k={k}, {n} points: {} distances", r.d.len()));
            }
            for j in 0..m.min(if big { 1 } else { 4 }) {
                o.check_k(&q, k, &r.d[j * w..(j + 1) * w], &r.i[j * w..(j + 1) * w], None)?;
            }
            let ax = src.below(d as u64) as usize;
            let r = in_pool(pool, || t.axis(&qs, k, ax)).map_err(|e| err("axis-decomposed batch", e))?;
            if r.ax.len() != w * m || r.non.len() != w * m {
                return Err(format!("axis-decomposed batch of {m} with k={k}, {n} points: {} distances", r.ax.len()));
            }
            for j in 0..m.min(if big { 1 } else { 4 }) {
                o.check_axis(&q, k, ax, &r, j)?;
            }
        }
    }
    info.nontrivial = true;
    Ok(())
}
/// on a thread with the default (2 MiB) stack
fn on_thread(src: &mut Src, info: &mut Info, f: fn(&mut Src, &mut Info) -> Res) -> Res {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || f(src, info)).expect("thread").join() {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    })
}
inst!(c12_s, true, degenerate, false);
inst!(c12_b, false, degenerate, true);
pub fn c12_small(src: &mut Src, info: &mut Info) -> Res {
    c12_s(src, info)
}
pub fn c12_big(src: &mut Src, info: &mut Info) -> Res {
    on_thread(src, info, c12_b)
}

// ---- C13

/// an operation, its answer, and whether it was compared with a fresh tree's
type Past<T> = (Op<T>, Ans, bool);
struct Slot<T: Build> {
    leafsize: usize,
    par: Option<usize>,
    bx: Option<Vec<T>>,
    tree: Option<Bx<'static, T>>,
    past: std::sync::Mutex<Vec<Past<T>>>,
}
/// Any number of trees on one set of points. The points live as long as this does.
struct Hist<T: Build> {
    // from a box; changed only while no tree refers to it
    points: *mut Data<T>,
    before: Vec<u64>,
    slots: Vec<Slot<T>>,
    /// query points of earlier queries, to be asked again
    asked: std::sync::Mutex<Vec<Vec<T>>>,
}
unsafe impl<T: Build> Send for Hist<T> {}
unsafe impl<T: Build> Sync for Hist<T> {}
impl<T: Build> Drop for Hist<T> {
    fn drop(&mut self) {
        self.slots.clear();
        // SAFETY: made from a box in `new`, and the trees that refer to it are gone
        drop(unsafe { Box::from_raw(self.points) })
    }
}
#[derive(Default)]
struct Count {
    queries: usize,
    errors: usize,
    boxes: usize,
    trees: usize,
    moved: bool,
    dropped: bool,
    together: bool,
    changed: bool,
    hammered: bool,
}
type Job<'a> = Box<dyn FnOnce() -> Res + Send + 'a>;
/// `Hist<T>` for any type and dimension, so that one history covers several
trait World: Sync {
    fn name(&self) -> String;
    fn step(&mut self, src: &mut Src, desc: &mut String, c: &mut Count) -> Res;
    /// a query, to be asked later
    fn job<'a>(&'a self, src: &mut Src, desc: &mut String) -> Option<Job<'a>>;
    /// a few queries, asked by several threads over and over
    fn hammer(&mut self, src: &mut Src, desc: &mut String) -> Res;
    /// the trees are dropped and the points changed where they are
    fn change(&mut self, src: &mut Src) -> Res;
    /// compare what was asked by jobs with a fresh tree's answers
    fn settle(&self) -> Result<usize, String>;
    /// everything asked before gives the same again
    fn audit(&self) -> Res;
}
impl<T: Build> Hist<T> {
    fn new(src: &mut Src) -> Self {
        let d = dim::<T>(src, 5);
        let n = match src.weighted(&[2, 3, 1]) { 0 => src.range(1, 6), 1 => src.range(2, 60), _ => src.range(60, 400) };
        let data = gen_data_n::<T>(src, d, n, Range::Normal, true);
        let before: Vec<u64> = data.v.iter().map(|x| x.bits()).collect();
        Hist { points: Box::into_raw(Box::new(data)), before, slots: vec![], asked: Default::default() }
    }
    fn data(&self) -> &'static Data<T> {
        // SAFETY: not kept for longer than this
        unsafe { &*self.points }
    }
    /// an operation on tree `i`, now and then at a point that was asked for before
    fn op(&self, src: &mut Src, i: usize, bad: u64, with: bool) -> Op<T> {
        let bx = self.slots[i].bx.as_deref();
        let mut op = Op::gen(src, self.data(), bx, bad, with);
        let mut asked = self.asked.lock().unwrap();
        let ok = |q: &[T]| bx.is_none_or(|b| q.iter().zip(b).all(|(x, b)| x.f() >= 0.0 && x.f() <= b.f()));
        if let Op::One(q) | Op::K(q, _) = &mut op {
            if !asked.is_empty() && src.below(2) == 1 {
                let old = &asked[src.below(asked.len() as u64) as usize];
                if ok(old) {
                    *q = old.clone();
                }
            } else if q.iter().all(|x| x.f().is_finite()) && asked.len() < 20 {
                asked.push(q.clone());
            }
        }
        op
    }
    fn fresh(&self, s: &Slot<T>) -> Result<Bx<'_, T>, String> {
        let t = T::build(self.data().d, &self.data().v, s.leafsize, s.par).map_err(|e| err("building", e))?;
        match &s.bx {
            Some(b) => t.set_box(b).map_err(|e| err("setting the box", e)),
            None => Ok(t),
        }
    }
    fn agree(&self, s: &Slot<T>, op: &Op<T>, got: &Ans, want: &Ans, than: &str) -> Res {
        let total = |a: &[u64]| -> Vec<f64> {
            let x: Vec<f64> = a.iter().map(|&b| dd(T::from_b(b))).collect();
            (0..x.len() / 2).map(|j| x[j].hypot(x[x.len() / 2 + j])).collect()
        };
        let same = match (got, want) {
            (Ans::Ok(a, _), Ans::Ok(b, _)) if a == b => true,
            // of tied neighbours any may come first, with its own components
            (Ans::Ok(a, _), Ans::Ok(b, _)) if matches!(op, Op::Axis(..)) && a.len() == b.len() => {
                let o = Orc::new(self.data(), s.bx.as_deref());
                total(a).iter().zip(total(b)).all(|(x, y)| *x == y || (x - y).abs() <= 2.0 * o.tol(*x))
            }
            (Ans::Err(a), Ans::Err(b)) => a == b,
            _ => false,
        };
        if same {
            return Ok(());
        }
        let f = |a: &Ans| match a {
            Ans::Ok(d, i) => format!("{:?} of {i:?}", d.iter().map(|&b| T::from_b(b)).collect::<Vec<_>>()),
            Ans::Err(e) => format!("error: {e}"),
        };
        Err(format!("{op:?} gave {} but {} {than}", f(got), f(want)))
    }
    fn live(&self) -> Vec<usize> {
        (0..self.slots.len()).filter(|&i| self.slots[i].tree.is_some()).collect()
    }
    /// ask, judge by brute force, remember
    fn ask(&self, i: usize, op: Op<T>) -> Res {
        let s = &self.slots[i];
        let got = op.run(s.tree.as_ref().unwrap(), self.data().n)?;
        op.judge(&Orc::new(self.data(), s.bx.as_deref()), &got)?;
        s.past.lock().unwrap().push((op, got, false));
        Ok(())
    }
}
impl<T: Build> World for Hist<T> {
    fn name(&self) -> String {
        format!("{} of {} bytes", self.data().show(), std::mem::size_of::<T>())
    }
    fn step(&mut self, src: &mut Src, desc: &mut String, c: &mut Count) -> Res {
        let live = self.live();
        let (d, n) = (self.data().d, self.data().n);
        let what = if live.is_empty() { 1 } else { src.weighted(&[8, 2, 2, 1, 2]) };
        match what {
            // a query
            0 => {
                let i = live[src.below(live.len() as u64) as usize];
                let bad = src.below(6) == 0;
                let op = self.op(src, i, 2, bad);
                *desc += &format!("; tree {i}: {op:?}");
                self.ask(i, op)?;
                c.queries += 1;
                c.errors += self.settle()?;
            }
            // another tree
            1 => {
                let leafsize = gen_leafsize(src, n);
                let par = gen_par(src, n);
                *desc += &format!("; tree {}: leafsize {leafsize}, parallel {par:?}", self.slots.len());
                let tree = Some(T::build(d, &self.data().v, leafsize, par).map_err(|e| err("building", e))?);
                self.slots.push(Slot { leafsize, par, bx: None, tree, past: Default::default() });
                c.trees += 1;
            }
            // a box (refused or not)
            2 => {
                let i = live[src.below(live.len() as u64) as usize];
                let t = self.slots[i].tree.take().unwrap();
                let mut b = gen_box(src, self.data());
                if src.weighted(&[3, 1]) == 1 {
                    let a = src.below(d as u64) as usize;
                    b[a] = T::of([f64::NAN, -1.0, f64::INFINITY][src.below(3) as usize]);
                    *desc += &format!("; tree {i}: bad box {b:?}");
                    if t.set_box(&b).is_ok() {
                        return Err(format!("box {b:?} accepted"));
                    }
                } else {
                    *desc += &format!("; tree {i}: box {b:?}");
                    let s = &mut self.slots[i];
                    s.tree = Some(t.set_box(&b).map_err(|e| err("setting the box", e))?);
                    s.bx = Some(b);
                    s.past.lock().unwrap().clear();
                    c.boxes += 1;
                }
            }
            // drop
            3 => {
                let i = live[src.below(live.len() as u64) as usize];
                self.slots[i].tree = None;
                *desc += &format!("; drop tree {i}");
                c.dropped = true;
            }
            // move a tree to another thread and back, asking there
            _ => {
                let i = live[src.below(live.len() as u64) as usize];
                let op = self.op(src, i, 1, false);
                *desc += &format!("; tree {i} moved: {op:?}");
                let t = self.slots[i].tree.take().unwrap();
                let o2 = &op;
                let (t, got) = std::thread::scope(|s| s.spawn(move || { let a = o2.run(&t, n); (t, a) }).join())
                    .map_err(|_| "a query on a moved tree panicked".to_string())?;
                self.slots[i].tree = Some(t);
                let got = got?;
                let s = &self.slots[i];
                op.judge(&Orc::new(self.data(), s.bx.as_deref()), &got)?;
                s.past.lock().unwrap().push((op, got, false));
                self.settle()?;
                c.moved = true;
                c.queries += 1;
            }
        }
        Ok(())
    }
    fn job<'a>(&'a self, src: &mut Src, desc: &mut String) -> Option<Job<'a>> {
        let live = self.live();
        if live.is_empty() {
            return None;
        }
        let i = live[src.below(live.len() as u64) as usize];
        let op = self.op(src, i, 1, false);
        *desc += &format!(" [tree {i}: {op:?}]");
        Some(Box::new(move || self.ask(i, op)))
    }
    fn hammer(&mut self, src: &mut Src, desc: &mut String) -> Res {
        let live = self.live();
        if live.is_empty() {
            return Ok(());
        }
        let n = self.data().n;
        // (tree, operation, what it gives on a fresh tree)
        let mut ops: Vec<(usize, Op<T>, Ans)> = vec![];
        for _ in 0..1 + src.below(4) {
            let i = live[src.below(live.len() as u64) as usize];
            let mut op = self.op(src, i, 0, false);
            match &mut op {
                Op::K(_, k) | Op::Batch(_, _, k, _) | Op::Axis(_, k, ..) => *k = (*k).min(8),
                Op::One(_) => {}
            }
            if let Op::Batch(_, qs, _, pool) | Op::Axis(qs, _, _, pool) = &mut op {
                // many pools at once would only wait for their threads
                *pool = 0;
                qs.truncate(8 * self.data().d);
            }
            let want = op.run(&self.fresh(&self.slots[i])?, n)?;
            op.judge(&Orc::new(self.data(), self.slots[i].bx.as_deref()), &want)?;
            ops.push((i, op, want));
        }
        let threads = 2 + src.below(7) as usize;
        let rounds = 10 + src.below(120) as usize;
        *desc += &format!(" {threads} threads, {rounds} rounds of {:?}", ops.iter().map(|(i, o, _)| (i, o)).collect::<Vec<_>>());
        let gate = &std::sync::Barrier::new(threads);
        let (ops, slots, me) = (&ops, &self.slots, &*self);
        std::thread::scope(|s| {
            let h: Vec<_> = (0..threads)
                .map(|t| {
                    s.spawn(move || -> Res {
                        gate.wait();
                        for r in 0..rounds {
                            // every thread in another order
                            let (i, op, want) = &ops[(t + r * (1 + t)) % ops.len()];
                            let got = op.run(slots[*i].tree.as_ref().unwrap(), n)?;
                            me.agree(&slots[*i], op, &got, want, "when asked alone")?;
                        }
                        Ok(())
                    })
                })
                .collect();
            h.into_iter().try_for_each(|h| h.join().unwrap_or_else(|_| Err("a concurrent query panicked".into())))
        })
    }
    fn change(&mut self, src: &mut Src) -> Res {
        self.audit()?;
        self.slots.clear();
        let (d, n) = (self.data().d, self.data().n);
        let new = gen_data_n::<T>(src, d, n, Range::Normal, true);
        // SAFETY: no tree refers to the points any more
        let old = unsafe { &mut *self.points };
        old.v.copy_from_slice(&new.v);
        (old.layout, old.order) = (new.layout, new.order);
        self.before = new.v.iter().map(|x| x.bits()).collect();
        Ok(())
    }
    fn settle(&self) -> Result<usize, String> {
        let mut errors = 0;
        for s in self.slots.iter().filter(|s| s.tree.is_some()) {
            for (op, got, seen) in s.past.lock().unwrap().iter_mut().filter(|p| !p.2) {
                let want = op.run(&self.fresh(s)?, self.data().n)?;
                self.agree(s, op, got, &want, "on a fresh tree")?;
                errors += matches!(got, Ans::Err(_)) as usize;
                *seen = true;
            }
        }
        Ok(errors)
    }
    fn audit(&self) -> Res {
        for s in &self.slots {
            if let Some(t) = &s.tree {
                for (op, was, _) in s.past.lock().unwrap().iter() {
                    let again = op.run(t, self.data().n)?;
                    self.agree(s, op, &again, was, "the first time")?;
                }
                let (p, l) = t.shape().data;
                if p != self.data().v.as_ptr() as usize || l != self.data().n * self.data().d {
                    return Err("the tree's data is not the caller's".into());
                }
            }
        }
        if self.data().v.iter().map(|x| x.bits()).ne(self.before.iter().copied()) {
            return Err("the caller's data was modified".into());
        }
        Ok(())
    }
}

fn new_world(src: &mut Src) -> Box<dyn World> {
    if src.weighted(&[3, 2]) == 0 { Box::new(Hist::<f64>::new(src)) } else { Box::new(Hist::<f32>::new(src)) }
}
fn history(src: &mut Src, info: &mut Info) -> Res {
    let mut worlds: Vec<Box<dyn World>> = vec![];
    let steps = 3 + src.below(14);
    let mut c = Count::default();
    let (mut sets, mut gone) = (0, false);
    for step in 0..steps {
        let what = if worlds.is_empty() { 1 } else { src.weighted(&[12, 2, 1, 2, 2, 2]) };
        match what {
            0 => {
                let w = src.below(worlds.len() as u64) as usize;
                info.desc += &format!("; set {w}");
                worlds[w].step(src, &mut info.desc, &mut c)?;
            }
            // another set of points, with a tree
            1 => {
                let mut w = new_world(src);
                info.desc += &format!("; set {}: {}", worlds.len(), w.name());
                w.step(src, &mut info.desc, &mut c)?;
                worlds.push(w);
                sets += 1;
            }
            // a set and its trees are dropped; another is likely to take its place in memory
            2 => {
                let w = src.below(worlds.len() as u64) as usize;
                worlds[w].audit()?;
                worlds.remove(w);
                info.desc += &format!("; set {w} dropped");
                gone = true;
            }
            // other points in the same place
            3 => {
                let w = src.below(worlds.len() as u64) as usize;
                worlds[w].change(src)?;
                info.desc += &format!("; set {w} changed: {}", worlds[w].name());
                worlds[w].step(src, &mut info.desc, &mut c)?;
                c.changed = true;
            }
            // the same queries by several threads, over and over
            4 => {
                let w = src.below(worlds.len() as u64) as usize;
                info.desc += &format!("; set {w}:");
                worlds[w].hammer(src, &mut info.desc)?;
                c.queries += 1;
                c.hammered = true;
            }
            // several threads at once
            _ => {
                info.desc += "; at once:";
                let jobs: Vec<Job> = (0..2 + src.below(7))
                    .filter_map(|_| {
                        let w = src.below(worlds.len() as u64) as usize;
                        info.desc += &format!(" set {w}");
                        worlds[w].job(src, &mut info.desc)
                    })
                    .collect();
                // started together, so that they do overlap
                let gate = std::sync::Barrier::new(jobs.len());
                let gate = &gate;
                let got: Vec<Res> = std::thread::scope(|s| {
                    let h: Vec<_> = jobs.into_iter().map(|j| s.spawn(move || { gate.wait(); j() })).collect();
                    h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a concurrent query panicked".into()))).collect()
                });
                for g in got {
                    g?;
                }
                for w in &worlds {
                    w.settle()?;
                }
                c.queries += 1;
                c.together = true;
            }
        }
        // once in a while, and at the end: everything asked before gives the same again
        if step + 1 == steps || src.below(5) == 4 {
            for w in &worlds {
                w.audit()?;
            }
        }
    }
    info.label(c.errors > 0, "refused-query-in-history");
    info.label(c.boxes > 0, "box-in-history");
    info.label(c.trees > sets, "several-trees-on-a-set");
    info.label(sets > 1, "several-sets");
    info.label(gone, "set-dropped");
    info.label(c.dropped, "tree-dropped");
    info.label(c.moved, "tree-moved");
    info.label(c.together, "concurrent-queries");
    info.label(c.changed, "points-changed-in-place");
    info.label(c.hammered, "same-queries-by-many-threads");
    info.label(c.queries > 4, ">4 queries");
    info.nontrivial = c.queries >= 2;
    Ok(())
}
pub fn c13(src: &mut Src, info: &mut Info) -> Res {
    history(src, info)
}

// ---- C19

/// Any sequence of calls, run under two different fillings of fresh and freed memory
fn memory<T: Build>(src: &mut Src, info: &mut Info, mid: bool) -> Res {
    let d = dim::<T>(src, 12);
    let n = match src.weighted(&[2, 3, 2]) { 0 => src.range(1, 6), 1 => src.range(2, 40), _ => src.range(30, 250) };
    let n = if mid { if src.weighted(&[5, 1]) == 1 { src.range(100_000, 120_000) } else { src.range(250, 5000) } } else { n };
    let boxed = src.below(2) == 1 && (d <= 6 || n < 30 && d <= 8);
    let range = if boxed { Range::Normal } else { [Range::Normal, Range::Wide, Range::Extreme][src.weighted(&[4, 1, 1])] };
    let data = gen_data_n::<T>(src, d, n, range, boxed);
    let leafsize = gen_leafsize(src, n);
    let leafsize = if n > 5000 { leafsize.clamp(4, 1 << 20) } else { leafsize };
    let par = gen_par(src, n);
    let bx = boxed.then(|| gen_box(src, &data));
    let pool = gen_pool(src);
    let ops: Vec<Op<T>> = (0..1 + src.below(8))
        .map(|_| {
            let w = src.below(6) == 0;
            let o = Op::gen(src, &data, bx.as_deref(), 1, w);
            // keep the number of images times k manageable
            match o {
                Op::K(q, k) if mid => Op::K(q, k.min(2000)),
                o => o,
            }
        })
        .collect();
    classify(info, &data, leafsize, par, bx.as_deref());
    info.desc = format!("{} {ops:?}", show(&data, leafsize, par, bx.as_deref()));
    crate::alloc::DAMAGED.store(0, Relaxed);
    let pass = |fresh: u8, freed: u8| -> Result<(Vec<Ans>, Vec<String>), String> {
        crate::alloc::FRESH.store(fresh, Relaxed);
        crate::alloc::FREED.store(freed, Relaxed);
        let t = build_in(pool, &data, leafsize, par)?;
        let mut desc = vec![];
        let sh = t.shape();
        let c = super::build::check_shape(&data, leafsize, &sh)?;
        desc.push(format!("{} {}", sh.size, c.depth));
        let t = match &bx {
            Some(b) => t.set_box(b).map_err(|e| err("setting a box that contains the data", e))?,
            None => t,
        };
        let a = ops.iter().map(|o| o.run(&t, n)).collect::<Result<Vec<_>, _>>()?;
        drop(t);
        match crate::alloc::DAMAGED.swap(0, Relaxed) {
            0 => Ok((a, desc)),
            s => Err(format!("memory was written before or behind a block of {} bytes", s - 1)),
        }
    };
    let a = pass(0xA5, 0xD7)?;
    // as a double 0x2C.. is tiny and positive, as an index it is enormous; 0x00 would be plausible
    let b = pass(0x2C, 0x00)?;
    crate::alloc::FRESH.store(0xA5, Relaxed);
    crate::alloc::FREED.store(0xD7, Relaxed);
    let o = Orc::new(&data, bx.as_deref());
    for (i, op) in ops.iter().enumerate() {
        let total = |x: &[u64]| -> Vec<f64> {
            let x: Vec<f64> = x.iter().map(|&b| dd(T::from_b(b))).collect();
            match op {
                Op::Axis(..) => (0..x.len() / 2).map(|j| x[j].hypot(x[x.len() / 2 + j])).collect(),
                _ => x,
            }
        };
        // trees built in parallel may differ, so distances need only agree up to rounding
        let same = match (&a.0[i], &b.0[i]) {
            (Ans::Ok(x, _), Ans::Ok(y, _)) => {
                x == y || x.len() == y.len() && total(x).iter().zip(total(y)).all(|(x, y)| *x == y || (x - y).abs() <= 2.0 * o.tol(*x))
            }
            (x, y) => x == y,
        };
        if !same {
            return Err(format!("{op:?} depends on what fresh memory holds: {:?} or {:?}", a.0[i], b.0[i]));
        }
    }
    info.label(ops.iter().any(|o| matches!(o, Op::Batch(Batch::With, ..))), "batch-with-buffers");
    info.label(ops.iter().any(|o| matches!(o, Op::Batch(Batch::Par, ..))), "batch");
    info.label(ops.iter().any(|o| matches!(o, Op::Axis(..))), "axis");
    info.nontrivial = n > leafsize && ops.len() > 1;
    Ok(())
}
inst!(c19_small, false, memory, false);
inst!(c19_mid, false, memory, true);
