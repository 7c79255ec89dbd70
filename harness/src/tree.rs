//! `Tree<T, D>` behind an object-safe interface over flat slices, so that generators and oracles
//! are written once for all dimensions and build configurations.
use crate::scalar::{Cf, Sc};
use fnntw::utils::FnntwError;
use fnntw::{Node, NotNan, Tree};

pub const PAR: bool = cfg!(feature = "par");
pub const POS: bool = !cfg!(feature = "nopos");
pub const IDX_AXIS: bool = !cfg!(feature = "noidx");
pub const SQRT: bool = cfg!(feature = "sqrt");
pub const BATCH: bool = cfg!(all(feature = "par", feature = "nopos"));

#[derive(Clone, Debug, PartialEq)]
pub enum Er<T> {
    Invalid(Vec<T>),
    Empty,
    Small,
    BadBox,
    Axis,
    Neg,
}
impl<T: Sc> From<FnntwError<T>> for Er<T> {
    fn from(e: FnntwError<T>) -> Self {
        let _ = format!("{e}"); // the message can always be produced
        match e {
            FnntwError::InvalidInputData { data_point } => Er::Invalid(data_point.to_vec()),
            FnntwError::ZeroLengthInputData => Er::Empty,
            FnntwError::SmallBoxsize => Er::Small,
            FnntwError::InvalidBoxsize => Er::BadBox,
            FnntwError::InvalidAxis => Er::Axis,
            FnntwError::NegativeDataPeriodicQuery => Er::Neg,
        }
    }
}

/// Rows of neighbours; pos (if configured) holds d coordinates per neighbour
#[derive(Clone, Debug)]
pub struct Nn<T> {
    pub d: Vec<T>,
    pub i: Vec<u64>,
    pub pos: Option<Vec<T>>,
}
#[derive(Clone, Debug)]
pub struct Ax<T> {
    pub ax: Vec<T>,
    pub non: Vec<T>,
    pub i: Option<Vec<u64>>,
}

pub enum Dump<T> {
    Stem { dim: usize, point: usize, left: usize, right: usize, lo: Vec<T>, hi: Vec<T> },
    Leaf { points: Vec<usize>, lo: Vec<T>, hi: Vec<T> },
}
pub struct Shape<T> {
    pub nodes: Vec<Dump<T>>,
    pub size: usize,
    pub leafsize: usize,
    /// address and number of coordinates of what get_data returns
    pub data: (usize, usize),
}

pub type Rs<R, T> = Result<R, Er<T>>;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Batch {
    Par,
    With,
}

pub trait AnyTree<'t, T: Sc>: Send + Sync {
    fn q1(&self, q: &[T]) -> Rs<Nn<T>, T>;
    fn qk(&self, q: &[T], k: usize) -> Rs<Nn<T>, T>;
    fn batch(&self, b: Batch, qs: &[T], k: usize) -> Rs<Nn<T>, T>;
    fn axis(&self, qs: &[T], k: usize, axis: usize) -> Rs<Ax<T>, T>;
    fn set_box(self: Box<Self>, b: &[T]) -> Rs<Box<dyn AnyTree<'t, T> + 't>, T>;
    fn shape(&self) -> Shape<T>;
    fn dim(&self) -> usize;
}
pub type Bx<'t, T> = Box<dyn AnyTree<'t, T> + 't>;

pub fn chunk<T, const D: usize>(x: &[T]) -> &[[T; D]] {
    assert_eq!(x.len() % D, 0);
    unsafe { std::slice::from_raw_parts(x.as_ptr() as *const [T; D], x.len() / D) }
}
fn un<T: Sc, const D: usize>(x: &[NotNan<T>; D]) -> Vec<T> {
    x.iter().map(|v| v.into_inner()).collect()
}

impl<'t, T: Sc, const D: usize> AnyTree<'t, T> for Tree<'t, T, D> {
    fn dim(&self) -> usize {
        D
    }
    fn q1(&self, q: &[T]) -> Rs<Nn<T>, T> {
        let r = self.query_nearest(&chunk::<T, D>(q)[0])?;
        #[cfg(feature = "nopos")]
        let pos = None;
        #[cfg(not(feature = "nopos"))]
        let pos = Some(un(r.2));
        Ok(Nn { d: vec![r.0], i: vec![r.1], pos })
    }
    fn qk(&self, q: &[T], k: usize) -> Rs<Nn<T>, T> {
        let r = self.query_nearest_k(&chunk::<T, D>(q)[0], k)?;
        #[cfg(feature = "nopos")]
        let pos = None;
        #[cfg(not(feature = "nopos"))]
        let pos = Some(r.2.iter().flat_map(un).collect());
        Ok(Nn { d: r.0, i: r.1, pos })
    }
    #[cfg(all(feature = "par", feature = "nopos"))]
    fn batch(&self, b: Batch, qs: &[T], k: usize) -> Rs<Nn<T>, T> {
        let r = match b {
            Batch::Par => self.query_nearest_k_parallel(chunk::<T, D>(qs), k)?,
            Batch::With => {
                let kk = k.min(self.get_data().len());
                crate::alloc::SKIP.store(
                    kk * std::mem::size_of::<(T, &T)>(),
                    std::sync::atomic::Ordering::Relaxed,
                );
                let r = self.query_nearest_k_parallel_with(chunk::<T, D>(qs), k);
                crate::alloc::SKIP.store(0, std::sync::atomic::Ordering::Relaxed);
                r?
            }
        };
        Ok(Nn { d: r.0, i: r.1, pos: None })
    }
    #[cfg(not(all(feature = "par", feature = "nopos")))]
    fn batch(&self, _: Batch, _: &[T], _: usize) -> Rs<Nn<T>, T> {
        panic!("harness error: no batched queries in this configuration")
    }
    #[cfg(all(feature = "par", feature = "nopos"))]
    fn axis(&self, qs: &[T], k: usize, axis: usize) -> Rs<Ax<T>, T> {
        let r = self.query_nearest_k_parallel_axis(chunk::<T, D>(qs), k, axis)?;
        #[cfg(feature = "noidx")]
        let i = None;
        #[cfg(not(feature = "noidx"))]
        let i = Some(r.2);
        Ok(Ax { ax: r.0, non: r.1, i })
    }
    #[cfg(not(all(feature = "par", feature = "nopos")))]
    fn axis(&self, _: &[T], _: usize, _: usize) -> Rs<Ax<T>, T> {
        panic!("harness error: no batched queries in this configuration")
    }
    fn set_box(self: Box<Self>, b: &[T]) -> Rs<Bx<'t, T>, T> {
        Ok(Box::new(self.with_boxsize(&chunk::<T, D>(b)[0])?))
    }
    fn shape(&self) -> Shape<T> {
        let start = self.get_data().as_ptr() as usize;
        let idx = |p: &fnntw::point::Point<T, D>| -> usize {
            let a = unsafe { p.get_unchecked(0) } as *const _ as usize;
            let off = a.wrapping_sub(start);
            let w = std::mem::size_of::<T>() * D;
            if off % w == 0 { off / w } else { usize::MAX }
        };
        let nodes = self
            .nodes
            .iter()
            .map(|n| match n {
                Node::Stem { split_dim, point, left, right, lower, upper } => Dump::Stem {
                    dim: *split_dim,
                    point: idx(point),
                    left: *left,
                    right: *right,
                    lo: un(lower),
                    hi: un(upper),
                },
                Node::Leaf { points, lower, upper } => Dump::Leaf {
                    points: points.iter().map(idx).collect(),
                    lo: un(lower),
                    hi: un(upper),
                },
            })
            .collect();
        Shape {
            nodes,
            size: self.size(),
            leafsize: self.leafsize,
            data: (start, self.get_data().len() * D),
        }
    }
}

/// `par`: None for the serial constructor, else the parallel split level
pub trait Build: Sc {
    fn build<'t>(d: usize, data: &'t [Self], leafsize: usize, par: Option<usize>) -> Rs<Bx<'t, Self>, Self>;
}
fn mk<'t, T: Sc, const D: usize>(data: &'t [T], leafsize: usize, par: Option<usize>) -> Rs<Bx<'t, T>, T> {
    let data = chunk::<T, D>(data);
    Ok(match par {
        None => Box::new(Tree::new(data, leafsize)?),
        Some(l) => Box::new(Tree::new_parallel(data, leafsize, l)?),
    })
}
macro_rules! build {
    ($t:ty: $($d:literal)*) => {
        impl Build for $t {
            fn build<'t>(d: usize, data: &'t [Self], leafsize: usize, par: Option<usize>) -> Rs<Bx<'t, Self>, Self> {
                match d {
                    $($d => mk::<$t, $d>(data, leafsize, par),)*
                    _ => panic!("harness error: dimension {d}"),
                }
            }
        }
    };
}
#[cfg(all(not(feature = "lite"), not(debug_assertions)))]
build!(f64: 1 2 3 4 5 7 8 20);
#[cfg(all(not(feature = "lite"), not(debug_assertions)))]
build!(f32: 1 2 3 6 12);
#[cfg(all(not(feature = "lite"), debug_assertions))]
build!(f64: 1 2 3 4 6 9 11 16);
#[cfg(all(not(feature = "lite"), debug_assertions))]
build!(f32: 1 2 3 5 10);
#[cfg(not(feature = "lite"))]
build!(Cf: 2 3);
#[cfg(feature = "lite")]
build!(f64: 1 2 3);
#[cfg(feature = "lite")]
build!(f32: 3 4);
#[cfg(feature = "lite")]
build!(Cf: 2 3);
