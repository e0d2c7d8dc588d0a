//! Expressions of every shape, with their model: a list of (coefficient, operand) occurrences.

use super::zoo::*;
use crate::objs::*;
use crate::sc::*;
use householder::*;
use simrt::sched::{me, MAXT};
use simrt::{lib, Stop};

pub const NSHAPE: usize = 17;

/// Occurrences of operands (0, 1, 2) with their integer coefficients; scalars are s and t.
pub fn model(shape: usize, s: i64, t: i64) -> Vec<(i64, usize)> {
    match shape % NSHAPE {
        0 => vec![(1, 0), (1, 1)],
        1 => vec![(s, 0)],
        2 => vec![(s, 0)],
        3 => vec![(s, 0), (s, 1)],
        4 => vec![(s, 0), (1, 1)],
        5 => vec![(1, 0), (1, 1), (1, 2)],
        6 => vec![(1, 0), (s, 1), (s, 2)],
        7 => vec![(1, 0), (1, 0)],
        8 => vec![(s, 0), (t, 1)],
        9 => vec![(1, 0), (s, 1), (1, 0), (s, 1)],
        10 => vec![(s * t, 0)],
        11 => vec![(t * s, 0), (t, 1), (1, 2)],
        // owned operands
        12 => vec![(1, 0), (1, 1)],
        13 => vec![(s, 0)],
        14 => vec![(s, 0), (1, 1), (1, 2)],
        15 => vec![(s, 0), (s, 1)],
        // a plain matrix
        _ => vec![(1, 0)],
    }
}

/// Shapes that take their operands by value.
pub fn owned(shape: usize) -> bool {
    shape % NSHAPE >= 12
}

macro_rules! borrowed_shapes {
    ($shape:expr, $T:ident, $x:expr, $y:expr, $z:expr, $s:expr, $t:expr, $wrap:ident, $keep:ident) => {
        match $shape % NSHAPE {
            0 => $wrap(lib(|| $x + $y)),
            1 => $wrap(lib(|| $T::slr($s, $x))),
            2 => $wrap(lib(|| $T::srr($x, $s))),
            3 => $wrap(lib(|| $T::sr($x + $y, $s))),
            4 => $wrap(lib(|| $T::slr($s, $x) + $y)),
            5 => $wrap(lib(|| $x + $y + $z)),
            6 => $wrap(lib(|| $x + $T::sl($s, $y + $z))),
            7 => $wrap(lib(|| $x + $x)),
            8 => $wrap(lib(|| $T::slr($s, $x) + $T::srr($y, $t))),
            9 => match lib(|| $x + $T::slr($s, $y)) {
                Ok(e) => {
                    let e = $keep(e);
                    $wrap(lib(|| e + e))
                }
                Err(e) => Err(e),
            },
            10 => $wrap(lib(|| $T::sr($T::slr($s, $x), $t))),
            _ => $wrap(lib(|| $T::sl($t, $T::slr($s, $x) + $y) + $z)),
        }
    };
}

macro_rules! owned_shapes {
    ($shape:expr, $T:ident, $x:expr, $y:expr, $z:expr, $s:expr, $wrap:ident) => {
        match $shape % NSHAPE {
            12 => $wrap(lib(|| $x + $y)),
            13 => $wrap(lib(|| $T::sl($s, $x))),
            14 => $wrap(lib(|| $T::sr($x, $s) + ($y + $z))),
            15 => $wrap(lib(|| $T::sl($s, $x + $y))),
            _ => $wrap(Ok($x)),
        }
    };
}

pub type Dropper = Box<dyn FnOnce() -> Result<(), Stop>>;

/// Per task: how to drop what its borrowed expressions refer to, oldest first.
static mut KEPT: [Vec<Dropper>; MAXT + 1] = [const { Vec::new() }; MAXT + 1];

#[allow(static_mut_refs)]
fn keep<X: 'static>(x: X) -> &'static X {
    let p: *mut X = super::util::leak(x);
    unsafe {
        KEPT[me().min(MAXT)].push(Box::new(move || {
            let x = *Box::from_raw(p);
            lib(|| drop(x))
        }));
        &*p
    }
}

/// Builds an expression; also gives the means to drop its borrowed operands once it is gone.
#[allow(static_mut_refs)]
pub fn build_tracked<T: Sc>(fam: usize, shape: usize, d: [AnyC<T>; 3], v: [View; 3], s: T, t: T) -> (Result<Ex<T>, Stop>, Vec<Dropper>) {
    unsafe { KEPT[me().min(MAXT)].clear() };
    let r = build(fam, shape, d, v, s, t);
    (r, unsafe { std::mem::take(&mut KEPT[me().min(MAXT)]) })
}

fn boxe<T: Sc, X: EMat<T> + 'static>(r: Result<X, Stop>) -> Result<Box<dyn EMat<T>>, Stop> {
    r.map(|x| Box::new(x) as Box<dyn EMat<T>>)
}
fn boxr<T: Sc, X: RMat<T> + 'static>(r: Result<X, Stop>) -> Result<Box<dyn RMat<T>>, Stop> {
    r.map(|x| Box::new(x) as Box<dyn RMat<T>>)
}

/// Expression over borrowed dynamic matrices (can be evaluated).
#[allow(clippy::too_many_arguments)]
pub fn dyn_expr<T, B, LX, LY, D>(
    shape: usize,
    x: &'static GenericBaseMatrix<T, LX, D, Dynamic, Dynamic>,
    y: &'static GenericBaseMatrix<T, LY, D, Dynamic, Dynamic>,
    z: &'static GenericBaseMatrix<T, LX, D, Dynamic, Dynamic>,
    s: T,
    t: T,
) -> Result<Box<dyn EMat<T>>, Stop>
where
    T: Sc,
    B: BaseLayoutType + 'static,
    LX: LayoutType<IndexLayout = B> + 'static,
    LY: LayoutType<IndexLayout = B> + 'static,
    B: LayoutType<IndexLayout = B>,
    D: DataContainer<Item = T> + 'static,
{
    borrowed_shapes!(shape, T, x, y, z, s, t, boxe, keep)
}

/// Expression over borrowed matrices of any kind (element access only).
#[allow(clippy::too_many_arguments)]
pub fn any_expr<T, B, LX, LY, D, RS, CS>(
    shape: usize,
    x: &'static GenericBaseMatrix<T, LX, D, RS, CS>,
    y: &'static GenericBaseMatrix<T, LY, D, RS, CS>,
    z: &'static GenericBaseMatrix<T, LX, D, RS, CS>,
    s: T,
    t: T,
) -> Result<Box<dyn RMat<T>>, Stop>
where
    T: Sc,
    B: BaseLayoutType + 'static,
    LX: LayoutType<IndexLayout = B> + 'static,
    LY: LayoutType<IndexLayout = B> + 'static,
    B: LayoutType<IndexLayout = B>,
    D: DataContainer<Item = T> + 'static,
    RS: SizeIdentifier + 'static,
    CS: SizeIdentifier + 'static,
    (RS, CS): Pair<R = RS, C = CS>,
{
    borrowed_shapes!(shape, T, x, y, z, s, t, boxr, keep)
}

/// Expression that owns its operands.
#[allow(clippy::too_many_arguments)]
pub fn own_expr<T, B, LX, LY, D>(
    shape: usize,
    x: GenericBaseMatrix<T, LX, D, Dynamic, Dynamic>,
    y: GenericBaseMatrix<T, LY, D, Dynamic, Dynamic>,
    z: GenericBaseMatrix<T, LX, D, Dynamic, Dynamic>,
    s: T,
) -> Result<Box<dyn EMat<T>>, Stop>
where
    T: Sc,
    B: BaseLayoutType + 'static,
    LX: LayoutType<IndexLayout = B> + 'static,
    LY: LayoutType<IndexLayout = B> + 'static,
    B: LayoutType<IndexLayout = B>,
    D: DataContainer<Item = T> + 'static,
{
    owned_shapes!(shape, T, x, y, z, s, boxe)
}

pub enum Ex<T: Sc> {
    E(Box<dyn EMat<T>>),
    R(Box<dyn RMat<T>>),
}

impl<T: Sc> Ex<T> {
    pub fn r(&self) -> &dyn RMat<T> {
        match self {
            Ex::E(m) => EMat::as_r(&**m),
            Ex::R(m) => &**m,
        }
    }
    pub fn e(&self) -> Option<&dyn EMat<T>> {
        match self {
            Ex::E(m) => Some(&**m),
            Ex::R(_) => None,
        }
    }
}

pub const NFAM: usize = 12;

/// The shape used for a family: vectors and fixed-size matrices are only borrowed.
pub fn shape_of(fam: usize, shape: usize) -> usize {
    if fam % NFAM >= 8 {
        shape % 12
    } else {
        shape % NSHAPE
    }
}

/// Layouts (as numbered in zoo) of operands 0 and 2, and of operand 1, of a family.
pub fn fam_lays(fam: usize) -> (usize, usize) {
    match fam % NFAM {
        0 => (0, 0),
        1 => (0, 2),
        2 => (2, 0),
        3 => (2, 2),
        4 => (1, 1),
        5 => (1, 3),
        6 => (3, 1),
        7 => (8, 8),
        8 => (4, 6),
        9 => (5, 7),
        10 => (9, 9),
        _ => (7, 5),
    }
}

/// An expression over operands with the given containers.
/// `d[i]` and `v[i]` are the container and the view (which gives dimension and strides) of operand i.
pub fn build<T: Sc>(fam: usize, shape: usize, d: [AnyC<T>; 3], v: [View; 3], s: T, t: T) -> Result<Ex<T>, Stop> {
    let [d0, d1, d2] = d;
    macro_rules! go {
        ($a:expr, $b:expr, $c:expr, dynamic) => {{
            let x = lib(|| G::<T, _>::from_data(d0, $a))?;
            let y = lib(|| G::<T, _>::from_data(d1, $b))?;
            let z = lib(|| G::<T, _>::from_data(d2, $c))?;
            if owned(shape) {
                own_expr(shape, x, y, z, s).map(Ex::E)
            } else {
                dyn_expr(shape, keep(x), keep(y), keep(z), s, t).map(Ex::E)
            }
        }};
        ($a:expr, $b:expr, $c:expr, $RS:ty, $CS:ty) => {{
            let x = lib(|| GenericBaseMatrix::<T, _, AnyC<T>, $RS, $CS>::from_data(d0, $a))?;
            let y = lib(|| GenericBaseMatrix::<T, _, AnyC<T>, $RS, $CS>::from_data(d1, $b))?;
            let z = lib(|| GenericBaseMatrix::<T, _, AnyC<T>, $RS, $CS>::from_data(d2, $c))?;
            any_expr(shape, keep(x), keep(y), keep(z), s, t).map(Ex::R)
        }};
    }
    let dim = |i: usize| (v[i].r, v[i].c);
    let st = |i: usize| (v[i].rs, v[i].cs);
    match fam % NFAM {
        0 => go!(RowMajor::new(dim(0)), RowMajor::new(dim(1)), RowMajor::new(dim(2)), dynamic),
        1 => go!(RowMajor::new(dim(0)), ArbitraryStrideRowMajor::new(dim(1), st(1)), RowMajor::new(dim(2)), dynamic),
        2 => go!(ArbitraryStrideRowMajor::new(dim(0), st(0)), RowMajor::new(dim(1)), ArbitraryStrideRowMajor::new(dim(2), st(2)), dynamic),
        3 => go!(ArbitraryStrideRowMajor::new(dim(0), st(0)), ArbitraryStrideRowMajor::new(dim(1), st(1)), ArbitraryStrideRowMajor::new(dim(2), st(2)), dynamic),
        4 => go!(ColumnMajor::new(dim(0)), ColumnMajor::new(dim(1)), ColumnMajor::new(dim(2)), dynamic),
        5 => go!(ColumnMajor::new(dim(0)), ArbitraryStrideColumnMajor::new(dim(1), st(1)), ColumnMajor::new(dim(2)), dynamic),
        6 => go!(ArbitraryStrideColumnMajor::new(dim(0), st(0)), ColumnMajor::new(dim(1)), ArbitraryStrideColumnMajor::new(dim(2), st(2)), dynamic),
        7 => go!(UpperTriangular::new(dim(0).0), UpperTriangular::new(dim(1).0), UpperTriangular::new(dim(2).0), dynamic),
        8 => go!(ColumnVector::new(dim(0).0), ArbitraryStrideColumnVector::new(dim(1).0, st(1).0), ColumnVector::new(dim(2).0), Dynamic, Fixed1),
        9 => go!(RowVector::new(dim(0).1), ArbitraryStrideRowVector::new(dim(1).1, st(1).1), RowVector::new(dim(2).1), Fixed1, Dynamic),
        10 => go!(RowMajor::new((2, 3)), RowMajor::new((2, 3)), RowMajor::new((2, 3)), Fixed2, Fixed3),
        _ => go!(ArbitraryStrideRowVector::new(dim(0).1, st(0).1), RowVector::new(dim(1).1), ArbitraryStrideRowVector::new(dim(2).1, st(2).1), Fixed1, Dynamic),
    }
}

/// Element (i, j) of the expression, given the operands' elements.
pub fn value<T: Sc>(m: &[(i64, usize)], f: impl Fn(usize) -> T) -> T {
    let mut s = [0i64; 2];
    for (c, o) in m {
        let p = super::util::parts(f(*o));
        s[0] += c * p[0] as i64;
        if T::NC == 2 {
            s[1] += c * p[1] as i64;
        }
    }
    T::mk(s[0], s[1])
}
