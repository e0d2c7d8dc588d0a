//! Matrices of every layout over every kind of storage, with the model of where their elements are.

use super::util::*;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::Prng;
use simrt::{arena, lib, report, Stop};

pub const ARRN: usize = 64;

/// One of the library's containers, or a simulated one, chosen at run time.
pub enum AnyC<T: Sc> {
    V(VectorContainer<T>),
    A(Box<ArrayContainer<T, ARRN>>),
    S(SliceContainerMut<'static, T>),
    R(SliceContainer<'static, T>),
    M(SimStore<T>),
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            AnyC::V($x) => $e,
            AnyC::A(b) => {
                let $x = &**b;
                $e
            }
            AnyC::S($x) => $e,
            AnyC::R($x) => $e,
            AnyC::M($x) => $e,
        }
    };
}
macro_rules! each_mut {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            AnyC::V($x) => $e,
            AnyC::A(b) => {
                let $x = &mut **b;
                $e
            }
            AnyC::S($x) => $e,
            AnyC::R(_) => report::harness_error("write to a read-only container"),
            AnyC::M($x) => $e,
        }
    };
}

impl<T: Sc> DataContainer for AnyC<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, i: usize) -> T {
        each!(self, x => x.get_unchecked(i))
    }
    fn get_pointer(&self) -> *const T {
        each!(self, x => x.get_pointer())
    }
    fn get_slice(&self, a: usize, b: usize) -> &[T] {
        each!(self, x => x.get_slice(a, b))
    }
    fn number_of_elements(&self) -> usize {
        each!(self, x => x.number_of_elements())
    }
}

impl<T: Sc> DataContainerMut for AnyC<T> {
    unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        each_mut!(self, x => x.get_unchecked_mut(i))
    }
    fn get_pointer_mut(&mut self) -> *mut T {
        each_mut!(self, x => x.get_pointer_mut())
    }
    fn get_slice_mut(&mut self, a: usize, b: usize) -> &mut [T] {
        each_mut!(self, x => x.get_slice_mut(a, b))
    }
}

pub type G<T, L> = GenericBaseMatrix<T, L, AnyC<T>, Dynamic, Dynamic>;
pub type GC<T, L> = GenericBaseMatrix<T, L, AnyC<T>, Dynamic, Fixed1>;
pub type GR<T, L> = GenericBaseMatrix<T, L, AnyC<T>, Fixed1, Dynamic>;

/// A container of the given kind with room for `n` elements and more, its cells filled by `init`.
pub fn any_c<T: Sc>(con: usize, n: usize, id: u32, init: &dyn Fn(usize) -> T) -> (AnyC<T>, Cells<T>) {
    let extra = 3;
    let fill = |p: *const T, n: usize| {
        let c = Cells::at(p, n);
        for i in 0..n {
            c.set(i, init(i));
        }
        c
    };
    match con % 6 {
        0 => {
            let v = need(lib(|| VectorContainer::<T>::new(n)), "VectorContainer::new");
            let c = fill(v.get_pointer(), n);
            (AnyC::V(v), c)
        }
        1 => {
            let v = need(lib(|| VectorContainer::<T>::new(n + extra)), "VectorContainer::new");
            let c = fill(v.get_pointer(), n + extra);
            (AnyC::V(v), c)
        }
        2 if n <= ARRN => {
            let a = need(lib(|| Box::new(ArrayContainer::<T, ARRN>::new())), "ArrayContainer::new");
            let c = fill(a.get_pointer(), ARRN);
            (AnyC::A(a), c)
        }
        3 => {
            let c = Cells::filled(n + extra, init);
            (AnyC::R(SliceContainer::new(c.slice())), c)
        }
        4 => {
            let c = Cells::filled(n + extra, init);
            (AnyC::M(SimStore::new(c, id)), c)
        }
        _ => {
            let c = Cells::filled(n + extra, init);
            (AnyC::S(SliceContainerMut::new(c.slice_mut())), c)
        }
    }
}

/// Read-only containers have number 3.
pub fn writable(con: usize) -> usize {
    if con % 6 == 3 {
        5
    } else {
        con % 6
    }
}

pub fn any_stride(sx: usize, r: usize, c: usize, row: bool) -> (usize, usize) {
    // (row stride, column stride) of a row-major or column-major strided matrix, injective.
    let (r, c) = (r.max(1), c.max(1));
    let (inner, outer) = if row { (c, r) } else { (r, c) };
    let (si, so) = match sx % 8 {
        0 => (1, inner),
        1 => (1, inner + 1),
        2 => (1, inner + 3),
        3 => (2, 2 * inner),
        4 => (3, 3 * inner + 1),
        5 => (outer, 1),
        6 => (outer + 2, 1),
        _ => (2 * outer + 1, 2),
    };
    if row {
        (so, si)
    } else {
        (si, so)
    }
}

pub const NLAY: usize = 25;
pub const LAYNAME: [&str; NLAY] = [
    "RowMajor", "ColumnMajor", "ArbitraryStrideRowMajor", "ArbitraryStrideColumnMajor", "ColumnVector", "RowVector",
    "ArbitraryStrideColumnVector", "ArbitraryStrideRowVector", "UpperTriangular", "RowMajor 2x3", "ColumnMajor 3x2", "RowMajor 2x2",
    "ColumnMajor 3x3", "RowMajor 1x2", "ColumnMajor 1x3", "RowMajor 3x2", "ColumnMajor 2x3", "RowMajor 3x3", "ColumnMajor 2x2", "RowMajor 1x3",
    "ColumnMajor 1x2", "ColumnVector 2", "ColumnVector 3", "RowVector 2", "RowVector 3",
];

/// A layout; those of fixed size are rarer.
pub fn pick_lay(x: i64) -> usize {
    let x = x.unsigned_abs() as usize;
    if x % 11 < 9 {
        x % 11
    } else {
        9 + (x / 11) % (NLAY - 9)
    }
}

/// Rows, columns and order of the layouts of fixed size.
fn fixed_dim(lay: usize) -> (usize, usize, Ord1) {
    use Ord1::*;
    match lay {
        9 => (2, 3, Row),
        10 => (3, 2, Col),
        11 => (2, 2, Row),
        12 => (3, 3, Col),
        13 => (1, 2, Row),
        14 => (1, 3, Col),
        15 => (3, 2, Row),
        16 => (2, 3, Col),
        17 => (3, 3, Row),
        18 => (2, 2, Col),
        19 => (1, 3, Row),
        20 => (1, 2, Col),
        21 => (2, 1, Col),
        22 => (3, 1, Col),
        23 => (1, 2, Row),
        _ => (1, 3, Row),
    }
}

type FM<T, L, R, C, const N: usize> = Matrix<T, base_matrix::BaseMatrix<T, ArrayContainer<T, N>, L, R, C>, L, R, C>;

/// A matrix of fixed size over the given storage, or with storage of its own.
pub fn fixed<T: Sc>(lay: usize, d: Option<AnyC<T>>) -> Result<Box<dyn WMat<T>>, Stop> {
    macro_rules! m {
        ($l:ident, $r:ident, $c:ident, $rn:literal, $cn:literal) => {
            match d {
                // Boxed, so that it stays where it is.
                None => {
                    let m = lib(FM::<T, $l, $r, $c, { $rn * $cn }>::zeros_from_dim)?;
                    Ok(Box::new(m))
                }
                Some(d) => Ok(Box::new(lib(|| GenericBaseMatrix::<T, $l, AnyC<T>, $r, $c>::from_data(d, $l::new(($rn, $cn))))?)),
            }
        };
        (@v $l:ident, $r:ident, $c:ident, $n:literal) => {
            match d {
                None => {
                    let m = lib(FM::<T, $l, $r, $c, $n>::zeros_from_length)?;
                    Ok(Box::new(m))
                }
                Some(d) => Ok(Box::new(lib(|| GenericBaseMatrix::<T, $l, AnyC<T>, $r, $c>::from_data(d, $l::new($n)))?)),
            }
        };
    }
    match lay {
        9 => m!(RowMajor, Fixed2, Fixed3, 2, 3),
        10 => m!(ColumnMajor, Fixed3, Fixed2, 3, 2),
        11 => m!(RowMajor, Fixed2, Fixed2, 2, 2),
        12 => m!(ColumnMajor, Fixed3, Fixed3, 3, 3),
        13 => m!(RowMajor, Fixed1, Fixed2, 1, 2),
        14 => m!(ColumnMajor, Fixed1, Fixed3, 1, 3),
        15 => m!(RowMajor, Fixed3, Fixed2, 3, 2),
        16 => m!(ColumnMajor, Fixed2, Fixed3, 2, 3),
        17 => m!(RowMajor, Fixed3, Fixed3, 3, 3),
        18 => m!(ColumnMajor, Fixed2, Fixed2, 2, 2),
        19 => m!(RowMajor, Fixed1, Fixed3, 1, 3),
        20 => m!(ColumnMajor, Fixed1, Fixed2, 1, 2),
        21 => m!(@v ColumnVector, Fixed2, Fixed1, 2),
        22 => m!(@v ColumnVector, Fixed3, Fixed1, 3),
        23 => m!(@v RowVector, Fixed1, Fixed2, 2),
        _ => m!(@v RowVector, Fixed1, Fixed3, 3),
    }
}

/// Where the elements of a matrix of the given layout must be.
pub fn lay_view(lay: usize, r: usize, c: usize, sx: usize) -> View {
    match lay % NLAY {
        0 => View::rm(r, c),
        1 => View::cm(r, c),
        2 => View::new(0, any_stride(sx, r, c, true), (r, c), Ord1::Row),
        3 => View::new(0, any_stride(sx, r, c, false), (r, c), Ord1::Col),
        4 => View::new(0, (1, 1), (r, 1), Ord1::Col),
        5 => View::new(0, (1, 1), (1, c), Ord1::Row),
        6 => View::new(0, (1 + sx % 4, 1), (r, 1), Ord1::Col),
        7 => View::new(0, (1, 1 + sx % 4), (1, c), Ord1::Row),
        8 => View::tri(r),
        l => match fixed_dim(l) {
            (r, c, Ord1::Row) => View::rm(r, c),
            (r, c, _) => View::cm(r, c),
        },
    }
}

pub enum Body<T: Sc> {
    K(Box<dyn KMatM<T>>),
    T(Box<dyn TMat<T>>),
    W(Box<dyn WMat<T>>),
}

/// Can be evaluated and written but offers no blocks.
pub trait TMat<T: Sc>: EMat<T> + WMat<T> {}
impl<T: Sc, X: EMat<T> + WMat<T>> TMat<T> for X {}

pub struct Obj<T: Sc> {
    pub body: Body<T>,
    pub cells: Cells<T>,
    pub v: View,
    pub lay: usize,
    pub con: usize,
    pub id: u32,
}

impl<T: Sc> Obj<T> {
    pub fn w(&mut self) -> &mut dyn WMat<T> {
        match &mut self.body {
            Body::K(m) => &mut **m,
            Body::T(m) => &mut **m,
            Body::W(m) => &mut **m,
        }
    }
    pub fn b(&self) -> &dyn BMat<T> {
        match &self.body {
            Body::K(m) => &**m,
            Body::T(m) => &**m,
            Body::W(m) => &**m,
        }
    }
    pub fn r(&self) -> &dyn RMat<T> {
        match &self.body {
            Body::K(m) => &**m,
            Body::T(m) => &**m,
            Body::W(m) => &**m,
        }
    }
    pub fn e(&self) -> Option<&dyn EMat<T>> {
        match &self.body {
            Body::K(m) => Some(&**m),
            Body::T(m) => Some(&**m),
            Body::W(_) => None,
        }
    }
    pub fn k(&self) -> Option<&dyn KMat<T>> {
        match &self.body {
            Body::K(m) => Some(&**m),
            _ => None,
        }
    }
    pub fn km(&mut self) -> Option<&mut dyn KMatM<T>> {
        match &mut self.body {
            Body::K(m) => Some(&mut **m),
            _ => None,
        }
    }
    pub fn name(&self) -> &'static str {
        LAYNAME[self.lay]
    }
    /// Cells of the storage that are no element.
    pub fn gaps(&self) -> Vec<usize> {
        let mut e = vec![false; self.cells.n];
        self.v.cells().into_iter().for_each(|c| e[c] = true);
        (0..self.cells.n).filter(|i| !e[*i]).collect()
    }
    pub fn mark_elems(&self, s: u8) {
        for c in self.v.cells() {
            self.cells.mark(c, s);
        }
    }
    pub fn mark_gaps(&self, s: u8) {
        for c in self.gaps() {
            self.cells.mark(c, s);
        }
    }
}

/// A matrix of layout `lay` over storage `con` (6, 7: the library's own constructors where the layout
/// has them); cell i of the storage holds `init(i)`.
pub fn make<T: Sc>(lay: usize, con: usize, r: usize, c: usize, sx: usize, id: u32, init: &dyn Fn(usize) -> T) -> Obj<T> {
    let lay = lay % NLAY;
    let con = con % 8;
    let v = lay_view(lay, r, c, sx);
    let n = v.span();
    let w = "matrix construction";
    if con == 6 {
        // over a raw pointer
        let cells = Cells::filled(n.max(1), init);
        let p = cells.ptr;
        let body = match lay {
            0 => Some(Body::K(Box::new(need(lib(|| unsafe { SliceMatrixMut::<'static, T, RowMajor, Dynamic, Dynamic>::from_pointer(p, (r, c)) }), w)))),
            1 => Some(Body::K(Box::new(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ColumnMajor, Dynamic, Dynamic>::from_pointer(p, (r, c)) }), w)))),
            2 => Some(Body::K(Box::new(need(
                lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(p, (r, c), (v.rs, v.cs)) }),
                w,
            )))),
            3 => Some(Body::K(Box::new(need(
                lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(p, (r, c), (v.rs, v.cs)) }),
                w,
            )))),
            _ => None,
        };
        if let Some(body) = body {
            return Obj { body, cells, v, lay, con, id };
        }
    }
    if con == 7 {
        let body = match lay {
            0 => Some(Body::K(Box::new(need(lib(|| MatrixD::<T, RowMajor>::zeros_from_dim(r, c)), w)))),
            1 => Some(Body::K(Box::new(need(lib(|| MatrixD::<T, ColumnMajor>::zeros_from_dim(r, c)), w)))),
            4 => Some(Body::W(Box::new(need(lib(|| ColumnVectorD::<T>::zeros_from_length(r)), w)))),
            5 => Some(Body::W(Box::new(need(lib(|| RowVectorD::<T>::zeros_from_dim(1, c)), w)))),
            8 => Some(Body::T(Box::new(need(lib(|| UpperTriangularMatrix::<T>::zeros_from_dim(r, r)), w)))),
            _ => None,
        };
        if let Some(body) = body {
            let mut o = Obj { body, cells: Cells::at(std::ptr::null(), 0), v, lay, con, id };
            o.cells = Cells::at(o.b().ptr(), n);
            for i in 0..n {
                o.cells.set(i, init(i));
            }
            return o;
        }
        if lay >= 9 {
            return inline(Body::W(need(fixed(lay, None), w)), v, lay, con, id, init);
        }
    }
    let con = if con >= 6 { writable(sx) } else { con };
    let (d, cells) = any_c::<T>(con, n, id, init);
    let body = over(d, lay, &v, r, c);
    Obj { body, cells, v, lay, con, id }
}

/// A matrix of layout `lay` over the given container.
pub fn over<T: Sc>(d: AnyC<T>, lay: usize, v: &View, r: usize, c: usize) -> Body<T> {
    let w = "matrix construction";
    let d2 = (r, c);
    match lay {
        0 => Body::K(Box::new(need(lib(|| G::<T, _>::from_data(d, RowMajor::new(d2))), w))),
        1 => Body::K(Box::new(need(lib(|| G::<T, _>::from_data(d, ColumnMajor::new(d2))), w))),
        2 => Body::K(Box::new(need(lib(|| G::<T, _>::from_data(d, ArbitraryStrideRowMajor::new(d2, (v.rs, v.cs)))), w))),
        3 => Body::K(Box::new(need(lib(|| G::<T, _>::from_data(d, ArbitraryStrideColumnMajor::new(d2, (v.rs, v.cs)))), w))),
        4 => Body::W(Box::new(need(lib(|| GC::<T, _>::from_data(d, ColumnVector::new(r))), w))),
        5 => Body::W(Box::new(need(lib(|| GR::<T, _>::from_data(d, RowVector::new(c))), w))),
        6 => Body::W(Box::new(need(lib(|| GC::<T, _>::from_data(d, ArbitraryStrideColumnVector::new(r, v.rs))), w))),
        7 => Body::W(Box::new(need(lib(|| GR::<T, _>::from_data(d, ArbitraryStrideRowVector::new(c, v.cs))), w))),
        8 => Body::T(Box::new(need(lib(|| G::<T, _>::from_data(d, UpperTriangular::new(r))), w))),
        _ => Body::W(need(fixed(lay, Some(d)), w)),
    }
}

/// A new matrix as the library makes it; nothing has been written to it.  `how`: 0 and 1 one of the
/// constructors, 2 a macro, 3 and 4 over a new heap container, 5 over a new array container.
pub fn fresh<T: Sc>(lay: usize, how: usize, r: usize, c: usize, sx: usize) -> Result<Obj<T>, Stop> {
    let lay = lay % NLAY;
    let v = lay_view(lay, r, c, sx);
    let n = v.span();
    let body = match (how % 6, lay) {
        (0 | 1, 0) => Some(Body::K(Box::new(lib(|| MatrixD::<T, RowMajor>::zeros_from_dim(r, c))?))),
        (0 | 1, 1) => Some(Body::K(Box::new(lib(|| MatrixD::<T, ColumnMajor>::zeros_from_dim(r, c))?))),
        (0, 4) => Some(Body::W(Box::new(lib(|| ColumnVectorD::<T>::zeros_from_length(r))?))),
        (1, 4) => Some(Body::W(Box::new(lib(|| ColumnVectorD::<T>::zeros_from_dim(r, 1))?))),
        (0, 5) => Some(Body::W(Box::new(lib(|| RowVectorD::<T>::zeros_from_length(c))?))),
        (1, 5) => Some(Body::W(Box::new(lib(|| RowVectorD::<T>::zeros_from_dim(1, c))?))),
        (0..=2, 8) => Some(Body::T(Box::new(lib(|| UpperTriangularMatrix::<T>::zeros_from_dim(r, r))?))),
        (2, 0) => Some(Body::K(Box::new(lib(|| T::mat_rm(r, c))?))),
        (2, 1) => Some(Body::K(Box::new(lib(|| T::mat_cm(r, c))?))),
        (2, 4) => Some(Body::W(Box::new(lib(|| T::vec_c(r))?))),
        (2, 5) => Some(Body::W(Box::new(lib(|| T::vec_r(c))?))),
        (0..=2, 9..) => Some(Body::W(fixed(lay, None)?)),
        _ => None,
    };
    if let Some(body) = body {
        let mut o = Obj { body, cells: Cells::at(std::ptr::null(), 0), v, lay, con: 7, id: 0 };
        o.cells = Cells::at(o.b().ptr(), n);
        return Ok(o);
    }
    let d = if how % 6 == 5 && n <= ARRN {
        // Boxed first: what is behind the pointer stays where it is.
        let a = lib(|| if sx % 2 == 0 { ArrayContainer::<T, ARRN>::new() } else { ArrayContainer::<T, ARRN>::default() })?;
        AnyC::A(Box::new(a))
    } else {
        AnyC::V(lib(|| VectorContainer::<T>::new(n + sx % 3))?)
    };
    let cells = Cells::at(d.get_pointer(), d.number_of_elements());
    Ok(Obj { body: over(d, lay, &v, r, c), cells, v, lay, con: 0, id: 0 })
}

fn inline<T: Sc>(body: Body<T>, v: View, lay: usize, con: usize, id: u32, init: &dyn Fn(usize) -> T) -> Obj<T> {
    let mut o = Obj { body, cells: Cells::at(std::ptr::null(), 0), v, lay, con, id };
    o.cells = Cells::at(o.b().ptr(), v.span());
    for i in 0..o.cells.n {
        o.cells.set(i, init(i));
    }
    o
}

/// Parameters of object `i` of a plan.
pub fn gen_obj(r: &mut Prng, p: &mut Plan, i: usize, zero: bool) {
    p.set(&format!("lay{}", i), pick_lay(r.below(11 * 16) as i64) as i64);
    p.set(&format!("con{}", i), r.below(8) as i64);
    let d = gdim(r, zero);
    p.set(&format!("r{}", i), d);
    let d = gdim(r, zero);
    p.set(&format!("c{}", i), d);
    p.set(&format!("sx{}", i), r.below(64) as i64);
}

pub fn obj_of<T: Sc>(p: &Plan, i: usize, ro: bool, init: &dyn Fn(usize) -> T) -> Obj<T> {
    let con = p.u(&format!("con{}", i));
    let con = if !ro && con % 8 < 6 { writable(con) } else { con };
    make(p.u(&format!("lay{}", i)), con, p.u(&format!("r{}", i)), p.u(&format!("c{}", i)), p.u(&format!("sx{}", i)), i as u32, init)
}

pub const FRAME: u8 = arena::S_FRAME;
