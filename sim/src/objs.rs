//! Uniform access to matrices of all types.

use crate::sc::*;
use householder::traits::*;
use householder::*;
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use rand::RngCore;
use simrt::pause;

/// Pairs of compile-time sizes; those of vectors have a length.
pub trait Pair {
    type R: SizeIdentifier;
    type C: SizeIdentifier;
    fn len<T: Sc, M: MatrixTrait<T, L, Self::R, Self::C>, L: LayoutType>(_m: &Matrix<T, M, L, Self::R, Self::C>) -> Option<usize> {
        None
    }
}
macro_rules! pair {
    ($r:ident, $c:ident) => {
        impl Pair for ($r, $c) {
            type R = $r;
            type C = $c;
        }
    };
    ($r:ident, $c:ident, vector) => {
        impl Pair for ($r, $c) {
            type R = $r;
            type C = $c;
            fn len<T: Sc, M: MatrixTrait<T, L, $r, $c>, L: LayoutType>(m: &Matrix<T, M, L, $r, $c>) -> Option<usize> {
                Some(m.length())
            }
        }
    };
}
pair!(Dynamic, Dynamic);
pair!(Dynamic, Fixed1, vector);
pair!(Fixed1, Dynamic, vector);
pair!(Fixed1, Fixed2);
pair!(Fixed1, Fixed3);
pair!(Fixed2, Fixed1);
pair!(Fixed3, Fixed1);
pair!(Fixed2, Fixed2);
pair!(Fixed2, Fixed3);
pair!(Fixed3, Fixed2);
pair!(Fixed3, Fixed3);

/// Anything whose elements can be read.
pub trait RMat<T: Sc> {
    fn dim(&self) -> (usize, usize);
    fn nel(&self) -> usize;
    fn get(&self, i: usize, j: usize) -> T;
    fn get1(&self, k: usize) -> T;
    fn get_un(&self, i: usize, j: usize) -> T;
    fn get1_un(&self, k: usize) -> T;
    fn at(&self, k: usize) -> (usize, usize);
    fn idx(&self, i: usize, j: usize) -> usize;
    fn raw(&self, i: usize, j: usize) -> usize;
    fn raw1(&self, k: usize) -> usize;
    /// `length()`, of vectors.
    fn len(&self) -> Option<usize>;
    /// Read element (i,j), number k, through a reference object.
    fn rget(&self, how: usize, i: usize, j: usize, k: usize) -> T;
}

impl<T: Sc, M: MatrixTrait<T, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> RMat<T> for Matrix<T, M, L, RS, CS>
where
    (RS, CS): Pair<R = RS, C = CS>,
{
    fn dim(&self) -> (usize, usize) {
        Matrix::dim(self)
    }
    fn nel(&self) -> usize {
        self.layout().number_of_elements()
    }
    fn get(&self, i: usize, j: usize) -> T {
        RandomAccess::get(self, i, j)
    }
    fn get1(&self, k: usize) -> T {
        RandomAccess::get1d(self, k)
    }
    fn get_un(&self, i: usize, j: usize) -> T {
        unsafe { self.get_unchecked(i, j) }
    }
    fn get1_un(&self, k: usize) -> T {
        unsafe { self.get1d_unchecked(k) }
    }
    fn at(&self, k: usize) -> (usize, usize) {
        self.layout().convert_1d_2d(k)
    }
    fn idx(&self, i: usize, j: usize) -> usize {
        self.layout().convert_2d_1d(i, j)
    }
    fn raw(&self, i: usize, j: usize) -> usize {
        self.layout().convert_2d_raw(i, j)
    }
    fn raw1(&self, k: usize) -> usize {
        self.layout().convert_1d_raw(k)
    }
    fn len(&self) -> Option<usize> {
        <(RS, CS) as Pair>::len(self)
    }
    fn rget(&self, how: usize, i: usize, j: usize, k: usize) -> T {
        let m = Matrix::from_ref(self);
        match how % 6 {
            0 => RandomAccess::get(&m, i, j),
            1 => RandomAccess::get1d(&m, k),
            2 => unsafe { m.get_unchecked(i, j) },
            3 => unsafe { m.get1d_unchecked(k) },
            4 => RandomAccess::get(&Matrix::from_ref(&m), i, j),
            _ => RandomAccess::get1d(&MatrixRef::new(&m), k),
        }
    }
}

/// Matrices over a data container.
pub trait BMat<T: Sc>: RMat<T> {
    fn ptr(&self) -> *const T;
    fn slice(&self, a: usize, b: usize) -> &[T];
    fn as_r(&self) -> &dyn RMat<T>;
}

impl<T: Sc, L: LayoutType, D: DataContainer<Item = T>, RS: SizeIdentifier, CS: SizeIdentifier> BMat<T> for GenericBaseMatrix<T, L, D, RS, CS>
where
    (RS, CS): Pair<R = RS, C = CS>,
{
    fn ptr(&self) -> *const T {
        self.get_pointer()
    }
    fn slice(&self, a: usize, b: usize) -> &[T] {
        self.get_slice(a, b)
    }
    fn as_r(&self) -> &dyn RMat<T> {
        self
    }
}

/// Matrices over a mutable data container.
pub trait WMat<T: Sc>: BMat<T> {
    fn mref(&mut self, i: usize, j: usize) -> &mut T;
    fn mref1(&mut self, k: usize) -> &mut T;
    fn mref_un(&mut self, i: usize, j: usize) -> &mut T;
    fn mref1_un(&mut self, k: usize) -> &mut T;
    fn each(&mut self, f: &mut dyn FnMut(&mut T));
    fn fill(&mut self, r: &mut dyn RngCore);
    fn slice_m(&mut self, a: usize, b: usize) -> &mut [T];
    fn ptr_m(&mut self) -> *mut T;
    fn as_b(&self) -> &dyn BMat<T>;
    /// Write element (i,j), number k, through a mutable reference object.
    fn rset(&mut self, how: usize, i: usize, j: usize, k: usize, x: T);
    /// Read it through a mutable reference object.
    fn rmget(&mut self, how: usize, i: usize, j: usize, k: usize) -> T;
}

impl<T: Sc, L: LayoutType, D: DataContainerMut<Item = T>, RS: SizeIdentifier, CS: SizeIdentifier> WMat<T> for GenericBaseMatrixMut<T, L, D, RS, CS>
where
    (RS, CS): Pair<R = RS, C = CS>,
{
    fn mref(&mut self, i: usize, j: usize) -> &mut T {
        self.get_mut(i, j)
    }
    fn mref1(&mut self, k: usize) -> &mut T {
        self.get1d_mut(k)
    }
    fn mref_un(&mut self, i: usize, j: usize) -> &mut T {
        unsafe { self.get_unchecked_mut(i, j) }
    }
    fn mref1_un(&mut self, k: usize) -> &mut T {
        unsafe { self.get1d_unchecked_mut(k) }
    }
    fn each(&mut self, f: &mut dyn FnMut(&mut T)) {
        self.for_each(f)
    }
    fn fill(&mut self, r: &mut dyn RngCore) {
        let mut r = r;
        T::fill(self, &mut r)
    }
    fn slice_m(&mut self, a: usize, b: usize) -> &mut [T] {
        self.get_slice_mut(a, b)
    }
    fn ptr_m(&mut self) -> *mut T {
        self.get_pointer_mut()
    }
    fn as_b(&self) -> &dyn BMat<T> {
        self
    }
    fn rset(&mut self, how: usize, i: usize, j: usize, k: usize, x: T) {
        let mut m = Matrix::new(MatrixRefMut::new(self));
        match how % 6 {
            0 => *m.get_mut(i, j) = x,
            1 => *m.get1d_mut(k) = x,
            2 => unsafe { *m.get_unchecked_mut(i, j) = x },
            3 => unsafe { *m.get1d_unchecked_mut(k) = x },
            4 => *Matrix::new(MatrixRefMut::new(&mut m)).get_mut(i, j) = x,
            _ => *MatrixRefMut::new(&mut m).get1d_mut(k) = x,
        }
    }
    fn rmget(&mut self, how: usize, i: usize, j: usize, k: usize) -> T {
        let mut m = Matrix::new(MatrixRefMut::new(self));
        match how % 6 {
            0 => RandomAccess::get(&m, i, j),
            1 => RandomAccess::get1d(&m, k),
            2 => unsafe { m.get_unchecked(i, j) },
            3 => unsafe { m.get1d_unchecked(k) },
            4 => RandomAccess::get(&Matrix::from_ref(&m), i, j),
            _ => *MatrixRefMut::new(&mut m).get1d_mut(k),
        }
    }
}

/// Matrices and expressions that can be evaluated.
pub trait EMat<T: Sc>: RMat<T> {
    /// Evaluate; the box itself is harness memory.
    fn ev(&self) -> Box<dyn BMat<T>>;
    fn as_r(&self) -> &dyn RMat<T>;
}

impl<T: Sc, M: MatrixTrait<T, L, Dynamic, Dynamic>, L: LayoutType> EMat<T> for Matrix<T, M, L, Dynamic, Dynamic>
where
    L::IndexLayout: 'static,
{
    fn ev(&self) -> Box<dyn BMat<T>> {
        let r = self.eval();
        pause(|| Box::new(r) as Box<dyn BMat<T>>)
    }
    fn as_r(&self) -> &dyn RMat<T> {
        self
    }
}

/// A read-only block view.
pub enum SV<'a, T: Sc> {
    R(SliceMatrix<'a, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>),
    C(SliceMatrix<'a, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>),
}

/// A mutable block view.
pub enum SVM<'a, T: Sc> {
    R(SliceMatrixMut<'a, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>),
    C(SliceMatrixMut<'a, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>),
}

impl<'a, T: Sc> SV<'a, T> {
    pub fn b(&self) -> &dyn BMat<T> {
        match self {
            SV::R(m) => m,
            SV::C(m) => m,
        }
    }
    pub fn e(&self) -> &dyn EMat<T> {
        match self {
            SV::R(m) => m,
            SV::C(m) => m,
        }
    }
}

impl<'a, T: Sc> SVM<'a, T> {
    pub fn b(&self) -> &dyn BMat<T> {
        match self {
            SVM::R(m) => m,
            SVM::C(m) => m,
        }
    }
    pub fn w(&mut self) -> &mut dyn WMat<T> {
        match self {
            SVM::R(m) => m,
            SVM::C(m) => m,
        }
    }
    pub fn e(&self) -> &dyn EMat<T> {
        match self {
            SVM::R(m) => m,
            SVM::C(m) => m,
        }
    }
}

/// Matrices that offer block views.
pub trait KMat<T: Sc>: EMat<T> {
    fn blk<'a>(&'a self, tl: (usize, usize), dim: (usize, usize)) -> SV<'a, T>;
}
pub trait KMatM<T: Sc>: KMat<T> + WMat<T> {
    fn blk_m<'a>(&'a mut self, tl: (usize, usize), dim: (usize, usize)) -> SVM<'a, T>;
    /// The four quarters, for layouts that can be split.
    fn quarters<'a>(&'a mut self, at: (usize, usize)) -> Option<[SVM<'a, T>; 4]>;
    fn as_k(&self) -> &dyn KMat<T>;
    fn as_w(&mut self) -> &mut dyn WMat<T>;
}

macro_rules! blocks {
    (@split $s:ident $at:ident yes) => {{
        let (a, b, c, d) = $s.split_in_four_mut($at);
        Some([SVM::R(a), SVM::R(b), SVM::R(c), SVM::R(d)])
    }};
    (@split $s:ident $at:ident no) => {{
        let _ = $at;
        None
    }};
    ($l:ident, $v:ident, $split:ident) => {
        impl<T: Sc, D: DataContainer<Item = T>> KMat<T> for GenericBaseMatrix<T, $l, D, Dynamic, Dynamic> {
            fn blk<'a>(&'a self, tl: (usize, usize), dim: (usize, usize)) -> SV<'a, T> {
                SV::$v(self.block(tl, dim))
            }
        }
        impl<T: Sc, D: DataContainerMut<Item = T>> KMatM<T> for GenericBaseMatrix<T, $l, D, Dynamic, Dynamic> {
            fn blk_m<'a>(&'a mut self, tl: (usize, usize), dim: (usize, usize)) -> SVM<'a, T> {
                SVM::$v(self.block_mut(tl, dim))
            }
            fn quarters<'a>(&'a mut self, at: (usize, usize)) -> Option<[SVM<'a, T>; 4]> {
                blocks!(@split self at $split)
            }
            fn as_k(&self) -> &dyn KMat<T> {
                self
            }
            fn as_w(&mut self) -> &mut dyn WMat<T> {
                self
            }
        }
    };
}
blocks!(RowMajor, R, yes);
blocks!(ColumnMajor, C, no);
blocks!(ArbitraryStrideRowMajor, R, no);
blocks!(ArbitraryStrideColumnMajor, C, no);

impl<'a, T: Sc> SV<'a, T> {
    pub fn k(&self) -> &dyn KMat<T> {
        match self {
            SV::R(m) => m,
            SV::C(m) => m,
        }
    }
}
impl<'a, T: Sc> SVM<'a, T> {
    pub fn k(&self) -> &dyn KMat<T> {
        match self {
            SVM::R(m) => m,
            SVM::C(m) => m,
        }
    }
    pub fn km(&mut self) -> &mut dyn KMatM<T> {
        match self {
            SVM::R(m) => m,
            SVM::C(m) => m,
        }
    }
}
