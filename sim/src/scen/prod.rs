//! Products over every combination of layouts, views and vectors.

use super::util::*;
use super::zoo::*;
use crate::objs::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::{lib, Stop};

/// A product operand or target with its concrete type.
pub enum PM<T: Sc> {
    RM(G<T, RowMajor>),
    CM(G<T, ColumnMajor>),
    SR(G<T, ArbitraryStrideRowMajor>),
    SC(G<T, ArbitraryStrideColumnMajor>),
    /// Block views of another matrix.
    BR(SliceMatrixMut<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>),
    BC(SliceMatrixMut<'static, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>),
    VC(GC<T, ColumnVector>),
    VSC(GC<T, ArbitraryStrideColumnVector>),
    VR(GR<T, RowVector>),
    VSR(GR<T, ArbitraryStrideRowVector>),
}

impl<T: Sc> PM<T> {
    pub fn b(&self) -> &dyn BMat<T> {
        match self {
            PM::RM(m) => m,
            PM::CM(m) => m,
            PM::SR(m) => m,
            PM::SC(m) => m,
            PM::BR(m) => m,
            PM::BC(m) => m,
            PM::VC(m) => m,
            PM::VSC(m) => m,
            PM::VR(m) => m,
            PM::VSR(m) => m,
        }
    }
    pub fn w(&mut self) -> &mut dyn WMat<T> {
        match self {
            PM::RM(m) => m,
            PM::CM(m) => m,
            PM::SR(m) => m,
            PM::SC(m) => m,
            PM::BR(m) => m,
            PM::BC(m) => m,
            PM::VC(m) => m,
            PM::VSC(m) => m,
            PM::VR(m) => m,
            PM::VSR(m) => m,
        }
    }
}

/// Kinds: 0..4 RM CM SR SC, 4 block of a row-major, 5 block of a column-major matrix;
/// 6 column vector, 7 strided column vector, 8 row vector, 9 strided row vector.
pub struct Prod<T: Sc> {
    pub m: PM<T>,
    pub cells: Cells<T>,
    pub v: View,
    pub kind: usize,
}

pub fn kview(kind: usize, r: usize, c: usize, sx: usize) -> (View, usize) {
    // view within the storage, and the number of cells
    match kind {
        4 => {
            let (t, l, b, q) = (sx % 3, (sx / 3) % 3, (sx / 9) % 3, (sx / 27) % 3);
            let big = View::rm(r + t + b, c + l + q);
            (big.sub((t, l), (r, c)), big.n())
        }
        5 => {
            let (t, l, b, q) = (sx % 3, (sx / 3) % 3, (sx / 9) % 3, (sx / 27) % 3);
            let big = View::cm(r + t + b, c + l + q);
            (big.sub((t, l), (r, c)), big.n())
        }
        _ => {
            let lay = [0, 1, 2, 3, 0, 0, 4, 6, 5, 7][kind];
            let v = lay_view(lay, r, c, sx);
            (v, v.span())
        }
    }
}

/// Builds an operand; element (i, j) holds `val(i, j)`, every other cell `gap`.
pub fn make_p<T: Sc>(kind: usize, con: usize, r: usize, c: usize, sx: usize, id: u32, val: &dyn Fn(usize, usize) -> T, gap: T) -> Prod<T> {
    let (v, n) = kview(kind, r, c, sx);
    let mut init: Vec<T> = vec![gap; n + ARRN + 8];
    for i in 0..v.r {
        for j in 0..v.c {
            init[v.cell(i, j)] = val(i, j);
        }
    }
    let con = writable(con);
    let w = "construction of a product operand";
    let (d, cells) = any_c::<T>(con, n, id, &|i| init[i]);
    let dim = (r, c);
    let st = (v.rs, v.cs);
    let m = match kind {
        0 => PM::RM(need(lib(|| G::from_data(d, RowMajor::new(dim))), w)),
        1 => PM::CM(need(lib(|| G::from_data(d, ColumnMajor::new(dim))), w)),
        2 => PM::SR(need(lib(|| G::from_data(d, ArbitraryStrideRowMajor::new(dim, st))), w)),
        3 => PM::SC(need(lib(|| G::from_data(d, ArbitraryStrideColumnMajor::new(dim, st))), w)),
        4 => {
            let (t, l, b, q) = (sx % 3, (sx / 3) % 3, (sx / 9) % 3, (sx / 27) % 3);
            let big = leak(need(lib(|| G::<T, RowMajor>::from_data(d, RowMajor::new((r + t + b, c + l + q)))), w));
            PM::BR(need(lib(|| big.block_mut((t, l), dim)), w))
        }
        5 => {
            let (t, l, b, q) = (sx % 3, (sx / 3) % 3, (sx / 9) % 3, (sx / 27) % 3);
            let big = leak(need(lib(|| G::<T, ColumnMajor>::from_data(d, ColumnMajor::new((r + t + b, c + l + q)))), w));
            PM::BC(need(lib(|| big.block_mut((t, l), dim)), w))
        }
        6 => PM::VC(need(lib(|| GC::from_data(d, ColumnVector::new(r))), w)),
        7 => PM::VSC(need(lib(|| GC::from_data(d, ArbitraryStrideColumnVector::new(r, v.rs))), w)),
        8 => PM::VR(need(lib(|| GR::from_data(d, RowVector::new(c))), w)),
        _ => PM::VSR(need(lib(|| GR::from_data(d, ArbitraryStrideRowVector::new(c, v.cs))), w)),
    };
    Prod { m, cells, v, kind }
}

/// C = alpha*A*B + beta*C for any operands that fit together by kind; panics of the library pass.
pub fn matmul<T: Sc>(al: T, a: &PM<T>, b: &PM<T>, be: T, c: &mut PM<T>) {
    macro_rules! with_c {
        ($f:ident, $a:expr, $b:expr, $($v:ident)*) => {
            match c {
                $(PM::$v(c) => T::$f(al, $a, $b, be, c),)*
                _ => unreachable!("kinds of operands"),
            }
        };
    }
    macro_rules! with_b {
        ($a:expr) => {
            match b {
                PM::RM(b) => with_c!(mm, $a, b, RM CM SR SC BR BC),
                PM::CM(b) => with_c!(mm, $a, b, RM CM SR SC BR BC),
                PM::SR(b) => with_c!(mm, $a, b, RM CM SR SC BR BC),
                PM::SC(b) => with_c!(mm, $a, b, RM CM SR SC BR BC),
                PM::BR(b) => with_c!(mm, $a, b, RM CM SR SC BR BC),
                PM::BC(b) => with_c!(mm, $a, b, RM CM SR SC BR BC),
                PM::VC(b) => with_c!(mcv, $a, b, VC VSC),
                PM::VSC(b) => with_c!(mcv, $a, b, VC VSC),
                _ => unreachable!("kinds of operands"),
            }
        };
    }
    macro_rules! row_b {
        ($a:expr) => {
            match b {
                PM::RM(b) => with_c!(rvm, $a, b, VR VSR),
                PM::CM(b) => with_c!(rvm, $a, b, VR VSR),
                PM::SR(b) => with_c!(rvm, $a, b, VR VSR),
                PM::SC(b) => with_c!(rvm, $a, b, VR VSR),
                PM::BR(b) => with_c!(rvm, $a, b, VR VSR),
                PM::BC(b) => with_c!(rvm, $a, b, VR VSR),
                _ => unreachable!("kinds of operands"),
            }
        };
    }
    match a {
        PM::RM(a) => with_b!(a),
        PM::CM(a) => with_b!(a),
        PM::SR(a) => with_b!(a),
        PM::SC(a) => with_b!(a),
        PM::BR(a) => with_b!(a),
        PM::BC(a) => with_b!(a),
        PM::VR(a) => row_b!(a),
        PM::VSR(a) => row_b!(a),
        _ => unreachable!("kinds of operands"),
    }
}

/// Product into a new matrix or vector (`dot`), where the element type has it.
pub fn dot<T: Sc>(a: &PM<T>, b: &PM<T>) -> Option<Result<Box<dyn BMat<T>>, Stop>> {
    fn bx<T: Sc, X: BMat<T> + 'static>(r: Result<Option<X>, Stop>) -> Option<Result<Box<dyn BMat<T>>, Stop>> {
        match r {
            Ok(None) => None,
            Ok(Some(x)) => Some(Ok(Box::new(x) as Box<dyn BMat<T>>)),
            Err(e) => Some(Err(e)),
        }
    }
    macro_rules! with_b {
        ($a:expr) => {
            match b {
                PM::RM(b) => bx(lib(|| T::dot_mm($a, b))),
                PM::CM(b) => bx(lib(|| T::dot_mm($a, b))),
                PM::SR(b) => bx(lib(|| T::dot_mm($a, b))),
                PM::SC(b) => bx(lib(|| T::dot_mm($a, b))),
                PM::BR(b) => bx(lib(|| T::dot_mm($a, b))),
                PM::BC(b) => bx(lib(|| T::dot_mm($a, b))),
                PM::VC(b) => bx(lib(|| T::dot_mv($a, b))),
                PM::VSC(b) => bx(lib(|| T::dot_mv($a, b))),
                _ => None,
            }
        };
    }
    macro_rules! row_b {
        ($a:expr) => {
            match b {
                PM::RM(b) => bx(lib(|| T::dot_vm($a, b))),
                PM::CM(b) => bx(lib(|| T::dot_vm($a, b))),
                PM::SR(b) => bx(lib(|| T::dot_vm($a, b))),
                PM::SC(b) => bx(lib(|| T::dot_vm($a, b))),
                PM::BR(b) => bx(lib(|| T::dot_vm($a, b))),
                PM::BC(b) => bx(lib(|| T::dot_vm($a, b))),
                _ => None,
            }
        };
    }
    match a {
        PM::RM(a) => with_b!(a),
        PM::CM(a) => with_b!(a),
        PM::SR(a) => with_b!(a),
        PM::SC(a) => with_b!(a),
        PM::BR(a) => with_b!(a),
        PM::BC(a) => with_b!(a),
        PM::VR(a) => row_b!(a),
        PM::VSR(a) => row_b!(a),
        _ => None,
    }
}

/// Kinds of (A, B, C) for product form 0: matrix x matrix, 1: matrix x column vector, 2: row vector x matrix.
pub fn kinds(form: usize, x: usize) -> (usize, usize, usize) {
    match form % 4 {
        1 => (x % 6, 6 + (x / 6) % 2, 6 + (x / 12) % 2),
        2 => (8 + x % 2, (x / 2) % 6, 8 + (x / 12) % 2),
        _ => (x % 6, (x / 6) % 6, (x / 36) % 6),
    }
}

pub fn dims(form: usize, m: usize, k: usize, n: usize) -> (usize, usize, usize) {
    match form % 4 {
        1 => (m, k, 1),
        2 => (1, k, n),
        _ => (m, k, n),
    }
}
