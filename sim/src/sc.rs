//! Element types and the reference model of matrix views.

use householder::scalar_mult::ScalarProdMat;
use householder::matrix_ref::MatrixRef;
use householder::types::{c32, c64, HScalar};
use householder::*;
use rand::Rng;
use rand_distr::{Distribution, StandardNormal};

type RefP<'a, T, M, L, RS, CS> = ScalarProdMat<T, MatrixRef<'a, T, M, L, RS, CS>, L, RS, CS>;

pub trait Sc: HScalar + RandScalar + Send + Sync + 'static {
    const NAME: &'static str;
    const ID: usize;
    /// Real components per element.
    const NC: usize;
    fn mk(re: i64, im: i64) -> Self;
    fn comp(&self) -> [u64; 2];
    fn from_comp(c: [u64; 2]) -> Self;
    fn same(self, o: Self) -> bool;
    fn nan() -> Self;
    fn fill<L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier, D: DataContainerMut<Item = Self>, R: Rng>(
        m: &mut GenericBaseMatrixMut<Self, L, D, RS, CS>,
        r: &mut R,
    );
    /// What a standard-normal fill stores next, given the generator.
    fn reference_normal<R: Rng>(r: &mut R) -> Self;
    fn mm<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
        alpha: Self,
        a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
        b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
        beta: Self,
        c: &mut GenericBaseMatrixMut<Self, L3, D3, Dynamic, Dynamic>,
    );
    fn mcv<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
        alpha: Self,
        a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
        b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Fixed1>,
        beta: Self,
        c: &mut GenericBaseMatrixMut<Self, L3, D3, Dynamic, Fixed1>,
    );
    fn rvm<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
        alpha: Self,
        a: &GenericBaseMatrix<Self, L1, D1, Fixed1, Dynamic>,
        b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
        beta: Self,
        c: &mut GenericBaseMatrixMut<Self, L3, D3, Fixed1, Dynamic>,
    );
    /// `dot` exists for f64 only.
    fn dot_mm<L1: StridedLayoutType, L2: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>>(
        _a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
        _b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
    ) -> Option<MatrixD<Self, RowMajor>> {
        None
    }
    fn dot_mv<L1: StridedLayoutType, L2: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>>(
        _a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
        _b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Fixed1>,
    ) -> Option<ColumnVectorD<Self>> {
        None
    }
    fn dot_vm<L1: StridedLayoutType, L2: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>>(
        _a: &GenericBaseMatrix<Self, L1, D1, Fixed1, Dynamic>,
        _b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
    ) -> Option<RowVectorD<Self>> {
        None
    }
    fn sl<M: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(s: Self, m: Matrix<Self, M, L, RS, CS>) -> ScalarProdMat<Self, M, L, RS, CS>;
    fn sr<M: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(m: Matrix<Self, M, L, RS, CS>, s: Self) -> ScalarProdMat<Self, M, L, RS, CS>;
    fn slr<'a, M: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(s: Self, m: &'a Matrix<Self, M, L, RS, CS>) -> RefP<'a, Self, M, L, RS, CS>;
    fn srr<'a, M: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(m: &'a Matrix<Self, M, L, RS, CS>, s: Self) -> RefP<'a, Self, M, L, RS, CS>;
    fn rand_mat_rm(r: usize, c: usize) -> MatrixD<Self, RowMajor>;
    fn rand_mat_rm_dflt(r: usize, c: usize) -> MatrixD<Self, RowMajor>;
    fn rand_mat_cm(r: usize, c: usize) -> MatrixD<Self, ColumnMajor>;
    fn rand_vec_c(n: usize) -> ColumnVectorD<Self>;
    fn rand_vec_r(n: usize) -> RowVectorD<Self>;
    fn mat_rm(r: usize, c: usize) -> MatrixD<Self, RowMajor>;
    fn mat_cm(r: usize, c: usize) -> MatrixD<Self, ColumnMajor>;
    fn vec_c(n: usize) -> ColumnVectorD<Self>;
    fn vec_r(n: usize) -> RowVectorD<Self>;
}

macro_rules! imp_common {
    ($t:ty) => {
        fn fill<L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier, D: DataContainerMut<Item = Self>, R: Rng>(
            m: &mut GenericBaseMatrixMut<Self, L, D, RS, CS>,
            r: &mut R,
        ) {
            m.fill_from_rand_standard_normal(r)
        }
        fn mm<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
            alpha: Self,
            a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
            beta: Self,
            c: &mut GenericBaseMatrixMut<Self, L3, D3, Dynamic, Dynamic>,
        ) {
            <$t>::matmul(alpha, a, b, beta, c)
        }
        fn mcv<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
            alpha: Self,
            a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Fixed1>,
            beta: Self,
            c: &mut GenericBaseMatrixMut<Self, L3, D3, Dynamic, Fixed1>,
        ) {
            <$t>::matmul(alpha, a, b, beta, c)
        }
        fn rvm<L1: StridedLayoutType, L2: StridedLayoutType, L3: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>, D3: DataContainerMut<Item = Self>>(
            alpha: Self,
            a: &GenericBaseMatrix<Self, L1, D1, Fixed1, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
            beta: Self,
            c: &mut GenericBaseMatrixMut<Self, L3, D3, Fixed1, Dynamic>,
        ) {
            <$t>::matmul(alpha, a, b, beta, c)
        }
        fn sl<M: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(s: Self, m: Matrix<Self, M, L, RS, CS>) -> ScalarProdMat<Self, M, L, RS, CS> {
            s * m
        }
        fn sr<M: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(m: Matrix<Self, M, L, RS, CS>, s: Self) -> ScalarProdMat<Self, M, L, RS, CS> {
            m * s
        }
        fn slr<'a, M: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(s: Self, m: &'a Matrix<Self, M, L, RS, CS>) -> RefP<'a, Self, M, L, RS, CS> {
            s * m
        }
        fn srr<'a, M: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(m: &'a Matrix<Self, M, L, RS, CS>, s: Self) -> RefP<'a, Self, M, L, RS, CS> {
            m * s
        }
        fn rand_mat_rm(r: usize, c: usize) -> MatrixD<Self, RowMajor> {
            rand_mat![$t, (r, c), RowMajor]
        }
        fn rand_mat_rm_dflt(r: usize, c: usize) -> MatrixD<Self, RowMajor> {
            rand_mat![$t, (r, c)]
        }
        fn rand_mat_cm(r: usize, c: usize) -> MatrixD<Self, ColumnMajor> {
            rand_mat![$t, (r, c), ColumnMajor]
        }
        fn rand_vec_c(n: usize) -> ColumnVectorD<Self> {
            rand_vector![$t, n]
        }
        fn rand_vec_r(n: usize) -> RowVectorD<Self> {
            rand_vector![$t, n, RowVector]
        }
        fn mat_rm(r: usize, c: usize) -> MatrixD<Self, RowMajor> {
            mat![$t, (r, c)]
        }
        fn mat_cm(r: usize, c: usize) -> MatrixD<Self, ColumnMajor> {
            mat![$t, (r, c), ColumnMajor]
        }
        fn vec_c(n: usize) -> ColumnVectorD<Self> {
            vector![$t, n]
        }
        fn vec_r(n: usize) -> RowVectorD<Self> {
            vector![$t, n, RowVector]
        }
    };
}

macro_rules! real {
    (@dot f64) => {
        fn dot_mm<L1: StridedLayoutType, L2: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>>(
            a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
        ) -> Option<MatrixD<Self, RowMajor>> {
            Some(a.dot(b))
        }
        fn dot_mv<L1: StridedLayoutType, L2: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>>(
            a: &GenericBaseMatrix<Self, L1, D1, Dynamic, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Fixed1>,
        ) -> Option<ColumnVectorD<Self>> {
            Some(a.dot(b))
        }
        fn dot_vm<L1: StridedLayoutType, L2: StridedLayoutType, D1: DataContainer<Item = Self>, D2: DataContainer<Item = Self>>(
            a: &GenericBaseMatrix<Self, L1, D1, Fixed1, Dynamic>,
            b: &GenericBaseMatrix<Self, L2, D2, Dynamic, Dynamic>,
        ) -> Option<RowVectorD<Self>> {
            Some(a.dot(b))
        }
    };
    (@dot $t:tt) => {};
    ($t:tt, $b:ty, $id:expr) => {
        impl Sc for $t {
            const NAME: &'static str = stringify!($t);
            const ID: usize = $id;
            const NC: usize = 1;
            fn mk(re: i64, _im: i64) -> Self {
                re as $t
            }
            fn comp(&self) -> [u64; 2] {
                [self.to_bits() as u64, 0]
            }
            fn from_comp(c: [u64; 2]) -> Self {
                <$t>::from_bits(c[0] as $b)
            }
            fn same(self, o: Self) -> bool {
                self == o || self.to_bits() == o.to_bits() || (self != self && o != o)
            }
            fn nan() -> Self {
                <$t>::NAN
            }
            fn reference_normal<R: Rng>(r: &mut R) -> Self {
                StandardNormal.sample(r)
            }
            imp_common!($t);
            real!(@dot $t);
        }
    };
}
macro_rules! cplx {
    ($t:ty, $f:ty, $b:ty, $id:expr) => {
        impl Sc for $t {
            const NAME: &'static str = stringify!($t);
            const ID: usize = $id;
            const NC: usize = 2;
            fn mk(re: i64, im: i64) -> Self {
                <$t>::new(re as $f, im as $f)
            }
            fn comp(&self) -> [u64; 2] {
                [self.re.to_bits() as u64, self.im.to_bits() as u64]
            }
            fn from_comp(c: [u64; 2]) -> Self {
                <$t>::new(<$f>::from_bits(c[0] as $b), <$f>::from_bits(c[1] as $b))
            }
            fn same(self, o: Self) -> bool {
                <$f as Sc>::same(self.re, o.re) && <$f as Sc>::same(self.im, o.im)
            }
            fn nan() -> Self {
                <$t>::new(<$f>::NAN, <$f>::NAN)
            }
            fn reference_normal<R: Rng>(r: &mut R) -> Self {
                let re: $f = StandardNormal.sample(r);
                let im: $f = StandardNormal.sample(r);
                <$t>::new(re, im)
            }
            imp_common!($t);
        }
    };
}
real!(f32, u32, 0);
real!(f64, u64, 1);
cplx!(c32, f32, u32, 2);
cplx!(c64, f64, u64, 3);

/// Calls `$f::<T>($args)` for the element type with the given number.
#[macro_export]
macro_rules! by_type {
    ($id:expr, $f:ident ( $($a:expr),* )) => {
        match ($id as usize) % 4 {
            0 => $f::<f32>($($a),*),
            1 => $f::<f64>($($a),*),
            2 => $f::<householder::types::c32>($($a),*),
            _ => $f::<householder::types::c64>($($a),*),
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ord1 {
    Row,
    Col,
    Tri,
}

/// Where the elements of a matrix or view live in its storage, and their 1-D order.
#[derive(Clone, Copy, Debug)]
pub struct View {
    pub base: usize,
    pub rs: usize,
    pub cs: usize,
    pub r: usize,
    pub c: usize,
    pub ord: Ord1,
}

impl View {
    pub fn new(base: usize, (rs, cs): (usize, usize), (r, c): (usize, usize), ord: Ord1) -> View {
        View { base, rs, cs, r, c, ord }
    }
    pub fn rm(r: usize, c: usize) -> View {
        View::new(0, (c, 1), (r, c), Ord1::Row)
    }
    pub fn cm(r: usize, c: usize) -> View {
        View::new(0, (1, r), (r, c), Ord1::Col)
    }
    pub fn tri(d: usize) -> View {
        View::new(0, (0, 0), (d, d), Ord1::Tri)
    }
    pub fn n(&self) -> usize {
        if self.ord == Ord1::Tri {
            self.r * (self.r + 1) / 2
        } else {
            self.r * self.c
        }
    }
    pub fn at(&self, k: usize) -> (usize, usize) {
        match self.ord {
            Ord1::Row => (k / self.c, k % self.c),
            Ord1::Col => (k % self.r, k / self.r),
            Ord1::Tri => {
                let mut k = k;
                let mut len = 1;
                while k >= len {
                    k -= len;
                    len += 1;
                }
                (self.r - len, self.r - len + k)
            }
        }
    }
    pub fn idx(&self, i: usize, j: usize) -> usize {
        match self.ord {
            Ord1::Row => i * self.c + j,
            Ord1::Col => j * self.r + i,
            Ord1::Tri => {
                let len = self.r - i;
                len * (len - 1) / 2 + (j - i)
            }
        }
    }
    pub fn cell(&self, i: usize, j: usize) -> usize {
        if self.ord == Ord1::Tri {
            self.base + self.idx(i, j)
        } else {
            self.base + i * self.rs + j * self.cs
        }
    }
    pub fn cell1(&self, k: usize) -> usize {
        let (i, j) = self.at(k);
        self.cell(i, j)
    }
    pub fn cells(&self) -> Vec<usize> {
        (0..self.n()).map(|k| self.cell1(k)).collect()
    }
    pub fn sub(&self, tl: (usize, usize), dim: (usize, usize)) -> View {
        View { base: self.base + tl.0 * self.rs + tl.1 * self.cs, r: dim.0, c: dim.1, ..*self }
    }
    /// Position in `outer`, of which this is a block, of element (i,j).
    pub fn cell_pos(&self, outer: &View, i: usize, j: usize) -> (usize, usize) {
        let c = self.cell(i, j);
        (0..outer.n()).map(|k| outer.at(k)).find(|p| outer.cell(p.0, p.1) == c).unwrap()
    }
    /// Storage cells needed from cell 0 of the storage on.
    pub fn span(&self) -> usize {
        self.cells().into_iter().max().map(|x| x + 1).unwrap_or(0)
    }
}

/// Distinct small exactly-representable values.
pub fn val<T: Sc>(n: i64) -> T {
    T::mk(n, n + 1)
}

pub fn show<T: Sc>(v: T) -> String {
    format!("{:?}", v)
}
