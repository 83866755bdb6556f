//! Stand-in for the parts of `ndarray` 0.16 used by the circuits crate (not in the offline cache).
//! Same observable semantics (row-major logical order, strided views, shape errors).
#![allow(non_snake_case)]
use std::borrow::Cow;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Index, IndexMut, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo};

// ---------------------------------------------------------------- dimensions
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Dim<I>(pub I);
pub type Ix = usize;
pub type Ix0 = Dim<[usize; 0]>;
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
pub type Ix3 = Dim<[usize; 3]>;
pub type Ix4 = Dim<[usize; 4]>;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct IxDynImpl(Vec<usize>);
pub type IxDyn = Dim<IxDynImpl>;
pub fn IxDyn(s: &[usize]) -> IxDyn {
    Dim(IxDynImpl(s.to_vec()))
}
pub fn Ix1(a: usize) -> Ix1 {
    Dim([a])
}
pub fn Ix2(a: usize, b: usize) -> Ix2 {
    Dim([a, b])
}
pub fn Ix3(a: usize, b: usize, c: usize) -> Ix3 {
    Dim([a, b, c])
}
pub fn Ix4(a: usize, b: usize, c: usize, d: usize) -> Ix4 {
    Dim([a, b, c, d])
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Axis(pub usize);
impl Axis {
    pub fn index(self) -> usize {
        self.0
    }
}

pub trait Dimension: Clone + PartialEq + fmt::Debug {
    type Pattern: IntoDimension<Dim = Self>;
    const NDIM: Option<usize>;
    fn slice(&self) -> &[usize];
    fn from_vec(v: &[usize]) -> Option<Self>;
    fn into_pattern(self) -> Self::Pattern;
    fn ndim(&self) -> usize {
        self.slice().len()
    }
    fn size(&self) -> usize {
        self.slice().iter().product()
    }
    fn as_array_view(&self) -> &[usize] {
        self.slice()
    }
}
macro_rules! fixed {
    ($n:expr, $pat:ty, |$d:ident| $e:expr) => {
        impl Dimension for Dim<[usize; $n]> {
            type Pattern = $pat;
            const NDIM: Option<usize> = Some($n);
            fn slice(&self) -> &[usize] {
                &self.0
            }
            fn from_vec(v: &[usize]) -> Option<Self> {
                Some(Dim(v.try_into().ok()?))
            }
            fn into_pattern(self) -> $pat {
                let $d = self.0;
                $e
            }
        }
        impl IntoDimension for [usize; $n] {
            type Dim = Dim<[usize; $n]>;
            fn into_dimension(self) -> Self::Dim {
                Dim(self)
            }
        }
        impl NdIndex for [usize; $n] {
            fn idx(&self) -> Cow<'_, [usize]> {
                Cow::Borrowed(self)
            }
        }
    };
}
fixed!(0, (), |_d| ());
fixed!(1, usize, |d| d[0]);
fixed!(2, (usize, usize), |d| (d[0], d[1]));
fixed!(3, (usize, usize, usize), |d| (d[0], d[1], d[2]));
fixed!(4, (usize, usize, usize, usize), |d| (d[0], d[1], d[2], d[3]));
impl Dimension for IxDyn {
    type Pattern = IxDyn;
    const NDIM: Option<usize> = None;
    fn slice(&self) -> &[usize] {
        &self.0 .0
    }
    fn from_vec(v: &[usize]) -> Option<Self> {
        Some(IxDyn(v))
    }
    fn into_pattern(self) -> IxDyn {
        self
    }
}
impl<const N: usize> Index<usize> for Dim<[usize; N]> {
    type Output = usize;
    fn index(&self, i: usize) -> &usize {
        &self.0[i]
    }
}
impl Index<usize> for IxDyn {
    type Output = usize;
    fn index(&self, i: usize) -> &usize {
        &self.0 .0[i]
    }
}
impl IndexMut<usize> for IxDyn {
    fn index_mut(&mut self, i: usize) -> &mut usize {
        &mut self.0 .0[i]
    }
}
pub trait IntoDimension {
    type Dim: Dimension;
    fn into_dimension(self) -> Self::Dim;
}
impl<D: Dimension> IntoDimension for D {
    type Dim = D;
    fn into_dimension(self) -> D {
        self
    }
}
impl IntoDimension for () {
    type Dim = Ix0;
    fn into_dimension(self) -> Ix0 {
        Dim([])
    }
}
impl IntoDimension for usize {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Dim([self])
    }
}
impl IntoDimension for (usize, usize) {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 {
        Dim([self.0, self.1])
    }
}
impl IntoDimension for (usize, usize, usize) {
    type Dim = Ix3;
    fn into_dimension(self) -> Ix3 {
        Dim([self.0, self.1, self.2])
    }
}
impl IntoDimension for (usize, usize, usize, usize) {
    type Dim = Ix4;
    fn into_dimension(self) -> Ix4 {
        Dim([self.0, self.1, self.2, self.3])
    }
}
impl IntoDimension for Vec<usize> {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        IxDyn(&self)
    }
}
impl<'a> IntoDimension for &'a [usize] {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        IxDyn(self)
    }
}
impl<'a> IntoDimension for &'a Vec<usize> {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        IxDyn(self)
    }
}

pub trait NdIndex {
    fn idx(&self) -> Cow<'_, [usize]>;
}
impl NdIndex for usize {
    fn idx(&self) -> Cow<'_, [usize]> {
        Cow::Owned(vec![*self])
    }
}
impl NdIndex for (usize, usize) {
    fn idx(&self) -> Cow<'_, [usize]> {
        Cow::Owned(vec![self.0, self.1])
    }
}
impl NdIndex for [usize; 5] {
    fn idx(&self) -> Cow<'_, [usize]> {
        Cow::Borrowed(self)
    }
}
impl NdIndex for [usize; 6] {
    fn idx(&self) -> Cow<'_, [usize]> {
        Cow::Borrowed(self)
    }
}
impl NdIndex for IxDyn {
    fn idx(&self) -> Cow<'_, [usize]> {
        Cow::Borrowed(&self.0 .0)
    }
}
impl<'a> NdIndex for &'a IxDyn {
    fn idx(&self) -> Cow<'_, [usize]> {
        Cow::Borrowed(&self.0 .0)
    }
}
impl<'a> NdIndex for &'a [usize] {
    fn idx(&self) -> Cow<'_, [usize]> {
        Cow::Borrowed(self)
    }
}

// ---------------------------------------------------------------- errors
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ErrorKind {
    IncompatibleShape,
    IncompatibleLayout,
    OutOfBounds,
    Overflow,
}
#[derive(Clone, PartialEq, Eq)]
pub struct ShapeError(ErrorKind);
impl ShapeError {
    pub fn kind(&self) -> ErrorKind {
        self.0
    }
    pub fn from_kind(k: ErrorKind) -> Self {
        ShapeError(k)
    }
}
impl fmt::Display for ShapeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ShapeError/{:?}", self.0)
    }
}
impl fmt::Debug for ShapeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}")
    }
}
impl std::error::Error for ShapeError {}

// ---------------------------------------------------------------- storage
pub trait RawData: Sized {
    type Elem;
}
pub trait Data: RawData {
    fn s(&self) -> &[Self::Elem];
}
pub trait DataMut: Data {
    fn m(&mut self) -> &mut [Self::Elem];
}
pub trait DataOwned: Data {
    fn from_vec(v: Vec<Self::Elem>) -> Self;
}
#[derive(Clone, Debug)]
pub struct OwnedRepr<A>(Vec<A>);
pub struct ViewRepr<'a, A>(&'a [A]);
impl<'a, A> Clone for ViewRepr<'a, A> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, A> Copy for ViewRepr<'a, A> {}
pub struct ViewMutRepr<'a, A>(*mut A, usize, PhantomData<&'a mut [A]>);
pub struct CowRepr<'a, A: Clone>(Cow<'a, [A]>);
impl<A> RawData for OwnedRepr<A> {
    type Elem = A;
}
impl<A> Data for OwnedRepr<A> {
    fn s(&self) -> &[A] {
        &self.0
    }
}
impl<A> DataMut for OwnedRepr<A> {
    fn m(&mut self) -> &mut [A] {
        &mut self.0
    }
}
impl<A> DataOwned for OwnedRepr<A> {
    fn from_vec(v: Vec<A>) -> Self {
        OwnedRepr(v)
    }
}
impl<'a, A> RawData for ViewRepr<'a, A> {
    type Elem = A;
}
impl<'a, A> Data for ViewRepr<'a, A> {
    fn s(&self) -> &[A] {
        self.0
    }
}
impl<'a, A> RawData for ViewMutRepr<'a, A> {
    type Elem = A;
}
impl<'a, A> Data for ViewMutRepr<'a, A> {
    fn s(&self) -> &[A] {
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}
impl<'a, A> DataMut for ViewMutRepr<'a, A> {
    fn m(&mut self) -> &mut [A] {
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
    }
}
impl<'a, A: Clone> RawData for CowRepr<'a, A> {
    type Elem = A;
}
impl<'a, A: Clone> Data for CowRepr<'a, A> {
    fn s(&self) -> &[A] {
        &self.0
    }
}

pub struct ArrayBase<S: RawData, D> {
    data: S,
    dim: D,
    strides: Vec<isize>,
    off: usize,
}
pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayD<A> = Array<A, IxDyn>;
pub type Array0<A> = Array<A, Ix0>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type Array3<A> = Array<A, Ix3>;
pub type Array4<A> = Array<A, Ix4>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<'a, A>, D>;
pub type ArrayViewD<'a, A> = ArrayView<'a, A, IxDyn>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewMutRepr<'a, A>, D>;
pub type ArrayViewMutD<'a, A> = ArrayViewMut<'a, A, IxDyn>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;
pub type CowArray<'a, A, D> = ArrayBase<CowRepr<'a, A>, D>;

impl<S: RawData + Clone, D: Clone> Clone for ArrayBase<S, D> {
    fn clone(&self) -> Self {
        ArrayBase { data: self.data.clone(), dim: self.dim.clone(), strides: self.strides.clone(), off: self.off }
    }
}
impl<A, D: Dimension> Default for Array<A, D> {
    fn default() -> Self {
        let n = D::NDIM.unwrap_or(1);
        Array::from_shape_vec(D::from_vec(&vec![0; n]).unwrap(), vec![]).unwrap_or_else(|_| panic!("default"))
    }
}
impl<S: Data, D: Dimension> fmt::Debug for ArrayBase<S, D>
where
    S::Elem: fmt::Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.iter()).finish()?;
        write!(f, ", shape={:?}", self.shape())
    }
}
impl<S: Data, D: Dimension> fmt::Display for ArrayBase<S, D>
where
    S::Elem: fmt::Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl<S: Data, S2: Data, D: Dimension, D2: Dimension> PartialEq<ArrayBase<S2, D2>> for ArrayBase<S, D>
where
    S::Elem: PartialEq<S2::Elem>,
{
    fn eq(&self, o: &ArrayBase<S2, D2>) -> bool {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| a == b)
    }
}

fn c_strides(shape: &[usize]) -> Vec<isize> {
    let mut s = vec![0isize; shape.len()];
    if shape.iter().all(|&d| d != 0) {
        let mut a = 1isize;
        for i in (0..shape.len()).rev() {
            s[i] = a;
            a *= shape[i] as isize;
        }
    }
    s
}
fn offsets(shape: &[usize], strides: &[isize], off: usize) -> Vec<usize> {
    let n: usize = shape.iter().product();
    let mut out = Vec::with_capacity(n);
    if n == 0 {
        return out;
    }
    let mut idx = vec![0usize; shape.len()];
    let mut cur = off as isize;
    for _ in 0..n {
        out.push(cur as usize);
        for d in (0..shape.len()).rev() {
            idx[d] += 1;
            cur += strides[d];
            if idx[d] < shape[d] {
                break;
            }
            cur -= strides[d] * shape[d] as isize;
            idx[d] = 0;
        }
    }
    out
}

// ---------------------------------------------------------------- constructors
impl<A, D: Dimension> Array<A, D> {
    pub fn from_shape_vec<Sh: IntoDimension<Dim = D>>(shape: Sh, v: Vec<A>) -> Result<Self, ShapeError> {
        let dim = shape.into_dimension();
        let mut n = 1usize;
        for &d in dim.slice() {
            n = n.checked_mul(d).ok_or(ShapeError(ErrorKind::Overflow))?;
        }
        if v.len() != n {
            return Err(ShapeError(ErrorKind::OutOfBounds));
        }
        let strides = c_strides(dim.slice());
        Ok(ArrayBase { data: OwnedRepr(v), dim, strides, off: 0 })
    }
    pub fn from_elem<Sh: IntoDimension<Dim = D>>(shape: Sh, e: A) -> Self
    where
        A: Clone,
    {
        let dim = shape.into_dimension();
        let n = dim.size();
        Array::from_shape_vec(dim, vec![e; n]).unwrap()
    }
    pub fn zeros<Sh: IntoDimension<Dim = D>>(shape: Sh) -> Self
    where
        A: Clone + Default,
    {
        Self::from_elem(shape, A::default())
    }
    pub fn default<Sh: IntoDimension<Dim = D>>(shape: Sh) -> Self
    where
        A: Default,
    {
        let dim = shape.into_dimension();
        let n = dim.size();
        Array::from_shape_vec(dim, (0..n).map(|_| A::default()).collect()).unwrap_or_else(|_| panic!("default"))
    }
    pub fn from_shape_fn<Sh: IntoDimension<Dim = D>, F: FnMut(D::Pattern) -> A>(shape: Sh, mut f: F) -> Self {
        let dim = shape.into_dimension();
        let sh = dim.slice().to_vec();
        let mut v = vec![];
        let mut idx = vec![0usize; sh.len()];
        for _ in 0..dim.size() {
            v.push(f(D::from_vec(&idx).unwrap().into_pattern()));
            for d in (0..sh.len()).rev() {
                idx[d] += 1;
                if idx[d] < sh[d] {
                    break;
                }
                idx[d] = 0;
            }
        }
        Array::from_shape_vec(dim, v).unwrap_or_else(|_| panic!("from_shape_fn"))
    }
    pub fn into_raw_vec_and_offset(self) -> (Vec<A>, Option<usize>) {
        (self.data.0, Some(self.off))
    }
    pub fn into_raw_vec(self) -> Vec<A> {
        self.data.0
    }
}
impl<A> Array1<A> {
    pub fn from_vec(v: Vec<A>) -> Self {
        let n = v.len();
        Array::from_shape_vec(Dim([n]), v).unwrap_or_else(|_| panic!("from_vec"))
    }
    pub fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Self {
        Self::from_vec(i.into_iter().collect())
    }
}
impl<A> From<Vec<A>> for Array1<A> {
    fn from(v: Vec<A>) -> Self {
        Self::from_vec(v)
    }
}
impl<A> FromIterator<A> for Array1<A> {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Self {
        Array1::from_vec(i.into_iter().collect())
    }
}
impl<A: Clone, const N: usize> From<Vec<[A; N]>> for Array2<A> {
    fn from(v: Vec<[A; N]>) -> Self {
        let n = v.len();
        Array::from_shape_vec(Dim([n, N]), v.into_iter().flatten().collect()).unwrap_or_else(|_| panic!("from"))
    }
}

// ---------------------------------------------------------------- common
impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn shape(&self) -> &[usize] {
        self.dim.slice()
    }
    pub fn strides(&self) -> &[isize] {
        &self.strides
    }
    pub fn ndim(&self) -> usize {
        self.shape().len()
    }
    pub fn len(&self) -> usize {
        self.dim.size()
    }
    pub fn len_of(&self, a: Axis) -> usize {
        self.shape()[a.0]
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn dim(&self) -> D::Pattern {
        self.dim.clone().into_pattern()
    }
    pub fn raw_dim(&self) -> D {
        self.dim.clone()
    }
    pub fn is_standard_layout(&self) -> bool {
        if self.len() == 0 {
            return true;
        }
        let c = c_strides(self.shape());
        self.shape().iter().zip(c.iter().zip(&self.strides)).all(|(&d, (a, b))| d == 1 || a == b)
    }
    fn offs(&self) -> Vec<usize> {
        offsets(self.shape(), &self.strides, self.off)
    }
    pub fn iter(&self) -> Iter<'_, S::Elem> {
        if self.is_standard_layout() {
            let n = self.len();
            let s = self.data.s();
            let s = if n == 0 { &s[0..0] } else { &s[self.off..self.off + n] };
            Iter { s, o: None, i: 0, e: n }
        } else {
            let o = self.offs();
            let e = o.len();
            Iter { s: self.data.s(), o: Some(o), i: 0, e }
        }
    }
    pub fn indexed_iter(&self) -> impl Iterator<Item = (D::Pattern, &S::Elem)> + '_ {
        let sh = self.shape().to_vec();
        let mut k = 0usize;
        self.iter().map(move |x| {
            let mut r = k;
            let mut idx = vec![0; sh.len()];
            for d in (0..sh.len()).rev() {
                idx[d] = r % sh[d];
                r /= sh[d];
            }
            k += 1;
            (D::from_vec(&idx).unwrap().into_pattern(), x)
        })
    }
    pub fn as_slice(&self) -> Option<&[S::Elem]> {
        if self.is_standard_layout() {
            let n = self.len();
            Some(if n == 0 { &[] } else { &self.data.s()[self.off..self.off + n] })
        } else {
            None
        }
    }
    pub fn first(&self) -> Option<&S::Elem> {
        self.iter().next()
    }
    pub fn last(&self) -> Option<&S::Elem> {
        self.iter().last()
    }
    fn at(&self, i: &[usize]) -> Option<usize> {
        if i.len() != self.ndim() || i.iter().zip(self.shape()).any(|(a, b)| a >= b) {
            return None;
        }
        Some((self.off as isize + i.iter().zip(&self.strides).map(|(&a, &b)| a as isize * b).sum::<isize>()) as usize)
    }
    pub fn get<I: NdIndex>(&self, i: I) -> Option<&S::Elem> {
        self.at(&i.idx()).map(|o| &self.data.s()[o])
    }
    pub fn view(&self) -> ArrayView<'_, S::Elem, D> {
        ArrayBase { data: ViewRepr(self.data.s()), dim: self.dim.clone(), strides: self.strides.clone(), off: self.off }
    }
    pub fn to_owned(&self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        Array::from_shape_vec(self.dim.clone(), self.iter().cloned().collect()).unwrap_or_else(|_| panic!("to_owned"))
    }
    pub fn into_owned(self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        self.to_owned()
    }
    pub fn to_vec(&self) -> Vec<S::Elem>
    where
        S::Elem: Clone,
    {
        self.iter().cloned().collect()
    }
    pub fn into_dyn(self) -> ArrayBase<S, IxDyn> {
        ArrayBase { dim: IxDyn(self.dim.slice()), data: self.data, strides: self.strides, off: self.off }
    }
    pub fn into_dimensionality<D2: Dimension>(self) -> Result<ArrayBase<S, D2>, ShapeError> {
        let dim = D2::from_vec(self.dim.slice()).ok_or(ShapeError(ErrorKind::IncompatibleShape))?;
        Ok(ArrayBase { dim, data: self.data, strides: self.strides, off: self.off })
    }
    pub fn into_shape_with_order<E: IntoDimension>(self, sh: E) -> Result<ArrayBase<S, E::Dim>, ShapeError> {
        let dim = sh.into_dimension();
        let mut n = 1usize;
        for &d in dim.slice() {
            n = n.checked_mul(d).ok_or(ShapeError(ErrorKind::Overflow))?;
        }
        if n != self.len() {
            return Err(ShapeError(ErrorKind::IncompatibleShape));
        }
        if !self.is_standard_layout() {
            return Err(ShapeError(ErrorKind::IncompatibleLayout));
        }
        let strides = c_strides(dim.slice());
        Ok(ArrayBase { dim, data: self.data, strides, off: self.off })
    }
    pub fn to_shape<E: IntoDimension>(&self, sh: E) -> Result<CowArray<'_, S::Elem, E::Dim>, ShapeError>
    where
        S::Elem: Clone,
    {
        let dim = sh.into_dimension();
        if dim.size() != self.len() {
            return Err(ShapeError(ErrorKind::IncompatibleShape));
        }
        let strides = c_strides(dim.slice());
        Ok(ArrayBase { dim, data: CowRepr(Cow::Owned(self.iter().cloned().collect())), strides, off: 0 })
    }
    pub fn permuted_axes<T: IntoDimension<Dim = D>>(self, axes: T) -> ArrayBase<S, D> {
        let ax = axes.into_dimension();
        let ax = ax.slice();
        let mut seen = vec![false; ax.len()];
        assert_eq!(ax.len(), self.ndim());
        for &a in ax {
            assert!(!seen[a], "permutation repeats an axis");
            seen[a] = true;
        }
        let sh: Vec<usize> = ax.iter().map(|&a| self.dim.slice()[a]).collect();
        let st: Vec<isize> = ax.iter().map(|&a| self.strides[a]).collect();
        ArrayBase { dim: D::from_vec(&sh).unwrap(), strides: st, data: self.data, off: self.off }
    }
    pub fn reversed_axes(self) -> ArrayBase<S, D> {
        let sh: Vec<usize> = self.dim.slice().iter().rev().copied().collect();
        let st: Vec<isize> = self.strides.iter().rev().copied().collect();
        ArrayBase { dim: D::from_vec(&sh).unwrap(), strides: st, data: self.data, off: self.off }
    }
    pub fn t(&self) -> ArrayView<'_, S::Elem, D> {
        self.view().reversed_axes()
    }
    pub fn broadcast<E: IntoDimension>(&self, sh: E) -> Option<ArrayView<'_, S::Elem, E::Dim>> {
        let dim = sh.into_dimension();
        let to = dim.slice().to_vec();
        let from = self.shape();
        if to.len() < from.len() {
            return None;
        }
        let k = to.len() - from.len();
        let mut st = vec![0isize; to.len()];
        for i in 0..from.len() {
            if from[i] == to[k + i] {
                st[k + i] = self.strides[i];
            } else if from[i] != 1 {
                return None;
            }
        }
        Some(ArrayBase { data: ViewRepr(self.data.s()), dim, strides: st, off: self.off })
    }
    pub fn map<B, F: FnMut(&S::Elem) -> B>(&self, f: F) -> Array<B, D> {
        Array::from_shape_vec(self.dim.clone(), self.iter().map(f).collect()).unwrap_or_else(|_| panic!("map"))
    }
    pub fn mapv<B, F: FnMut(S::Elem) -> B>(&self, mut f: F) -> Array<B, D>
    where
        S::Elem: Clone,
    {
        self.map(|x| f(x.clone()))
    }
    pub fn sum(&self) -> S::Elem
    where
        S::Elem: Clone + std::iter::Sum,
    {
        self.iter().cloned().sum()
    }
    pub fn slice<const N: usize, const M: usize>(&self, info: SliceInfo<N, M>) -> ArrayView<'_, S::Elem, Dim<[usize; M]>>
    where
        Dim<[usize; M]>: Dimension,
    {
        let (sh, st, off) = info.apply(self.shape(), &self.strides, self.off);
        ArrayBase { data: ViewRepr(self.data.s()), dim: Dimension::from_vec(&sh).unwrap(), strides: st, off }
    }
    pub fn index_axis(&self, a: Axis, i: usize) -> ArrayView<'_, S::Elem, IxDyn> {
        assert!(i < self.shape()[a.0], "index_axis out of bounds");
        let mut sh = self.shape().to_vec();
        let mut st = self.strides.clone();
        let off = (self.off as isize + st[a.0] * i as isize) as usize;
        sh.remove(a.0);
        st.remove(a.0);
        ArrayBase { data: ViewRepr(self.data.s()), dim: IxDyn(&sh), strides: st, off }
    }
    pub fn axis_iter(&self, a: Axis) -> impl Iterator<Item = ArrayView<'_, S::Elem, IxDyn>> + '_ {
        (0..self.shape()[a.0]).map(move |i| self.index_axis(a, i))
    }
    pub fn outer_iter(&self) -> impl Iterator<Item = ArrayView<'_, S::Elem, IxDyn>> + '_ {
        self.axis_iter(Axis(0))
    }
    fn lane_offs(&self, a: Axis) -> Vec<usize> {
        let mut sh = self.shape().to_vec();
        let mut st = self.strides.clone();
        sh.remove(a.0);
        st.remove(a.0);
        offsets(&sh, &st, self.off)
    }
    pub fn lanes(&self, a: Axis) -> Vec<ArrayView1<'_, S::Elem>> {
        let (n, st) = (self.shape()[a.0], self.strides[a.0]);
        let lanes = if n == 0 { let mut sh = self.shape().to_vec(); sh.remove(a.0); vec![0; sh.iter().product()] } else { self.lane_offs(a) };
        lanes.into_iter().map(|off| ArrayBase { data: ViewRepr(self.data.s()), dim: Dim([n]), strides: vec![st], off }).collect()
    }
    pub fn rows(&self) -> Vec<ArrayView1<'_, S::Elem>> {
        self.lanes(Axis(self.ndim() - 1))
    }
}
impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn reborrow(self) -> Self {
        self
    }
}
impl<S: DataMut, D: Dimension> ArrayBase<S, D> {
    pub fn get_mut<I: NdIndex>(&mut self, i: I) -> Option<&mut S::Elem> {
        let o = self.at(&i.idx())?;
        Some(&mut self.data.m()[o])
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [S::Elem]> {
        if self.is_standard_layout() {
            let (n, o) = (self.len(), self.off);
            Some(if n == 0 { &mut [] } else { &mut self.data.m()[o..o + n] })
        } else {
            None
        }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, S::Elem> {
        let o = self.offs();
        let p = self.data.m().as_mut_ptr();
        IterMut { p, o, i: 0, _m: PhantomData }
    }
    pub fn fill(&mut self, e: S::Elem)
    where
        S::Elem: Clone,
    {
        for x in self.iter_mut() {
            *x = e.clone();
        }
    }
    pub fn map_inplace<F: FnMut(&mut S::Elem)>(&mut self, f: F) {
        self.iter_mut().for_each(f)
    }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, S::Elem, D> {
        let (dim, strides, off) = (self.dim.clone(), self.strides.clone(), self.off);
        let m = self.data.m();
        ArrayBase { data: ViewMutRepr(m.as_mut_ptr(), m.len(), PhantomData), dim, strides, off }
    }
    pub fn assign<S2: Data<Elem = S::Elem>, E: Dimension>(&mut self, o: &ArrayBase<S2, E>)
    where
        S::Elem: Clone,
    {
        let sh = self.shape().to_vec();
        let b = o.broadcast(IxDyn(&sh)).expect("assign: could not broadcast");
        for (x, y) in self.iter_mut().zip(b.iter()) {
            *x = y.clone();
        }
    }
    pub fn slice_mut<const N: usize, const M: usize>(&mut self, info: SliceInfo<N, M>) -> ArrayViewMut<'_, S::Elem, Dim<[usize; M]>>
    where
        Dim<[usize; M]>: Dimension,
    {
        let (sh, st, off) = info.apply(self.dim.slice(), &self.strides, self.off);
        let m = self.data.m();
        ArrayBase { data: ViewMutRepr(m.as_mut_ptr(), m.len(), PhantomData), dim: Dimension::from_vec(&sh).unwrap(), strides: st, off }
    }
    /// the lanes are disjoint, so handing out one mutable view per lane is sound as long as each
    /// view only touches its own offsets (it does)
    pub fn lanes_mut(&mut self, a: Axis) -> Vec<ArrayViewMut1<'_, S::Elem>> {
        let (n, st) = (self.shape()[a.0], self.strides[a.0]);
        let lanes = if n == 0 { vec![] } else { self.lane_offs(a) };
        let m = self.data.m();
        let (p, l) = (m.as_mut_ptr(), m.len());
        lanes.into_iter().map(|off| ArrayBase { data: ViewMutRepr(p, l, PhantomData), dim: Dim([n]), strides: vec![st], off }).collect()
    }
}
impl<S: Data, D: Dimension, I: NdIndex> Index<I> for ArrayBase<S, D> {
    type Output = S::Elem;
    fn index(&self, i: I) -> &S::Elem {
        self.get(i).expect("ndarray: index out of bounds")
    }
}
impl<S: DataMut, D: Dimension, I: NdIndex> IndexMut<I> for ArrayBase<S, D> {
    fn index_mut(&mut self, i: I) -> &mut S::Elem {
        self.get_mut(i).expect("ndarray: index out of bounds")
    }
}
impl<A, D: Dimension> IntoIterator for Array<A, D> {
    type Item = A;
    type IntoIter = std::vec::IntoIter<A>;
    fn into_iter(self) -> Self::IntoIter {
        if self.is_standard_layout() && self.off == 0 && self.data.0.len() == self.dim.size() {
            return self.data.0.into_iter();
        }
        let o = self.offs();
        let mut v: Vec<Option<A>> = self.data.0.into_iter().map(Some).collect();
        o.into_iter().map(|i| v[i].take().unwrap()).collect::<Vec<A>>().into_iter()
    }
}
impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    type IntoIter = Iter<'a, S::Elem>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    type IntoIter = IterMut<'a, S::Elem>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
pub struct Iter<'a, A> {
    s: &'a [A],
    o: Option<Vec<usize>>,
    i: usize,
    e: usize,
}
impl<'a, A> Clone for Iter<'a, A> {
    fn clone(&self) -> Self {
        Iter { s: self.s, o: self.o.clone(), i: self.i, e: self.e }
    }
}
impl<'a, A> Iterator for Iter<'a, A> {
    type Item = &'a A;
    fn next(&mut self) -> Option<&'a A> {
        if self.i >= self.e {
            return None;
        }
        let k = self.i;
        self.i += 1;
        Some(&self.s[self.o.as_ref().map_or(k, |o| o[k])])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.e - self.i, Some(self.e - self.i))
    }
}
impl<'a, A> DoubleEndedIterator for Iter<'a, A> {
    fn next_back(&mut self) -> Option<&'a A> {
        if self.i >= self.e {
            return None;
        }
        self.e -= 1;
        let k = self.e;
        Some(&self.s[self.o.as_ref().map_or(k, |o| o[k])])
    }
}
impl<'a, A> ExactSizeIterator for Iter<'a, A> {}
pub struct IterMut<'a, A> {
    p: *mut A,
    o: Vec<usize>,
    i: usize,
    _m: PhantomData<&'a mut A>,
}
impl<'a, A> Iterator for IterMut<'a, A> {
    type Item = &'a mut A;
    fn next(&mut self) -> Option<&'a mut A> {
        let k = *self.o.get(self.i)?;
        self.i += 1;
        Some(unsafe { &mut *self.p.add(k) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.o.len() - self.i, Some(self.o.len() - self.i))
    }
}
impl<'a, A> ExactSizeIterator for IterMut<'a, A> {}

// ---------------------------------------------------------------- slicing
#[derive(Clone, Copy)]
pub enum SliceElem {
    Index(isize),
    Range(isize, Option<isize>),
}
impl From<usize> for SliceElem {
    fn from(i: usize) -> Self {
        SliceElem::Index(i as isize)
    }
}
impl From<i32> for SliceElem {
    fn from(i: i32) -> Self {
        SliceElem::Index(i as isize)
    }
}
impl From<isize> for SliceElem {
    fn from(i: isize) -> Self {
        SliceElem::Index(i)
    }
}
macro_rules! ranges {
    ($($t:ty),*) => { $(
        impl From<Range<$t>> for SliceElem { fn from(r: Range<$t>) -> Self { SliceElem::Range(r.start as isize, Some(r.end as isize)) } }
        impl From<RangeInclusive<$t>> for SliceElem { fn from(r: RangeInclusive<$t>) -> Self { let e = *r.end() as isize; SliceElem::Range(*r.start() as isize, if e == -1 { None } else { Some(e + 1) }) } }
        impl From<RangeFrom<$t>> for SliceElem { fn from(r: RangeFrom<$t>) -> Self { SliceElem::Range(r.start as isize, None) } }
        impl From<RangeTo<$t>> for SliceElem { fn from(r: RangeTo<$t>) -> Self { SliceElem::Range(0, Some(r.end as isize)) } }
    )* };
}
ranges!(usize, i32, isize);
impl From<RangeFull> for SliceElem {
    fn from(_: RangeFull) -> Self {
        SliceElem::Range(0, None)
    }
}
pub struct SliceInfo<const N: usize, const M: usize>(pub [SliceElem; N]);
impl<const N: usize, const M: usize> SliceInfo<N, M> {
    fn apply(&self, shape: &[usize], strides: &[isize], off: usize) -> (Vec<usize>, Vec<isize>, usize) {
        assert_eq!(N, shape.len(), "slice: wrong number of axes");
        let abs = |i: isize, n: usize| -> usize {
            let i = if i < 0 { i + n as isize } else { i };
            assert!(i >= 0, "slice: index below the axis");
            i as usize
        };
        let (mut sh, mut st, mut off) = (vec![], vec![], off as isize);
        for (k, e) in self.0.iter().enumerate() {
            let n = shape[k];
            match *e {
                SliceElem::Index(i) => {
                    let i = abs(i, n);
                    assert!(i < n, "slice: index out of bounds");
                    off += strides[k] * i as isize;
                }
                SliceElem::Range(a, b) => {
                    let a = abs(a, n);
                    let b = b.map_or(n, |b| abs(b, n));
                    let b = b.max(a);
                    assert!(b <= n, "slice: range end beyond the axis");
                    if b > a {
                        off += strides[k] * a as isize;
                    }
                    sh.push(b - a);
                    st.push(strides[k]);
                }
            }
        }
        if sh.iter().any(|&d| d == 0) {
            off = 0;
        }
        (sh, st, off as usize)
    }
}
pub trait Make<const N: usize> {
    type Out;
    fn make(self) -> Self::Out;
}
// the combinations of ranges (R) and indices (I) in use
macro_rules! combos {
    ($( ($($v:ident : $k:ident),*) -> $n:expr, $m:expr; )*) => { $(
        impl<$($v: Into<SliceElem> + $k),*> Make<$n> for ($($v,)*) where {
            type Out = SliceInfo<$n, $m>;
            #[allow(non_snake_case)]
            fn make(self) -> Self::Out { let ($($v,)*) = self; SliceInfo([$($v.into()),*]) }
        }
    )* };
}
pub trait Rg {}
impl<T> Rg for Range<T> {}
impl<T> Rg for RangeInclusive<T> {}
impl<T> Rg for RangeFrom<T> {}
impl<T> Rg for RangeTo<T> {}
impl Rg for RangeFull {}
combos! {
    (A: Rg) -> 1, 1;
    (A: Rg, B: Rg) -> 2, 2;
    (A: Rg, B: Rg, C: Rg) -> 3, 3;
    (A: Rg, B: Rg, C: Rg, D: Rg) -> 4, 4;
}
macro_rules! mixed {
    ($( ($($i:ty),*) ($($v:ident),*) [$($x:tt)*] [$($p:ident),*] -> $n:expr, $m:expr; )*) => { $(
        impl<$($v: Into<SliceElem> + Rg),*> Make<$n> for ($($x)*) {
            type Out = SliceInfo<$n, $m>;
            fn make(self) -> Self::Out { let ($($p,)*) = self; SliceInfo([$($p.into()),*]) }
        }
    )* };
}
mixed! {
    (usize) (B, C) [usize, B, C] [a, b, c] -> 3, 2;
    (usize) (A, C, D) [A, usize, C, D] [a, b, c, d] -> 4, 3;
    (usize) (B, C, D) [usize, B, C, D] [a, b, c, d] -> 4, 3;
    (usize, usize) (C, D) [usize, usize, C, D] [a, b, c, d] -> 4, 2;
    (usize) (B) [usize, B] [a, b] -> 2, 1;
    (usize) (A) [A, usize] [a, b] -> 2, 1;
}
#[macro_export]
macro_rules! s {
    ($($e:expr),* $(,)?) => { $crate::Make::make(($($e,)*)) };
}
#[macro_export]
macro_rules! array {
    ($([$([$($x:expr),* $(,)?]),+ $(,)?]),+ $(,)?) => {{
        let v = vec![$(vec![$(vec![$($x,)*],)*],)*];
        let (a, b, c) = (v.len(), v[0].len(), v[0][0].len());
        $crate::Array::from_shape_vec($crate::Ix3(a, b, c), v.into_iter().flatten().flatten().collect::<Vec<_>>()).unwrap()
    }};
    ($([$($x:expr),* $(,)?]),+ $(,)?) => {{
        let v = vec![$(vec![$($x,)*],)*];
        let (a, b) = (v.len(), v[0].len());
        $crate::Array::from_shape_vec($crate::Ix2(a, b), v.into_iter().flatten().collect::<Vec<_>>()).unwrap()
    }};
    ($($x:expr),* $(,)?) => { $crate::Array1::from_vec(vec![$($x,)*]) };
}

// ---------------------------------------------------------------- free functions
pub fn concatenate<A: Clone, D: Dimension>(axis: Axis, arrays: &[ArrayView<'_, A, D>]) -> Result<Array<A, D>, ShapeError> {
    let Some(first) = arrays.first() else { return Err(ShapeError(ErrorKind::IncompatibleShape)) };
    let mut sh = first.shape().to_vec();
    if axis.0 >= sh.len() {
        return Err(ShapeError(ErrorKind::OutOfBounds));
    }
    for a in arrays {
        if a.shape().iter().zip(&sh).enumerate().any(|(i, (x, y))| i != axis.0 && x != y) || a.ndim() != sh.len() {
            return Err(ShapeError(ErrorKind::IncompatibleShape));
        }
    }
    sh[axis.0] = arrays.iter().map(|a| a.shape()[axis.0]).sum();
    let outer: usize = sh[..axis.0].iter().product();
    let inner: usize = sh[axis.0 + 1..].iter().product();
    let flat: Vec<Vec<&A>> = arrays.iter().map(|a| a.iter().collect()).collect();
    let mut out = Vec::with_capacity(sh.iter().product());
    for o in 0..outer {
        for (a, f) in arrays.iter().zip(&flat) {
            let n = a.shape()[axis.0] * inner;
            out.extend(f[o * n..(o + 1) * n].iter().map(|x| (*x).clone()));
        }
    }
    Array::from_shape_vec(D::from_vec(&sh).unwrap(), out)
}
pub fn stack<A: Clone, D: Dimension>(axis: Axis, arrays: &[ArrayView<'_, A, D>]) -> Result<Array<A, IxDyn>, ShapeError> {
    let mut v = vec![];
    for a in arrays {
        let mut sh = a.shape().to_vec();
        if axis.0 > sh.len() {
            return Err(ShapeError(ErrorKind::OutOfBounds));
        }
        sh.insert(axis.0, 1);
        v.push(a.to_owned().into_shape_with_order(IxDyn(&sh))?);
    }
    let views: Vec<_> = v.iter().map(|a| a.view()).collect();
    concatenate(axis, &views)
}
pub struct Zip<P>(P);
pub trait NdProducer {
    type Item;
    fn sh(&self) -> Vec<usize>;
    fn items(self) -> Vec<Self::Item>;
}
impl<'a, S: Data, D: Dimension> NdProducer for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    fn sh(&self) -> Vec<usize> {
        self.shape().to_vec()
    }
    fn items(self) -> Vec<Self::Item> {
        self.iter().collect()
    }
}
impl<'a, S: DataMut, D: Dimension> NdProducer for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    fn sh(&self) -> Vec<usize> {
        self.shape().to_vec()
    }
    fn items(self) -> Vec<Self::Item> {
        self.iter_mut().collect()
    }
}
impl<A: NdProducer> Zip<(A,)> {
    pub fn from(a: A) -> Self {
        Zip((a,))
    }
    pub fn and<B: NdProducer>(self, b: B) -> Zip<(A, B)> {
        assert_eq!(self.0 .0.sh(), b.sh(), "Zip: shapes differ");
        Zip((self.0 .0, b))
    }
}
impl<A: NdProducer, B: NdProducer> Zip<(A, B)> {
    pub fn and<C: NdProducer>(self, c: C) -> Zip<(A, B, C)> {
        assert_eq!(self.0 .0.sh(), c.sh(), "Zip: shapes differ");
        Zip((self.0 .0, self.0 .1, c))
    }
    pub fn for_each<F: FnMut(A::Item, B::Item)>(self, mut f: F) {
        for (a, b) in self.0 .0.items().into_iter().zip(self.0 .1.items()) {
            f(a, b)
        }
    }
}
impl<A: NdProducer, B: NdProducer, C: NdProducer> Zip<(A, B, C)> {
    pub fn for_each<F: FnMut(A::Item, B::Item, C::Item)>(self, mut f: F) {
        for ((a, b), c) in self.0 .0.items().into_iter().zip(self.0 .1.items()).zip(self.0 .2.items()) {
            f(a, b, c)
        }
    }
}
