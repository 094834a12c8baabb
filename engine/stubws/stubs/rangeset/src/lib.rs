//! Interface of the `rangeset` crate; no behaviour.
#![allow(unused)]
pub mod set {
    use super::*;
    use std::ops::Range;
    #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
    pub struct RangeSet<T> { ranges: Vec<Range2<T>> }
    #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
    pub struct Range2<T>(T, T);
    impl<T: Copy + Ord> RangeSet<T> {
        pub fn new(ranges: &[Range<T>]) -> Self { loop {} }
        pub fn into_inner(self) -> Vec<Range<T>> { loop {} }
        pub fn end(&self) -> Option<T> { loop {} }
        pub fn min(&self) -> Option<T> { loop {} }
        pub fn max(&self) -> Option<T> { loop {} }
        pub fn len(&self) -> usize { loop {} }
        pub fn len_ranges(&self) -> usize { loop {} }
        pub fn is_empty(&self) -> bool { loop {} }
        pub fn clear(&mut self) { loop {} }
        pub fn contains(&self, v: &T) -> bool { loop {} }
        pub fn iter(&self) -> iter::RangeSetIter<'_, T> { loop {} }
        pub fn iter_ranges(&self) -> iter::RangeSetIter<'_, T> { loop {} }
        pub fn iter_values(&self) -> iter::ValueIter<T> { loop {} }
        pub fn split_off(&mut self, at: &T) -> Self { loop {} }
        pub fn union_mut<R: iter::IntoRangeIterator<T>>(&mut self, other: R) { loop {} }
        pub fn difference_mut<R: iter::IntoRangeIterator<T>>(&mut self, other: R) { loop {} }
        pub fn intersection_mut<R: iter::IntoRangeIterator<T>>(&mut self, other: R) { loop {} }
        pub fn shift_left(&mut self, n: &T) { loop {} }
        pub fn shift_right(&mut self, n: &T) { loop {} }
    }
    impl<T: Copy + Ord> From<Range<T>> for RangeSet<T> { fn from(r: Range<T>) -> Self { loop {} } }
    impl<T: Copy + Ord> From<Vec<Range<T>>> for RangeSet<T> { fn from(r: Vec<Range<T>>) -> Self { loop {} } }
    impl<T: Copy + Ord> From<&[Range<T>]> for RangeSet<T> { fn from(r: &[Range<T>]) -> Self { loop {} } }
    impl<T: Copy + Ord, const N: usize> From<[Range<T>; N]> for RangeSet<T> { fn from(r: [Range<T>; N]) -> Self { loop {} } }
    impl<T: Copy + Ord> FromIterator<Range<T>> for RangeSet<T> { fn from_iter<I: IntoIterator<Item = Range<T>>>(i: I) -> Self { loop {} } }
    impl<T: Copy + Ord> IntoIterator for RangeSet<T> { type Item = Range<T>; type IntoIter = std::vec::IntoIter<Range<T>>; fn into_iter(self) -> Self::IntoIter { loop {} } }
    impl<'a, T: Copy + Ord> IntoIterator for &'a RangeSet<T> { type Item = Range<T>; type IntoIter = iter::RangeSetIter<'a, T>; fn into_iter(self) -> Self::IntoIter { loop {} } }
    impl<T: Copy + Ord> PartialEq<Range<T>> for RangeSet<T> { fn eq(&self, o: &Range<T>) -> bool { loop {} } }
}
pub mod iter {
    use super::*;
    use std::ops::{Range, RangeInclusive};
    use set::RangeSet;
    pub struct RangeSetIter<'a, T>(std::marker::PhantomData<&'a T>);
    impl<'a, T> Clone for RangeSetIter<'a, T> { fn clone(&self) -> Self { loop {} } }
    impl<'a, T> Iterator for RangeSetIter<'a, T> { type Item = Range<T>; fn next(&mut self) -> Option<Range<T>> { loop {} } }
    impl<'a, T> DoubleEndedIterator for RangeSetIter<'a, T> { fn next_back(&mut self) -> Option<Range<T>> { loop {} } }
    impl<'a, T> ExactSizeIterator for RangeSetIter<'a, T> { fn len(&self) -> usize { loop {} } }
    pub struct ValueIter<T>(std::marker::PhantomData<T>);
    impl<T> Iterator for ValueIter<T> { type Item = T; fn next(&mut self) -> Option<T> { loop {} } }
    pub struct OpIter<T>(std::marker::PhantomData<T>);
    impl<T> Iterator for OpIter<T> { type Item = Range<T>; fn next(&mut self) -> Option<Range<T>> { loop {} } }
    pub trait RangeIterator<T>: Iterator<Item = Range<T>> + Sized { fn into_set(self) -> RangeSet<T> where T: Copy + Ord { loop {} } }
    impl<T, I: Iterator<Item = Range<T>>> RangeIterator<T> for I {}
    pub trait IntoRangeIterator<T> { type IntoIter: RangeIterator<T>; fn into_range_iter(self) -> Self::IntoIter; }
    macro_rules! imp { ($(($($g:tt)*) $t:ty),*) => { $(impl<$($g)*> IntoRangeIterator<T> for $t { type IntoIter = OpIter<T>; fn into_range_iter(self) -> OpIter<T> { loop {} } })* } }
    imp!((T) RangeSet<T>, ('a, T) &'a RangeSet<T>, (T) Range<T>, ('a, T) &'a Range<T>, (T) RangeInclusive<T>, (T) Vec<Range<T>>, ('a, T) &'a Vec<Range<T>>, ('a, T) &'a [Range<T>], (T, const N: usize) [Range<T>; N], ('a, T, const N: usize) &'a [Range<T>; N], ('a, T) RangeSetIter<'a, T>, (T) OpIter<T>, ('a, 'b, T) &'a &'b RangeSet<T>, ('a, T) &'a mut RangeSet<T>);
    pub trait FromRangeIterator<T>: Sized { fn from_range_iter<I: IntoRangeIterator<T>>(iter: I) -> Self; }
    impl<T> FromRangeIterator<T> for RangeSet<T> { fn from_range_iter<I: IntoRangeIterator<T>>(iter: I) -> Self { loop {} } }
}
pub mod ops {
    use super::*;
    use std::ops::Range;
    use set::RangeSet;
    pub trait Set<T> {
        fn is_subset<R: iter::IntoRangeIterator<T>>(&self, other: R) -> bool { loop {} }
        fn is_disjoint<R: iter::IntoRangeIterator<T>>(&self, other: R) -> bool { loop {} }
        fn difference<R: iter::IntoRangeIterator<T>>(&self, other: R) -> iter::OpIter<T> { loop {} }
        fn intersection<R: iter::IntoRangeIterator<T>>(&self, other: R) -> iter::OpIter<T> { loop {} }
        fn union<R: iter::IntoRangeIterator<T>>(&self, other: R) -> iter::OpIter<T> { loop {} }
        fn symmetric_difference<R: iter::IntoRangeIterator<T>>(&self, other: R) -> iter::OpIter<T> { loop {} }
    }
    impl<T> Set<T> for RangeSet<T> {}
    impl<T> Set<T> for Range<T> {}
    pub trait Cover<T> {
        fn cover<'a>(&self, sets: impl IntoIterator<Item = &'a RangeSet<T>>) -> (Vec<&'a RangeSet<T>>, RangeSet<T>) where T: 'a { loop {} }
        fn cover_by<X>(&self, sets: impl IntoIterator<Item = X>, f: impl Fn(&X) -> &RangeSet<T>) -> (Vec<X>, RangeSet<T>) { loop {} }
    }
    impl<T> Cover<T> for RangeSet<T> {}
    pub struct SliceIter<'a, U>(std::marker::PhantomData<&'a U>);
    impl<'a, U> Iterator for SliceIter<'a, U> { type Item = &'a [U]; fn next(&mut self) -> Option<&'a [U]> { loop {} } }
    pub trait Index<U> {
        fn index<'a>(&'a self, idx: &'a RangeSet<usize>) -> SliceIter<'a, U> { loop {} }
    }
    impl<U> Index<U> for Vec<U> {}
    impl<U> Index<U> for [U] {}
}
pub mod prelude { pub use crate::{iter::{FromRangeIterator, IntoRangeIterator, RangeIterator}, ops::{Cover, Index, Set}, set::RangeSet}; }
