//! Interface of the `bimap` crate; no behaviour.
#![allow(unused)]
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct BiMap<L, R>(Vec<(L, R)>);
pub type BiHashMap<L, R> = BiMap<L, R>;
pub enum Overwritten<L, R> { Neither, Left(L, R), Right(L, R), Pair(L, R), Both((L, R), (L, R)) }
impl<L, R> Default for BiMap<L, R> { fn default() -> Self { loop {} } }
impl<L, R> BiMap<L, R> {
    pub fn new() -> Self { loop {} }
    pub fn len(&self) -> usize { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn get_by_left<Q: ?Sized>(&self, l: &Q) -> Option<&R> { loop {} }
    pub fn get_by_right<Q: ?Sized>(&self, r: &Q) -> Option<&L> { loop {} }
    pub fn contains_left<Q: ?Sized>(&self, l: &Q) -> bool { loop {} }
    pub fn contains_right<Q: ?Sized>(&self, r: &Q) -> bool { loop {} }
    pub fn insert(&mut self, l: L, r: R) -> Overwritten<L, R> { loop {} }
    pub fn insert_no_overwrite(&mut self, l: L, r: R) -> Result<(), (L, R)> { loop {} }
    pub fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&'a L, &'a R)> + 'a> { loop {} }
    pub fn left_values<'a>(&'a self) -> Box<dyn Iterator<Item = &'a L> + 'a> { loop {} }
    pub fn right_values<'a>(&'a self) -> Box<dyn Iterator<Item = &'a R> + 'a> { loop {} }
}
impl<L, R> FromIterator<(L, R)> for BiMap<L, R> { fn from_iter<I: IntoIterator<Item = (L, R)>>(i: I) -> Self { loop {} } }
