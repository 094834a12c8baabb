//! Interface of the tlsnotary fork of `rs_merkle`; no behaviour.
#![allow(unused)]
pub trait Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>> { const SIZE: usize; }
pub trait Hasher: Clone {
    type Hash: Hash;
    fn hash(&self, data: &[u8]) -> Self::Hash;
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct MerkleProof<H>(Vec<H>);
impl<H: Hash> MerkleProof<H> {
    pub fn verify<T: Hasher<Hash = H>>(&self, hasher: &T, root: H, leaf_indices: &[usize], leaf_hashes: &[H], total_leaves_count: usize) -> bool { loop {} }
    pub fn root<T: Hasher<Hash = H>>(&self, hasher: &T, leaf_indices: &[usize], leaf_hashes: &[H], total_leaves_count: usize) -> Result<H, ()> { loop {} }
    pub fn proof_hashes(&self) -> &[H] { loop {} }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct MerkleTree<H>(Vec<H>);
impl<H> Default for MerkleTree<H> { fn default() -> Self { loop {} } }
impl<H: Hash> MerkleTree<H> {
    pub fn new() -> Self { loop {} }
    pub fn root(&self) -> Option<H> { loop {} }
    pub fn append(&mut self, leaves: &mut Vec<H>) -> &mut Self { loop {} }
    pub fn insert(&mut self, leaf: H) -> &mut Self { loop {} }
    pub fn commit<T: Hasher<Hash = H>>(&mut self, hasher: &T) { loop {} }
    pub fn leaves_len(&self) -> usize { loop {} }
    pub fn leaves(&self) -> Option<Vec<H>> { loop {} }
    pub fn proof(&self, leaf_indices: &[usize]) -> MerkleProof<H> { loop {} }
}
