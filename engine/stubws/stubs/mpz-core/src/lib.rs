//! interface of mpz-core used by /repo
pub mod bitvec { 
    #[derive(Debug, Clone, Default, PartialEq, Eq)] pub struct BitVec(Vec<bool>);
}
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Block([u8; 16]);
impl Block { pub const ZERO: Block = Block([0; 16]); pub fn to_bytes(self) -> [u8; 16] { unimplemented!() } pub fn reverse_bits(&self) -> Self { unimplemented!() } pub fn new(_b: [u8; 16]) -> Self { unimplemented!() } 
  pub fn random<R: ?Sized>(_r: &mut R) -> Self { unimplemented!() } }
impl From<[u8; 16]> for Block { fn from(_: [u8; 16]) -> Self { unimplemented!() } }
impl From<Block> for [u8; 16] { fn from(_: Block) -> Self { unimplemented!() } }
