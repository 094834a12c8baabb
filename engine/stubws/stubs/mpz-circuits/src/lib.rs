//! interface of mpz-circuits used by /repo
use std::sync::{Arc, LazyLock};
#[derive(Debug)] pub struct Circuit(());
#[derive(Debug, Clone, Copy)] pub struct Feed;
#[derive(Debug, Clone, Copy)] pub struct Node<T>(std::marker::PhantomData<T>);
#[derive(Debug)] pub struct BuilderError;
pub struct CircuitBuilder(());
impl CircuitBuilder { pub fn new() -> Self { unimplemented!() } pub fn add_input(&mut self) -> Node<Feed> { unimplemented!() } pub fn add_id_gate(&mut self, _a: Node<Feed>) -> Node<Feed> { unimplemented!() }
  pub fn add_xor_gate(&mut self, _a: Node<Feed>, _b: Node<Feed>) -> Node<Feed> { unimplemented!() } pub fn add_and_gate(&mut self, _a: Node<Feed>, _b: Node<Feed>) -> Node<Feed> { unimplemented!() } pub fn add_inv_gate(&mut self, _a: Node<Feed>) -> Node<Feed> { unimplemented!() }
  pub fn add_output(&mut self, _a: Node<Feed>) { unimplemented!() } pub fn build(self) -> Result<Circuit, BuilderError> { unimplemented!() } }
pub mod ops { use crate::*; pub fn add_mod(_b: &mut CircuitBuilder, _x: &[Node<Feed>], _y: &[Node<Feed>], _m: &[Node<Feed>]) -> Vec<Node<Feed>> { unimplemented!() } }
pub mod circuits { pub fn xor(_n: usize) -> crate::Circuit { unimplemented!() } }
pub static AES128: LazyLock<Arc<Circuit>> = LazyLock::new(|| unimplemented!());
pub static AES128_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| unimplemented!());
pub static AES128_POST_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| unimplemented!());
