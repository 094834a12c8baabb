//! interface of mpz-ot used by /repo
pub mod rcot { 
    pub trait RCOTSender<T> { fn delta(&self) -> T; }
    pub trait RCOTReceiver<T, U> { fn alloc(&mut self, n: usize); }
}
pub mod rot {
    pub mod any { use std::marker::PhantomData; #[derive(Debug)] pub struct AnySender<T>(PhantomData<T>); #[derive(Debug)] pub struct AnyReceiver<T>(PhantomData<T>); impl<T> AnySender<T> { pub fn new(_t: T) -> Self { unimplemented!() } } impl<T> AnyReceiver<T> { pub fn new(_t: T) -> Self { unimplemented!() } } }
    pub mod randomize { use std::marker::PhantomData; #[derive(Debug)] pub struct RandomizeRCOTSender<T>(PhantomData<T>); #[derive(Debug)] pub struct RandomizeRCOTReceiver<T>(PhantomData<T>); impl<T> RandomizeRCOTSender<T> { pub fn new(_t: T) -> Self { unimplemented!() } } impl<T> RandomizeRCOTReceiver<T> { pub fn new(_t: T) -> Self { unimplemented!() } } }
}
