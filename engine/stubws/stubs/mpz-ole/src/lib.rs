//! interface of mpz-ole used by /repo
use std::marker::PhantomData;
#[derive(Debug)] pub struct Sender<T>(PhantomData<T>);
#[derive(Debug)] pub struct Receiver<T>(PhantomData<T>);
impl<T> Sender<T> { pub fn new<B>(_b: B, _t: T) -> Self { unimplemented!() } }
impl<T> Receiver<T> { pub fn new(_t: T) -> Self { unimplemented!() } }
