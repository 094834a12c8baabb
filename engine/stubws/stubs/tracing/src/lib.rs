//! interface of tracing used by /repo; events do nothing
pub use tracing_attributes_stub::instrument;
#[derive(Debug, Clone)] pub struct Span(());
impl Span { pub fn current() -> Self { unimplemented!() } pub fn none() -> Self { unimplemented!() } pub fn in_scope<F: FnOnce() -> T, T>(&self, f: F) -> T { f() } pub fn enter(&self) -> Entered<'_> { unimplemented!() }
    pub fn record<T>(&self, _k: &str, _v: T) -> &Self { unimplemented!() } }
pub struct Entered<'a>(&'a Span);
pub trait Instrument: Sized { fn instrument(self, _s: Span) -> Self { self } fn in_current_span(self) -> Self { self } }
impl<T> Instrument for T {}
#[macro_export] macro_rules! trace { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! debug { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! info { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! warn { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! error { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span::none() } }
#[macro_export] macro_rules! debug_span { ($($t:tt)*) => { $crate::Span::none() } }
