//! Interface of the `spansy` crate; no behaviour.
#![allow(unused)]
use rangeset::{iter::{IntoRangeIterator, OpIter}, set::RangeSet};
use std::ops::Range;
#[derive(Debug)]
pub struct ParseError(std::string::String);
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for ParseError {}
pub struct View<T: ?Sized = [u8]>(std::marker::PhantomData<T>);
impl<T: ?Sized> std::fmt::Debug for View<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl<T: ?Sized> Clone for View<T> { fn clone(&self) -> Self { loop {} } }
impl<T: ?Sized> View<T> {
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn len(&self) -> usize { loop {} }
}
impl View<str> { pub fn as_str(&self) -> &str { loop {} } }
impl<T: ?Sized> View<T> { pub fn as_bytes(&self) -> &[u8] { loop {} } }
macro_rules! ranged { ($($t:ty),*) => { $(
    impl IntoRangeIterator<usize> for $t { type IntoIter = OpIter<usize>; fn into_range_iter(self) -> OpIter<usize> { loop {} } }
    impl<'a> IntoRangeIterator<usize> for &'a $t { type IntoIter = OpIter<usize>; fn into_range_iter(self) -> OpIter<usize> { loop {} } }
    impl<'a, 'b> IntoRangeIterator<usize> for &'b &'a $t { type IntoIter = OpIter<usize>; fn into_range_iter(self) -> OpIter<usize> { loop {} } }
)* } }
pub mod http {
    use super::*;
    macro_rules! part { ($($n:ident { $($f:ident : $t:ty),* })*) => { $(
        #[derive(Debug, Clone)]
        pub struct $n { $(pub $f: $t,)* pub(crate) span: View }
        impl $n { pub fn view(&self) -> &View { loop {} } pub fn len(&self) -> usize { loop {} } }
        ranged!($n);
    )* } }
    part! {
        Target {} Method {} RequestLine { method: Method, target: Target } Code {} Reason {} Status { code: Code, reason: Reason }
        HeaderName {} HeaderValue {} Header { name: HeaderName, value: HeaderValue }
        Request { request: RequestLine, headers: Vec<Header>, body: Option<Body> }
        Response { status: Status, headers: Vec<Header>, body: Option<Body> }
        Body { content: BodyContent } Unknown {}
    }
    #[derive(Debug, Clone)]
    #[non_exhaustive]
    pub enum BodyContent { Json(json::JsonDocument), Unknown(Unknown) }
    impl Target { pub fn as_str(&self) -> &str { loop {} } }
    impl Method { pub fn as_str(&self) -> &str { loop {} } }
    impl HeaderName { pub fn as_str(&self) -> &str { loop {} } }
    impl HeaderValue { pub fn as_bytes(&self) -> &[u8] { loop {} } }
    impl Header { pub fn without_value(&self) -> RangeSet<usize> { loop {} } }
    impl Request { pub fn without_data(&self) -> RangeSet<usize> { loop {} } pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header> { std::iter::empty() } }
    impl Response { pub fn without_data(&self) -> RangeSet<usize> { loop {} } pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header> { std::iter::empty() } }
    macro_rules! many { ($($n:ident $t:ident)*) => { $(
        #[derive(Debug)]
        pub struct $n(());
        impl $n { pub fn new(src: bytes::Bytes) -> Self { loop {} } pub fn new_from_slice(src: &[u8]) -> Self { loop {} } }
        impl Iterator for $n { type Item = Result<$t, ParseError>; fn next(&mut self) -> Option<Self::Item> { loop {} } }
    )* } }
    many!(Requests Request Responses Response);
    pub fn parse_request(src: &[u8]) -> Result<Request, ParseError> { loop {} }
    pub fn parse_response(src: &[u8]) -> Result<Response, ParseError> { loop {} }
}
pub mod json {
    use super::*;
    macro_rules! part { ($($n:ident { $($f:ident : $t:ty),* })*) => { $(
        #[derive(Debug, Clone)]
        pub struct $n { $(pub $f: $t,)* pub(crate) span: View<str> }
        impl $n { pub fn view(&self) -> &View<str> { loop {} } pub fn len(&self) -> usize { loop {} } }
        ranged!($n);
    )* } }
    part! { JsonKey {} Number {} Bool {} Null {} String {} KeyValue { key: JsonKey, value: JsonValue } Object { elems: Vec<KeyValue> } Array { elems: Vec<JsonValue> } }
    #[derive(Debug, Clone)]
    pub enum JsonValue { Null(Null), Bool(Bool), Number(Number), String(String), Array(Array), Object(Object) }
    ranged!(JsonValue);
    impl JsonValue { pub fn get(&self, path: &str) -> Option<&JsonValue> { loop {} } pub fn view(&self) -> &View<str> { loop {} } }
    #[derive(Debug, Clone)]
    pub struct JsonDocument { pub root: JsonValue }
    impl KeyValue { pub fn without_value(&self) -> RangeSet<usize> { loop {} } }
    impl Object { pub fn without_pairs(&self) -> RangeSet<usize> { loop {} } pub fn get(&self, path: &str) -> Option<&JsonValue> { loop {} } }
    impl Array { pub fn without_values(&self) -> RangeSet<usize> { loop {} } pub fn separators(&self) -> RangeSet<usize> { loop {} } pub fn get(&self, path: &str) -> Option<&JsonValue> { loop {} } }
    pub trait JsonVisit {
        fn visit_value(&mut self, node: &JsonValue) { loop {} }
        fn visit_object(&mut self, node: &Object) { loop {} }
        fn visit_array(&mut self, node: &Array) { loop {} }
        fn visit_key_value(&mut self, node: &KeyValue) { loop {} }
        fn visit_key(&mut self, node: &JsonKey) { loop {} }
        fn visit_number(&mut self, node: &Number) { loop {} }
        fn visit_bool(&mut self, node: &Bool) { loop {} }
        fn visit_null(&mut self, node: &Null) { loop {} }
        fn visit_string(&mut self, node: &String) { loop {} }
    }
}
