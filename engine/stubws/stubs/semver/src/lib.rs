//! interface of semver used by /repo
use std::fmt;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Version { pub major: u64, pub minor: u64, pub patch: u64, pub pre: Prerelease, pub build: BuildMetadata }
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct Prerelease(String);
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct BuildMetadata(String);
impl Version { pub fn parse(_s: &str) -> Result<Self, Error> { unimplemented!() } pub fn cmp_precedence(&self, _o: &Self) -> std::cmp::Ordering { unimplemented!() } }
#[derive(Debug)] pub struct Error;
impl fmt::Display for Error { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
impl fmt::Display for Version { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl serde::Serialize for Version { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de> serde::Deserialize<'de> for Version { fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() } }
