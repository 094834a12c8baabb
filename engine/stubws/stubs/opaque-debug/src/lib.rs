//! Interface of the `opaque-debug` crate.
#[macro_export]
macro_rules! implement { ($t:ident) => { impl ::core::fmt::Debug for $t { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(stringify!($t)) } } };
  ($t:ident <$($p:ident),+>) => { impl <$($p),+> ::core::fmt::Debug for $t <$($p),+> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(stringify!($t)) } } } }
