//! The verifier of /repo/crates/tlsn (the files named in `links` are the repository's own), with the interfaces of the sibling modules it
//! uses.  Those need dependencies that are not present here; what they compute is opaque.
#![allow(dead_code, unused)]
pub mod error;
pub(crate) mod map;
pub(crate) mod msg;
pub mod verifier;
pub use error::Error;
pub type Result<T, E = Error> = core::result::Result<T, E>;
use semver::Version;
use std::sync::LazyLock;
pub(crate) static VERSION: LazyLock<Version> = LazyLock::new(|| Version::parse("").expect(""));
pub(crate) const PROXY_STREAM_PREFIX: &[u8] = b"proxy_stream";
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub(crate) enum Role { Prover, Verifier }
pub(crate) struct TlsOutput { pub(crate) keys: mpc_tls::SessionKeys, pub(crate) tls_transcript: tlsn_core::transcript::TlsTranscript }
#[derive(Debug)] pub struct Mpc {}
#[derive(Debug)] pub struct Proxy {}
pub(crate) mod deps {
    use super::*;
    use mpz_common::{Context, ContextId};
    use mpz_memory_core::{*, binary::Binary};
    use mpz_vm_core::*;
    use std::sync::Arc;
    use tlsn_core::config::tls_commit::TlsCommitConfig;
    pub(crate) struct VerifierMpc(());
    pub(crate) struct VerifierZk(());
    impl Memory<Binary> for VerifierZk { type Error = VmError; fn is_alloc_raw(&self, _s: Slice) -> bool { unimplemented!() } }
    impl View<Binary> for VerifierZk { type Error = VmError; fn is_pub_raw(&self, _s: Slice) -> bool { unimplemented!() } }
    impl Callable<Binary> for VerifierZk { fn call_raw(&mut self, _c: Call) -> std::result::Result<Slice, VmError> { unimplemented!() } }
    #[async_trait::async_trait]
    impl Execute for VerifierZk {
        fn wants_flush(&self) -> bool { unimplemented!() } async fn flush(&mut self, ctx: &mut Context) -> std::result::Result<(), VmError> { unimplemented!() }
        fn wants_preprocess(&self) -> bool { unimplemented!() } async fn preprocess(&mut self, ctx: &mut Context) -> std::result::Result<(), VmError> { unimplemented!() }
        fn wants_execute(&self) -> bool { unimplemented!() } async fn execute(&mut self, ctx: &mut Context) -> std::result::Result<(), VmError> { unimplemented!() }
        async fn execute_all(&mut self, ctx: &mut Context) -> std::result::Result<(), VmError> { unimplemented!() }
    }
    pub(crate) struct Deap<M, Z>(M, Z);
    impl<M, Z> Deap<M, Z> {
        pub(crate) fn into_inner(self) -> (M, Z) { unimplemented!() }
        pub(crate) async fn finalize(&mut self, _ctx: &mut Context) -> std::result::Result<(), VmError> { unimplemented!() }
    }
    pub(crate) struct VerifierMpcDeps { pub(crate) vm: Arc<tokio::sync::Mutex<Deap<VerifierMpc, VerifierZk>>>, pub(crate) mpc_tls: Box<mpc_tls::MpcTlsFollower>, pub(crate) keys: Option<mpc_tls::SessionKeys> }
    pub(crate) struct VerifierProxyDeps { pub(crate) verifier: Box<crate::proxy::ProxyVerifier>, pub(crate) id: ContextId }
    pub(crate) enum VerifierDeps { Mpc(VerifierMpcDeps), Proxy(VerifierProxyDeps) }
    impl VerifierDeps {
        pub(crate) fn new(config: &TlsCommitConfig, ctx: Context) -> Self { unimplemented!() }
        pub(crate) async fn setup(&mut self) -> std::result::Result<(), Error> { unimplemented!() }
    }
}
pub(crate) mod proxy {
    use super::*;
    use mpz_common::Context;
    use std::{io, pin::Pin, task::Poll};
    pub(crate) struct ProxyVerifier(());
    impl ProxyVerifier {
        pub(crate) async fn finalize(self, sent: &[u8], recv: &[u8], conn_time: u64) -> std::result::Result<(Context, deps::VerifierZk, TlsOutput, VerifyDataCheck, VerifyDataCheck), Error> { unimplemented!() }
    }
    pub(crate) struct VerifyDataCheck(());
    impl VerifyDataCheck { pub(crate) fn check(self, vm: &mut dyn mpz_vm_core::Vm<mpz_memory_core::binary::Binary>) -> std::result::Result<(), Error> { unimplemented!() } }
    pub(crate) struct InspectReader<'a, R> { inner: R, buf: &'a mut Vec<u8> }
    impl<'a, R> InspectReader<'a, R> {
        pub(crate) fn new(inner: R, buf: &'a mut Vec<u8>) -> Self { unimplemented!() }
        pub(crate) fn first_read(&self) -> Option<u64> { unimplemented!() }
    }
    impl<R: futures::AsyncRead + Unpin> futures::AsyncRead for InspectReader<'_, R> { fn poll_read(self: Pin<&mut Self>, _c: &mut std::task::Context<'_>, _b: &mut [u8]) -> Poll<io::Result<usize>> { unimplemented!() } }
}
pub(crate) mod tag {
    use mpz_memory_core::{Array, binary::{Binary, U8}};
    use mpz_vm_core::Vm;
    use tlsn_core::{connection::TlsVersion, transcript::Record};
    #[must_use] pub(crate) struct TagProof(());
    #[derive(Debug, thiserror::Error)] #[error("tag")] pub(crate) struct TagProofError;
    impl TagProof { pub(crate) fn verify(self) -> Result<(), TagProofError> { unimplemented!() } }
    pub(crate) fn verify_tags(vm: &mut dyn Vm<Binary>, key_iv: (Array<U8, 16>, Array<U8, 4>), mac_key: Array<U8, 16>, tls_version: TlsVersion, records: Vec<Record>) -> Result<TagProof, TagProofError> { unimplemented!() }
}
pub(crate) mod transcript_internal {
    use mpz_memory_core::{Vector, binary::U8};
    pub(crate) type ReferenceMap = crate::map::RangeMap<Vector<U8>>;
    #[derive(Debug, Default, Clone)]
    pub(crate) struct TranscriptRefs { pub(crate) sent: ReferenceMap, pub(crate) recv: ReferenceMap }
    pub(crate) mod auth {
        use mpz_memory_core::{Array, binary::{Binary, U8}};
        use mpz_vm_core::Vm;
        use rangeset::set::RangeSet;
        use tlsn_core::transcript::Record;
        #[derive(Debug, thiserror::Error)] #[error("auth")] pub(crate) struct PlaintextAuthError;
        #[must_use] pub(crate) struct PlaintextProof<'a>(std::marker::PhantomData<&'a u8>);
        impl<'a> PlaintextProof<'a> { pub(crate) fn verify(self) -> Result<(), PlaintextAuthError> { unimplemented!() } }
        pub(crate) fn verify_plaintext<'a>(vm: &mut dyn Vm<Binary>, key: Array<U8, 16>, iv: Array<U8, 4>, plaintext: &'a [u8], ciphertext: &'a [u8], records: impl IntoIterator<Item = &'a Record>, reveal: &RangeSet<usize>, commit: &RangeSet<usize>) -> Result<(super::ReferenceMap, PlaintextProof<'a>), PlaintextAuthError> { unimplemented!() }
    }
    pub(crate) mod commit { pub(crate) mod hash {
        use mpz_memory_core::binary::Binary;
        use mpz_vm_core::Vm;
        use rangeset::set::RangeSet;
        use tlsn_core::{hash::HashAlgId, transcript::{Direction, hash::PlaintextHash}};
        #[derive(Debug, thiserror::Error)] #[error("hash")] pub(crate) struct HashCommitError;
        pub(crate) struct HashCommitFuture(());
        impl HashCommitFuture { pub(crate) fn try_recv(self) -> Result<Vec<PlaintextHash>, HashCommitError> { unimplemented!() } }
        pub(crate) fn verify_hash(vm: &mut dyn Vm<Binary>, refs: &crate::transcript_internal::TranscriptRefs, idxs: impl IntoIterator<Item = (Direction, RangeSet<usize>, HashAlgId)>) -> Result<HashCommitFuture, HashCommitError> { unimplemented!() }
    } }
}
