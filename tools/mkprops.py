#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per entry below)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
T='crates/tls-core/src/'
# ---------------------------------------------------------------- TLS core: authentication
p('T01','A server certificate is accepted only after every required check',
  'A server certificate is accepted only if it chains, through the supplied intermediates, to one of the configured trust anchors at the supplied time and for server authentication, if the presented certificate-transparency timestamps satisfy the configured policy, and if it is valid for the requested server name. Any failure of one of these is reported as an error and never as acceptance.',
  ['inputs','configurations'],'every certificate chain, server name, time, SCT list, root store and CT policy',
  'Tests use a handful of fixed certificates; an acceptance path that skips one check for a particular shape of input is not among them.',
  [T+'verify.rs',T+'anchors.rs'],[('WebPkiVerifier::verify_server_cert',T+'verify.rs'),('CertificateTransparencyPolicy::verify',T+'verify.rs')],
  ['Result of certificate verification'])
p('T02','Handshake signature schemes select exactly the algorithms they name',
  'For every signature scheme in a handshake signature, only verification algorithms with that scheme\'s key type, hash and padding are tried; schemes with no secure algorithm (SHA-1, unknown code points) are rejected, and in TLS 1.3 the curve is also fixed and PKCS#1 v1.5 is refused. The set of schemes offered to the server is exactly the set that can be verified.',
  ['inputs'],'all 65536 scheme code points, both protocol versions',
  'Tests sample one or two schemes; the table must be right for every code point.',
  [T+'verify.rs'],[('convert_scheme / convert_alg_tls13',T+'verify.rs'),('verification_schemes',T+'verify.rs')])
p('T03','A handshake signature is accepted only if it verifies over the exact message',
  'A TLS 1.2 or TLS 1.3 handshake signature is accepted only if it verifies under the public key of the presented end-entity certificate over exactly the message supplied (for TLS 1.3: 64 spaces, the role-specific context string and the transcript hash); a failure of any kind other than an algorithm/key-type mismatch is final, and when no algorithm fits the key the signature is rejected.',
  ['inputs'],'every message, certificate, signature and transcript hash',
  'Tests have one valid and a few invalid signatures; the absence of a bypass path cannot be sampled.',
  [T+'verify.rs'],[('verify_sig_using_any_alg / verify_signed_struct / verify_tls13',T+'verify.rs'),('construct_tls13_*_verify_message',T+'verify.rs')])
p('T04','The reported server signature algorithm is the one that verified',
  'When the library reports which signature algorithm a server used in the key exchange, the report names the very algorithm (hash, padding and curve) that verified the signature; two algorithms that differ in any of these never map to the same report.',
  ['inputs'],'every supported algorithm and certificate key type',
  'Tests use a single RSA certificate; the mapping must be injective over all supported algorithms.',
  [T+'verify.rs'],[('SignatureAlgorithm::from_alg',T+'verify.rs'),('verify_sig_determine_alg',T+'verify.rs')])
p('T05','Recorded handshake data verifies only against its own certificate and keys',
  'Recorded TLS 1.2 handshake data verifies only if its chain is non-empty and valid for the given server name at the given time, and its key-exchange signature verifies under its end-entity certificate over client random, server random and key-exchange parameters in that order; every failure is reported.',
  ['inputs'],'every recorded handshake, name and time',
  'There is no test of this path with altered fields in the buildable suite.',
  [T+'handshake.rs'],[('HandshakeData::verify',T+'handshake.rs')])
p('T06','Proof-of-verification tokens exist only where verification happened',
  'The zero-sized values whose existence means "certificate verified", "signature verified" or "Finished verified" are produced only by code that has performed (and obtained success from) the corresponding verification; they cannot be copied, defaulted, deserialised or otherwise conjured.',
  ['programs'],'every call site in the workspace that can produce such a value',
  'A test cannot show that no other code path constructs the value.',
  [T+'verify.rs','crates/mpc-tls/src'],[('private constructors + assertion()',T+'verify.rs')])
# ---------------------------------------------------------------- TLS core: wire formats
p('T07','Parsing attacker-supplied TLS bytes never panics',
  'Decoding any byte string as a TLS record, handshake message, extension, alert or key-exchange structure either yields a value or reports failure; it never panics, indexes out of bounds or overflows, whatever the bytes.',
  ['inputs'],'every byte string given to any decoder',
  'Tests decode valid messages and some truncations; the input space is unbounded.',
  [T+'msgs/codec.rs',T+'msgs/handshake.rs',T+'msgs/base.rs',T+'msgs/message.rs',T+'suites/tls12.rs'],[('Reader::take / sub bounds checks',T+'msgs/codec.rs'),('Option-returning decoders',T+'msgs/handshake.rs')])
p('T08','Encoding and decoding of every TLS structure agree field by field',
  'For every TLS wire structure, the decoder reads the same fields in the same order, with the same widths and length prefixes, as the encoder writes, and puts each into the field it came from; every extension or message variant is decoded under the type code with which it is encoded.',
  ['inputs'],'every value of every wire structure',
  'Round-trip tests cover one sample value per structure, and symmetric samples hide swapped or conditionally dropped fields.',
  [T+'msgs/handshake.rs',T+'msgs/base.rs',T+'msgs/alert.rs',T+'msgs/codec.rs'],[('Codec implementations',T+'msgs/handshake.rs')])
p('T09','Length-delimited TLS structures must be consumed exactly',
  'A handshake message body, extension body, key-exchange parameter block or record payload is accepted only if decoding consumes all of its bytes; trailing bytes inside a length-delimited structure are rejected rather than ignored.',
  ['inputs'],'every length-delimited structure in every message',
  'Tests try trailing bytes on few of the structures.',
  [T+'msgs/handshake.rs',T+'msgs/message.rs',T+'msgs/ccs.rs',T+'suites/tls12.rs'],[('any_left checks',T+'msgs/handshake.rs')])
p('T10','Protocol code points map one-to-one onto their standard values',
  'Every enumerated protocol value (versions, cipher suites, groups, signature schemes, handshake, record, extension and alert types, ...) is encoded as its IANA-assigned code point and every code point decodes to the value it denotes; unassigned code points are preserved, so that decoding then encoding is the identity on all code points.',
  ['inputs'],'all 256 or 65536 code points of each enumeration',
  'The enum test checks the first and last entry of some enumerations.',
  [T+'msgs/enums.rs',T+'msgs/macros.rs'],[('enum_builder tables',T+'msgs/enums.rs')])
p('T11','Integers and length prefixes on the wire are big-endian and exact',
  'Integers are written and read in network byte order with their declared width, and a length-prefixed list is written with a prefix equal to the number of bytes that follow and read by decoding items from exactly that many bytes; a limit on a list length is enforced before its contents are decoded.',
  ['inputs'],'every integer and list of encodable items',
  'Tests use short lists whose prefix fits in one byte and palindromic values.',
  [T+'msgs/codec.rs'],[('encode_vec_* / read_vec_* / integer codecs',T+'msgs/codec.rs')])
p('T12','Record framing accepts exactly the well-formed records',
  'A record is accepted only if its content type is known, its version is known or has the TLS major number, its length is below the protocol maximum and non-zero unless it is application data, and all bytes announced are present; a prefix of a possibly valid record is reported as incomplete and never as invalid, and an invalid one never as incomplete.',
  ['inputs','histories'],'every byte prefix of every record stream',
  'Tests cover specific lengths; boundary values and type/version combinations are not enumerated.',
  [T+'msgs/message.rs',T+'msgs/deframer.rs'],[('OpaqueMessage::read',T+'msgs/message.rs'),('try_deframe_one',T+'msgs/deframer.rs')])
p('T13','Record deframing loses, duplicates and reorders no bytes',
  'Whatever the chunking of the incoming byte stream, records come out in the order in which they arrived, each exactly once and with the bytes between them intact; once an invalid record has been seen the deframer stays desynchronised, and unread bytes are reported as pending.',
  ['histories','inputs'],'every split of the stream into reads, including short and empty reads',
  'Tests feed a few fixed chunkings.',
  [T+'msgs/deframer.rs'],[('read / read_async / buf_consume',T+'msgs/deframer.rs')])
p('T14','Handshake reassembly is exact, bounded and reports alignment',
  'Handshake messages are reassembled from record payloads in order, using exactly the announced number of bytes for each; a message announcing more than the maximum size, or one that does not decode under the negotiated version, is rejected, and the joiner reports alignment only when no partial message is buffered.',
  ['histories','inputs'],'every fragmentation and coalescing of handshake messages',
  'Tests use a few fixed fragmentations.',
  [T+'msgs/hsjoiner.rs'],[('HandshakeJoiner',T+'msgs/hsjoiner.rs')])
p('T15','Outgoing fragmentation respects the limit and preserves the message',
  'An outgoing message is split into consecutive fragments that concatenate to the original payload, carry its content type and version, and never exceed the configured maximum; a configured limit outside the permitted range is refused.',
  ['inputs','configurations'],'every payload length and permitted limit',
  'Tests use one payload and limit.',
  [T+'msgs/fragmenter.rs'],[('MessageFragmenter',T+'msgs/fragmenter.rs')])
p('T16','A record payload is interpreted only as its declared content type',
  'The payload of a plaintext record is decoded as the structure of its declared content type only, alert, change-cipher-spec and handshake payloads that do not decode exactly are rejected, and converting a message to a record preserves its content type, version and bytes.',
  ['inputs'],'every content type and payload',
  'Tests cover a few valid and truncated payloads.',
  [T+'msgs/message.rs',T+'msgs/ccs.rs',T+'msgs/alert.rs'],[('MessagePayload::new / content_type / encode',T+'msgs/message.rs')])
p('T17','Handshake bodies are decoded according to the negotiated version',
  'Each handshake message type is decoded with the structure defined for it under the negotiated protocol version; a ServerHello carrying the retry-request random is treated as a retry request and only then, and types that may not appear on the wire are rejected.',
  ['inputs'],'every handshake type, version and body',
  'Round-trip tests only feed bodies produced by the encoder for a matching version.',
  [T+'msgs/handshake.rs'],[('HandshakeMessagePayload::read_version',T+'msgs/handshake.rs')])
p('T18','Hello and certificate message accessors report the extension they name',
  'A query for an extension or its duplicates on a hello, retry request, certificate entry, certificate request or session ticket reflects precisely the extensions present: it returns the contents of the extension with that type and nothing else, and reports duplicates and unsolicited extensions whenever there are any.',
  ['inputs'],'every list of extensions',
  'Tests use messages with one extension of each kind in a fixed order.',
  [T+'msgs/handshake.rs'],[('has_duplicate_extension, find_extension, get_*_extension',T+'msgs/handshake.rs')])
# ---------------------------------------------------------------- TLS core: suites, crypto inputs, names
p('T19','Cipher suite parameters and compatibility are those of the standard',
  'Each supported suite carries the hash, AEAD, key-exchange, nonce and signature parameters the standard assigns to it, only the suites meant to be supported are offered, and a suite is used only with a version, a signature scheme family and a resumption hash it is compatible with.',
  ['configurations','inputs'],'every supported suite, version, signature scheme and pair of suites',
  'Tests check one or two suites.',
  [T+'suites/mod.rs',T+'suites/tls12.rs',T+'suites/tls13.rs'],[('suite tables',T+'suites/tls12.rs'),('choose_ciphersuite_* / reduce_given_*',T+'suites/mod.rs')])
p('T20','Record authentication data and the key schedule bind the right inputs',
  'The additional data authenticated with a TLS 1.2 record is sequence number, content type, version and plaintext length in that order and width, randoms are joined client first for the PRF, and the PRF expands the secret with HMAC over label followed by seed as the standard prescribes for any output length.',
  ['inputs'],'every sequence number, record type, length, secret, label, seed and output length',
  'Test vectors cover one PRF output length and no AAD boundary.',
  [T+'cipher.rs',T+'prf.rs',T+'suites/tls12.rs'],[('make_tls12_aad',T+'cipher.rs'),('prf / p_hash',T+'prf.rs'),('join_randoms',T+'suites/tls12.rs')])
p('T21','Server key-exchange parameters are accepted only if well formed',
  'Server key-exchange parameters are accepted only for the key-exchange algorithm of the negotiated suite, and only as a named-curve point with nothing following it; anything else is rejected.',
  ['inputs'],'every key-exchange algorithm and parameter byte string',
  'Tests have one malformed example.',
  [T+'msgs/handshake.rs',T+'suites/tls12.rs'],[('unwrap_given_kxa',T+'msgs/handshake.rs'),('decode_ecdh_params',T+'suites/tls12.rs')])
p('T22','Server names are always syntactically valid DNS names',
  'A server name value can be created from untrusted text, bytes or serialised data only if it is a syntactically valid DNS name, it is encoded and decoded without loss, and a hello\'s server-name indication carries that name without a trailing dot.',
  ['inputs'],'every string or byte sequence offered as a name',
  'Tests try a few names.',
  [T+'dns.rs',T+'msgs/handshake.rs'],[('ServerName::try_from / read',T+'dns.rs'),('ClientExtension::make_sni',T+'msgs/handshake.rs')])
p('T23','Handshake randoms and session identifiers come from the secure generator',
  'Every fresh client random, session identifier and random integer or byte string is filled in full from the cryptographic random generator, a generator failure is propagated as an error, and no fresh value is left zero or predictable.',
  ['programs','fault_sequences'],'every place that creates such a value, including generator failure',
  'Tests cannot tell random from predictable bytes.',
  [T+'rand.rs',T+'msgs/handshake.rs'],[('fill_random / random_vec',T+'rand.rs'),('Random::new / SessionID::random',T+'msgs/handshake.rs')])
p('T24','Trust anchors and keys are presented without alteration or silent loss',
  'The subject list derived from a trust store has one entry for every trust anchor, in order and none left out, each being the DER SEQUENCE of exactly that anchor\'s subject with correctly minimal length octets for any length, and loaded certificates, keys and key-exchange results expose exactly the bytes supplied.',
  ['inputs'],'every trust store, subject length, certificate and key',
  'Tests wrap three sample lengths.',
  [T+'anchors.rs',T+'key.rs',T+'cert.rs',T+'x509.rs'],[('RootCertStore::subjects',T+'anchors.rs'),('wrap_in_sequence',T+'x509.rs')])
p('T25','Enabled protocol versions gate every version decision',
  'A protocol version is treated as enabled exactly if it was configured and the library supports it; only TLS 1.2 is enabled by default.',
  ['configurations'],'every list of configured versions',
  'Tests use the default list.',
  [T+'versions.rs'],[('EnabledVersions',T+'versions.rs')])
p('T26','Pre-shared-key binders cover the hello up to the binders',
  'The bytes signed by a pre-shared-key binder are the hello without its binder list, and the pre-shared-key extension is recognised as properly placed only if it is the last extension.',
  ['inputs'],'every hello with a PSK offer',
  'One sample hello is tested.',
  [T+'msgs/handshake.rs'],[('get_encoding_for_binder_signing / check_psk_ext_is_last',T+'msgs/handshake.rs')])
p('T27','Values compare equal exactly when all their components are equal',
  'Two protocol values of the same library type (enumerations, payloads, randoms, session identifiers, keys, certificates, server names, versions, errors) compare equal exactly when they are the same variant and all their components are equal; session identifiers compare by length and by every byte up to that length, and cipher suites by their suite code.',
  ['inputs'],'every pair of values of every library type with an equality',
  'Tests compare a few chosen pairs; a comparison that ignores one component or one byte agrees with them.',
  [T+'msgs/handshake.rs',T+'msgs/enums.rs',T+'key.rs',T+'suites/tls12.rs',T+'suites/tls13.rs'],[('PartialEq implementations',T+'msgs/handshake.rs')])
p('T28','What a decoder accepts, the encoder writes back byte for byte',
  'Whenever decoding a TLS structure from any byte string succeeds, encoding the decoded value yields exactly the bytes the decoder consumed; so bytes with a single legal value (the null compression of a hello retry request, the OCSP status type, the change-cipher-spec byte) are rejected when they differ, and no two byte strings decode to the same value.',
  ['inputs'],'every byte string given to the decoder of any wire structure',
  'Round-trip tests start from values the library builds itself, so they never present bytes the encoder would not write.',
  [T+'msgs/handshake.rs',T+'msgs/base.rs',T+'msgs/codec.rs',T+'msgs/enums.rs',T+'msgs/alert.rs',T+'msgs/ccs.rs'],[('Codec::read against Codec::encode',T+'msgs/codec.rs')])
p('T29','Messages and structures hold exactly what they are built from',
  'The constructors and accessors of message structures (alerts, key updates, message hashes, payloads, key shares, pre-shared-key offers, certificate entries, tickets, signatures, status requests, extensions) produce exactly the structure they name with the given fields unchanged and in their places, and setting a pre-shared-key binder replaces the first binder of the last extension and nothing else.',
  ['inputs'],'every argument of every constructor, accessor and editor',
  'Most of these functions have no test; swapped or altered fields of the same type compile.',
  [T+'msgs/handshake.rs',T+'msgs/message.rs',T+'msgs/base.rs'],[('constructors',T+'msgs/handshake.rs')])
# ---------------------------------------------------------------- core
C='crates/core/src/'
p('C01','A Merkle proof verifies only for the proven leaves of its root',
  'A Merkle proof is accepted only if the recomputed root over exactly the given leaves, at their indices in a tree of the recorded size, equals the given root; duplicate indices and missing leaves are rejected.',
  ['inputs'],'every proof, root and leaf set','Tests have a few small trees.',
  [C+'merkle.rs'],[('MerkleProof::verify',C+'merkle.rs')])
p('C02','Hash algorithm identifiers and hashed encodings are unambiguous',
  'Each hash algorithm has its own fixed identifier, user-defined algorithms cannot take a built-in identifier, a digest is hashed together with its domain separator, and a typed hash used with the wrong algorithm or an unknown algorithm yields an error.',
  ['inputs','configurations'],'every algorithm identifier and provider configuration','Tests use the default provider.',
  [C+'hash.rs'],[('HashAlgId, HashProvider::get, hash_prefixed',C+'hash.rs')])
p('C03','A partial transcript reveals only the requested ranges',
  'Deriving a partial transcript copies plaintext only inside the ranges to be revealed and leaves every other byte blank and marked unauthenticated; combining partial transcripts never marks a byte authenticated that neither part authenticated.',
  ['inputs'],'every transcript and range set','Tests use a few ranges.',
  [C+'transcript.rs'],[('Transcript::to_partial, PartialTranscript::union_*, CompressedPartialTranscript',C+'transcript.rs')])
p('C04','A transcript proof reveals only what its commitments authenticate',
  'A transcript proof verifies only if its lengths equal the attested connection\'s, each opening matches a commitment contained in the attestation with a known hash algorithm and in-range indices, and the union of opened ranges equals exactly the revealed ranges in each direction.',
  ['inputs'],'every proof, commitment set and length','Tests tamper with a few positions.',
  [C+'transcript/proof.rs',C+'transcript/hash.rs'],[('TranscriptProof::verify_with_provider',C+'transcript/proof.rs')])
p('C05','Plaintext commitments are hiding and bind data, range and direction',
  'A plaintext hash commitment is the hash of the exact committed bytes followed by a full-length blinder drawn freshly from the random generator, and is recorded together with the direction and ranges it covers and the algorithm used.',
  ['inputs','programs'],'every commitment made','Tests check equality of one digest.',
  [C+'transcript/hash.rs',C+'hash.rs'],[('hash_plaintext',C+'transcript/hash.rs'),('Blinder',C+'hash.rs')])
p('C06','Untrusted serialised values are validated before use',
  'Every type whose constructor enforces an invariant enforces the same invariant when it is deserialised; no serialised byte string produces a value the constructor would have refused.',
  ['inputs'],'every serialised value of every such type','Tests deserialise valid values.',
  [C+'transcript.rs',C+'transcript/commit.rs',C+'config/tls_commit/mpc.rs',C+'connection.rs'],[('serde(try_from = ...)',C+'transcript.rs')])
p('C07','The server identity in a proof is checked against the attested keys',
  'Server handshake data verifies for a name only if the attested ephemeral key equals the one in the key-exchange parameters, the certificate chain is non-empty and valid for the name at the connection time, and the key-exchange signature verifies over both randoms and the parameters with the algorithm recorded.',
  ['inputs'],'every handshake record, certificate chain and name','Tests alter one field at a time.',
  [C+'connection.rs',C+'webpki.rs'],[('HandshakeData::verify',C+'connection.rs'),('ServerCertVerifier',C+'webpki.rs')])
p('C08','Transcript commitment requests stay within the transcript',
  'Commit and reveal requests outside the transcript are refused when they are made, and only data for which a commitment exists can be offered for revelation.',
  ['inputs'],'every range request','Tests use a few ranges.',
  [C+'transcript/commit.rs',C+'transcript/proof.rs'],[('TranscriptCommitConfigBuilder::commit_with_kind',C+'transcript/commit.rs'),('TranscriptProofBuilder::reveal*',C+'transcript/proof.rs')])
p('C09','Session data limits are consistent in every accepted configuration',
  'No protocol configuration, whether built locally or received from the peer, has an online receive limit above the total receive limit, and unset optional limits take their documented defaults.',
  ['configurations','inputs'],'every configuration','Tests build one configuration.',
  [C+'config/tls_commit/mpc.rs','crates/mpc-tls/src/config.rs'],[('MpcTlsConfigBuilder::build + UncheckedConfig',C+'config/tls_commit/mpc.rs')])
p('C10','A TLS transcript is built only from a complete, well-formed session',
  'A TLS transcript is accepted only if, in each direction, the first record is a handshake record with sequence number 0 (a Finished message where its plaintext is known) and sequence numbers strictly increase; the key exchange is secp256r1 and the signature algorithm of the server\'s handshake signature is recognised; the handshake hashes cover the handshake messages in protocol order; application data records alone form the revealed transcript, in order.',
  ['histories','inputs'],'every record sequence','Tests build one.',
  [C+'transcript/tls.rs'],[('TlsTranscript::new / to_transcript',C+'transcript/tls.rs')])
# ---------------------------------------------------------------- attestation
A='crates/attestation/src/'
p('A01','An attestation proof is accepted only with valid body proof and signature',
  'An attestation proof is accepted only if the proven body fields are consistent with the root in its header and the notary\'s signature over that header verifies under the verifying key contained in the proven body, with the verifier for the recorded algorithm.',
  ['inputs'],'every proof','Tests alter one byte.',
  [A+'proof.rs'],[('AttestationProof::verify / BodyProof',A+'proof.rs')])
p('A02','Every attested field is covered by the signed root',
  'The signed root commits to every field of an attestation body, each under its own identifier and domain, so that no field can be changed, dropped or moved to another without changing the root.',
  ['inputs','programs'],'every body','Tests use one body.',
  [A+'lib.rs'],[('Body::hash_fields / root',A+'lib.rs')])
p('A03','A presentation is verified in all its parts',
  'A presentation verifies only if the attestation proof verifies and each optional part it carries - server identity and revealed transcript - verifies against the attested fields; no part is reported to the caller unless it was verified.',
  ['inputs'],'every combination of parts','Tests use the full combination.',
  [A+'presentation.rs',A+'connection.rs'],[('Presentation::verify',A+'presentation.rs')])
p('A04','A notary attests only what matches the request and its configuration',
  'An attestation is issued only for an algorithm the notary supports and has configured, over the connection data the notary itself observed together with the client\'s own certificate commitment and extensions the validator accepted; a missing item is an error.',
  ['inputs','configurations'],'every request and configuration','Tests use one request.',
  [A+'builder.rs'],[('AttestationBuilder::accept_request / build',A+'builder.rs')])
p('A05','Signature algorithm identifiers match between signing and verification',
  'Each signature algorithm identifier is used by exactly one signer and one verifier which implement the same scheme and hash, and a verifier rejects a key or signature which does not belong to its algorithm.',
  ['inputs','configurations'],'every algorithm','Tests sign and verify with the same code.',
  [A+'signing.rs'],[('signers / verifiers tables',A+'signing.rs')])
p('A06','A prover accepts only an attestation that answers its own request',
  'An attestation is accepted for a request only if its signature and hash algorithms and its certificate commitment equal those requested, it contains every extension requested, and its signature verifies.',
  ['inputs'],'every attestation','Tests alter one field at a time.',
  [A+'request.rs'],[('Request::validate',A+'request.rs')])
# ---------------------------------------------------------------- mpc-tls
M='crates/mpc-tls/src/'
p('M01','The verifying party accepts a session only with consistent handshake facts',
  'The passive party completes a session only if each handshake value was received once and before it was needed, the server key uses the permitted curve, the reported time is within the permitted skew, and the recorded Finished messages equal the values computed jointly; a missing or repeated value aborts the session.',
  ['histories'],'every sequence of messages from the peer','Tests run one honest session.',
  [M+'follower.rs',M+'utils.rs'],[('MpcTlsFollower::run',M+'follower.rs')])
p('M02','Traffic limits agreed beforehand are never exceeded',
  'No record is encrypted, decrypted or buffered that would take the session past its configured number of sent, received or online-decrypted bytes or records; the attempt fails instead.',
  ['histories','configurations'],'every sequence of records','Tests stay below the limits.',
  [M+'record_layer.rs'],[('push_encrypt / push_decrypt / flush',M+'record_layer.rs')])
p('M03','No decrypted data is released before its authentication tag is verified',
  'Plaintext of a received record is handed out only after the tag of that record has been verified, over the sequence number, type, version and length of that record; a mismatch aborts the session. (Records of public protocol messages still queued when the session is committed are decrypted at the commitment; their tags are verified together with the transcript.)',
  ['histories','inputs'],'every record','Tests decrypt valid records.',
  [M+'record_layer.rs',M+'record_layer/aead.rs',M+'record_layer/decrypt.rs'],[('flush / verify_tags',M+'record_layer.rs')])
p('M04','Every record uses a fresh nonce derived from its sequence number',
  'In each direction the sequence number starts at zero, is used for exactly one record and increases by one per record, and the explicit nonce and additional data are derived from it.',
  ['histories'],'every sequence of records','Tests send a few records.',
  [M+'record_layer.rs'],[('write_seq / read_seq',M+'record_layer.rs')])
p('M05','Application data is sent only after the server is authenticated',
  'The client state machine releases or accepts application data only after the certificate, the key-exchange signature and the server\'s Finished have been verified, in that order and on aligned record boundaries.',
  ['histories'],'every message sequence from the server','Tests run honest handshakes.',
  [M+'client/tls12.rs',M+'client/hs.rs'],[('state types carrying verification tokens',M+'client/tls12.rs')])
p('M06','A server hello is accepted only if it answers the client\'s offer',
  'A server hello or retry request is accepted only if its version, suite, compression, extensions and protocol are among those offered and free of duplicates; otherwise the handshake is aborted with an alert.',
  ['inputs'],'every hello','Tests use one server.',
  [M+'client/hs.rs'],[('ExpectServerHello::handle',M+'client/hs.rs')])
p('M07','Only application data is hidden from the verifying party',
  'Every record other than application data is disclosed to the verifying party for inspection, application data is never disclosed to it in the clear, and both parties treat a record as private under the same condition.',
  ['histories'],'every record type','Tests do not inspect what is disclosed.',
  [M+'leader.rs',M+'record_layer.rs',M+'record_layer/encrypt.rs'],[('MessageMode / plaintext: Option',M+'record_layer.rs')])
p('M08','Close and commit happen in order and exactly once',
  'The session keys are revealed for local decryption only after the record layer has been committed, nothing more can be encrypted or joint-decrypted after that, and operations called in the wrong phase fail.',
  ['histories'],'every order of calls','Tests call in the right order.',
  [M+'leader.rs',M+'record_layer.rs'],[('State enums',M+'record_layer.rs')])
# ---------------------------------------------------------------- tlsn
S='crates/tlsn/src/'
p('S01','A verifier releases a transcript only after verifying it was committed',
  'A verifier reports a session as committed only after the record tags of the complete transcript have been verified against the joint keys; otherwise it reports an error.',
  ['histories','inputs'],'every session','Tests run honest sessions.',
  [S+'verifier.rs',S+'transcript_internal'],[('tag_proof.verify / verify_tags',S+'verifier.rs')])
p('S02','A verifier accepts a proving request only if every part is consistent',
  'Verification of a prover\'s request succeeds only if the disclosed transcript has the committed lengths, the server certificate verifies for the disclosed name, all revealed ranges in both directions are authenticated and every requested commitment was checked.',
  ['inputs'],'every request','Tests run honest sessions.',
  [S+'verifier/verify.rs',S+'verifier.rs'],[('verify',S+'verifier/verify.rs')])
p('S03','Prover and verifier run mirrored protocol steps',
  'In each phase the two parties exchange the same messages in opposite directions and execute the joint computations in the same order with the same public inputs.',
  ['histories'],'every phase and configuration','Honest runs exercise one configuration.',
  [S+'prover',S+'verifier'],[('prove/verify pairs',S+'prover/prove.rs')])
p('S04','Incompatible peers are refused before the session starts',
  'A session starts only if both peers run the same protocol version and the verifier accepted the configuration the prover proposed.',
  ['configurations'],'every pair of versions and configurations','Tests run equal versions.',
  [S+'verifier.rs',S+'prover.rs'],[('version comparison',S+'verifier.rs')])
# ---------------------------------------------------------------- formats, harness, components
p('F01','Format-aware commitments cover each byte of the parsed message',
  'Committing to an HTTP or JSON transcript by its structure issues commitments for the whole message and each of its parts, using the ranges the parser reported for that part, in the direction the message was sent.',
  ['inputs'],'every HTTP and JSON message','Tests commit a few messages.',
  ['crates/formats/src/http/commit.rs','crates/formats/src/json/commit.rs'],[('HttpCommit / JsonCommit default methods','crates/formats/src/http/commit.rs')])
p('F02','JSON and HTTP redaction reveal only the selected parts',
  'Building a proof from a selection of headers, fields or values reveals only the bytes of the selected parts and the structural bytes needed to read them.',
  ['inputs'],'every message and selection','Tests use a few selections.',
  ['crates/sdk-core/src','crates/formats/src'],[('handler-based range computation','crates/sdk-core/src')])
p('K01','The joint computations reveal nothing beyond their declared outputs',
  'During key exchange, key derivation, record encryption and decryption neither party learns the other\'s shares or the session keys, beyond the outputs explicitly disclosed to it.',
  ['histories','inputs'],'every session and adversarial peer','Secrecy is not observable in a run.',
  ['crates/components','crates/mpc-tls/src'],[('mpz protocols','crates/components')])
p('K02','The joint computations equal their standard definitions',
  'The jointly computed key exchange, key schedule, ciphertexts and tags equal what a single TLS client would compute.',
  ['inputs'],'all keys and messages','Test vectors sample.',
  ['crates/components','crates/mpc-tls/src/record_layer'],[('circuits','crates/components')])
p('K03','A cheating evaluator or garbler is detected before values are used',
  'In the dual-execution computations with deferred proof, a party\'s deviation is detected before the other accepts the output as authenticated.',
  ['histories','fault_sequences'],'every deviation','Tests run honest parties.',
  ['crates/components/deap/src'],[('Deap finalize','crates/components/deap/src/lib.rs')])
p('L01','Two honest parties always finish: no deadlock in the joint protocol',
  'Two honest parties with a working connection never wait on each other forever, whatever the interleaving of network and application events.',
  ['schedules'],'every schedule','Tests run a few schedules.',
  ['crates/tlsn/src','crates/mpc-tls/src'],[('async tasks and multiplexed streams','crates/tlsn/src')])
ids=[x['id'] for x in P]; assert len(ids)==len(set(ids))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
