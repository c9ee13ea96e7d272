//! The protocol: session types, the calls that lead from one to the next, and how a program makes them.
pub struct Step {
    pub on: &'static str,
    pub name: &'static str,
    /// next session type, or KEY
    pub to: &'static str,
    /// statement; `@` is the session, `#` the next one
    pub code: &'static str,
}
pub const KEY: &str = "key";
pub struct Crate {
    pub name: &'static str,
    /// types that hold no session: may be used any number of times, never copied (they own a random generator)
    pub parties: &'static [&'static str],
    /// session types as a program writes them
    pub states: &'static [(&'static str, &'static str)],
    /// calls that begin a session
    pub start: &'static [Step],
    pub steps: &'static [Step],
}
const fn s(on: &'static str, name: &'static str, to: &'static str, code: &'static str) -> Step {
    Step { on, name, to, code }
}
const CE: &str = "AuCPaceClientSsidEstablish";
const CP: &str = "AuCPaceClientPreAug";
const CA: &str = "AuCPaceClientAugLayer";
const CS: &str = "StrongAuCPaceClientAugLayer";
const CC: &str = "AuCPaceClientCPaceSubstep";
const CK: &str = "AuCPaceClientRecvServerKey";
const CX: &str = "AuCPaceClientExpMutAuth";
const SE: &str = "AuCPaceServerSsidEstablish";
const SA: &str = "AuCPaceServerAugLayer";
const SC: &str = "AuCPaceServerCPaceSubstep";
const SK: &str = "AuCPaceServerRecvClientKey";
const SX: &str = "AuCPaceServerExpMutAuth";
const P2: &str = "Spake2";

pub const AUCPACE: Crate = Crate {
    name: "aucpace",
    parties: &["AuCPaceClient", "AuCPaceServer"],
    states: &[
        (CE, "AuCPaceClientSsidEstablish<Sha512, Scrypt, 16>"),
        (CP, "AuCPaceClientPreAug<Sha512, Scrypt, 16>"),
        (CA, "AuCPaceClientAugLayer<'static, Sha512, Scrypt, 16>"),
        (CS, "StrongAuCPaceClientAugLayer<'static, Sha512, Scrypt, 16>"),
        (CC, "AuCPaceClientCPaceSubstep<Sha512, 16>"),
        (CK, "AuCPaceClientRecvServerKey<Sha512, 16>"),
        (CX, "AuCPaceClientExpMutAuth<Sha512, 16>"),
        (SE, "AuCPaceServerSsidEstablish<Sha512, 16>"),
        (SA, "AuCPaceServerAugLayer<Sha512, 16>"),
        (SC, "AuCPaceServerCPaceSubstep<Sha512, OsRng, 16>"),
        (SK, "AuCPaceServerRecvClientKey<Sha512, 16>"),
        (SX, "AuCPaceServerExpMutAuth<Sha512, 16>"),
    ],
    start: &[
        s("AuCPaceClient", "begin", CE, "let mut # = client.begin().0;"),
        s("AuCPaceClient", "begin_prestablished_ssid", CP, "let mut # = client.begin_prestablished_ssid([1u8; 16]).ok().unwrap();"),
        s("AuCPaceServer", "begin", SE, "let mut # = server.begin().0;"),
        s("AuCPaceServer", "begin_prestablished_ssid", SA, "let mut # = server.begin_prestablished_ssid([1u8; 16]).ok().unwrap();"),
    ],
    steps: &[
        s(CE, "agree_ssid", CP, "let mut # = @.agree_ssid(nonce);"),
        s(CP, "start_augmentation", CA, "let mut # = @.start_augmentation(b\"u\", b\"p\").0;"),
        s(CP, "start_augmentation_strong", CS, "let mut # = @.start_augmentation_strong(b\"u\", b\"p\", rng).0;"),
        s(CA, "generate_cpace", CC, "let mut # = @.generate_cpace::<_, 100>(point, salt, params, Scrypt).ok().unwrap();"),
        s(CA, "generate_cpace_alloc", CC, "let mut # = @.generate_cpace_alloc(point, salt, params, Scrypt).ok().unwrap();"),
        s(CS, "generate_cpace", CC, "let mut # = @.generate_cpace::<100>(point, point, params, Scrypt).ok().unwrap();"),
        s(CS, "generate_cpace_alloc", CC, "let mut # = @.generate_cpace_alloc(point, point, params, Scrypt).ok().unwrap();"),
        s(CC, "generate_public_key", CK, "let mut # = @.generate_public_key(b\"ci\", rng).0;"),
        s(CK, "receive_server_pubkey", CX, "let mut # = @.receive_server_pubkey(point).ok().unwrap().0;"),
        s(CK, "implicit_auth", KEY, "let _ = @.implicit_auth(point);"),
        s(CX, "receive_server_authenticator", KEY, "let _ = @.receive_server_authenticator(auth);"),
        s(SE, "agree_ssid", SA, "let mut # = @.agree_ssid(nonce);"),
        s(SA, "generate_client_info", SC, "let mut # = @.generate_client_info(b\"u\", db, OsRng).0;"),
        s(SA, "generate_client_info_partial_aug", SC, "let mut # = @.generate_client_info_partial_aug(b\"u\", db, OsRng).0;"),
        s(SA, "generate_client_info_strong", SC, "let mut # = @.generate_client_info_strong(b\"u\", point, db, OsRng).ok().unwrap().0;"),
        s(SA, "generate_client_info_partial_strong", SC, "let mut # = @.generate_client_info_partial_strong(b\"u\", point, db, OsRng).ok().unwrap().0;"),
        s(SC, "generate_public_key", SK, "let mut # = @.generate_public_key(b\"ci\").0;"),
        s(SK, "receive_client_pubkey", SX, "let mut # = @.receive_client_pubkey(point).ok().unwrap();"),
        s(SK, "implicit_auth", KEY, "let _ = @.implicit_auth(point);"),
        s(SX, "receive_client_authenticator", KEY, "let _ = @.receive_client_authenticator(auth);"),
    ],
};
pub const SPAKE2: Crate = Crate {
    name: "spake2",
    parties: &[],
    states: &[(P2, "Spake2<Ed25519Group>")],
    start: &[
        s(P2, "start_a", P2, "let mut # = Spake2::<Ed25519Group>::start_a(pw, id, id).0;"),
        s(P2, "start_b", P2, "let mut # = Spake2::<Ed25519Group>::start_b(pw, id, id).0;"),
        s(P2, "start_symmetric", P2, "let mut # = Spake2::<Ed25519Group>::start_symmetric(pw, id).0;"),
        s(P2, "start_a_with_rng", P2, "let mut # = Spake2::<Ed25519Group>::start_a_with_rng(pw, id, id, OsRng).0;"),
        s(P2, "start_b_with_rng", P2, "let mut # = Spake2::<Ed25519Group>::start_b_with_rng(pw, id, id, OsRng).0;"),
        s(P2, "start_symmetric_with_rng", P2, "let mut # = Spake2::<Ed25519Group>::start_symmetric_with_rng(pw, id, OsRng).0;"),
    ],
    steps: &[s(P2, "finish", KEY, "let _ = @.finish(msg);")],
};
pub const PRELUDE: &str = r#"#![allow(unused, non_snake_case)]
use aucpace::{client::*, server::*, AuCPaceClient, AuCPaceServer, Database, PartialAugDatabase, StrongDatabase};
use curve25519_dalek::{RistrettoPoint, Scalar};
use password_hash::SaltString;
use rand_core::OsRng;
use scrypt::Scrypt;
use sha2::Sha512;
use spake2::{Ed25519Group, Identity, Password, Spake2};
type Client = AuCPaceClient<Sha512, Scrypt, OsRng, 16>;
type Server = AuCPaceServer<Sha512, OsRng, 16>;
fn main() {}
"#;
/// the head of a generated function
pub fn head(name: &str) -> String {
    format!("fn {name}<DB>(client: &mut Client, server: &mut Server, db: &DB, rng: &mut OsRng, nonce: [u8; 16], auth: [u8; 64], point: RistrettoPoint, salt: &'static SaltString, params: scrypt::Params, pw: &Password, id: &Identity, msg: &[u8]) where DB: Database<PasswordVerifier = RistrettoPoint> + StrongDatabase<PasswordVerifier = RistrettoPoint, Exponent = Scalar> + PartialAugDatabase<PrivateKey = Scalar, PublicKey = RistrettoPoint> {{")
}
