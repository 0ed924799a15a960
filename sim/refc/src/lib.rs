//! Reference implementations, written from the standards and sharing no code with husk:
//! SHA-256 (FIPS 180-4), HMAC (RFC 2104), TLS 1.2 PRF (RFC 5246), ChaCha20-Poly1305 (RFC 8439), P-256 ECDH.
pub mod aead;
pub mod p256;
pub mod sha;
pub mod steer;

pub use aead::{chacha_xor, open, seal};
pub use p256::{Affine, U256};
pub use sha::{hmac, prf, sha256};
