mod aead;
mod mini;
mod p256;
mod sha;
#[allow(unused_imports)]
use mini::*;
#[allow(unused_imports)]
use std::io::{Read, Write};
