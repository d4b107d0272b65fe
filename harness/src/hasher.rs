//! Hash functions the tree is instantiated with.
use jmt::SimpleHasher;
use sha2::Digest;

/// A hash function together with an independent way to compute it, used by the reference model.
pub trait RefHasher: SimpleHasher {
    fn reference(m: impl AsRef<[u8]>) -> [u8; 32];
}

/// sha256 through `Digest`.
pub type Sha = sha2::Sha256;
impl RefHasher for Sha {
    fn reference(m: impl AsRef<[u8]>) -> [u8; 32] {
        sha(m.as_ref())
    }
}

/// Another hash function through `Digest`, with another block size.
pub type Sha512 = sha2::Sha512_256;
impl RefHasher for Sha512 {
    fn reference(m: impl AsRef<[u8]>) -> [u8; 32] {
        sha2::Sha512_256::digest(m.as_ref()).into()
    }
}

/// blake3 through `SimpleHasher` directly (not through `Digest`).
pub struct B3(blake3::Hasher);
impl SimpleHasher for B3 {
    fn new() -> Self {
        B3(blake3::Hasher::new())
    }
    fn update(&mut self, data: &[u8]) {
        self.0.update(data);
    }
    fn finalize(self) -> [u8; 32] {
        *self.0.finalize().as_bytes()
    }
}
impl RefHasher for B3 {
    fn reference(m: impl AsRef<[u8]>) -> [u8; 32] {
        *blake3::hash(m.as_ref()).as_bytes()
    }
}

/// Keyed blake3 that buffers its input and overrides the one-shot function.
pub struct Keyed(Vec<u8>);
const KEY: &[u8; 32] = b"a key that is not all zero bytes";
impl SimpleHasher for Keyed {
    fn new() -> Self {
        Keyed(Vec::new())
    }
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data);
    }
    fn finalize(self) -> [u8; 32] {
        *blake3::keyed_hash(KEY, &self.0).as_bytes()
    }
    fn hash(data: impl AsRef<[u8]>) -> [u8; 32] {
        *blake3::keyed_hash(KEY, data.as_ref()).as_bytes()
    }
}
impl RefHasher for Keyed {
    fn reference(m: impl AsRef<[u8]>) -> [u8; 32] {
        *blake3::keyed_hash(KEY, m.as_ref()).as_bytes()
    }
}

/// sha256, except that a 32-byte message is its own hash. With it, a 32-byte key is its own key
/// hash, so that key hashes can be chosen freely while nodes (longer messages) are still hashed
/// properly. Used where the API insists on hashing the key itself (ICS23).
#[derive(Clone)]
pub struct IdHash(Vec<u8>);
impl SimpleHasher for IdHash {
    fn new() -> Self {
        IdHash(Vec::new())
    }
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data);
    }
    fn finalize(self) -> [u8; 32] {
        id_or_sha(&self.0)
    }
}
impl RefHasher for IdHash {
    fn reference(m: impl AsRef<[u8]>) -> [u8; 32] {
        id_or_sha(m.as_ref())
    }
}

pub fn id_or_sha(m: &[u8]) -> [u8; 32] {
    if m.len() == 32 {
        let mut o = [0u8; 32];
        o.copy_from_slice(m);
        o
    } else {
        sha(m)
    }
}

pub fn sha(m: &[u8]) -> [u8; 32] {
    sha2::Sha256::digest(m).into()
}
