//! Stand-in for the `blake3` crate in symbolic builds: hashing becomes one call to
//! the executor (concrete input: real BLAKE3; symbolic input: collision-free
//! uninterpreted function). Native replays link the real crate.
use std::fmt;

extern "C" {
    fn __sym_hash(p: *const u8, n: usize, out: *mut u8);
}

pub const OUT_LEN: usize = 32;
pub const KEY_LEN: usize = 32;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);

impl Hash {
    pub const fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub const fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub const fn from_bytes(b: [u8; 32]) -> Self {
        Hash(b)
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> [u8; 32] {
        h.0
    }
}
impl From<[u8; 32]> for Hash {
    fn from(h: [u8; 32]) -> Hash {
        Hash(h)
    }
}
impl PartialEq<[u8; 32]> for Hash {
    fn eq(&self, o: &[u8; 32]) -> bool {
        self.0 == *o
    }
}
impl PartialEq<[u8]> for Hash {
    fn eq(&self, o: &[u8]) -> bool {
        self.0 == *o
    }
}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Debug for Hash {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Hash")
    }
}
impl fmt::Display for Hash {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Hash")
    }
}

pub fn hash(b: &[u8]) -> Hash {
    let mut out = [0u8; 32];
    unsafe { __sym_hash(b.as_ptr(), b.len(), out.as_mut_ptr()) };
    Hash(out)
}

#[derive(Clone, Default)]
pub struct Hasher {
    buf: Vec<u8>,
}
impl fmt::Debug for Hasher {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Hasher")
    }
}
impl Hasher {
    pub fn new() -> Self {
        Hasher { buf: Vec::with_capacity(256) }
    }
    pub fn update(&mut self, b: &[u8]) -> &mut Self {
        self.buf.extend_from_slice(b);
        self
    }
    pub fn reset(&mut self) -> &mut Self {
        self.buf.clear();
        self
    }
    pub fn finalize(&self) -> Hash {
        hash(&self.buf)
    }
    pub fn count(&self) -> u64 {
        self.buf.len() as u64
    }
}
impl std::io::Write for Hasher {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.buf.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
