//! Stand-in for the `hex` crate in symbolic builds: the same results, computed without
//! tables and branches, so that symbolic bytes in a message do not fork.
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FromHexError {
    InvalidHexCharacter { c: char, index: usize },
    OddLength,
    InvalidStringLength,
}
impl std::error::Error for FromHexError {}
impl fmt::Display for FromHexError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("hex error")
    }
}

fn digit(n: u8) -> u8 {
    n + b'0' + ((9u8.wrapping_sub(n)) >> 7) * 39
}
pub fn encode<T: AsRef<[u8]>>(data: T) -> String {
    let d = data.as_ref();
    let mut out = Vec::with_capacity(d.len() * 2);
    for b in d {
        out.push(digit(b >> 4));
        out.push(digit(b & 15));
    }
    // only ASCII digits were pushed
    unsafe { String::from_utf8_unchecked(out) }
}
fn value(c: u8, index: usize) -> Result<u8, FromHexError> {
    match c {
        b'0'..=b'9' => Ok(c - b'0'),
        b'a'..=b'f' => Ok(c - b'a' + 10),
        b'A'..=b'F' => Ok(c - b'A' + 10),
        _ => Err(FromHexError::InvalidHexCharacter { c: c as char, index }),
    }
}
pub fn decode<T: AsRef<[u8]>>(data: T) -> Result<Vec<u8>, FromHexError> {
    let d = data.as_ref();
    if d.len() % 2 != 0 {
        return Err(FromHexError::OddLength);
    }
    (0..d.len() / 2).map(|i| Ok(value(d[2 * i], 2 * i)? << 4 | value(d[2 * i + 1], 2 * i + 1)?)).collect()
}
