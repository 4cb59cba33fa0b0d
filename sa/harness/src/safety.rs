//! What the unsafe calls of the library rely on.
use unic_idna_punycode as puny;

/// the bytes `encode` takes for UTF-8 are ASCII
pub fn puny_bytes(a: char) -> bool {
    let _ = puny::encode(&[a]);
    true
}
pub fn puny_ascii(a: char, b: char) -> bool {
    if a.is_ascii() && b.is_ascii() {
        match puny::encode(&[a, b]) {
            Some(s) => s.chars().eq([a, b, '-'].iter().cloned()),
            None => false,
        }
    } else {
        true
    }
}
