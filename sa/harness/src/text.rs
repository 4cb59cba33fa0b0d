//! Text output of the public types.
use crate::sink::show;
use unic::ucd::*;
pub fn category(g: GeneralCategory) -> bool { show(g) }
pub fn version(a: u8, b: u8, c: u8) -> bool { show(UnicodeVersion { major: a, minor: b, micro: c }) }
pub fn name(c: char) -> bool { match Name::of(c) { Some(n) => show(n), None => false } }
pub fn name_len(c: char) -> Option<usize> { Name::of(c).map(|n| n.len()) }
