//! A `fmt::Write` whose content is observed by the analyser.
use core::fmt::{self, Write};
pub struct Sink;
#[inline(never)]
fn emit_str(_: &str) {}
#[inline(never)]
fn emit_char(_: char) {}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result { emit_str(s); Ok(()) }
    fn write_char(&mut self, c: char) -> fmt::Result { emit_char(c); Ok(()) }
}
pub fn show<T: fmt::Display>(x: T) -> bool { write!(Sink, "{}", x).is_ok() }
