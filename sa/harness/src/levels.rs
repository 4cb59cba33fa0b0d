//! Bidi embedding levels: every number, every amount.
use serde::de::{self, value::U8Deserializer, Deserialize, Deserializer, IntoDeserializer, Visitor};
use unic::bidi::level::{self, Error, Level};
use unic::bidi::BidiClass;

const MAX: u16 = 126;
const MAXX: u16 = 125;
fn lv(n: u8) -> Option<Level> { Level::new(n).ok() }
fn same(r: Result<Level, Error>, n: u16, max: u16) -> bool {
    match r {
        Ok(l) => n <= max && l.number() as u16 == n,
        Err(Error::OutOfRangeNumber) => n > max,
    }
}
pub fn new(n: u8) -> bool { same(Level::new(n), n as u16, MAX) && same(Level::new_explicit(n), n as u16, MAXX) }
pub fn inquiries(n: u8) -> bool {
    let l = match lv(n) { Some(l) => l, None => return true };
    let odd = n % 2 == 1;
    let m: u8 = l.into();
    l.number() == n && m == n && l.is_rtl() == odd && l.is_ltr() == !odd
        && l.bidi_class() == if odd { BidiClass::RightToLeft } else { BidiClass::LeftToRight }
        && level::has_rtl(&[l]) == odd
}
/// a failed change leaves the level alone
fn change(n: u8, amount: u8, f: fn(&mut Level, u8) -> Result<(), Error>, want: Option<u8>) -> bool {
    let mut l = match lv(n) { Some(l) => l, None => return true };
    match (f(&mut l, amount), want) {
        (Ok(()), Some(w)) => l.number() == w,
        (Err(Error::OutOfRangeNumber), None) => l.number() == n,
        _ => false,
    }
}
pub fn raise(n: u8, a: u8) -> bool {
    let s = n as u16 + a as u16;
    change(n, a, Level::raise, if s <= MAX { Some(s as u8) } else { None })
}
pub fn raise_explicit(n: u8, a: u8) -> bool {
    let s = n as u16 + a as u16;
    change(n, a, Level::raise_explicit, if s <= MAXX { Some(s as u8) } else { None })
}
pub fn lower(n: u8, a: u8) -> bool { change(n, a, Level::lower, if a <= n { Some(n - a) } else { None }) }
pub fn next_levels(n: u8) -> bool {
    let l = match lv(n) { Some(l) => l, None => return true };
    let n = n as u16;
    let ltr = if n % 2 == 0 { n + 2 } else { n + 1 };
    let rtl = if n % 2 == 0 { n + 1 } else { n + 2 };
    let ge = if n % 2 == 0 { n + 1 } else { n };
    same(l.new_explicit_next_ltr(), ltr, MAXX) && same(l.new_explicit_next_rtl(), rtl, MAXX) && same(l.new_lowest_ge_rtl(), ge, MAX)
}
pub fn constants() -> bool {
    Level::ltr().number() == 0 && Level::rtl().number() == 1 && level::LTR_LEVEL.number() == 0 && level::RTL_LEVEL.number() == 1
        && Level::max_explicit_depth() as u16 == MAXX && Level::max_implicit_depth() as u16 == MAX
        && level::MAX_EXPLICIT_DEPTH as u16 == MAXX && level::MAX_IMPLICIT_DEPTH as u16 == MAX
}
pub fn order(a: u8, b: u8) -> bool {
    let (x, y) = match (lv(a), lv(b)) { (Some(x), Some(y)) => (x, y), _ => return true };
    (x == y) == (a == b) && (x < y) == (a < b) && x.cmp(&y) == a.cmp(&b) && core::cmp::max(x, y).number() == core::cmp::max(a, b)
        && level::has_rtl(&[x, y]) == (a % 2 == 1 || b % 2 == 1)
}
/// never makes an invalid level; panics for the others
pub fn from_number_maypanic(n: u8) -> bool {
    let l: Level = n.into();
    l.number() == n && n as u16 <= MAX
}
pub fn from_valid(n: u8) -> bool {
    if n as u16 > MAX { return true; }
    let l: Level = n.into();
    l.number() == n
}
pub fn text(n: u8) -> bool {
    match lv(n) { Some(l) => crate::sink::show(l), None => true }
}

// ---- deserialization
#[derive(Debug)]
pub struct E;
impl core::fmt::Display for E { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl de::Error for E { fn custom<T: core::fmt::Display>(_: T) -> E { E } }
/// a number inside a newtype, as most formats give it
struct New(u8);
impl<'de> Deserializer<'de> for New {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_u8(self.0) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        let d: U8Deserializer<E> = self.0.into_deserializer();
        v.visit_newtype_struct(d)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// a number as the only element of a sequence, as other formats give it
struct Seq(Option<u8>);
impl<'de> Deserializer<'de> for Seq {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_seq(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> de::SeqAccess<'de> for Seq {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.0.take() {
            Some(n) => {
                let d: U8Deserializer<E> = n.into_deserializer();
                seed.deserialize(d).map(Some)
            }
            None => Ok(None),
        }
    }
}
fn loaded(r: Result<Level, E>, n: u8) -> bool {
    match r {
        Ok(l) => l.number() == n && n as u16 <= MAX,
        Err(E) => n as u16 > MAX,
    }
}
pub fn load_newtype(n: u8) -> bool { loaded(Level::deserialize(New(n)), n) }
pub fn load_seq(n: u8) -> bool { loaded(Level::deserialize(Seq(Some(n))), n) }
