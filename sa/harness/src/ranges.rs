//! Character ranges: every function here must return `true` for all arguments.
use core::cmp::Ordering;
use std::ops::Bound;
use unic_char_range::{chars, CharIter, CharRange};

fn succ(c: char) -> char { if c == '\u{D7FF}' { '\u{E000}' } else { char::from_u32(c as u32 + 1).unwrap() } }
fn pred(c: char) -> char { if c == '\u{E000}' { '\u{D7FF}' } else { char::from_u32(c as u32 - 1).unwrap() } }
fn card(a: char, b: char) -> usize {
    if a > b { return 0; }
    let (x, y) = (a as usize, b as usize);
    let n = y - x + 1;
    if x < 0xD800 && y > 0xDFFF { n - 0x800 } else { n }
}

pub fn len(a: char, b: char) -> bool {
    let r = CharRange::closed(a, b);
    r.len() == card(a, b) && r.is_empty() == (a > b)
}
pub fn iter_len(a: char, b: char) -> bool {
    let it = CharRange::closed(a, b).iter();
    let n = card(a, b);
    it.len() == n && it.size_hint() == (n, Some(n))
}
pub fn contains_closed(a: char, b: char, c: char) -> bool { CharRange::closed(a, b).contains(c) == (a <= c && c <= b) }
pub fn contains_open_right(a: char, b: char, c: char) -> bool { CharRange::open_right(a, b).contains(c) == (a <= c && c < b) }
pub fn contains_open_left(a: char, b: char, c: char) -> bool { CharRange::open_left(a, b).contains(c) == (a < c && c <= b) }
pub fn contains_open(a: char, b: char, c: char) -> bool { CharRange::open(a, b).contains(c) == (a < c && c < b) }
fn above(a: &Bound<char>, c: char) -> bool {
    match *a { Bound::Unbounded => true, Bound::Included(x) => x <= c, Bound::Excluded(x) => x < c }
}
fn below(b: &Bound<char>, c: char) -> bool {
    match *b { Bound::Unbounded => true, Bound::Included(x) => c <= x, Bound::Excluded(x) => c < x }
}
pub fn contains_bound(a: Bound<char>, b: Bound<char>, c: char) -> bool {
    CharRange::bound(a, b).contains(c) == (above(&a, c) && below(&b, c))
}
pub fn macro_closed(a: char, b: char, c: char) -> bool { chars!(a..=b).contains(c) == (a <= c && c <= b) }
pub fn macro_half(a: char, b: char, c: char) -> bool { chars!(a..b).contains(c) == (a <= c && c < b) }
pub fn macro_all(c: char) -> bool { chars!(..).contains(c) && CharRange::all().contains(c) }
pub fn planes(c: char) -> bool { CharRange::assigned_normal_planes().contains(c) == (c <= '\u{2FFFF}') }
pub fn cmp(a: char, b: char, c: char) -> bool {
    if a > b { return true; }
    let want = if b < c { Ordering::Less } else if c < a { Ordering::Greater } else { Ordering::Equal };
    CharRange::closed(a, b).cmp_char(c) == want
}
/// may panic (documented), must not return `Equal`
pub fn cmp_empty_maypanic(a: char, b: char, c: char) -> bool {
    if a <= b { return true; }
    CharRange::closed(a, b).cmp_char(c) != Ordering::Equal
}
pub fn eq(a: char, b: char, c: char, d: char) -> bool {
    (CharRange::closed(a, b) == CharRange::closed(c, d)) == ((a > b && c > d) || (a == c && b == d))
}
pub fn next(a: char, b: char) -> bool {
    let mut it = CharRange::closed(a, b).iter();
    let x = it.next();
    let n = it.len();
    let rest = CharRange::from(it);
    if a > b { return x.is_none() && rest.is_empty() && n == 0; }
    if x != Some(a) { return false; }
    if a == b { return rest.is_empty() && n == 0; }
    rest.low == succ(a) && rest.high == b && n == card(succ(a), b)
}
pub fn next_back(a: char, b: char) -> bool {
    let mut it = CharRange::closed(a, b).iter();
    let x = it.next_back();
    let n = it.len();
    let rest = CharRange::from(it);
    if a > b { return x.is_none() && rest.is_empty() && n == 0; }
    if x != Some(b) { return false; }
    if a == b { return rest.is_empty() && n == 0; }
    rest.low == a && rest.high == pred(b) && n == card(a, pred(b))
}
pub fn ends(a: char, b: char) -> bool {
    let r = CharRange::closed(a, b);
    let (mn, mx) = if a > b { (None, None) } else { (Some(a), Some(b)) };
    r.iter().last() == mx && r.iter().max() == mx && r.iter().min() == mn && r.iter().next() == mn && r.iter().next_back() == mx
}
pub fn conv(a: char, b: char) -> bool {
    let r = CharRange::closed(a, b);
    let i: CharIter = r.into();
    let back: CharRange = i.into();
    let j: CharRange = r.into_iter().into();
    back.low == a && back.high == b && j.low == a && j.high == b
}

use rayon::iter::plumbing::*;
use rayon::iter::*;
struct At(usize);
impl ProducerCallback<char> for At {
    type Output = Option<char>;
    fn callback<P: Producer<Item = char>>(self, p: P) -> Option<char> {
        let (_, r) = p.split_at(self.0);
        r.into_iter().next()
    }
}
pub fn par_len(a: char, b: char) -> bool { CharRange::closed(a, b).into_par_iter().len() == card(a, b) }
/// the k-th character of the parallel iterator is the k-th character of the range
pub fn par_nth(a: char, b: char, k: usize) -> bool {
    if k >= card(a, b) { return true; }
    let mut cp = a as usize + k;
    if a <= '\u{D7FF}' && cp > 0xD7FF { cp += 0x800; }
    (&CharRange::closed(a, b)).into_par_iter().with_producer(At(k)) == char::from_u32(cp as u32)
}
