//! Normalization of short texts, whatever the normalization data are.
use crate::lazy;
use unic::normal::StrNormalForm;
use unic::ucd::normal::{self, CanonicalCombiningClass as Ccc};

fn hangul(c: char) -> bool { ('\u{ac00}'..='\u{d7a3}').contains(&c) }
const MAX: usize = 12;
struct List { c: [char; MAX], n: usize }
impl List {
    fn new() -> List { List { c: ['\0'; MAX], n: 0 } }
    fn push(&mut self, c: char) {
        self.c[self.n] = c;
        self.n += 1;
    }
}
/// the full decompositions, one after the other; None when there are more than `limit` characters
fn expanded(text: &[char], limit: usize, compat: bool) -> Option<List> {
    let mut l = List::new();
    let mut i = 0;
    while i < text.len() {
        let c = text[i];
        i += 1;
        let m = if c <= '\x7f' {
            None
        } else {
            match normal::canonical_decomposition(c) {
                Some(m) => Some(m),
                None if compat => normal::compatibility_decomposition(c),
                None => None,
            }
        };
        match m {
            None => l.push(c),
            Some(m) => {
                let mut k = 0;
                while k < m.len() {
                    l.push(m[k]);
                    k += 1;
                }
            }
        }
        if l.n + text.len() - i > limit {
            return None;
        }
    }
    Some(l)
}
/// UAX #15: every run of characters with a class is ordered by class, stably
fn ordered(d: &List) -> List {
    let mut l = List::new();
    let mut i = 0;
    while i < d.n {
        add(&mut l, d.c[i]);
        i += 1;
    }
    l
}
fn add(l: &mut List, c: char) {
    let x = Ccc::of(c).number();
    let mut at = l.n;
    if x != 0 {
        while at > 0 && Ccc::of(l.c[at - 1]).number() > x {
            l.c[at] = l.c[at - 1];
            at -= 1;
        }
    }
    l.c[at] = c;
    l.n += 1;
}
/// UAX #15: each character composes with the last starter unless something between blocks it
fn composed(d: &List) -> List {
    let mut l = List::new();
    let mut starter: Option<usize> = None;
    let mut i = 0;
    while i < d.n {
        let c = d.c[i];
        i += 1;
        let x = Ccc::of(c).number();
        if let Some(s) = starter {
            let blocked = l.n - 1 > s && {
                let y = Ccc::of(l.c[l.n - 1]).number();
                y == 0 || y >= x
            };
            if !blocked {
                if let Some(r) = normal::compose(l.c[s], c) {
                    l.c[s] = r;
                    continue;
                }
            }
        }
        if x == 0 {
            starter = Some(l.n);
        }
        l.push(c);
    }
    l
}
fn same(mut it: impl Iterator<Item = char>, l: &List) -> bool {
    let mut i = 0;
    while i < l.n {
        if it.next() != Some(l.c[i]) {
            return false;
        }
        i += 1;
    }
    it.next().is_none() && it.next().is_none()
}
fn check(t: &[char], classes: usize, limit: usize, compat: bool, compose: bool) -> bool {
    let mut i = 0;
    while i < t.len() {
        // (letters below U+0080 have a path of their own, covered by the shorter texts)
        if hangul(t[i]) || t.len() > 3 && t[i] <= '\x7f' {
            return true;
        }
        i += 1;
    }
    lazy::uninterpreted(classes);
    let d = match expanded(t, limit, compat) {
        Some(d) => ordered(&d),
        None => return true,
    };
    let it = t.iter().cloned();
    match (compat, compose) {
        (false, false) => same(it.nfd(), &d),
        (true, false) => same(it.nfkd(), &d),
        (false, true) => same(it.nfc(), &composed(&d)),
        (true, true) => same(it.nfkc(), &composed(&d)),
    }
}
pub fn nfd_2(a: char, b: char) -> bool { check(&[a, b], 254, 5, false, false) }
pub fn nfd_3(a: char, b: char, c: char) -> bool { check(&[a, b, c], 254, 4, false, false) }
pub fn nfd_4(a: char, b: char, c: char, d: char) -> bool { check(&[a, b, c, d], 254, 4, false, false) }
pub fn nfd_6_long(a: char, b: char, c: char, d: char, e: char, f: char) -> bool { check(&[a, b, c, d, e, f], 2, 6, false, false) }
pub fn nfd_5_wide(a: char, b: char, c: char, d: char, e: char) -> bool { check(&[a, b, c, d, e], 254, 5, false, false) }
pub fn nfkd_2(a: char, b: char) -> bool { check(&[a, b], 254, 5, true, false) }
pub fn nfkd_3(a: char, b: char, c: char) -> bool { check(&[a, b, c], 254, 4, true, false) }
pub fn nfkd_4(a: char, b: char, c: char, d: char) -> bool { check(&[a, b, c, d], 254, 4, true, false) }
pub fn nfc_2(a: char, b: char) -> bool { check(&[a, b], 254, 5, false, true) }
pub fn nfc_3(a: char, b: char, c: char) -> bool { check(&[a, b, c], 254, 4, false, true) }
pub fn nfc_4(a: char, b: char, c: char, d: char) -> bool { check(&[a, b, c, d], 254, 4, false, true) }
pub fn nfc_5_wide(a: char, b: char, c: char, d: char, e: char) -> bool { check(&[a, b, c, d, e], 254, 5, false, true) }
pub fn nfkc_2(a: char, b: char) -> bool { check(&[a, b], 254, 5, true, true) }
pub fn nfkc_3(a: char, b: char, c: char) -> bool { check(&[a, b, c], 254, 4, true, true) }
pub fn nfkc_4(a: char, b: char, c: char, d: char) -> bool { check(&[a, b, c, d], 254, 4, true, true) }

/// Display writes the same characters, and so does a clone taken on the way
impl std::fmt::Write for List {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            self.push(c);
        }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> std::fmt::Result {
        self.push(c);
        Ok(())
    }
}
fn shown<I: Iterator<Item = char> + Clone + std::fmt::Display>(mut it: I) -> bool {
    use std::fmt::Write;
    if lazy::choice() {
        it.next();
    }
    let mut l = List::new();
    if write!(l, "{}", it).is_err() {
        return false;
    }
    let other = it.clone();
    same(it, &l) && same(other, &l)
}
fn display(t: &[char], compat: bool, compose: bool) -> bool {
    if hangul(t[0]) {
        return true;
    }
    lazy::uninterpreted(254);
    if expanded(t, 3, compat).is_none() {
        return true;
    }
    let it = t.iter().cloned();
    match (compat, compose) {
        (false, false) => shown(it.nfd()),
        (true, false) => shown(it.nfkd()),
        (false, true) => shown(it.nfc()),
        (true, true) => shown(it.nfkc()),
    }
}
pub fn display_nfd(a: char) -> bool { display(&[a], false, false) }
pub fn display_nfkd(a: char) -> bool { display(&[a], true, false) }
pub fn display_nfc(a: char) -> bool { display(&[a], false, true) }
pub fn display_nfkc(a: char) -> bool { display(&[a], true, true) }
/// the forms of a string are the forms of its characters
fn string(compat: bool, compose: bool) -> bool {
    lazy::tune(0, 99);
    let (s, _) = lazy::text((), |_, _, _| (), |_| 0);
    let mut k = s.chars();
    let (a, b) = match (k.next(), k.next()) {
        (Some(a), Some(b)) if k.next().is_none() => (a, b),
        _ => return true,
    };
    if hangul(a) || hangul(b) {
        return true;
    }
    lazy::uninterpreted(254);
    let d = match expanded(&[a, b], 3, compat) {
        Some(d) => ordered(&d),
        None => return true,
    };
    match (compat, compose) {
        (false, false) => same(s.nfd(), &d),
        (true, false) => same(s.nfkd(), &d),
        (false, true) => same(s.nfc(), &composed(&d)),
        (true, true) => same(s.nfkc(), &composed(&d)),
    }
}
pub fn string_nfd() -> bool { string(false, false) }
pub fn string_nfkd() -> bool { string(true, false) }
pub fn string_nfc() -> bool { string(false, true) }
pub fn string_nfkc() -> bool { string(true, true) }
