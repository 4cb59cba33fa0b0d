//! UTS #46 processing of short names, whatever the mapping, the normalization and Punycode are.
use crate::lazy;
use unic::idna::{to_ascii, to_unicode, Flags};
use unic::normal::StrNormalForm;
use unic::ucd::bidi::BidiClass as B;
use unic::ucd::normal::is_combining_mark;
use unic_idna_mapping::Mapping;
use unic_idna_punycode as punycode;

const MAX: usize = 24;
struct List {
    c: [char; MAX],
    n: usize,
}
impl List {
    fn new() -> List { List { c: ['\0'; MAX], n: 0 } }
    fn push(&mut self, c: char) {
        self.c[self.n] = c;
        self.n += 1;
    }
    fn add(&mut self, s: &str) {
        for c in s.chars() {
            self.push(c);
        }
    }
    fn string(&self) -> String { text(self, 0, self.n) }
}
fn text(l: &List, from: usize, to: usize) -> String {
    let mut s = String::new();
    let mut i = from;
    while i < to {
        s.push(l.c[i]);
        i += 1;
    }
    s
}
fn right_to_left(c: char) -> bool { matches!(B::of(c), B::RightToLeft | B::ArabicLetter | B::ArabicNumber) }
/// RFC 5893, section 2
fn bidi_rule(l: &List) -> bool {
    let (mut en, mut an) = (false, false);
    let mut last = B::NonspacingMark;
    let mut rtl = false;
    let mut i = 0;
    while i < l.n {
        let b = B::of(l.c[i]);
        if i == 0 {
            match b {
                B::LeftToRight => rtl = false,
                B::RightToLeft | B::ArabicLetter => rtl = true,
                _ => return false,
            }
        }
        let ok = match b {
            B::EuropeanNumber | B::EuropeanSeparator | B::CommonSeparator | B::EuropeanTerminator | B::OtherNeutral | B::BoundaryNeutral | B::NonspacingMark => true,
            B::RightToLeft | B::ArabicLetter | B::ArabicNumber => rtl,
            B::LeftToRight => !rtl,
            _ => false,
        };
        if !ok {
            return false;
        }
        en |= b == B::EuropeanNumber;
        an |= b == B::ArabicNumber;
        if b != B::NonspacingMark {
            last = b;
        }
        i += 1;
    }
    let end = match last {
        B::EuropeanNumber => true,
        B::LeftToRight => !rtl,
        B::RightToLeft | B::ArabicLetter | B::ArabicNumber => rtl,
        _ => false,
    };
    end && !(rtl && en && an)
}
/// UTS #46, section 4.1 (without the optional hyphen-in-third-and-fourth and joiner criteria)
fn valid(l: &List, transitional: bool, std3: bool, bidi: bool) -> bool {
    if l.n == 0 {
        return true;
    }
    let s = l.string();
    let mut it = s.nfc();
    let mut i = 0;
    while i < l.n {
        if it.next() != Some(l.c[i]) {
            return false;
        }
        i += 1;
    }
    if it.next().is_some() || l.c[0] == '-' || l.c[l.n - 1] == '-' || is_combining_mark(l.c[0]) {
        return false;
    }
    i = 0;
    while i < l.n {
        let ok = match Mapping::of(l.c[i]) {
            Mapping::Valid => true,
            Mapping::Deviation(_) => !transitional,
            Mapping::DisallowedStd3Valid => !std3,
            _ => false,
        };
        if !ok {
            return false;
        }
        i += 1;
    }
    !bidi || bidi_rule(l)
}
struct Processed {
    name: List,
    ok: bool,
}
fn piece(l: &List, from: usize, to: usize) -> List {
    let mut p = List::new();
    let mut i = from;
    while i < to {
        p.push(l.c[i]);
        i += 1;
    }
    p
}
/// the Punycode part of an ACE label, decoded
fn ace(l: &List) -> Option<Option<List>> {
    if l.n < 4 || l.c[0] != 'x' || l.c[1] != 'n' || l.c[2] != '-' || l.c[3] != '-' {
        return None;
    }
    let rest = text(l, 4, l.n);
    Some(match punycode::decode_to_string(&rest) {
        None => None,
        Some(s) => {
            let mut p = List::new();
            p.add(&s);
            Some(p)
        }
    })
}
fn any_rtl(l: &List) -> bool {
    let mut i = 0;
    while i < l.n {
        if right_to_left(l.c[i]) {
            return true;
        }
        i += 1;
    }
    false
}
/// UTS #46, section 4
fn processed(input: &List, transitional: bool, std3: bool) -> Processed {
    let mut ok = true;
    let mut mapped = List::new();
    let mut i = 0;
    while i < input.n {
        let c = input.c[i];
        i += 1;
        match Mapping::of(c) {
            Mapping::Valid => mapped.push(c),
            Mapping::Ignored => {}
            Mapping::Mapped(s) => mapped.add(s),
            Mapping::Deviation(s) => {
                if transitional {
                    mapped.add(s)
                } else {
                    mapped.push(c)
                }
            }
            Mapping::Disallowed => {
                ok = false;
                mapped.push(c)
            }
            Mapping::DisallowedStd3Valid => {
                ok &= !std3;
                mapped.push(c)
            }
            Mapping::DisallowedStd3Mapped(s) => {
                if std3 {
                    ok = false;
                    mapped.push(c)
                } else {
                    mapped.add(s)
                }
            }
        }
    }
    let mut l = List::new();
    let s = mapped.string();
    for c in s.nfc() {
        l.push(c);
    }
    // a bidi domain name has a right-to-left label (an undecodable one is an error in any case)
    let mut bidi = any_rtl(&l);
    let mut from = 0;
    let mut at = 0;
    while at <= l.n {
        if at == l.n || l.c[at] == '.' {
            let p = piece(&l, from, at);
            if let Some(Some(d)) = ace(&p) {
                bidi |= any_rtl(&d);
            }
            from = at + 1;
        }
        at += 1;
    }
    let mut name = List::new();
    from = 0;
    at = 0;
    while at <= l.n {
        if at == l.n || l.c[at] == '.' {
            let p = piece(&l, from, at);
            match ace(&p) {
                None => {
                    ok &= valid(&p, transitional, std3, bidi);
                    put(&mut name, &p);
                }
                Some(None) => {
                    ok = false;
                    put(&mut name, &p);
                }
                Some(Some(d)) => {
                    ok &= valid(&d, false, std3, bidi);
                    put(&mut name, &d);
                }
            }
            if at < l.n {
                name.push('.');
            }
            from = at + 1;
        }
        at += 1;
    }
    Processed { name, ok }
}
fn put(l: &mut List, p: &List) {
    let mut i = 0;
    while i < p.n {
        l.push(p.c[i]);
        i += 1;
    }
}
fn same(s: &str, l: &List) -> bool {
    let mut it = s.chars();
    let mut i = 0;
    while i < l.n {
        if it.next() != Some(l.c[i]) {
            return false;
        }
        i += 1;
    }
    it.next().is_none()
}
/// `mode`: 1 any mapping, 2 any normalization, 4 any Punycode (8: of at most one character)
fn start(mode: usize) {
    lazy::tune(0, 99);
    lazy::idna(
        mode,
        [
            Mapping::Valid,
            Mapping::Ignored,
            Mapping::Disallowed,
            Mapping::DisallowedStd3Valid,
            Mapping::Mapped("\u{e9}"),
            Mapping::Mapped("."),
            Mapping::Mapped("ss"),
            Mapping::Deviation(""),
            Mapping::Deviation("ss"),
            Mapping::DisallowedStd3Mapped("\u{e9}"),
            Mapping::DisallowedStd3Mapped(" "),
        ],
    );
}
/// with fewer mappings
fn start_a(mode: usize) {
    lazy::tune(0, 99);
    lazy::idna(mode, [Mapping::Valid, Mapping::Ignored, Mapping::Mapped("."), Mapping::DisallowedStd3Valid]);
}
fn start_b(mode: usize) {
    lazy::tune(0, 99);
    lazy::idna(mode, [Mapping::Valid, Mapping::Disallowed, Mapping::Deviation("ss"), Mapping::DisallowedStd3Mapped(" ")]);
}
fn unicode(l: &List, std3: bool, transitional: bool) -> bool {
    let p = processed(l, false, std3);
    let s = l.string();
    let (name, r) = to_unicode(&s, Flags { use_std3_ascii_rules: std3, transitional_processing: transitional, verify_dns_length: true });
    r.is_ok() == p.ok && same(&name, &p.name)
}
fn ascii(l: &List, std3: bool, transitional: bool, dns: bool) -> bool {
    let p = processed(l, transitional, std3);
    let mut ok = p.ok;
    let mut name = List::new();
    let mut from = 0;
    let mut at = 0;
    let mut empty = false;
    while at <= p.name.n {
        if at == p.name.n || p.name.c[at] == '.' {
            let label = piece(&p.name, from, at);
            // (the name may end in the empty label of the root, but not consist of it)
            if label.n == 0 && (at < p.name.n || from == 0) {
                empty = true;
            }
            let mut plain = true;
            let mut i = 0;
            while i < label.n {
                plain &= label.c[i] <= '\x7f';
                i += 1;
            }
            if plain {
                put(&mut name, &label);
            } else {
                let t = label.string();
                match punycode::encode_str(&t) {
                    None => ok = false,
                    Some(e) => {
                        name.add("xn--");
                        name.add(&e);
                    }
                }
            }
            if at < p.name.n {
                name.push('.');
            }
            from = at + 1;
        }
        at += 1;
    }
    if dns && empty {
        ok = false;
    }
    let s = l.string();
    match to_ascii(&s, Flags { use_std3_ascii_rules: std3, transitional_processing: transitional, verify_dns_length: dns }) {
        Ok(r) => ok && same(&r, &name),
        Err(_) => !ok,
    }
}
/// the characters considered: a letter, the hyphen, the dot, a digit, and U+0080 to U+07FF
fn small(c: char) -> bool { matches!(c, 'a' | '-' | '.' | '0' | '\u{80}'..='\u{7ff}') }
fn label_char(c: char) -> bool { matches!(c, 'a' | '-' | '0' | '\u{80}'..='\u{7ff}') }

// the bidi rule: every label of up to four characters that map to themselves
pub fn bidi_1(a: char) -> bool { !label_char(a) || { start(0); let mut l = List::new(); l.push(a); unicode(&l, true, false) } }
pub fn bidi_2(a: char, b: char) -> bool { !(label_char(a) && label_char(b)) || { start(0); let mut l = List::new(); l.push(a); l.push(b); unicode(&l, true, false) } }
pub fn bidi_3(a: char, b: char, c: char) -> bool { !(label_char(a) && label_char(b) && label_char(c)) || { start(0); let mut l = List::new(); l.push(a); l.push(b); l.push(c); unicode(&l, true, false) } }
pub fn bidi_4(a: char, b: char, c: char, d: char) -> bool { !(label_char(a) && label_char(b) && label_char(c) && label_char(d)) || { start(0); let mut l = List::new(); l.push(a); l.push(b); l.push(c); l.push(d); unicode(&l, true, false) } }
pub fn bidi_5(a: char, b: char, c: char, d: char, e: char) -> bool { !(label_char(a) && label_char(b) && label_char(c) && label_char(d) && label_char(e)) || { start(0); let mut l = List::new(); l.push(a); l.push(b); l.push(c); l.push(d); l.push(e); unicode(&l, true, false) } }
// mapping, normalization and validity
pub fn unicode_3(a: char, b: char, c: char, std3: bool) -> bool { !(small(a) && small(b) && small(c)) || { start_a(0); let mut l = List::new(); l.push(a); l.push(b); l.push(c); unicode(&l, std3, false) } }
pub fn ascii_3(a: char, b: char, c: char, dns: bool) -> bool { !(small(a) && small(b) && small(c)) || { start_a(0); let mut l = List::new(); l.push(a); l.push(b); l.push(c); ascii(&l, true, true, dns) } }
pub fn unicode_1(a: char, std3: bool, transitional: bool) -> bool { !small(a) || { start(7); let mut l = List::new(); l.push(a); unicode(&l, std3, transitional) } }
pub fn unicode_2a(a: char, b: char, std3: bool) -> bool { !(small(a) && small(b)) || { start_a(1); let mut l = List::new(); l.push(a); l.push(b); unicode(&l, std3, false) } }
pub fn unicode_2b(a: char, b: char, std3: bool) -> bool { !(small(a) && small(b)) || { start_b(1); let mut l = List::new(); l.push(a); l.push(b); unicode(&l, std3, true) } }
pub fn unicode_2n(a: char, b: char) -> bool { !(small(a) && small(b)) || { start(2); let mut l = List::new(); l.push(a); l.push(b); unicode(&l, true, false) } }
pub fn ascii_1(a: char, std3: bool, transitional: bool, dns: bool) -> bool { !small(a) || { start(7); let mut l = List::new(); l.push(a); ascii(&l, std3, transitional, dns) } }
pub fn ascii_2a(a: char, b: char, dns: bool) -> bool { !(small(a) && small(b)) || { start_a(1); let mut l = List::new(); l.push(a); l.push(b); ascii(&l, true, false, dns) } }
pub fn ascii_2b(a: char, b: char, transitional: bool) -> bool { !(small(a) && small(b)) || { start_b(1); let mut l = List::new(); l.push(a); l.push(b); ascii(&l, true, transitional, true) } }
pub fn ascii_2n(a: char, b: char) -> bool { !(small(a) && small(b)) || { start(2); let mut l = List::new(); l.push(a); l.push(b); ascii(&l, true, true, true) } }
// names with an ACE label
pub fn ace_0a(std3: bool, dns: bool) -> bool { start_a(13); let mut l = List::new(); l.add("xn--"); unicode(&l, std3, false) && ascii(&l, std3, false, dns) }
pub fn ace_0b(std3: bool) -> bool { start_b(13); let mut l = List::new(); l.add("xn--"); unicode(&l, std3, true) && ascii(&l, std3, true, false) }
pub fn ace_0w() -> bool { start(6); let mut l = List::new(); l.add("xn--"); unicode(&l, true, false) }
pub fn ace_4(a: char, b: char) -> bool { !(small(a) && small(b)) || { start(12); let mut l = List::new(); l.push(a); l.push(b); l.add(".xn--"); ascii(&l, true, true, true) } }
pub fn ace_1(a: char, std3: bool, transitional: bool) -> bool { !small(a) || { start(14); let mut l = List::new(); l.add("xn--"); l.push(a); ascii(&l, std3, transitional, true) } }
pub fn ace_2(a: char, b: char) -> bool { !(small(a) && small(b)) || { start(12); let mut l = List::new(); l.push(a); l.add(".xn--"); l.push(b); unicode(&l, true, false) } }
pub fn ace_3(a: char, b: char) -> bool { !(small(a) && small(b)) || { start(12); let mut l = List::new(); l.add("xn--"); l.push(b); l.push('.'); l.push(a); unicode(&l, true, false) } }
// empty labels and the DNS lengths
pub fn dots(a: bool, b: bool, c: bool, dns: bool) -> bool {
    start(0);
    let mut l = List::new();
    if a {
        l.push('.');
    }
    if b {
        l.push('a');
    }
    if c {
        l.push('.');
    }
    ascii(&l, true, false, dns)
}
fn letters(s: &mut String, n: usize) {
    let mut i = 0;
    while i < n {
        s.push('a');
        i += 1;
    }
}
fn length(s: &str, dns: bool, fits: bool) -> bool {
    to_ascii(s, Flags { use_std3_ascii_rules: true, transitional_processing: false, verify_dns_length: dns }).is_ok() == (fits || !dns)
}
/// labels of more than 63 octets are errors
pub fn long_label(n: u8, second: bool, root: bool, dns: bool) -> bool {
    if n < 61 || n > 66 {
        return true;
    }
    start(0);
    let mut s = String::new();
    if second {
        s.push_str("a.");
    }
    letters(&mut s, n as usize);
    if root {
        s.push('.');
    }
    length(&s, dns, n <= 63)
}
/// so are names of more than 253, without the root label and its dot
pub fn long_name(n: u8, root: bool, dns: bool) -> bool {
    if n < 58 || n > 63 {
        return true;
    }
    start(0);
    let mut s = String::new();
    let mut k = 0;
    while k < 3 {
        letters(&mut s, 63);
        s.push('.');
        k += 1;
    }
    letters(&mut s, n as usize);
    if root {
        s.push('.');
    }
    length(&s, dns, 192 + n as usize <= 253)
}
