//! Specifications of the value-level helpers of the unic-ucd crates. Every public function here must
//! return `true` for all arguments (functions ending in `_q` are queries, compared with an oracle).
use core::cmp::Ordering;
use unic::char::property::*;
use unic::ucd::bidi::{BidiClassCategory, CharBidiClass};
use unic::ucd::*;

// ---- General_Category groups (UAX #44, table 12)
use unic::ucd::category::GeneralCategory as G;
pub fn gc_cased_letter(g: G) -> bool { g.is_cased_letter() == matches!(g, G::UppercaseLetter | G::LowercaseLetter | G::TitlecaseLetter) }
pub fn gc_letter(g: G) -> bool {
    g.is_letter() == matches!(g, G::UppercaseLetter | G::LowercaseLetter | G::TitlecaseLetter | G::ModifierLetter | G::OtherLetter)
}
pub fn gc_mark(g: G) -> bool { g.is_mark() == matches!(g, G::NonspacingMark | G::SpacingMark | G::EnclosingMark) }
pub fn gc_number(g: G) -> bool { g.is_number() == matches!(g, G::DecimalNumber | G::LetterNumber | G::OtherNumber) }
pub fn gc_punctuation(g: G) -> bool {
    g.is_punctuation()
        == matches!(g, G::ConnectorPunctuation | G::DashPunctuation | G::OpenPunctuation | G::ClosePunctuation
            | G::InitialPunctuation | G::FinalPunctuation | G::OtherPunctuation)
}
pub fn gc_symbol(g: G) -> bool { g.is_symbol() == matches!(g, G::MathSymbol | G::CurrencySymbol | G::ModifierSymbol | G::OtherSymbol) }
pub fn gc_separator(g: G) -> bool { g.is_separator() == matches!(g, G::SpaceSeparator | G::LineSeparator | G::ParagraphSeparator) }
pub fn gc_other(g: G) -> bool { g.is_other() == matches!(g, G::Control | G::Format | G::Surrogate | G::PrivateUse | G::Unassigned) }
pub fn gc_default(c: char) -> bool {
    G::default() == G::Unassigned && <G as TotalCharProperty>::of(c) == G::of(c) && <G as PartialCharProperty>::of(c) == Some(G::of(c))
}

// ---- Age
fn ver(v: UnicodeVersion) -> (u8, u8, u8) { (v.major, v.minor, v.micro) }
pub fn age_cmp(a: Age, b: Age) -> bool {
    let want = ver(b.actual()).cmp(&ver(a.actual()));
    a.partial_cmp(&b) == Some(want) && (a < b) == (want == Ordering::Less) && (a > b) == (want == Ordering::Greater)
        && (a <= b) == (want != Ordering::Greater) && (a >= b) == (want != Ordering::Less)
}
pub fn age_ord(a: Age, b: Age) -> bool { Some(a.cmp(&b)) == a.partial_cmp(&b) }
pub fn age_max_min(a: Age, b: Age) -> bool {
    let (x, y) = (core::cmp::max(a, b), core::cmp::min(a, b));
    ver(x.actual()) <= ver(y.actual()) && ((x == a && y == b) || (x == b && y == a))
}
pub fn age_eq(a: Age, b: Age) -> bool { (a == b) == (ver(a.actual()) == ver(b.actual())) && CustomCharProperty::actual(&a) == a.actual() }
pub fn version_cmp(a: UnicodeVersion, b: UnicodeVersion) -> bool {
    a.cmp(&b) == ver(a).cmp(&ver(b)) && a.partial_cmp(&b) == Some(ver(a).cmp(&ver(b))) && (a == b) == (ver(a) == ver(b))
}
pub fn version_std(a: u8, b: u8, c: u8) -> bool {
    let v: UnicodeVersion = (a, b, c).into();
    ver(v) == (a, b, c)
}

// ---- Canonical_Combining_Class
use unic::ucd::normal::CanonicalCombiningClass as Ccc;
pub fn ccc_pred(x: Ccc) -> bool {
    x.is_not_reordered() == (x.number() == 0) && x.is_reordered() == (x.number() != 0) && NumericCharProperty::number(&x) == x.number()
}
pub fn ccc_ord(x: Ccc, y: Ccc) -> bool {
    x.cmp(&y) == x.number().cmp(&y.number()) && x.partial_cmp(&y) == Some(x.cmp(&y)) && (x == y) == (x.number() == y.number())
}
pub fn ccc_traits(c: char) -> bool {
    let v = Ccc::of(c).number();
    <Ccc as TotalCharProperty>::of(c).number() == v && Ccc::default().number() == 0
        && match <Ccc as PartialCharProperty>::of(c) { Some(x) => x.number() == v, None => false }
}
pub fn ccc_consts() -> bool {
    let t: [(Ccc, u8); 22] = [
        (Ccc::NotReordered, 0), (Ccc::Overlay, 1), (Ccc::Nukta, 7), (Ccc::KanaVoicing, 8), (Ccc::Virama, 9),
        (Ccc::AttatchedBelowLeft, 200), (Ccc::AttachedBelow, 202), (Ccc::AttachedBelowRight, 204), (Ccc::AttachedLeft, 208),
        (Ccc::AttachedRight, 210), (Ccc::AttachedAboveLeft, 212), (Ccc::AttatchedAbove, 214), (Ccc::AttatchedAboveRight, 216),
        (Ccc::BelowLeft, 218), (Ccc::Below, 220), (Ccc::BelowRight, 222), (Ccc::Left, 224), (Ccc::Right, 226), (Ccc::AboveLeft, 228),
        (Ccc::Above, 230), (Ccc::AboveRight, 232), (Ccc::DoubleBelow, 233),
    ];
    let mut i = 0;
    while i < t.len() {
        if t[i].0.number() != t[i].1 { return false; }
        i += 1;
    }
    Ccc::DoubleAbove.number() == 234 && Ccc::IotaSubscript.number() == 240
}

// ---- Bidi_Class helpers (UAX #9, table 4)
use unic::ucd::bidi::BidiClass as B;
pub fn bidi_category(b: B) -> bool {
    b.category() == match b {
        B::LeftToRight | B::RightToLeft | B::ArabicLetter => BidiClassCategory::Strong,
        B::EuropeanNumber | B::EuropeanSeparator | B::EuropeanTerminator | B::ArabicNumber | B::CommonSeparator | B::NonspacingMark
        | B::BoundaryNeutral => BidiClassCategory::Weak,
        B::ParagraphSeparator | B::SegmentSeparator | B::WhiteSpace | B::OtherNeutral => BidiClassCategory::Neutral,
        B::LeftToRightEmbedding | B::LeftToRightOverride | B::RightToLeftEmbedding | B::RightToLeftOverride | B::PopDirectionalFormat
        | B::LeftToRightIsolate | B::RightToLeftIsolate | B::FirstStrongIsolate | B::PopDirectionalIsolate => BidiClassCategory::ExplicitFormatting,
    }
}
fn ltr(b: B) -> bool { matches!(b, B::LeftToRight | B::LeftToRightEmbedding | B::LeftToRightOverride | B::LeftToRightIsolate) }
fn rtl(b: B) -> bool { matches!(b, B::RightToLeft | B::ArabicLetter | B::RightToLeftEmbedding | B::RightToLeftOverride | B::RightToLeftIsolate) }
pub fn bidi_ltr_rtl(b: B) -> bool { b.is_ltr() == ltr(b) && b.is_rtl() == rtl(b) }
pub fn bidi_char_methods(c: char) -> bool {
    let b = B::of(c);
    c.bidi_class() == b && CharBidiClass::is_ltr(c) == ltr(b) && CharBidiClass::is_rtl(c) == rtl(b)
        && <B as TotalCharProperty>::of(c) == b && <B as PartialCharProperty>::of(c) == Some(b) && B::default() == B::LeftToRight
}

// ---- Hangul
const SB: u32 = 0xAC00;
const LB: u32 = 0x1100;
const VB: u32 = 0x1161;
const TB: u32 = 0x11A7;
fn want_compose(a: u32, b: u32) -> Option<u32> {
    if LB <= a && a < LB + 19 && VB <= b && b < VB + 21 { return Some(SB + ((a - LB) * 21 + (b - VB)) * 28); }
    if SB <= a && a < SB + 11172 && (a - SB) % 28 == 0 && TB < b && b < TB + 28 { return Some(a + (b - TB)); }
    None
}
pub fn hangul_compose(a: char, b: char) -> bool { hangul::compose_syllable(a, b).map(|c| c as u32) == want_compose(a as u32, b as u32) }
pub fn hangul_is_syllable(c: char) -> bool { hangul::is_syllable(c) == ('\u{AC00}' <= c && c <= '\u{D7A3}') }
/// decomposition of every syllable, and composing the parts again gives the syllable back
pub fn hangul_roundtrip(c: char) -> bool {
    if !hangul::is_syllable(c) { return true; }
    let mut b = ['\0'; 4];
    let mut n = 0;
    hangul::decompose_syllable(c, &mut |x| { b[n] = x; n += 1; });
    let si = c as u32 - SB;
    if b[0] as u32 != LB + si / 588 || b[1] as u32 != VB + si % 588 / 28 { return false; }
    let lv = match hangul::compose_syllable(b[0], b[1]) { Some(x) => x, None => return false };
    if si % 28 == 0 { return n == 2 && lv == c; }
    n == 3 && b[2] as u32 == TB + si % 28 && hangul::compose_syllable(lv, b[2]) == Some(c)
}
/// any char: no undefined behaviour (a panic or the character itself for non-syllables)
pub fn hangul_any_maypanic(c: char) -> bool {
    let mut b = ['\0'; 4];
    let mut n = 0;
    hangul::decompose_syllable(c, &mut |x| { b[n] = x; n += 1; });
    hangul::is_syllable(c) || (n == 1 && b[0] == c)
}
// ---- full decompositions
pub struct Buf { pub n: usize, pub c: [char; 20] }
pub fn full_canonical_q(c: char) -> Buf {
    let mut b = Buf { n: 0, c: ['\0'; 20] };
    normal::decompose_canonical(c, |x| { b.c[b.n] = x; b.n += 1; });
    b
}
pub fn full_compatible_q(c: char) -> Buf {
    let mut b = Buf { n: 0, c: ['\0'; 20] };
    normal::decompose_compatible(c, |x| { b.c[b.n] = x; b.n += 1; });
    b
}

// ---- Block iteration: the k-th block the iterator yields
pub struct Blk { pub range: unic::char::range::CharRange, pub name: &'static str }
pub fn block_iter_q() -> ([Option<Blk>; 300], usize) {
    let mut out = [const { None }; 300];
    let mut n = 0;
    for b in BlockIter::new() {
        out[n] = Some(Blk { range: b.range, name: b.name });
        n += 1;
    }
    (out, n)
}

// ---- versions
pub fn versions() -> bool {
    let v = UnicodeVersion { major: 10, minor: 0, micro: 0 };
    let e = unic::emoji::char::EMOJI_VERSION;
    unic::ucd::UNICODE_VERSION == v && age::UNICODE_VERSION == v && bidi::UNICODE_VERSION == v && block::UNICODE_VERSION == v
        && case::UNICODE_VERSION == v && category::UNICODE_VERSION == v && common::UNICODE_VERSION == v && hangul::UNICODE_VERSION == v
        && unic_ucd_ident::UNICODE_VERSION == v && name::UNICODE_VERSION == v && name_aliases::UNICODE_VERSION == v
        && normal::UNICODE_VERSION == v && segment::UNICODE_VERSION == v && unic_idna_mapping::UNICODE_VERSION == v
        && unic::bidi::UNICODE_VERSION == v && unic::normal::UNICODE_VERSION == v && unic::segment::UNICODE_VERSION == v
        && unic::idna::UNICODE_VERSION == v && e == (UnicodeVersion { major: 5, minor: 0, micro: 0 })
}
