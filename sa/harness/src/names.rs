//! Names of properties and of their values.
use crate::lazy;
use core::fmt::{self, Write};
use unic::char::property::*;

/// compares what is written with a string
struct Same<'a> { rest: &'a str, ok: bool }
impl<'a> Write for Same<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.rest.starts_with(s) {
            self.rest = &self.rest[s.len()..];
        } else {
            self.ok = false;
        }
        Ok(())
    }
}
pub fn shows<T: fmt::Display>(x: T, want: &str) -> bool {
    let mut w = Same { rest: want, ok: true };
    let r = write!(w, "{}", x);
    r.is_ok() && w.ok && w.rest.is_empty()
}
/// the names select their value, whatever the case of their ASCII letters; nothing else does
fn parses<T: 'static + EnumeratedCharProperty + PartialEq + core::str::FromStr>() -> bool {
    let s = lazy::word();
    let r = s.parse::<T>().ok();
    let mut want = None;
    for v in T::all_values() {
        if s.eq_ignore_ascii_case(v.abbr_name()) || s.eq_ignore_ascii_case(v.long_name()) {
            want = Some(*v);
            break;
        }
    }
    r == want
}
fn parses_bool<T: BinaryCharProperty + core::str::FromStr>() -> bool {
    let s = lazy::word();
    let r = s.parse::<T>().ok().map(|x| x.as_bool());
    let yes = ["y", "yes", "t", "true"].iter().any(|x| s.eq_ignore_ascii_case(x));
    let no = ["n", "no", "f", "false"].iter().any(|x| s.eq_ignore_ascii_case(x));
    r == if yes { Some(true) } else if no { Some(false) } else { None }
}
/// the values, their names and what Display writes
pub struct Names { pub prop: [&'static str; 3], pub values: [(&'static str, &'static str, bool); 40], pub n: usize }
fn names<T: 'static + EnumeratedCharProperty + fmt::Display>() -> Names {
    let mut r = Names { prop: [T::prop_abbr_name(), T::prop_long_name(), T::prop_human_name()], values: [("", "", false); 40], n: 0 };
    for v in T::all_values() {
        r.values[r.n] = (v.abbr_name(), v.long_name(), shows(*v, v.human_name()) && !v.human_name().is_empty());
        r.n += 1;
    }
    r
}
pub struct BoolNames { pub prop: [&'static str; 3], pub ok: bool }
fn bool_names<T: BinaryCharProperty + fmt::Display + core::str::FromStr>() -> BoolNames {
    let mut ok = true;
    for &(s, b, abbr, long) in [("y", true, "Y", "Yes"), ("n", false, "N", "No")].iter() {
        ok &= match s.parse::<T>() {
            Ok(v) => v.as_bool() == b && v.abbr_name() == abbr && v.long_name() == long && v.human_name() == long && shows(v, long),
            Err(_) => false,
        };
    }
    BoolNames { prop: [T::prop_abbr_name(), T::prop_long_name(), T::prop_human_name()], ok }
}
macro_rules! enums { ($($t:ty, $names:ident, $parse:ident, $all:ident;)*) => { $(
    pub fn $names() -> Names { names::<$t>() }
    pub fn $parse() -> bool { parses::<$t>() }
    /// every value is listed, once
    pub fn $all(v: $t) -> bool { <$t as EnumeratedCharProperty>::all_values().iter().filter(|x| **x == v).count() == 1 }
)* } }
use unic::ucd::*;
enums! {
    GeneralCategory, gc, gc_parse, gc_all;
    BidiClass, bc, bc_parse, bc_all;
    normal::DecompositionType, dt, dt_parse, dt_all;
    GraphemeClusterBreak, gcb, gcb_parse, gcb_all;
    WordBreak, wb, wb_parse, wb_all;
    SentenceBreak, sb, sb_parse, sb_all;
}
macro_rules! bins { ($($t:ty, $names:ident, $parse:ident;)*) => { $(
    pub fn $names() -> BoolNames { bool_names::<$t>() }
    pub fn $parse() -> bool { parses_bool::<$t>() }
)* } }
bins! {
    common::Alphabetic, alpha, alpha_parse;
    common::WhiteSpace, wspace, wspace_parse;
    common::alphanumeric::Alphanumeric, alnum, alnum_parse;
    common::control::Control, control, control_parse;
    common::numeric::Numeric, numeric, numeric_parse;
    case::Lowercase, lower, lower_parse;
    case::Uppercase, upper, upper_parse;
    case::Cased, cased, cased_parse;
    case::CaseIgnorable, ci, ci_parse;
    case::ChangesWhenLowercased, cwl, cwl_parse;
    case::ChangesWhenUppercased, cwu, cwu_parse;
    case::ChangesWhenTitlecased, cwt, cwt_parse;
    case::ChangesWhenCasefolded, cwcf, cwcf_parse;
    case::ChangesWhenCasemapped, cwcm, cwcm_parse;
    unic_ucd_ident::XidStart, xids, xids_parse;
    unic_ucd_ident::XidContinue, xidc, xidc_parse;
    unic_ucd_ident::IdStart, ids, ids_parse;
    unic_ucd_ident::IdContinue, idc, idc_parse;
    unic_ucd_ident::PatternSyntax, pat_syn, pat_syn_parse;
    unic_ucd_ident::PatternWhitespace, pat_ws, pat_ws_parse;
    bidi::BidiControl, bidi_c, bidi_c_parse;
    bidi::BidiMirrored, bidi_m, bidi_m_parse;
    unic::emoji::char::Emoji, emoji, emoji_parse;
    unic::emoji::char::EmojiComponent, ecomp, ecomp_parse;
    unic::emoji::char::EmojiModifier, emod, emod_parse;
    unic::emoji::char::EmojiModifierBase, ebase, ebase_parse;
    unic::emoji::char::EmojiPresentation, epres, epres_parse;
}
pub struct Props { pub age: [&'static str; 3], pub ccc: [&'static str; 3] }
fn of<T: CharProperty>() -> [&'static str; 3] { [T::prop_abbr_name(), T::prop_long_name(), T::prop_human_name()] }
pub fn others() -> Props { Props { age: of::<Age>(), ccc: of::<CanonicalCombiningClass>() } }

// ---- texts of numbers
pub fn notation(c: char) -> bool { crate::sink::show(unic::char::basics::unicode_notation(c)) }
pub fn version(a: u8, b: u8, c: u8) -> bool { crate::sink::show(UnicodeVersion { major: a, minor: b, micro: c }) }
pub fn ccc_text(x: CanonicalCombiningClass) -> bool { crate::sink::show(x) }
