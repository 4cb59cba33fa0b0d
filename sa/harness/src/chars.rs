//! Query roots: one function per character-keyed lookup of the public API.
use unic::ucd::*;


macro_rules! bools { ($($n:ident = $e:path;)*) => { $(pub fn $n(c: char) -> bool { $e(c) })* } }
macro_rules! bin { ($($n:ident $m:ident = $f:path, $t:path;)*) => { $(
    pub fn $n(c: char) -> bool { $f(c) }
    /// the type's constructor, accessor and trait impls agree with the function
    pub fn $m(c: char) -> bool {
        use unic::char::property::*;
        let v = <$t>::of(c);
        v.as_bool() == $f(c)
            && <$t as TotalCharProperty>::of(c) == v
            && <$t as PartialCharProperty>::of(c) == Some(v)
            && BinaryCharProperty::as_bool(&v) == v.as_bool()
            && !<$t as Default>::default().as_bool()
    }
)* } }

bools! {
    is_noncharacter = unic::char::basics::is_noncharacter;
    is_private_use = unic::char::basics::is_private_use;
    is_syllable = hangul::is_syllable;
    is_combining_mark = normal::is_combining_mark;
}
bin! {
    alphabetic alphabetic_t = common::is_alphabetic, common::Alphabetic;
    white_space white_space_t = common::is_white_space, common::WhiteSpace;
    alphanumeric alphanumeric_t = common::is_alphanumeric, common::alphanumeric::Alphanumeric;
    control control_t = common::is_control, common::control::Control;
    numeric numeric_t = common::is_numeric, common::numeric::Numeric;
    lowercase lowercase_t = case::is_lowercase, case::Lowercase;
    uppercase uppercase_t = case::is_uppercase, case::Uppercase;
    cased cased_t = case::is_cased, case::Cased;
    case_ignorable case_ignorable_t = case::is_case_ignorable, case::CaseIgnorable;
    cwl cwl_t = case::changes_when_lowercased, case::ChangesWhenLowercased;
    cwu cwu_t = case::changes_when_uppercased, case::ChangesWhenUppercased;
    cwt cwt_t = case::changes_when_titlecased, case::ChangesWhenTitlecased;
    cwcf cwcf_t = case::changes_when_casefolded, case::ChangesWhenCasefolded;
    cwcm cwcm_t = case::changes_when_casemapped, case::ChangesWhenCasemapped;
    xid_start xid_start_t = unic_ucd_ident::is_xid_start, unic_ucd_ident::XidStart;
    xid_continue xid_continue_t = unic_ucd_ident::is_xid_continue, unic_ucd_ident::XidContinue;
    id_start id_start_t = unic_ucd_ident::is_id_start, unic_ucd_ident::IdStart;
    id_continue id_continue_t = unic_ucd_ident::is_id_continue, unic_ucd_ident::IdContinue;
    pattern_syntax pattern_syntax_t = unic_ucd_ident::is_pattern_syntax, unic_ucd_ident::PatternSyntax;
    pattern_white_space pattern_white_space_t = unic_ucd_ident::is_pattern_whitespace, unic_ucd_ident::PatternWhitespace;
    bidi_control bidi_control_t = bidi::is_bidi_control, bidi::BidiControl;
    bidi_mirrored bidi_mirrored_t = bidi::is_bidi_mirrored, bidi::BidiMirrored;
    emoji emoji_t = unic::emoji::char::is_emoji, unic::emoji::char::Emoji;
    emoji_component emoji_component_t = unic::emoji::char::is_emoji_component, unic::emoji::char::EmojiComponent;
    emoji_modifier emoji_modifier_t = unic::emoji::char::is_emoji_modifier, unic::emoji::char::EmojiModifier;
    emoji_modifier_base emoji_modifier_base_t = unic::emoji::char::is_emoji_modifier_base, unic::emoji::char::EmojiModifierBase;
    emoji_presentation emoji_presentation_t = unic::emoji::char::is_emoji_presentation, unic::emoji::char::EmojiPresentation;
}

pub fn age(c: char) -> Option<UnicodeVersion> { Age::of(c).map(|a| a.actual()) }
pub fn age_t(c: char) -> bool {
    use unic::char::property::*;
    let a = Age::of(c);
    c.age() == a && <Age as PartialCharProperty>::of(c) == a
        && match a { Some(a) => CustomCharProperty::actual(&a) == a.actual(), None => true }
}
pub fn category(c: char) -> GeneralCategory { GeneralCategory::of(c) }
pub fn block(c: char) -> Option<Block> { Block::of(c) }
pub fn block_t(c: char) -> bool {
    use unic::char::property::*;
    match (Block::of(c), <Block as PartialCharProperty>::of(c)) {
        (None, None) => true,
        (Some(a), Some(b)) => a.range == b.range && a.name == b.name && a.range.contains(c),
        _ => false,
    }
}
pub fn bidi_class(c: char) -> BidiClass { BidiClass::of(c) }
pub fn gcb(c: char) -> GraphemeClusterBreak { GraphemeClusterBreak::of(c) }
pub fn wb(c: char) -> WordBreak { WordBreak::of(c) }
pub fn sb(c: char) -> SentenceBreak { SentenceBreak::of(c) }
pub fn ccc(c: char) -> u8 { CanonicalCombiningClass::of(c).number() }
pub fn decomposition_type(c: char) -> Option<normal::DecompositionType> { normal::DecompositionType::of(c) }
pub fn canonical_decomposition(c: char) -> Option<&'static [char]> { normal::canonical_decomposition(c) }
pub fn compatibility_decomposition(c: char) -> Option<&'static [char]> { normal::compatibility_decomposition(c) }
pub fn compose(a: char, b: char) -> Option<char> { normal::compose(a, b) }
pub fn hangul_compose(a: char, b: char) -> Option<char> { hangul::compose_syllable(a, b) }
pub fn name(c: char) -> Option<Name> { Name::of(c) }
pub fn name_alias_types(c: char) -> Option<&'static [NameAliasType]> { NameAliasType::of(c) }
pub fn name_aliases(c: char, t: NameAliasType) -> Option<&'static [&'static str]> { name_aliases_of(c, t) }
pub fn idna_mapping(c: char) -> unic_idna_mapping::Mapping { unic_idna_mapping::Mapping::of(c) }
