//! Queries over texts of any length. `text` yields a text about which nothing is known, together
//! with a specification automaton that the analyser runs on every character in reading order.
//! `classes` says which distinctions between characters already read are worth remembering (it
//! affects the precision of the analysis only).
pub fn text<M: 'static>(_m: M, _step: fn(&mut M, usize, char), _classes: fn(char) -> u8) -> (&'static str, &'static mut M) { unimplemented!() }
pub fn text_back<M: 'static>(_m: M, _step: fn(&mut M, usize, char), _classes: fn(char) -> u8) -> (&'static str, &'static mut M) { unimplemented!() }
pub fn overrun() -> ! { unimplemented!() }
/// how many characters at remembered positions stay exact, and how many repetitions in a row
pub fn tune(_keep: usize, _reps: usize) { unimplemented!() }
/// a text and a position in it (both unknown); the monitor sees characters read forwards after it
/// (`false`) and backwards before it (`true`)
pub fn text_at<M: 'static>(_m: M, _step: fn(&mut M, usize, char, bool), _classes: fn(char) -> u8) -> (&'static str, usize, &'static mut M) { unimplemented!() }
/// any character boundary of a piece of a text
pub fn cut(_s: &str) -> usize { unimplemented!() }
/// either
pub fn choice() -> bool { unimplemented!() }
/// any string, observed through comparisons with literals
pub fn word() -> &'static str { unimplemented!() }
/// from here on compose, the combining class and the decomposition mappings are functions of which
/// nothing is known (classes are at most `classes`; a decomposition is at most three characters, that do not decompose)
#[inline(never)]
pub fn uninterpreted(_classes: usize) { unimplemented!() }
/// from here on the IDNA mapping of the characters above U+007F (1), normalization (2) and Punycode (4) are
/// functions of which nothing is known but that their values are among some possible ones
#[inline(never)]
pub fn idna<const N: usize>(_mode: usize, _mappings: [unic_idna_mapping::Mapping; N]) { unimplemented!() }
/// from here on nothing is known of the Bidi_Class of characters (but FSI takes three bytes)
pub fn classes() { unimplemented!() }

// what collecting and extending are documented to do (the analysis uses these for Vec and String)
pub fn extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn collect_vec<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn extend_string<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn collect_string<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut v = String::new();
    for x in it {
        v.push(x);
    }
    v
}
