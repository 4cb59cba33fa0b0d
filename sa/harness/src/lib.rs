pub mod bidi;
pub mod chars;
pub mod graphemes;
pub mod idna;
pub mod lazy;
pub mod names;
pub mod normal;
pub mod levels;
pub mod ranges;
pub mod safety;
pub mod sink;
pub mod text;
pub mod ucd;
pub mod words;
