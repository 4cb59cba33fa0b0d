IN = lambda t: (["inputs"], t)
ALLCH = IN("every Unicode scalar value (1 112 064 code points)")

p("C01", "Noncharacters and private-use characters are recognised exactly",
  "For every char, is_noncharacter is true exactly for the 66 noncharacters (U+FDD0..U+FDEF and the last two code points of each plane), and is_private_use exactly for U+E000..U+F8FF, U+F0000..U+FFFFD and U+100000..U+10FFFD.",
  ALLCH, "Unit tests sample a handful of code points; off-by-one errors sit at the ends of ranges and in unsampled planes.",
  ["unic/char/basics/src/notation.rs", "unic/char/basics/src/lib.rs"], [("range tests on the code point", "unic/char/basics/src")])
p("C02", "General_Category is the UCD 10.0 value, and the groups are exact",
  "For every char, GeneralCategory::of returns the General_Category of Unicode 10.0 (Unassigned when unlisted). For every category, is_cased_letter, is_letter, is_mark, is_number, is_punctuation, is_symbol, is_separator and is_other are true exactly for the members UAX #44 lists for LC, L, M, N, P, S, Z and C.",
  IN("every scalar value; every category value"), "Tests sample a few characters per category; the table has over 3 000 ranges and the lookup is a binary search.",
  ["unic/ucd/category/src/category.rs", "unic/ucd/category/tables/general_category.rsv"], [("generated range table and binary search", "unic/char/property/src/tables.rs"), ("group predicates", "unic/ucd/category/src/category.rs")])
p("C03", "Age is the UCD 10.0 value, and older means greater",
  "For every char, Age::of is the Unicode version that first assigned it, or None. For every two ages, all comparison operators, cmp, max and min agree with each other, and an age is greater exactly when its version is smaller; UnicodeVersion orders by major, minor, micro.",
  IN("every scalar value; every pair of ages or versions"), "Tests sample a few characters and never compare all operators; consistency of orderings ranges over all pairs.",
  ["unic/ucd/age/src/age.rs", "unic/ucd/age/tables/age_values.rsv", "unic/ucd/version/src/lib.rs", "unic/common/src/version.rs"], [("range table lookup", "unic/ucd/age/src/age.rs"), ("PartialOrd and Ord implementations", "unic/ucd/age/src/age.rs")])
p("C04", "Block lookup and block iteration agree with Blocks.txt",
  "For every char, Block::of gives the block of Unicode 10.0 that contains it, with its exact range and name, or None. BlockIter yields every block that contains a scalar value exactly once, in code point order.",
  ALLCH, "Tests check two blocks and the first iterator item.",
  ["unic/ucd/block/src/block.rs", "unic/ucd/block/tables/blocks.rsv"], [("block table, find_with_range", "unic/ucd/block/src/block.rs"), ("BlockIter", "unic/ucd/block/src/block.rs")])
p("C05", "Alphabetic, White_Space, Alphanumeric, Control and Numeric are exact",
  "For every char, is_alphabetic, is_white_space, is_alphanumeric, is_control and is_numeric return the UCD 10.0 answer (Alphanumeric is Alphabetic or Numeric). The property types, their of/as_bool accessors and the generic property traits give the same answer.",
  ALLCH, "Tests sample ASCII and a few letters.",
  ["unic/ucd/common/src/lib.rs", "unic/ucd/common/src/alphabetic.rs", "unic/ucd/common/src/alphanumeric.rs", "unic/ucd/common/src/control.rs", "unic/ucd/common/src/numeric.rs", "unic/ucd/common/src/white_space.rs"], [("binary property tables", "unic/ucd/common/tables"), ("char_property! macro", "unic/char/property/src/macros.rs")])
p("C06", "The nine case properties are exact",
  "For every char, Lowercase, Uppercase, Cased, Case_Ignorable and Changes_When_Lowercased, _Uppercased, _Titlecased, _Casefolded, _Casemapped return the UCD 10.0 answer, through the free functions, the property types and the property traits alike.",
  ALLCH, "Tests sample about five characters per property.",
  ["unic/ucd/case/src/lib.rs", "unic/ucd/case/tables"], [("binary property tables", "unic/ucd/case/tables"), ("char_property! macro", "unic/char/property/src/macros.rs")])
p("C07", "The UAX #31 identifier and pattern properties are exact",
  "For every char, XID_Start, XID_Continue, ID_Start, ID_Continue, Pattern_Syntax and Pattern_White_Space return the UCD 10.0 answer, through the free functions, the property types and the property traits alike.",
  ALLCH, "Tests sample ASCII ranges.",
  ["unic/ucd/ident/src", "unic/ucd/ident/tables"], [("binary property tables", "unic/ucd/ident/tables")])
p("C08", "Bidi character properties and class groups are exact",
  "For every char, Bidi_Class, Bidi_Control and Bidi_Mirrored are the UCD 10.0 values (L for unlisted characters). For every class, category() follows UAX #9 table 4, is_ltr holds exactly for L, LRE, LRO, LRI and is_rtl exactly for R, AL, RLE, RLO, RLI, and the char methods agree with them.",
  IN("every scalar value; every class value"), "Tests sample a few characters per class.",
  ["unic/ucd/bidi/src/bidi_class.rs", "unic/ucd/bidi/src/bidi_control.rs", "unic/ucd/bidi/src/bidi_mirrored.rs", "unic/ucd/bidi/tables"], [("bidi_class table", "unic/ucd/bidi/src/bidi_class.rs"), ("class helpers", "unic/ucd/bidi/src/bidi_class.rs")])
p("C09", "The emoji properties are exact",
  "For every char, Emoji, Emoji_Component, Emoji_Modifier, Emoji_Modifier_Base and Emoji_Presentation are the Emoji 5.0 values, through the free functions, the property types and the property traits alike.",
  ALLCH, "Tests sample a few characters.",
  ["unic/emoji/char/src", "unic/emoji/char/tables"], [("binary property tables", "unic/emoji/char/tables")])
p("C10", "The text-segmentation properties are exact",
  "For every char, Grapheme_Cluster_Break, Word_Break and Sentence_Break are the UCD 10.0 values (Other for unlisted characters).",
  ALLCH, "The segmentation conformance tests exercise only a few characters of each class.",
  ["unic/ucd/segment/src/grapheme_cluster_break.rs", "unic/ucd/segment/src/word_break.rs", "unic/ucd/segment/src/sentence_break.rs", "unic/ucd/segment/tables"], [("range tables", "unic/ucd/segment/tables")])
p("C11", "Canonical_Combining_Class and the combining-mark predicate are exact",
  "For every char, the canonical combining class is the UCD 10.0 value and is_combining_mark holds exactly for General_Category M. For every class, number, is_reordered, is_not_reordered, equality and ordering follow the class number, and every named class has its UCD number.",
  IN("every scalar value; every pair of classes"), "Normalization conformance tests use a small part of the combining characters.",
  ["unic/ucd/normal/src/canonical_combining_class.rs", "unic/ucd/normal/src/gen_cat.rs", "unic/ucd/normal/tables"], [("ccc table", "unic/ucd/normal/tables"), ("class helpers", "unic/ucd/normal/src/canonical_combining_class.rs")])
p("C12", "Decomposition data and full decompositions are exact",
  "For every char, Decomposition_Type and the single canonical and compatibility mappings are the UCD 10.0 values. decompose_canonical and decompose_compatible emit exactly the recursive full decomposition (Hangul syllables by formula), and never fail.",
  ALLCH, "Conformance tests reach many but not all characters, and single mappings are barely sampled.",
  ["unic/ucd/normal/src/decomposition.rs", "unic/ucd/normal/src/decomposition_type.rs", "unic/ucd/normal/tables"], [("mapping tables with slices into a shared pool", "unic/ucd/normal/tables"), ("recursive decomposition", "unic/ucd/normal/src/decomposition.rs")])
p("C13", "Hangul syllable arithmetic is exact and safe",
  "For every pair of chars, compose_syllable gives the syllable of L+V or LV+T and None otherwise; for every precomposed syllable, decompose_syllable emits its L, V and optional T, and composing them again gives the syllable back; is_syllable holds exactly for U+AC00..U+D7A3. No char given to any of these produces an invalid char.",
  IN("every scalar value and every pair of scalar values"), "Tests try three syllables; the pairs are 10^12.",
  ["unic/ucd/hangul/src/hangul.rs"], [("arithmetic composition and decomposition", "unic/ucd/hangul/src/hangul.rs")], technique=AIS)
p("C14", "Canonical composition composes exactly the primary composites",
  "For every pair of chars, compose returns the primary composite whose canonical decomposition is that pair (Hangul included), and None for every other pair, including composition exclusions, singletons and non-starter decompositions.",
  IN("every pair of scalar values"), "10^12 pairs; the conformance file holds a few thousand.",
  ["unic/ucd/normal/src/composition.rs", "unic/ucd/normal/tables"], [("nested composition tables", "unic/ucd/normal/src/composition.rs"), ("Hangul composition", "unic/ucd/hangul/src/hangul.rs")])
p("C15", "Character names are exact",
  "For every char, Name::of is Some exactly for characters with a Name in Unicode 10.0, and writing it yields exactly that name, including the algorithmic Hangul, CJK, Tangut and Nushu names; len() is the number of characters written.",
  ALLCH, "Tests sample about a dozen names.",
  ["unic/ucd/name/src/name.rs", "unic/ucd/name/tables"], [("name piece tables and derivation rules NR1, NR2", "unic/ucd/name/src/name.rs")])
p("C16", "Name aliases are exact",
  "For every char and alias type, the published aliases of Unicode 10.0 NameAliases.txt, and nothing else, are returned, and the list of alias types of a char holds exactly the types for which it has aliases.",
  IN("every scalar value and alias type"), "Tests sample a few control characters.",
  ["unic/ucd/name_aliases/src/name_aliases.rs", "unic/ucd/name_aliases/tables"], [("one table per alias type", "unic/ucd/name_aliases/tables")])
p("C17", "The IDNA mapping data is exact",
  "For every char, the UTS #46 status and mapping is the one of the Unicode 10.0 IdnaMappingTable, including every replacement string.",
  ALLCH, "The IDNA conformance tests use a small part of the mapped characters.",
  ["unic/idna/mapping/src/mapping.rs", "unic/idna/mapping/tables/idna_mapping.rsv"], [("mapping table", "unic/idna/mapping/src/mapping.rs")])
p("C18", "Every component reports the same Unicode version",
  "All published UNICODE_VERSION constants equal 10.0.0 and the emoji data version equals 5.0.0.",
  (["configurations"], "every component crate"), "Each crate is tested alone; nothing compares all of them with the data they ship.",
  ["unic/ucd/version/src/lib.rs", "unic/emoji/char/src/lib.rs"], [("included version constant", "unic/ucd/*/tables/unicode_version.rsv")], technique=AIS)
p("C21", "Character ranges contain exactly the characters their bounds say",
  "For all bounds, a CharRange built by closed, open, open_left, open_right, bound, all, the chars! macro or assigned_normal_planes contains a char exactly when the bounds say so; len is the number of scalar values (surrogates are skipped), is_empty holds exactly when there is none, two ranges are equal exactly when they hold the same characters, and cmp_char places a char before, in or after a non-empty range. Conversions between ranges and iterators keep the bounds.",
  IN("all pairs of bounds and all chars"), "The interesting bounds (around the surrogates, empty ranges, both ends) multiply; tests sample a few.",
  ["unic/char/range/src/range.rs", "unic/char/range/src/macros.rs", "unic/char/range/src/step.rs"], [("bounds normalised to closed ranges", "unic/char/range/src/range.rs"), ("steps over the surrogates", "unic/char/range/src/step.rs")], technique=AIS)
p("C22", "Iterating a character range visits each scalar value once, from both ends",
  "From every state, next yields the low end and next_back the high end and the remainder is exactly the range without it (crossing the surrogate gap), so every interleaving of the two visits each scalar value once, in order; len and size_hint are exact in every state, and last, min, max agree with the ends.",
  (["inputs", "histories"], "every iterator state, hence every sequence of next/next_back calls"), "Tests walk two or three ranges from one end; histories of mixed calls from any state are unbounded.",
  ["unic/char/range/src/iter.rs", "unic/char/range/src/step.rs", "unic/char/range/src/range.rs"], [("step over the surrogate gap", "unic/char/range/src/step.rs"), ("low > high means exhausted", "unic/char/range/src/iter.rs")], technique=AIS)
p("C23", "Parallel iteration splits a range without loss or duplication",
  "For every range and every split position, the parallel iterator's length is the number of scalar values, and the item at position k is the k-th scalar value of the range, so any splitting by the thread pool yields every character exactly once.",
  (["inputs", "schedules"], "every range and split position, hence every way of splitting the work"), "Tests compare one full iteration; which split points occur depends on the scheduler.",
  ["unic/char/range/src/par_iter.rs"], [("mapping to a compact index range and back", "unic/char/range/src/par_iter.rs")], technique=AIS)
TXT = "abstract interpretation of compiler MIR over abstract texts of any length (fixpoint at loop heads), run in lock step with a specification automaton"
ANYTEXT = IN("every text, of any length")
p("C26", "Word segmentation follows the UAX #29 rules on every text",
  "For every text, iterating WordBounds forwards yields consecutive non-empty pieces that cover the whole text, cut exactly where rules WB1 to WB999 of UAX #29 (Unicode 10.0) put a boundary, with as_str the rest of the text. No text makes it panic.",
  ANYTEXT, "WordBreakTest.txt has about 1 800 short strings; the rules look arbitrarily far ahead and behind (WB4, WB6, WB7, WB11, WB15), so their interaction is unbounded.",
  ["unic/segment/src/word.rs", "unic/ucd/segment/src/word_break.rs"], [("state machine with look-ahead and rewind", "unic/segment/src/word.rs")], technique=TXT)
p("C27", "Grapheme cluster segmentation follows the UAX #29 rules on every text",
  "For every text, iterating Graphemes (extended or legacy) forwards yields consecutive non-empty pieces that cover the whole text, cut exactly where rules GB1 to GB999 of UAX #29 (Unicode 10.0; without GB9a and GB9b for legacy clusters) put a boundary; GraphemeIndices yields the same pieces with their byte offsets. No text makes them panic.",
  ANYTEXT, "GraphemeBreakTest.txt has about 800 short strings; emoji sequences and regional indicators look arbitrarily far behind.",
  ["unic/segment/src/grapheme.rs", "unic/ucd/segment/src/grapheme_cluster_break.rs"], [("check_pair and GraphemeCursor", "unic/segment/src/grapheme.rs")], technique=TXT)
p("C28", "GraphemeCursor answers at any position, for any pieces of text, after any move",
  "For every text and every char position in it, a GraphemeCursor created there answers is_boundary, next_boundary and prev_boundary as the UAX #29 rules decide, and ends up at the position it reports. is_boundary gives the same answer when the text is given in arbitrary pieces, supplied through provide_context whenever it asks for PreContext; prev_boundary gives it when the piece starts at the cursor or one character before it; and a cursor that was moved with set_cursor while another query was pending answers like a new one. Nothing in that protocol panics.",
  IN("every text of any length, every position, every chunking"), "the tests give whole texts and start at the ends; positions times chunkings are unbounded and the answer depends on unbounded context.",
  ["unic/segment/src/grapheme.rs"], [("GraphemeCursor::{is_boundary, provide_context, next_boundary, prev_boundary, set_cursor}", "unic/segment/src/grapheme.rs")], technique=TXT)
p("C29", "Word boundaries come out the same backwards, with offsets, and from both ends",
  "For every text, WordBounds::next_back yields the part of the text after the last boundary that rules WB1 to WB999 of UAX #29 (Unicode 10.0) put before its end, and leaves as_str the part before it; WordBoundIndices yields the same pieces as WordBounds with their byte offsets, forwards and backwards. For texts of at most three characters, however next and next_back alternate, each yields what a new iterator over the rest of the text would, and Words yields, from either end, exactly the words its filter accepts. Nothing panics.",
  ANYTEXT, "Walking backwards is a state machine of its own; WordBreakTest.txt samples it with about 1 800 short strings and never mixes the directions.",
  ["unic/segment/src/word.rs", "unic/ucd/segment/src/word_break.rs"], [("WordBounds::next_back, with its look-behind for regional indicators and quotes", "unic/segment/src/word.rs")], technique=TXT)
p("C30", "Grapheme clusters come out the same backwards, with offsets, and from both ends",
  "For every text, Graphemes::next_back (extended or legacy) yields the part of the text after the last grapheme cluster boundary UAX #29 (Unicode 10.0) puts before its end; GraphemeIndices yields the same with its byte offset. For texts of at most three characters, however next and next_back alternate, they hand out exactly the clusters found walking forwards, once each, with as_str what is left. Nothing panics.",
  ANYTEXT, "GraphemeBreakTest.txt has about 800 short strings and never mixes the directions.",
  ["unic/segment/src/grapheme.rs", "unic/ucd/segment/src/grapheme_cluster_break.rs"], [("Graphemes::next_back and its two cursors", "unic/segment/src/grapheme.rs")], technique=TXT)
p("C31", "The normalization forms decompose, reorder and compose as UAX #15 says",
  "For every text of at most four characters (for NFD and NFC five characters; for NFD six characters of at most two different non-zero classes), given as a str or as any char iterator, and whatever the combining classes, decomposition mappings and primary composites are, nfd and nfkd yield the full decompositions with every run of characters of non-zero class stably ordered by class, and nfc and nfkc yield that text with every character composed with the last starter unless a character between them blocks it. The iterators stay exhausted, clones and Display give the same characters. Nothing panics. (Hangul syllables in the text are left to C13; the real data to C11, C12 and C14.)",
  IN("every text of at most four characters, with every possible normalization data"), "NormalizationTest.txt holds some 18 000 strings that follow a few patterns; the interplay of reordering, blocking and buffering ranges over all sequences and classes.",
  ["unic/normal/src/decompose.rs", "unic/normal/src/recompose.rs", "unic/normal/src/lib.rs"], [("Decompositions and canonical_sort", "unic/normal/src/decompose.rs"), ("Recompositions with its buffer and states", "unic/normal/src/recompose.rs")], technique=AI)
p("C32", "IDNA processing maps, normalizes and validates names as UTS #46 says",
  "For every name of up to three characters among a letter, a digit, the hyphen, the dot and U+0080 to U+07FF, alone or beside an xn-- label, and whatever the mapping status of those characters, NFC and Punycode are, to_unicode returns the name mapped, normalized and with every label that starts with xn-- decoded (or kept, when that fails), with an error exactly if a character is disallowed, a label cannot be decoded, or a label is not valid: it is not in NFC, begins or ends with a hyphen, begins with a combining mark, contains a character that is not valid under the flags (transitional processing never applies to decoded labels, nor to to_unicode), or breaks the Bidi rule of RFC 5893 in a name with a right-to-left character. Labels of up to five characters are covered for the Bidi rule. to_ascii gives that name with every label that is not ASCII encoded, or an error in the same cases, when encoding fails, and with verify_dns_length for an empty name or label (the root apart), a label over 63 or a name over 253 octets. Nothing panics.",
  IN("every name of up to three characters (labels of up to five for the Bidi rule), every combination of flags, every mapping, normalization and Punycode result"), "A conformance file runs a fixed set of names through one combination of flags; which criterion rejects a label, and that errors leave the rest of the name alone, is decided by combinations it does not contain.",
  ["unic/idna/src/process.rs"], [("processing, map_char, validate, passes_bidi", "unic/idna/src/process.rs"), ("to_ascii and to_unicode", "unic/idna/src/process.rs")], technique=AI)
p("C19", "Property and value names are the UCD names, parse back, and are displayed",
  "For every enumerated property (General_Category, Bidi_Class, Decomposition_Type, Grapheme_Cluster_Break, Word_Break, Sentence_Break) abbr_name and long_name of every value are the UCD aliases, all_values lists every value once, and Display writes the human name. For every string, parsing it as an enumerated property gives the value whose short or long name it is, ignoring ASCII case, and otherwise an error; binary properties parse exactly y, yes, t, true, n, no, f and false, ignoring ASCII case. prop_abbr_name and prop_long_name are the UCD names. Every char is displayed as U+ and at least four upper case hex digits by unicode_notation; every UnicodeVersion as major.minor.micro; every CanonicalCombiningClass as its number.",
  IN("every property value; every string; every char, version and combining class"), "The doc tests parse one name per property; wrong aliases, names that collide or shadow each other, and strings that should not parse are not sampled.",
  ["unic/char/property/src/macros.rs", "unic/char/property/src/property.rs", "unic/ucd/category/src/category.rs", "unic/ucd/segment/src/sentence_break.rs", "unic/char/basics/src/notation.rs", "unic/common/src/version.rs"], [("char_property! macro: FromStr, Display, names", "unic/char/property/src/macros.rs"), ("names of the values", "unic/ucd/category/src/category.rs")], technique=AIS)
p("C24", "A bidi embedding level is always between 0 and 126",
  "For every number n, Level::new accepts n exactly up to 126 and new_explicit exactly up to 125. From every level and for every amount, raise, raise_explicit and lower change the number by exactly that amount when the result is in range and otherwise fail and leave it unchanged; the next LTR, next RTL and lowest RTL levels are the nearest ones of that parity, or an error when out of range; is_rtl, is_ltr, bidi_class and has_rtl follow the parity; levels compare like their numbers and are displayed as them. A level made by From<u8> or by deserialization (newtype or sequence form) is in range too: other numbers panic or are an error, respectively.",
  IN("every number, level and amount"), "The tests try about ten numbers; the limits 125 and 126, the overflow of u8 and deserialization are where errors hide.",
  ["unic/bidi/src/level.rs"], [("checked arithmetic on the number", "unic/bidi/src/level.rs"), ("Deserialize", "unic/bidi/src/level.rs")], technique=AIS)
BI = "unic/bidi/src/bidi_info.rs"
p("C33", "Lines are reordered for display as rules L1 and L2 of UAX #9 say",
  "For every text of up to three characters of any UTF-8 length (up to five with the classes or the levels fixed), with every combination of Bidi classes, of levels (including 123 to 126) and of the paragraph level, and for every line of it, from any character to any other: visual_runs gives the levels with separators, and white space, isolate initiators and PDIs before a separator or the end of the line, reset to the paragraph level (L1) and no other level changed; the runs are the maximal runs of one level of the line, each once, in the order rule L2 puts them; reorder_line gives exactly the characters of the line in that order, right-to-left runs reversed. Empty lines, also at the end of the text, are fine. Nothing panics.",
  IN("every text, class, level and line within the bound"), "The tests reorder whole one-line paragraphs; lines that start within the paragraph, and every nesting of levels, are not sampled.",
  [BI], [("BidiInfo::visual_runs, reorder_line", BI)], technique=AI)
p("C34", "Paragraphs, their levels and isolates are found as rules P1 to P3 and X5c say",
  "For every text of up to three characters of any UTF-8 length, with any Bidi classes (five with strong characters, isolates and separators), BidiInfo::new splits the text after each paragraph separator into paragraphs that cover it, gives each the level given or the direction of its first strong character outside isolates (left-to-right without one), and reports for every byte the class of its character, where a first-strong isolate is the isolate of the direction of the first strong character inside it, nested isolates skipped. Nothing panics.",
  IN("every sequence of classes within the bound"), "Unmatched and nested isolates make the scan depend on all that follows; the tests have about a dozen texts.",
  [BI], [("InitialInfo::new", BI)], technique=AI)
p("C35", "Embedding levels are resolved as rules X1 to I2 of UAX #9 say",
  "For every text of up to three characters with any Bidi classes (four or five for the explicit, isolate and neutral classes alone; four for the strong and weak classes alone), for automatic, left-to-right, right-to-left and the deepest paragraph levels, BidiInfo::new gives each character that rule X9 does not remove the level rules X1 to X10, W1 to W7, N1, N2, I1 and I2 give it, the same for each of its bytes, and it does not panic. (Brackets are not paired: N0 is not implemented. The sequences of classes in known_findings.json are wrong.)",
  IN("every sequence of classes within the bound, every kind of paragraph level"), "BidiTest.txt is not in the repository, so what is left are some twenty texts; overrides, overflow of the depth limit, isolates and weak types interact.",
  ["unic/bidi/src/explicit.rs", "unic/bidi/src/prepare.rs", "unic/bidi/src/implicit.rs", BI],
  [("explicit::compute", "unic/bidi/src/explicit.rs"), ("isolating_run_sequences", "unic/bidi/src/prepare.rs"), ("resolve_weak, resolve_neutral, resolve_levels", "unic/bidi/src/implicit.rs")], technique=AI)
EFF = "effect analysis: rules over the type-checked program and the MIR of every function of every library crate"
p("C36", "Results depend on the arguments alone",
  "No operation of the library reads or changes anything but its arguments and immutable tables: there is no mutable or thread-local static and none with interior mutability (except values computed once from nothing), no type holds interior-mutable state, and no function reaches the environment, locale, clock, file system, standard streams, threads, locks, randomness (hash order included), foreign code or the addresses of values (except to subtract two within one text). So the same call gives the same result in every thread, process and order of calls, and prints nothing.",
  (["schedules", "histories"], "every history of calls, every thread and every environment"), "A test calls each function in one order, in one environment, and cannot see a cache or a global that another order would expose.",
  ["unic/segment/src/word.rs", "unic/bidi/src/bidi_info.rs", "unic/idna/src/process.rs", "unic/ucd/name/src/name.rs"],
  [("statics", "unic/idna/punycode/src/lib.rs"), ("addresses of slices", "unic/segment/src/grapheme.rs")], technique=EFF)
p("C37", "Safe calls cannot cause undefined behaviour",
  "The only unsafe operations in the library crates are unchecked conversions to char in Hangul arithmetic and in character ranges, the steps of a range, and one unchecked conversion to String in the Punycode encoder, and for every argument that safe code can pass their preconditions hold: the number is a scalar value, the step does not leave the range of characters, the bytes are ASCII. The fields they rely on are private. No other function makes an unsafe call, dereferences a raw pointer, reads a union, writes a static mut or implements an unsafe trait.",
  IN("every argument that safe code can pass"), "Undefined behaviour shows only for single values (a surrogate, the last character) and often not even then; tests of a few values pass.",
  ["unic/ucd/hangul/src/hangul.rs", "unic/char/range/src/step.rs", "unic/char/range/src/iter.rs", "unic/char/range/src/par_iter.rs", "unic/idna/punycode/src/lib.rs"],
  [("compose_syllable, decompose_syllable", "unic/ucd/hangul/src/hangul.rs"), ("step::forward, backward", "unic/char/range/src/step.rs"), ("encode", "unic/idna/punycode/src/lib.rs")],
  technique=EFF + "; preconditions by abstract interpretation of MIR")
p("C38", "Every type can be sent to and shared between threads",
  "Every type of the library crates consists of parts that are Send and Sync (whatever its type parameters are, as long as they are): none holds a reference count that is not atomic, a cell, a raw pointer, or a trait object without those bounds. The number in a Level is private, so no code can make a level that its checked operations would refuse.",
  (["programs", "schedules"], "every use of a value from several threads"), "Sendability is decided by the compiler from the fields; no test of the repository asks for it, and one field can take it away.",
  ["unic/bidi/src/level.rs", "unic/segment/src/grapheme.rs", "unic/segment/src/word.rs", "unic/normal/src/recompose.rs"],
  [("fields of every struct and enum", "unic/bidi/src/level.rs")], technique="type-structure query over the type-checked program (Send and Sync by construction, field privacy)")
p("C39", "Punycode encoding and decoding are inverse for every string",
  "For every string, decoding its Punycode encoding gives the string back, and encoding what an accepted Punycode string decodes to gives that string up to letter case; both fail, without panicking, exactly when the code point or the delta leaves its range.",
  IN("every string"), "The tests have some thirty strings; the digits depend on every character before.",
  ["unic/idna/punycode/src/lib.rs"], [("decode, encode, adapt", "unic/idna/punycode/src/lib.rs")],
  na="Digits are produced by a loop over a running delta and an adaptive bias that accumulate over the whole string (products, quotients and remainders of unbounded history). No interval, linear or finite abstraction tells a right digit from a wrong one, and a bounded static unrolling beyond one character explodes; deciding it means running it. C32 takes what the coder returns as unknown, and C37 covers its unsafe conversion.")
p("C40", "The Bidirectional Algorithm is right on texts of any length",
  "What C33, C34 and C35 say for short texts holds for every text, including nesting up to the depth limit of 125 and more.",
  IN("every text"), "Tests have finitely many texts.",
  ["unic/bidi/src/explicit.rs", "unic/bidi/src/implicit.rs"], [("BidiInfo::new", BI)],
  na="The resolution of a character depends on stacks and matching pairs over the whole paragraph (context-free, unbounded depth) and on several vectors indexed alike; no finite state abstraction, which is what makes C26-C30 hold for texts of any length, exists for it. Claimed within bounds instead (C33-C35), with roots that start at the deepest level.")
p("C41", "Normalization and IDNA processing are right on texts of any length",
  "What C31 and C32 say holds for every text, with runs of combining marks and labels of any length, and normalization is idempotent.",
  IN("every text"), "Tests have finitely many texts.",
  ["unic/normal/src/decompose.rs", "unic/normal/src/recompose.rs", "unic/idna/src/process.rs"], [("Recompositions", "unic/normal/src/recompose.rs")],
  na="Canonical reordering sorts a run of marks of unbounded length in a buffer, and composition looks back over it: an inductive invariant over the sorted buffer would need a proof, not an analysis with a finite domain. Claimed within bounds (C31: all decompositions of texts of a few characters; C32).")
