//! The bounded input spaces.
use crate::engine::Space;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
    pub fn name(self) -> &'static str { self.pick("quick", "thorough") }
}

/// One alphabet, with the depths of the two tiers
macro_rules! space {
    ($t:expr, $name:expr, $q:expr, $th:expr, [$($w:expr),* $(,)?]) => { Space::new($name, &[$($w),*], $t.pick($q, $th)) };
    ($t:expr, $name:expr, $q:expr, $th:expr, [$($w:expr),* $(,)?], $pre:expr, $suf:expr) => { Space::new($name, &[$($w),*], $t.pick($q, $th)).framed($pre, $suf) };
}

/// Every indicator, every class of white space, and characters of every width
pub fn broad(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "indicators", 4, 5, [
            "a", ":", "-", " ", "\n", "[", "]", "{", "}", ",", "?", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "\\", "0", "\t", "\r", "é", "\u{85}", "\u{2028}", "\u{feff}", "😀", "@", "<", "\0",
        ]),
        space!(t, "constructs", 4, 5, [
            "a", ": ", "- ", "\n", "  ", "[", "]", "{", "}", ", ", "? ", " #c", "&a ", "*a", "!t ", "!e!", "!<t>", "|", ">-", "|2", "'s'", "\"d", "\"", "\\x41", "\\\n", "%YAML 1.1\n", "%TAG ! x\n", "---", "...", "\t",
        ]),
    ]
}

pub fn quoted(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "single quoted", 6, 7, ["'", "''", "a", " ", "\n", "\t", "é", "\\", "#", ":"], "'", ""),
        space!(t, "single quoted, closed", 6, 7, ["a", "''", " ", "\n", "\t", "é", "\"", "\\", "--- ", "..."], "'", "'"),
        space!(t, "double quoted", 6, 7, ["\"", "a", " ", "\n", "\t", "é", "\\", "\\\"", "\\\n", "n"], "\"", ""),
        space!(t, "double quoted, closed", 6, 7, ["a", "\\\\", " ", "\n", "\t", "\\\n", "\\t", "'", "---", "\\\r\n"], "\"", "\""),
        space!(t, "double quoted, indented", 6, 7, ["a", "\\", " ", "\n", "x", "\\ ", "#", "...", "😀", "\r\n"], "- k: \"", "\"\n- b"),
        space!(t, "quoted keys", 5, 6, ["'a'", "\"b\"", "''", "\"\\n\"", ":", " ", "\n", "- ", ",", "x"]),
        space!(t, "line folding", 8, 10, ["a", " ", "\n", "\t"], "\"", "\""),
        space!(t, "line folding, single", 8, 10, ["a", " ", "\n", "\t"], "'", "'"),
        space!(t, "breaks in quotes", 6, 7, ["a", " ", "\n", "\r", "\r\n", "\u{85}", "\u{2028}", "\u{2029}", "\\"], "\"", "\""),
        space!(t, "quotes in flow", 6, 7, ["'a'", "\"", "b", ":", ",", " ", "\n", "]", "''"], "[", ""),
    ]
}

pub fn plain(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "plain", 7, 8, ["a", " ", ":", "#", "\n", "-", "?", "\t"]),
        space!(t, "plain, indicators", 5, 6, ["a", " ", ":", "#", "\n", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`", ","]),
        space!(t, "plain in flow", 6, 7, ["a", " ", ":", "#", "\n", ",", "-", "?", "]"], "[", "]"),
        space!(t, "plain in flow map", 6, 7, ["a", " ", ":", "#", "\n", ",", "-", "?", "}"], "{", "}"),
        space!(t, "plain in block", 7, 8, ["a", " ", ":", "#", "\n", "-", "."], "- k: ", "\n- z"),
        space!(t, "plain lines", 9, 11, ["a", " ", "\n", ":"]),
        space!(t, "plain, document markers", 6, 8, ["a", " ", "\n", "---", "...", "-", "."], "a\n", ""),
        space!(t, "plain, wide", 6, 7, ["é", "😀", " ", ":", "\n", "#", "-", "\u{2028}", "\u{feff}"]),
        space!(t, "plain, breaks", 6, 7, ["a", " ", "\n", "\r", "\u{85}", "\u{2029}", ":", "-"]),
    ]
}

pub fn block_scalar(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "literal", 9, 11, ["a", " ", "\n"], "|", ""),
        space!(t, "folded", 9, 11, ["a", " ", "\n"], ">", ""),
        space!(t, "folded lines", 9, 11, [" a", "\n", " ", "  "], ">\n", ""),
        space!(t, "literal, tabs", 7, 9, ["a", " ", "\n", "\t"], "|\n", ""),
        space!(t, "folded, tabs", 7, 9, ["a", " ", "\n", "\t"], ">\n", ""),
        space!(t, "headers", 6, 7, ["|", ">", "+", "-", "1", "2", "0", " ", "\n", "a"]),
        space!(t, "headers, comments", 6, 7, ["-", "+", "9", "10", " ", "\n", "#", "a", "\t"], "k: |", "\n"),
        space!(t, "keep", 8, 10, ["a", " ", "\n"], "|+\n", "\nk"),
        space!(t, "strip", 8, 10, ["a", " ", "\n"], ">-\n", ""),
        space!(t, "explicit", 8, 10, ["a", " ", "\n"], "- |2", "\n- b"),
        space!(t, "explicit folded", 8, 10, ["a", " ", "\n"], "- - >1+", ""),
        space!(t, "nested", 7, 9, ["a", " ", "\n", "- ", "k: "], "k: |\n", ""),
        space!(t, "nested in a sequence", 7, 9, ["a", " ", "\n", "- ", "k: "], "- >\n", ""),
        space!(t, "zero indented", 6, 8, ["|\n", "a", " ", "\n", "- ", "k: "], "k:\n- ", ""),
        space!(t, "document ends", 6, 8, ["a", " ", "\n", "---", "...", "#"], "--- |\n", ""),
        space!(t, "breaks in block scalars", 6, 7, ["a", " ", "\n", "\r", "\r\n", "\u{85}", "\u{2028}"], ">", ""),
        space!(t, "wide characters", 6, 7, ["é", " ", "\n", "😀", "\u{2029}", "#"], "|\n", ""),
    ]
}

pub fn flow(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "flow", 7, 8, ["a", "[", "]", "{", "}", ",", ":", "?", " "]),
        space!(t, "flow, lines", 6, 7, ["a", "[", "]", "{", "}", ",", ": ", "? ", "\n", "-", "#"]),
        space!(t, "flow words", 6, 7, ["'a'", "\"b\"", "[", "]", "{", "}", ",", ":", "? ", "b "]),
        space!(t, "flow properties", 5, 6, ["&a ", "!t ", "*a ", "!!s ", "[", "]", "{", "}", ",", ":", "?", "x", "\n"]),
        space!(t, "flow pairs", 7, 8, ["a", ":", " ", ",", "?", "\"b\"", "{", "}"], "[", "]"),
        space!(t, "flow map entries", 7, 8, ["a", ":", " ", ",", "?", "\"b\"", "[", "]"], "{", "}"),
        space!(t, "flow keys", 6, 7, ["[", "]", "{", "}", "a", ": ", ",", "\n"], "k: {", "}"),
        space!(t, "flow in block", 6, 7, ["[", "]", "a", ": ", ",", "\n", "- ", "  "]),
        space!(t, "flow nests", 8, 10, ["[", "]", "{", "}", "a"]),
    ]
}

pub fn block(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "block", 8, 9, ["a", ":", "-", "?", " ", "\n"]),
        space!(t, "entries", 9, 11, ["a", ": ", "- ", "\n"]),
        space!(t, "block words", 6, 7, ["a", "b: ", "- ", "? ", ": ", "\n", " ", "  ", "#c\n"]),
        space!(t, "lines", 6, 7, ["- a\n", "b:\n", "b: c\n", "- d: e\n", "? f\n", ": g\n", "  ", " ", "-\n"]),
        space!(t, "zero indented", 6, 8, ["- ", "a\n", "\n", "  ", "b: ", "-\n", "? "], "k:\n", ""),
        space!(t, "nested", 6, 8, ["- ", "a\n", "\n", " ", "b: ", "-"], "k:\n  j: x\n", "\nl: z"),
        space!(t, "block and flow", 6, 7, ["- ", "a", ":", " ", "\n", "[", "]", "{}"]),
        space!(t, "block and quotes", 6, 7, ["- ", "'a'", ":", " ", "\n", "\"b\"", "?", "*c"]),
        space!(t, "block and scalars", 6, 7, ["- ", "|\n", "a", ": ", " ", "\n", ">\n"]),
        space!(t, "block, tabs", 6, 8, ["-", "\t", "a", ":", " ", "\n"]),
        space!(t, "block, breaks", 6, 7, ["- ", "a", ":", " ", "\r", "\r\n", "\u{2028}", "?"]),
        space!(t, "indentation", 10, 12, ["- ", "\n", " "], "", ""),
        space!(t, "mapping indentation", 9, 11, ["a: ", "\n", " "], "", ""),
        space!(t, "documents of lines", 6, 7, ["- a\n", "b: c\n", " ", "---\n", "...\n", "? ", "-\n", "b:\n"]),
    ]
}

pub fn documents(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "documents", 6, 7, ["---", "...", "\n", " ", "a", "- ", ": ", "#", "|", "["]),
        space!(t, "directives", 5, 6, ["%YAML 1.1\n", "%TAG ! x\n", "%TAG !e! y:\n", "---", "...", "\n", " ", "a", "!e!t ", "!t ", "!!t "]),
        space!(t, "directive syntax", 6, 7, ["%YAML", "%TAG", " ", "1", ".", "!", "e", "\n", "---", "\t"]),
        space!(t, "version numbers", 5, 6, ["0", "1", "2", "255", "256", ".", " ", "-", "a"], "%YAML ", "\n---\n"),
        space!(t, "tag prefixes", 5, 6, ["!", "a", ":", "%41", "%e9", " ", "tag:", ",", "é", "\t"], "%TAG !a! ", "\n--- !a!b c"),
        space!(t, "bare documents", 7, 8, ["a\n", "...\n", "---\n", "--- ", "... ", "#c\n", "\n"]),
        space!(t, "documents of collections", 6, 7, ["- a\n", "b: c\n", "---\n", "...\n", "--- ", "k:\n", "- ", "[]\n"]),
        space!(t, "redefined handles", 4, 5, ["%TAG !e! a\n", "%TAG !e! b\n", "%TAG !! c\n", "%TAG !f! d\n", "%YAML 1.2\n", "--- !e!x y\n", "--- !!x y\n", "--- !f!x\n", "...\n", "- "]),
    ]
}

pub fn properties(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "properties", 6, 7, ["&a", "*a", "!t", "!", "!!t", " ", "\n", ":", "- ", "x"]),
        space!(t, "properties in flow", 6, 7, ["&a", "*a", "!t", " ", ",", ":", "{", "]", "x"], "[", ""),
        space!(t, "properties of collections", 5, 6, ["&a ", "*a ", "!t ", "\n", ": ", "- ", "? ", "x", "  ", "[", "]", "{}"]),
        space!(t, "anchor names", 5, 6, ["&", "*", "a", "0", "-", "_", ":", ",", "]", " ", "\n", "é", "?", "%", "@", "`", "}"]),
        space!(t, "tag syntax", 6, 7, ["!", "a", "<", ">", "%", "41", ":", ",", " ", "\n"]),
        space!(t, "tag escapes", 4, 5, ["%41", "%e2", "%82", "%ac", "%f0", "%9f", "%98", "%80", "%c0", "%ff", "a", "%2", "!"], "!", " x"),
        space!(t, "verbatim tags", 5, 6, ["!", "a", ":", ",", "[", "]", "%41", ">", " ", "{", "é"], "!<", "> x"),
        space!(t, "named handles", 6, 7, ["!", "e", "t", " ", "x", "%41", "\n"], "%TAG !e! tag:e\n--- ", ""),
        space!(t, "orders", 5, 6, ["&a ", "&b ", "!t ", "!u ", "*c ", "x", "\n", "- ", "|\n", "\"q\" ", ": "]),
    ]
}

pub fn escapes(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "escape sequences", 5, 6, ["\\", "x", "u", "U", "0", "4", "F", "g", "\"", "n", "\n"], "\"", "\""),
        space!(t, "escapes and folds", 6, 7, ["\\n", "\\ ", "\\\n", " ", "\n", "a", "\\\\", "\\\""], "\"", "\""),
        space!(t, "hexadecimal digits", 4, 5, ["0", "1", "8", "9", "a", "D", "d", "F", "f", "G", "é", "\\", " "], "\"\\u", "\""),
        space!(t, "wide hexadecimal digits", 4, 5, ["0", "1", "2", "9", "a", "D", "d", "F", "f", "8"], "\"\\U00", "00\""),
    ]
}

/// Inputs with line breaks, none of which is part of a block scalar or a quote
pub fn layout(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "layout", 6, 8, ["a", ": ", "- ", "\n", "  ", "? ", "b:"]),
        space!(t, "layout in flow", 6, 7, ["a", ": ", "[", "]", "{", "}", ", ", "\n"]),
        space!(t, "layout of documents", 6, 7, ["a", "---", "...", "\n", "&a ", "!t ", "- ", "k: "]),
    ]
}
pub fn layout_scalars(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "breaks in block scalars", 7, 9, ["a", " ", "\n", "|", ">", "- "]),
        space!(t, "breaks in quotes", 7, 8, ["a", " ", "\n", "\"", "'", "\\", ": "]),
        space!(t, "breaks in headers", 6, 7, ["a", " ", "\n", "#c", "|", ">-", "---", "+"]),
    ]
}

/// Smaller mixture used where each input is run many times over
pub fn mixed(t: Tier, q: u32, th: u32) -> Vec<Space> {
    vec![
        space!(t, "mixture", q, th, [
            "a", ": ", "- ", "\n", " ", "[", "]", "{", ",", "'b c'", "\"\\n", "\"", "|\n  a\n", ">\n", "é", "&x ", "*x", "!t ", "---\n", "#", "? ",
        ]),
    ]
}

/// Everything the model checks explore, less deep by `by` words
pub fn all_models(t: Tier, by: u32) -> Vec<Space> {
    let mut v = vec![];
    for f in [quoted, plain, block_scalar, flow, block, documents, properties, escapes] { v.extend(f(t)) }
    for f in [quoted_around, plain_around, block_scalar_around, flow_around, block_around, documents_around, properties_around, escapes_around] { v.extend(f(t)) }
    for s in &mut v { s.n = s.n.saturating_sub(by) }
    v
}

/// Shapes in which the parts of the library meet, deeper than the broad alphabets
pub fn crash(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "block shapes", 6, 7, ["a", ":", "-", "?", " ", "\n", "["]),
        space!(t, "flow shapes", 6, 7, ["a", "[", "]", "{", ",", ":", "?"]),
        space!(t, "scalar shapes", 6, 7, ["|", ">", " ", "\n", "a", "1", "-"]),
        space!(t, "quote shapes", 5, 6, ["\"", "'", "\\", "x", "4", "u", "\n", " ", "é"]),
        space!(t, "directive shapes", 5, 6, ["%", "YAML ", "TAG ", "1", ".", "!", "---", "\n", "a"]),
        space!(t, "property shapes", 5, 6, ["&", "*", "!", "<", ">", "%4", "1", "a", " ", ":"]),
        space!(t, "document shapes", 5, 6, ["---", "...", "\n", " ", "a", "- ", "|", "[", "#"]),
        space!(t, "breaks", 4, 5, ["\r", "\n", "\u{85}", "\u{2028}", "\u{2029}", "a", "- ", "|", "\"", "'", ">", " "]),
    ]
}

pub fn grammar_spaces(t: Tier) -> Vec<Space> {
    let mut v = broad(t);
    v.extend([
        space!(t, "nodes", 6, 7, ["a", ": ", "- ", "? ", "\n", " ", "[", "]", "{"]),
        space!(t, "nodes in flow", 6, 7, ["a", ":", "?", ",", "[", "]", "{", "}", " "]),
        space!(t, "nodes with properties", 5, 6, ["&a ", "!t ", "*a ", "- ", ": ", "? ", "\n", "[", "]", ","]),
        space!(t, "nodes in documents", 6, 7, ["--- ", "...\n", "a", "\n", "- ", "k: ", "|\n", "%YAML 1.1\n"]),
        space!(t, "lines of nodes", 6, 7, ["- a\n", "b: c\n", "- ", "k:\n", "  ", "? ", ": ", "\n"]),
    ]);
    v
}

pub fn lazies(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "lazy mixture", 3, 4, [
            "a", ": ", "- ", "\n", "  ", "[", "]", "{", "}", ", ", "? ", " #c", "&a ", "*a", "!t ", "|\n", ">\n", "|2\n", "'s''s'", "\"d\\n\"", "\"", "'", "\\", "é", "---\n", "|+\n", ">-\n",
        ]),
        space!(t, "lazy quotes", 6, 7, ["\"", "\\", "a", " ", "\n", "\\n", "\\x4", "'", "é"]),
        space!(t, "lazy double quotes", 6, 7, ["\\", "x", "4", "a", " ", "\n", "\"", "\\\n", "\t"], "- \"", "\"\n- b"),
        space!(t, "lazy single quotes", 6, 7, ["'", "a", " ", "\n", "\t", "é", "''"], "k: '", "'\nj: x"),
        space!(t, "lazy plain", 6, 8, ["a", " ", "\n", ":", "#", "-", "é"]),
        space!(t, "lazy plain in flow", 6, 7, ["a", " ", "\n", ":", ",", "#", "]"], "[", "]"),
        space!(t, "lazy block scalars", 8, 10, ["a", " ", "\n", "- "], "|", ""),
        space!(t, "lazy folded scalars", 8, 10, ["a", " ", "\n"], "- >", "\n- b"),
        space!(t, "lazy chomping", 7, 9, ["a", " ", "\n", "|+\n", ">-\n"], "k: ", ""),
        space!(t, "lazy explicit indentation", 7, 8, ["a", " ", "\n", "1", "2"], "- |", ""),
        space!(t, "lazy nested block scalars", 6, 7, ["- ", "k: ", "|\n", ">2\n", "a", "  ", "\n"]),
    ]
}

pub fn zero_copy(t: Tier) -> Vec<Space> {
    vec![
        space!(t, "copies", 4, 5, ["a", "bc", ": ", "- ", "\n", " ", "[", "]", "{", "}", ", ", "'s'", "'", "\"d\"", "\"", "\\n", "&x ", "*x", "!t ", "!e!t ", "é", "|\n "]),
        space!(t, "plain copies", 7, 8, ["a", " ", "\n", ":", "-", "é"]),
        space!(t, "single quoted copies", 6, 7, ["a", " ", "\n", "'", "é", ": "], "'", "'"),
        space!(t, "double quoted copies", 6, 7, ["a", " ", "\n", "\\n", "é", ": "], "\"", "\""),
        space!(t, "names", 5, 6, ["&", "*", "!", "a", " ", "é", "-", "<", ">", "\n"]),
        space!(t, "directive names", 5, 6, ["!", "e", "%41", "x", " ", "\n"], "%TAG !", "\n--- !e!a b"),
    ]
}

pub fn marked(t: Tier) -> Vec<Space> {
    let mut v = broad(t);
    v.extend([
        space!(t, "marked nodes", 6, 7, ["a", ": ", "- ", "? ", "\n", " ", "é", "'b'"]),
        space!(t, "marked flow nodes", 6, 7, ["a", ":", "?", ",", "[", "]", "{", "}", "\n"]),
        space!(t, "marked scalars", 6, 7, ["a", " ", "\n", "\"", "'", ":", "😀"]),
        space!(t, "marked block scalars", 7, 8, ["a", " ", "\n", "|", ">", "- "]),
        space!(t, "marked properties", 5, 6, ["&a", "*a", "!t", " ", "\n", ":", "[", "]", "é"]),
        space!(t, "marked documents", 5, 6, ["---", "...", "\n", " ", "a", "- ", "%YAML 1.2\n", "#é"]),
        space!(t, "marked breaks", 5, 6, ["a", "\r", "\n", "\u{85}", "\u{2028}", " ", "- ", "\"", "|"]),
    ]);
    v
}

// ---------------------------------------------------------------- surroundings

/// Places for a node on a line
pub const INLINE: &[&str] = &[
    "@", " @", "\n\n  @ # c\n", "- @", "- @\n- b", "- - @\n  - b\n- c", "k: @", "k: @\nj: x", "k:\n  @", "k:\n @\nj: x", "a: b\nk: @ # c\nj: x", "- k: @\n  j: v\n- b",
    "@: v", "@: v\nj: x", "- @: v", "- a\n- @: v\n  j: x", "k:\n  @: v\n  j: x\nl: z", "? @", "? @\n: v", "? a\n: @", "? - @\n: - b", "? @: v\n: w", "k:\n- @\n- b\nj: x",
    "--- @", "--- @\n...\n--- b", "a\n---\n@\n", "%YAML 1.2\n---\n@\n", "- @\n---\n- b", "- &a @", "k: !t @\nj: x", "- !t &a @\n- *a", "&m\nk: @", "- - - k: @\n      j: x",
    "[@]", "[a, @]", "[@, b]", "[ @ ]", "[[@]]", "[@]: v", "- [@]\n- b", "k: [a,\n  @\n ]\nj: x", "[@: v]", "[a, @: v, b]", "[k: @]", "[? @ : v]", "[? @]", "[&a @, *a]",
    "{@}", "{a, @}", "{@: v}", "{k: @}", "{k: @, j: x}", "{a: b, @: v}", "{? @ : v}", "{? @}", "{k: [@]}", "[{@}]", "[{k: @}]", "{k: {@: v}}", "- {k: @}\n- b", "{k: !t @, j: x}", "{@}: v",
];

/// Places for a block scalar, or a block collection which begins there
pub const BLOCKS: &[&str] = &[
    "@", "- @", "- @\n- b", "- - @\n  - b\n- c", "k: @", "k: @\nj: x", "- k: @\n  j: v\n- b", "? @", "? @\n: v", "? a\n: @\nj: x", "k:\n- @\n- b\nj: x", "--- @", "--- @\n...\n--- b", "a\n---\n@\n", "%YAML 1.2\n--- @\n",
    "- @\n---\n- b", "- &a @", "k: !t @\nj: x", "- !t &a @\n- *a", "   - @\n   - b", "  k: @\n  j: x", "- - - k: @\n      j: x", "- ? @\n  : v\n- b", "k:\n  j:\n    i: @\n  h: x\n", "a: b\nk: @ # c\nj: x", "k:\n  - j: @\n    i: x\n  - b",
];

/// Places for lines of block nodes
pub const LINES: &[&str] = &[
    "@", "k:\n@", "k:\n@\nj: x", "- k:\n@", "- a\n@", "-\n@\n- b", "- - a\n@", "? k\n@", "? k\n: v\n@", "---\n@\n...\n", "a: b\n@", "k:\n  j: x\n@", "- a: b\n@\n- c", "k:\n- a\n@", "k: |\n  x\n@", "k: 'a\n  b'\n@", "- [a,\n  b]\n@", "&a\n@", "k: !t\n@",
    "- - - a\n@", "k:\n    j:\n      i: x\n@", "@\n---\nb", "# c\n@\n# c\n", "k: &a\n@\nj: *a", "--- !t\n@",
];

/// Places for whole documents
pub const STREAMS: &[&str] = &[
    "@", "a\n...\n@", "a\n---\n@", "- a\n---\n@", "|\n x\n...\n@", "%YAML 1.2\n---\na\n...\n@", "%TAG !e! x\n---\na\n...\n@", "#c\n@", "\n\n@", "@\n---\nb", "@\n...\n%TAG !e! x\n--- !e!y z", "@\n...\n%YAML 1.1\n---", "@...\n", "[a]\n...\n@", "'a\n b'\n---\n@", "---\n---\n@", "...\n@", "k:\n  j: x\n@", "- - a\n@",
];

fn around(v: &mut Vec<Space>, frames: &[&str], what: &str, alpha: &[&str], n: u32) {
    for f in frames {
        let (pre, suf) = f.split_once('@').unwrap();
        v.push(Space::new(&format!("{what} in {f:?}"), alpha, n).framed(pre, suf));
    }
}

macro_rules! around {
    ($($name:ident: $([$frames:expr, $pre:expr, $suf:expr, $q:expr, $th:expr, $alpha:expr]),+ $(,)?;)*) => {
        $(pub fn $name(t: Tier) -> Vec<Space> {
            let mut v = vec![];
            $({
                let frames: Vec<String> = $frames.iter().map(|f| f.replace('@', concat!($pre, "@", $suf))).collect();
                let frames: Vec<&str> = frames.iter().map(|f| &**f).collect();
                around(&mut v, &frames, stringify!($name), $alpha, t.pick($q, $th));
            })+
            v
        })*
    };
}

around! {
    quoted_around:
        [INLINE, "'", "'", 5, 6, &["a", " ", "\n", "\n    ", "''", ": ", " #", "\\"]],
        [INLINE, "\"", "\"", 5, 6, &["a", " ", "\n", "\n    ", "\\\n   ", "\\n", "\\\"", ", "]],
        [INLINE, "", "", 5, 6, &["'a'", "\"b\"", " ", ":", "\n   ", "#", "x"]];
    plain_around:
        [INLINE, "a", "", 5, 6, &["b", " ", ":", "#", "\n    ", "\n", "-", ",", "é"]],
        [INLINE, "", "", 3, 4, &["a", " ", ":", "#", "\n   ", "-", "?", "&", "*", "!", "|", ">", "%", "@", "`", "]", "}", ",", "\t", ".", "'", "\""]];
    block_scalar_around:
        [BLOCKS, "|", "", 5, 6, &["+", "-", "2", " ", "\n", "\n    ", "\n      a", "a", "#"]],
        [BLOCKS, ">", "", 5, 6, &["+", "-", "3", " ", "\n", "\n     ", "\n       a", "a", "#"]],
        [BLOCKS, "|+\n", "", 5, 6, &["      a", "\n", "    ", "- ", "k: x"]],
        [BLOCKS, ">-\n", "", 5, 6, &["      a", "\n", "    ", " ", "\t"]];
    flow_around:
        [INLINE, "[", "]", 4, 5, &["a", "[", "]", "{", "}", ",", ": ", "? ", "\"q\":", "\n    "]],
        [INLINE, "{", "}", 4, 5, &["a", "[", "]", "{", "}", ",", ": ", "? ", "\"q\":", "\n    "]];
    block_around:
        [BLOCKS, "- ", "", 5, 6, &["a", "- ", "b: ", "? ", "\n    ", "\n      ", "\n        ", ": "]],
        [BLOCKS, "l: ", "", 5, 6, &["a", "- ", "b: ", "? ", "\n    ", "\n      ", "\n        ", ": "]],
        [LINES, "", "", 5, 6, &["a\n", "- ", "b: ", "? ", ": ", "  ", " ", "\n"]];
    documents_around:
        [STREAMS, "", "", 4, 5, &["---", "...", "\n", " ", "a", "- ", "%YAML 1.1\n", "%TAG !e! y:\n", "!e!t ", "!!t ", "#", "k: ", "|\n"]];
    properties_around:
        [INLINE, "", "", 5, 6, &["&a ", "*a ", "!t ", "!!u ", "x", "\n    ", "!<v> ", "\"q\"", "[]"]],
        [BLOCKS, "", "", 5, 6, &["&a ", "*a ", "!t ", "x", "\n      ", "- ", "k: ", "|\n", "? "]],
        [LINES, "", "", 5, 6, &["&a ", "!t ", "*a ", "x", "\n", "  ", "- ", "k: "]];
    escapes_around:
        [INLINE, "\"", "\"", 4, 5, &["\\x41", "\\u00e9", "\\U0001F600", "\\\n    ", "\\q", "\\", "a", " ", "\\N", "\\/", "\\\""]];
}
