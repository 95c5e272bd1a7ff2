//! Reference model: a whole-input, non-incremental reader of the YAML
//! language the library documents. It works on a `Vec<char>`, never borrows,
//! has no notion of chunks or laziness, builds the whole token list first and
//! then walks it with plain recursive functions.
use crate::trace::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Start,
    End,
    Version(u8, u8),
    TagDir(String, String),
    DocStart,
    DocEnd,
    BSeq,
    BMap,
    BEnd,
    FSeq,
    FSeqEnd,
    FMap,
    FMapEnd,
    BEntry,
    /// Of a sequence which is not indented, where something else follows at its column
    FlushEnd,
    FEntry,
    Key,
    Value,
    Alias(String),
    Anchor(String),
    Tag(String, String),
    Scalar(String, Style),
}

#[derive(Clone, Copy, PartialEq)]
enum Coll {
    Seq,
    Map,
}

#[derive(Clone, Debug)]
struct Possible {
    tok: usize,
    at: usize,
    line: usize,
    col: isize,
    required: bool,
}

/// What the model says about an input
#[derive(Clone, Debug, PartialEq)]
pub struct Verdict {
    pub evs: Vec<Ev>,
    /// Is it a well formed stream?
    pub ok: bool,
    /// If not, why
    pub why: &'static str,
    /// Are the tokens at fault, rather than their order?
    pub lexical: bool,
    /// If their order is, is a token at fault behind, which may have been seen already?
    pub ahead: &'static str,
    /// Does the offending token run into the end of the input?
    pub cut: bool,
}

/// The place of a token which is at the indentation of its mapping
const PLACE: &str = "not where a key may be";
const OUT: &str = "out of tokens";

type R<T> = Result<T, &'static str>;

struct Scan {
    c: Vec<char>,
    i: usize,
    line: usize,
    col: isize,
    toks: Vec<Tok>,
    indent: isize,
    indents: Vec<(isize, Coll)>,
    /// Levels of the mappings directly holding a sequence whose entries are not
    /// indented any further than the keys of the mapping are
    flush: Vec<usize>,
    keys: Vec<Option<Possible>>,
    allowed: bool,
    /// Levels of the mappings whose last key is an explicit one without a value
    explicit: Vec<usize>,
}

fn is_break(c: char) -> bool { matches!(c, '\r' | '\n' | '\u{85}' | '\u{2028}' | '\u{2029}') }
fn is_blank(c: char) -> bool { c == ' ' || c == '\t' }
fn is_flow_ind(c: char) -> bool { matches!(c, ',' | '[' | ']' | '{' | '}') }

impl Scan {
    fn new(s: &str) -> Self {
        Scan { c: s.chars().collect(), i: 0, line: 0, col: 0, toks: vec![Tok::Start], indent: -1, indents: vec![], flush: vec![], keys: vec![None], allowed: true, explicit: vec![] }
    }
    fn at(&self, n: usize) -> Option<char> { self.c.get(self.i + n).copied() }
    fn is(&self, n: usize, f: impl Fn(char) -> bool) -> bool { self.at(n).map_or(false, f) }
    fn eq(&self, n: usize, x: char) -> bool { self.at(n) == Some(x) }
    fn eof(&self) -> bool { self.i >= self.c.len() }
    fn brk(&self) -> bool { self.is(0, is_break) }
    fn blank(&self) -> bool { self.is(0, is_blank) }
    fn wsz(&self, n: usize) -> bool { self.at(n).map_or(true, |c| is_blank(c) || is_break(c)) }
    fn flow(&self) -> bool { self.keys.len() > 1 }
    fn adv(&mut self) { self.i += 1; self.col += 1; }
    fn adv_n(&mut self, n: usize) { for _ in 0..n { self.adv() } }
    fn nl(&mut self) {
        if self.eq(0, '\r') && self.eq(1, '\n') { self.i += 1 }
        self.i += 1;
        self.line += 1;
        self.col = 0;
    }
    fn doc_ind(&self) -> bool {
        self.col == 0 && ((0..3).all(|n| self.eq(n, '-')) || (0..3).all(|n| self.eq(n, '.'))) && self.wsz(3)
    }

    /// The tokens, what ends them, whether that runs into the end of the input, and
    /// a fault of the same token, if the one that ends them is its place
    fn run(mut self) -> (Vec<Tok>, R<()>, bool, &'static str) {
        loop {
            match self.next() {
                Ok(true) => {}
                Ok(false) => return (self.toks, Ok(()), false, ""),
                Err(e) => {
                    let cut = self.i >= self.c.len().saturating_sub(3);
                    let n = self.toks.len();
                    self.allowed = true;
                    let also = if [PLACE, "missing ':'"].contains(&e) { self.next().err().unwrap_or("") } else { "" };
                    self.toks.truncate(n);
                    return (self.toks, Err(e), cut, also);
                }
            }
        }
    }

    fn next(&mut self) -> R<bool> {
        self.skip_to_token();
        for k in self.keys.iter_mut() {
            if let Some(p) = k {
                if p.line < self.line || p.at + 1024 < self.i {
                    let required = p.required;
                    *k = None;
                    if required { return Err("missing ':'") }
                }
            }
        }
        self.unroll(self.col);
        let Some(c) = self.at(0) else {
            self.unroll(-1);
            self.drop_key()?;
            self.toks.push(Tok::End);
            return Ok(false);
        };
        if !self.flow() && self.col == self.indent && !(c == '-' && self.wsz(1)) && self.flush.last() == Some(&self.indents.len()) {
            self.flush.pop();
            self.toks.push(Tok::FlushEnd);
        }
        match c {
            '%' if self.col == 0 => {
                let t = self.directive()?;
                self.unroll(-1);
                self.drop_key()?;
                self.allowed = false;
                self.toks.push(t);
            }
            '-' | '.' if self.doc_ind() => {
                if c == '.' {
                    let rest = self.c[self.i + 3..].iter().find(|c| !is_blank(**c));
                    if rest.map_or(false, |c| *c != '#' && !is_break(*c)) { return Err("text after a document end marker") }
                }
                self.unroll(-1);
                self.drop_key()?;
                self.allowed = false;
                self.toks.push(if c == '-' { Tok::DocStart } else { Tok::DocEnd });
                self.adv_n(3);
            }
            '[' | '{' => {
                self.save_key()?;
                self.keys.push(None);
                self.allowed = true;
                self.toks.push(if c == '[' { Tok::FSeq } else { Tok::FMap });
                self.adv();
            }
            ']' | '}' => {
                self.drop_key()?;
                if !self.flow() { return Err("not in a flow collection") }
                self.keys.pop();
                self.allowed = false;
                self.toks.push(if c == ']' { Tok::FSeqEnd } else { Tok::FMapEnd });
                self.adv();
            }
            ',' => {
                self.drop_key()?;
                self.allowed = true;
                self.toks.push(Tok::FEntry);
                self.adv();
            }
            '-' if self.wsz(1) => {
                if self.flow() || !self.allowed { return Err("entry not allowed here") }
                self.roll(self.col, None, Coll::Seq);
                if self.indents.last().unwrap().1 == Coll::Map && self.flush.last() != Some(&self.indents.len()) {
                    self.flush.push(self.indents.len())
                }
                self.drop_key()?;
                self.allowed = true;
                self.toks.push(Tok::BEntry);
                self.adv();
            }
            '?' if self.wsz(1) => {
                if !self.flow() {
                    if !self.allowed { return Err("key not allowed here") }
                    self.roll(self.col, None, Coll::Map);
                    self.explicit(true);
                }
                self.drop_key()?;
                self.allowed = !self.flow();
                self.toks.push(Tok::Key);
                self.adv();
            }
            ':' if self.wsz(1) || self.flow() && (self.json() || self.is(1, is_flow_ind)) => {
                if let Some(p) = self.keys.last_mut().unwrap().take() {
                    self.toks.insert(p.tok, Tok::Key);
                    self.roll(p.col, Some(p.tok), Coll::Map);
                    if !self.flow() { self.explicit(false); }
                    self.allowed = false;
                } else {
                    if !self.flow() {
                        if !self.allowed { return Err("value not allowed here") }
                        self.roll(self.col, None, Coll::Map);
                    }
                    // Nothing compact follows an omitted key
                    self.allowed = !self.flow() && self.explicit(false);
                }
                self.toks.push(Tok::Value);
                self.adv();
            }
            '&' | '*' => {
                self.save_key()?;
                self.allowed = false;
                self.adv();
                let mut name = String::new();
                while !self.wsz(0) && !self.is(0, is_flow_ind) { name.push(self.at(0).unwrap()); self.adv() }
                if name.is_empty() { return Err("empty anchor") }
                if self.is(0, |c| "[{".contains(c)) { return Err("bad anchor") }
                self.toks.push(if c == '&' { Tok::Anchor(name) } else { Tok::Alias(name) });
            }
            '!' => {
                self.save_key()?;
                self.allowed = false;
                let t = self.tag()?;
                let value = self.eq(0, ':') && (self.wsz(1) || self.flow() && self.is(1, is_flow_ind));
                if !self.wsz(0) && !value && !self.is(0, |c| ",]}".contains(c)) { return Err("text touches a tag") }
                self.toks.push(t);
            }
            '|' | '>' if !self.flow() => {
                if self.col == self.indent { return Err("block scalar is not indented") }
                self.drop_key()?;
                self.allowed = true;
                let s = self.block_scalar(c == '>')?;
                self.toks.push(Tok::Scalar(s, if c == '>' { Style::Folded } else { Style::Literal }));
            }
            '\'' | '"' => {
                self.save_key()?;
                self.allowed = false;
                let s = self.quoted(c)?;
                self.toks.push(Tok::Scalar(s, if c == '"' { Style::Double } else { Style::Single }));
            }
            '|' | '>' | '%' | '#' | '@' | '`' => return Err("cannot start a token"),
            '?' | '-' if self.flow() && self.is(1, is_flow_ind) => return Err("cannot start a token"),
            _ => {
                self.save_key()?;
                self.allowed = false;
                let s = self.plain();
                self.toks.push(Tok::Scalar(s, Style::Plain));
            }
        }
        Ok(true)
    }

    fn skip_to_token(&mut self) {
        loop {
            if self.blank() {
                // Tabs are not indentation
                if self.eq(0, '\t') && !self.flow() { self.allowed = false }
                self.adv()
            } else if self.brk() {
                self.nl();
                if !self.flow() { self.allowed = true }
            }
            else if self.eq(0, '#') && (self.i == 0 || is_break(self.c[self.i - 1]) || is_blank(self.c[self.i - 1])) { while !self.eof() && !self.brk() { self.adv() } }
            else { return }
        }
    }

    fn explicit(&mut self, yes: bool) -> bool {
        let was = self.explicit.last() == Some(&self.indents.len());
        if was { self.explicit.pop(); }
        if yes { self.explicit.push(self.indents.len()) }
        was
    }

    /// Is the last node one a ':' may touch?
    fn json(&self) -> bool {
        matches!(self.toks.last(), Some(Tok::FSeqEnd | Tok::FMapEnd | Tok::Scalar(_, Style::Single | Style::Double)))
    }

    fn unroll(&mut self, col: isize) {
        if self.flow() { return }
        while self.indent > col {
            self.toks.push(Tok::BEnd);
            self.indent = self.indents.pop().unwrap().0;
            self.flush.retain(|n| *n <= self.indents.len());
            self.explicit.retain(|n| *n <= self.indents.len());
        }
    }
    fn roll(&mut self, col: isize, at: Option<usize>, c: Coll) {
        if self.flow() || self.indent >= col { return }
        self.indents.push((self.indent, c));
        self.indent = col;
        let at = at.unwrap_or(self.toks.len());
        self.toks.insert(at, if c == Coll::Seq { Tok::BSeq } else { Tok::BMap });
    }
    fn save_key(&mut self) -> R<()> {
        let required = !self.flow() && self.indent == self.col;
        if self.allowed {
            self.drop_key()?;
            let p = Possible { tok: self.toks.len(), at: self.i, line: self.line, col: self.col, required };
            *self.keys.last_mut().unwrap() = Some(p);
        } else if required {
            return Err(PLACE);
        }
        Ok(())
    }
    fn drop_key(&mut self) -> R<()> {
        match self.keys.last_mut().unwrap().take() {
            Some(p) if p.required => Err("missing ':'"),
            _ => Ok(()),
        }
    }

    fn directive(&mut self) -> R<Tok> {
        self.adv();
        let word = |s: &Self, w: &str| w.chars().enumerate().all(|(n, c)| s.eq(n, c));
        let skip = |s: &mut Self| while s.blank() { s.adv() };
        let num = |s: &mut Self| -> R<u8> {
            let mut d = String::new();
            while s.is(0, |c| c.is_ascii_digit()) { d.push(s.at(0).unwrap()); s.adv() }
            d.parse().map_err(|_| "bad version")
        };
        if word(self, "YAML") {
            self.adv_n(4);
            if !self.blank() { return Err("bad version") }
            skip(self);
            let a = num(self)?;
            if !self.eq(0, '.') { return Err("bad version") }
            self.adv();
            let b = num(self)?;
            Ok(Tok::Version(a, b))
        } else if word(self, "TAG") {
            self.adv_n(3);
            if !self.blank() { return Err("bad handle") }
            skip(self);
            if !self.eq(0, '!') { return Err("bad handle") }
            let h = self.handle().ok_or("bad handle")?;
            if !self.blank() { return Err("bad prefix") }
            skip(self);
            if self.is(0, |c| ",[]".contains(c)) || self.brk() { return Err("bad prefix") }
            let p = self.uri(true)?;
            if self.eof() || !self.wsz(0) { return Err("bad prefix") }
            Ok(Tok::TagDir(h, p))
        } else {
            Err("unknown directive")
        }
    }

    /// "!" | "!!" | "!name!", None (and nothing consumed) if it is none of them
    fn handle(&mut self) -> Option<String> {
        let mut n = 1;
        while self.is(n, |c| c.is_ascii_alphanumeric() || c == '-') { n += 1 }
        if self.eq(n, '!') { n += 1 }
        else if n != 1 || !self.wsz(1) { return None }
        let s = self.c[self.i..self.i + n].iter().collect();
        self.adv_n(n);
        Some(s)
    }

    fn uri(&mut self, verbatim: bool) -> R<String> {
        let mut out = String::new();
        while let Some(c) = self.at(0) {
            if c.is_ascii_alphanumeric() || "&'()*+-./!#$:;=?@_~".contains(c) || verbatim && ",[]".contains(c) {
                out.push(c);
                self.adv();
            } else if c == '%' {
                let mut bytes = vec![];
                loop {
                    if !self.eq(0, '%') { return Err("bad tag escape") }
                    let h = |n| self.at(n).and_then(|c| c.to_digit(16)).ok_or("bad tag escape");
                    bytes.push((h(1)? * 16 + h(2)?) as u8);
                    self.adv_n(3);
                    let want = match bytes[0] { 0..=0x7f => 1, 0xc2..=0xdf => 2, 0xe0..=0xef => 3, 0xf0..=0xf4 => 4, _ => return Err("bad tag escape") };
                    if bytes.len() == want { break }
                }
                out.push_str(std::str::from_utf8(&bytes).map_err(|_| "bad tag escape")?);
            } else { break }
        }
        Ok(out)
    }

    fn tag(&mut self) -> R<Tok> {
        if self.eq(1, '<') {
            self.adv_n(2);
            let s = self.uri(true)?;
            if s.is_empty() || !self.eq(0, '>') { return Err("bad verbatim tag") }
            self.adv();
            return Ok(Tok::Tag(String::new(), s));
        }
        let h = match self.handle() {
            Some(h) if h == "!" => return Ok(Tok::Tag(h, String::new())),
            Some(h) => h,
            None => { self.adv(); "!".into() }
        };
        let s = self.uri(false)?;
        if s.is_empty() && h != "!" { return Err("tag without a suffix") }
        Ok(Tok::Tag(h, s))
    }

    fn fold(out: &mut String, ws: &str, breaks: usize) {
        match breaks {
            0 => out.push_str(ws),
            1 => out.push(' '),
            n => out.push_str(&"\n".repeat(n - 1)),
        }
    }

    fn plain(&mut self) -> String {
        let (mut out, mut ws, mut breaks) = (String::new(), String::new(), 0);
        let mut end = (self.i, self.line, self.col);
        loop {
            let mut first = true;
            if !(self.doc_ind() || self.eq(0, '#')) {
                while !self.wsz(0) {
                    if self.eq(0, ':') && (self.wsz(1) || self.flow() && self.is(1, is_flow_ind)) { break }
                    if self.flow() && self.is(0, is_flow_ind) { break }
                    if first { Self::fold(&mut out, &ws, breaks); first = false }
                    out.push(self.at(0).unwrap());
                    self.adv();
                }
            }
            if first { break }
            end = (self.i, self.line, self.col);
            ws.clear();
            breaks = 0;
            while self.blank() || self.brk() {
                if self.brk() { self.nl(); breaks += 1 } else { ws.push(self.at(0).unwrap()); self.adv() }
            }
            if self.eof() || !self.flow() && self.col < self.indent + 1 { break }
        }
        (self.i, self.line, self.col) = end;
        out
    }

    fn quoted(&mut self, q: char) -> R<String> {
        self.adv();
        let mut out = String::new();
        loop {
            if self.doc_ind() { return Err("document marker in a scalar") }
            if self.eof() { return Err("end of stream in a scalar") }
            let mut escaped = false;
            while !self.wsz(0) {
                let c = self.at(0).unwrap();
                if c == '\'' && q == '\'' && self.eq(1, '\'') { out.push('\''); self.adv_n(2) }
                else if c == q { self.adv(); return Ok(out) }
                else if q == '"' && c == '\\' && self.is(1, is_break) { self.adv(); escaped = true; break }
                else if q == '"' && c == '\\' { self.escape(&mut out)? }
                else { out.push(c); self.adv() }
            }
            let (mut ws, mut breaks) = (String::new(), 0);
            while self.blank() || self.brk() {
                if self.brk() { self.nl(); breaks += 1 } else { ws.push(self.at(0).unwrap()); self.adv() }
            }
            if escaped { out.push_str(&"\n".repeat(breaks - 1)) } else { Self::fold(&mut out, &ws, breaks) }
        }
    }

    fn escape(&mut self, out: &mut String) -> R<()> {
        let c = self.at(1).ok_or("end of stream in an escape")?;
        self.adv_n(2);
        let n = match c {
            'x' => 2,
            'u' => 4,
            'U' => 8,
            _ => {
                let simple = "0\0a\x07b\x08t\t\t\tn\nv\x0bf\x0cr\re\x1b  \"\"//\\\\N\u{85}_\u{a0}L\u{2028}P\u{2029}";
                let simple: Vec<char> = simple.chars().collect();
                let hit = simple.chunks(2).find(|p| p[0] == c).ok_or("unknown escape")?;
                out.push(hit[1]);
                return Ok(());
            }
        };
        let mut v = 0u64;
        for _ in 0..n {
            let d = self.at(0).ok_or("end of stream in an escape")?.to_digit(16).ok_or("bad escape")?;
            v = v * 16 + d as u64;
            self.adv();
        }
        out.push(u32::try_from(v).ok().and_then(char::from_u32).ok_or("not a code point")?);
        Ok(())
    }

    fn block_scalar(&mut self, fold: bool) -> R<String> {
        self.adv();
        let (mut chomp, mut explicit) = (None, None);
        loop {
            match self.at(0) {
                Some(c @ ('+' | '-')) if chomp.is_none() => chomp = Some(c),
                Some(c @ '0'..='9') if explicit.is_none() => explicit = c.to_digit(10),
                _ => break,
            }
            self.adv();
        }
        let spaced = self.blank();
        while self.blank() { self.adv() }
        if spaced && self.eq(0, '#') { while !self.eof() && !self.brk() { self.adv() } }
        if !self.wsz(0) { return Err("text after a block scalar header") }
        if self.brk() { self.nl() }

        let parent = self.indent;
        let explicit = explicit.filter(|n| *n != 0).map(|n| parent.max(0) + n as isize);
        // Line breaks not yet added to the text
        let mut breaks = 0;
        let mut widest = 0;
        // Skip the indentation, and any empty lines
        let mut skip = |s: &mut Self, indent: Option<isize>, breaks: &mut usize| -> R<()> {
            loop {
                while indent.map_or(true, |n| s.col < n) && s.eq(0, ' ') { s.adv() }
                widest = s.col.max(widest);
                if s.col < indent.unwrap_or(parent + 1) && s.eq(0, '\t') { return Err("tab as indentation") }
                if !s.brk() { return Ok(()) }
                s.nl();
                *breaks += 1;
            }
        };
        skip(self, explicit, &mut breaks)?;
        let indent = explicit.unwrap_or(widest.max(parent + 1));
        if explicit.is_none() && self.col > parent && self.col < indent && !self.eof() && !self.doc_ind() { return Err("empty lines more indented than the text") }
        let skip = |s: &mut Self, breaks: &mut usize| -> R<()> {
            loop {
                while s.col < indent && s.eq(0, ' ') { s.adv() }
                if s.col < indent && s.eq(0, '\t') { return Err("tab as indentation") }
                if !s.brk() { return Ok(()) }
                s.nl();
                *breaks += 1;
            }
        };

        let mut out = String::new();
        let mut lines = 0;
        let mut was_blank = false;
        while self.col == indent && !self.eof() && !self.doc_ind() {
            let blank = self.blank();
            if lines > 0 && fold && !was_blank && !blank {
                if breaks == 1 { out.push(' ') } else { out.push_str(&"\n".repeat(breaks - 1)) }
            } else {
                out.push_str(&"\n".repeat(breaks));
            }
            was_blank = blank;
            lines += 1;
            breaks = 0;
            while !self.eof() && !self.brk() { out.push(self.at(0).unwrap()); self.adv() }
            if self.brk() {
                self.nl();
                breaks = 1;
                skip(self, &mut breaks)?;
            }
        }
        match chomp {
            Some('-') => {}
            Some(_) => out.push_str(&"\n".repeat(breaks)),
            None => if lines > 0 && breaks > 0 { out.push('\n') },
        }
        Ok(out)
    }
}

struct Parse {
    toks: std::vec::IntoIter<Tok>,
    peek: Option<Tok>,
    evs: Vec<Ev>,
    tags: BTreeMap<String, String>,
}

fn defaults() -> BTreeMap<String, String> {
    [("!", "!"), ("!!", "tag:yaml.org,2002:")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

impl Parse {
    fn tok(&mut self) -> R<&Tok> {
        if self.peek.is_none() { self.peek = self.toks.next() }
        self.peek.as_ref().ok_or(OUT)
    }
    fn pop(&mut self) -> R<Tok> { self.tok()?; Ok(self.peek.take().unwrap()) }
    fn next_is(&mut self, f: impl Fn(&Tok) -> bool) -> R<bool> { Ok(f(self.tok()?)) }

    fn stream(&mut self) -> R<()> {
        self.pop()?;
        self.evs.push(Ev::StreamStart);
        let (mut first, mut bare) = (true, true);
        loop {
            while *self.tok()? == Tok::DocEnd { self.pop()?; }
            let marker = self.next_is(|t| matches!(t, Tok::Version(..) | Tok::TagDir(..) | Tok::DocStart | Tok::End))?;
            let mut empty = false;
            let (mut version, mut tags, mut implicit) = (None, BTreeMap::new(), true);
            if bare && !marker {
            } else if !bare && matches!(self.tok()?, Tok::Version(..) | Tok::TagDir(..)) {
                return Err("directives within a document");
            } else if *self.tok()? != Tok::End {
                loop {
                    match self.tok()? {
                        Tok::Version(..) => {
                            let Tok::Version(a, b) = self.pop()? else { unreachable!() };
                            if version.replace((a, b)).is_some() { return Err("duplicate version") }
                        }
                        Tok::TagDir(..) => {
                            let Tok::TagDir(h, p) = self.pop()? else { unreachable!() };
                            if tags.insert(h, p).is_some() { return Err("duplicate tag") }
                        }
                        _ => break,
                    }
                }
                if *self.tok()? != Tok::DocStart { return Err("missing document start") }
                self.pop()?;
                implicit = false;
            } else if first {
                empty = true;
            } else {
                break;
            }
            for (h, p) in defaults() { tags.entry(h).or_insert(p); }
            self.tags = tags.clone();
            self.evs.push(Ev::DocStart { version: version.unwrap_or((1, 2)), tags, implicit });
            if !implicit {
                empty = self.next_is(|t| matches!(t, Tok::Version(..) | Tok::TagDir(..) | Tok::DocStart | Tok::DocEnd | Tok::End))?;
            }
            if !empty { self.node(true, false, Kind::Root)? }
            let explicit = *self.tok()? == Tok::DocEnd;
            if explicit { self.pop()?; }
            self.evs.push(Ev::DocEnd { implicit: !explicit });
            bare = explicit;
            first = false;
        }
        self.evs.push(Ev::StreamEnd);
        Ok(())
    }

    fn empty(&mut self, kind: Kind) {
        self.evs.push(Ev::Scalar { anchor: None, tag: None, kind, val: Ok((String::new(), Style::Plain)) })
    }

    fn node(&mut self, block: bool, indentless: bool, kind: Kind) -> R<()> {
        if matches!(self.tok()?, Tok::Alias(_)) {
            let Tok::Alias(a) = self.pop()? else { unreachable!() };
            self.evs.push(Ev::Alias(a));
            return Ok(());
        }
        let (mut anchor, mut tag) = (None, None);
        for _ in 0..2 {
            match self.tok()? {
                Tok::Anchor(_) if anchor.is_none() => {
                    let Tok::Anchor(a) = self.pop()? else { unreachable!() };
                    anchor = Some(a)
                }
                Tok::Tag(..) if tag.is_none() => {
                    let Tok::Tag(h, s) = self.pop()? else { unreachable!() };
                    tag = Some((h, s))
                }
                _ => break,
            }
        }
        let t = self.tok()?.clone();
        let scalar = match t {
            Tok::FSeq | Tok::FMap => false,
            Tok::BSeq | Tok::BMap if block => false,
            Tok::BEntry if indentless => false,
            Tok::Scalar(..) => true,
            _ if anchor.is_some() || tag.is_some() => true,
            _ => return Err("missing node"),
        };
        if let Some((h, s)) = &tag {
            if !h.is_empty() && !self.tags.contains_key(h) { return Err("undefined tag") }
            if scalar && h == "!" && s.is_empty() { tag = None }
        }
        match t {
            Tok::FSeq => { self.pop()?; self.evs.push(Ev::Seq { anchor, tag, kind }); self.flow_seq() }
            Tok::FMap => { self.pop()?; self.evs.push(Ev::Map { anchor, tag, kind }); self.flow_map() }
            Tok::BSeq if block => { self.pop()?; self.evs.push(Ev::Seq { anchor, tag, kind }); self.block_seq() }
            Tok::BMap if block => { self.pop()?; self.evs.push(Ev::Map { anchor, tag, kind }); self.block_map() }
            Tok::BEntry if indentless => { self.evs.push(Ev::Seq { anchor, tag, kind }); self.indentless_seq() }
            Tok::Scalar(s, style) => { self.pop()?; self.evs.push(Ev::Scalar { anchor, tag, kind, val: Ok((s, style)) }); Ok(()) }
            _ => { self.evs.push(Ev::Scalar { anchor, tag, kind, val: Ok((String::new(), Style::Plain)) }); Ok(()) }
        }
    }

    fn block_seq(&mut self) -> R<()> {
        loop {
            match self.pop()? {
                Tok::BEntry => {
                    if self.next_is(|t| matches!(t, Tok::BEntry | Tok::BEnd))? { self.empty(Kind::Entry) }
                    else { self.node(true, false, Kind::Entry)? }
                }
                Tok::BEnd => { self.evs.push(Ev::SeqEnd); return Ok(()) }
                _ => return Err("missing entry"),
            }
        }
    }

    fn indentless_seq(&mut self) -> R<()> {
        while *self.tok()? == Tok::BEntry {
            self.pop()?;
            if self.next_is(|t| matches!(t, Tok::BEntry | Tok::Key | Tok::Value | Tok::BEnd | Tok::FlushEnd))? { self.empty(Kind::Entry) }
            else { self.node(true, false, Kind::Entry)? }
        }
        match self.tok()? {
            Tok::FlushEnd => { self.pop()?; }
            Tok::Key | Tok::Value | Tok::BEnd => {}
            _ => return Err("missing entry"),
        }
        self.evs.push(Ev::SeqEnd);
        Ok(())
    }

    fn block_map(&mut self) -> R<()> {
        let stop = |t: &Tok| matches!(t, Tok::Key | Tok::Value | Tok::BEnd);
        loop {
            match self.tok()? {
                Tok::Key => {
                    self.pop()?;
                    if self.next_is(stop)? { self.empty(Kind::Key) } else { self.node(true, true, Kind::Key)? }
                }
                Tok::Value => self.empty(Kind::Key),
                Tok::BEnd => { self.pop()?; self.evs.push(Ev::MapEnd); return Ok(()) }
                _ => return Err("missing key"),
            }
            if *self.tok()? == Tok::Value {
                self.pop()?;
                if self.next_is(stop)? { self.empty(Kind::Value) } else { self.node(true, true, Kind::Value)? }
            } else { self.empty(Kind::Value) }
        }
    }

    /// The ": value" of a flow mapping entry
    fn flow_value(&mut self, end: &Tok) -> R<()> {
        if *self.tok()? == Tok::Value {
            self.pop()?;
            if !self.next_is(|t| *t == Tok::FEntry || t == end)? { return self.node(false, false, Kind::Value) }
        }
        self.empty(Kind::Value);
        Ok(())
    }

    /// The "? key" of a flow mapping entry
    fn flow_key(&mut self, end: &Tok) -> R<()> {
        if *self.tok()? == Tok::Key { self.pop()?; }
        if self.next_is(|t| matches!(t, Tok::FEntry | Tok::Value) || t == end)? { self.empty(Kind::Key); Ok(()) }
        else { self.node(false, false, Kind::Key) }
    }

    fn flow_seq(&mut self) -> R<()> {
        let mut first = true;
        loop {
            if !first && *self.tok()? != Tok::FSeqEnd && self.pop()? != Tok::FEntry { return Err("missing ',' or ']'") }
            first = false;
            match self.tok()? {
                Tok::FSeqEnd => { self.pop()?; self.evs.push(Ev::SeqEnd); return Ok(()) }
                Tok::Key | Tok::Value => {
                    self.evs.push(Ev::Map { anchor: None, tag: None, kind: Kind::Entry });
                    self.flow_key(&Tok::FSeqEnd)?;
                    self.flow_value(&Tok::FSeqEnd)?;
                    self.evs.push(Ev::MapEnd);
                }
                _ => self.node(false, false, Kind::Entry)?,
            }
        }
    }

    fn flow_map(&mut self) -> R<()> {
        let mut first = true;
        loop {
            if !first && *self.tok()? != Tok::FMapEnd && self.pop()? != Tok::FEntry { return Err("missing ',' or '}'") }
            first = false;
            match self.tok()? {
                Tok::FMapEnd => { self.pop()?; self.evs.push(Ev::MapEnd); return Ok(()) }
                Tok::Key | Tok::Value => {
                    self.flow_key(&Tok::FMapEnd)?;
                    self.flow_value(&Tok::FMapEnd)?;
                }
                _ => { self.node(false, false, Kind::Key)?; self.flow_value(&Tok::FMapEnd)? }
            }
        }
    }
}

/// Decide what stream of events an input stands for.
pub fn model(s: &str) -> Verdict {
    let (toks, scan, cut, also) = Scan::new(s).run();
    let mut p = Parse { toks: toks.into_iter(), peek: None, evs: vec![], tags: defaults() };
    let parse = p.stream();
    let (why, lexical, ahead) = match (scan, parse) {
        (Err(e), Err(OUT)) => (e, true, also),
        (ahead, Err(e)) => (e, false, ahead.err().unwrap_or("")),
        // Whatever follows the end of the stream was not read
        (Err(e), Ok(())) => (e, true, ""),
        (Ok(()), Ok(())) => ("", false, ""),
    };
    Verdict { ok: why.is_empty(), why, lexical, ahead, cut: lexical && cut, evs: p.evs }
}
