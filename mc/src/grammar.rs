//! The productions of YAML 1.2.2, written down as directly as possible: a
//! backtracking recogniser over characters, without tokens, saved keys,
//! indentation stacks or anything else the library and the model share. It is
//! an independent second opinion on what is well formed, and on structure and
//! content. Numbers are those of the specification.
use crate::trace::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum C { BlockIn, BlockOut, FlowIn, FlowOut, BlockKey, FlowKey }
use C::*;

type Props = (Option<String>, Option<Tag>);
const NONE: Props = (None, None);

pub struct G {
    c: Vec<char>,
    i: usize,
    /// End of the document, if it is before that of the stream
    end: usize,
    ev: Vec<Ev>,
    tags: BTreeMap<String, String>,
    /// Rejected for something which is not a matter of productions
    bad: bool,
    fuel: usize,
    /// Accept what the library deliberately does beyond the productions
    lax: bool,
}

fn brk(c: char) -> bool { c == '\n' || c == '\r' }
fn white(c: char) -> bool { c == ' ' || c == '\t' }
fn flow_ind(c: char) -> bool { matches!(c, ',' | '[' | ']' | '{' | '}') }
fn indicator(c: char) -> bool { matches!(c, '-' | '?' | ':' | ',' | '[' | ']' | '{' | '}' | '#' | '&' | '*' | '!' | '|' | '>' | '\'' | '"' | '%' | '@' | '`') }
fn printable(c: char) -> bool { matches!(c, '\t' | '\n' | '\r' | ' '..='~' | '\u{85}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..) && c != '\u{feff}' }
fn nb_char(c: char) -> bool { printable(c) && !brk(c) }
fn ns_char(c: char) -> bool { nb_char(c) && !white(c) }
fn json_char(c: char) -> bool { (c == '\t' || c >= ' ') && !brk(c) }
fn uri_char(c: char) -> bool { c.is_ascii_alphanumeric() || "-#;/?:@&=+$,_.!~*'()[]".contains(c) }
fn in_flow(c: C) -> C { match c { FlowOut | FlowIn => FlowIn, _ => FlowKey } }

impl G {
    fn at(&self, n: usize) -> Option<char> { if self.i + n < self.end { Some(self.c[self.i + n]) } else { None } }
    fn is(&self, n: usize, f: impl Fn(char) -> bool) -> bool { self.at(n).map_or(false, f) }
    fn sol(&self) -> bool { self.i == 0 || brk(self.c[self.i - 1]) && !(self.c[self.i - 1] == '\r' && self.i < self.c.len() && self.c[self.i] == '\n') }
    fn eof(&self) -> bool { self.i >= self.end }
    fn prev(&self) -> Option<char> { if self.i > 0 { Some(self.c[self.i - 1]) } else { None } }

    fn one(&mut self, f: impl Fn(char) -> bool) -> bool {
        if self.is(0, f) { self.i += 1; true } else { false }
    }
    fn chr(&mut self, c: char) -> bool { self.one(|x| x == c) }
    fn many(&mut self, f: impl Fn(char) -> bool) -> usize {
        let at = self.i;
        while self.is(0, &f) { self.i += 1 }
        self.i - at
    }
    /// Match, or leave everything as it was
    fn alt(&mut self, f: impl FnOnce(&mut Self) -> bool) -> bool {
        self.fuel = self.fuel.saturating_sub(1);
        if self.fuel == 0 { return false }
        let (i, n) = (self.i, self.ev.len());
        if f(self) { return true }
        self.i = i;
        self.ev.truncate(n);
        false
    }
    fn opt(&mut self, f: impl FnOnce(&mut Self) -> bool) -> bool { self.alt(f); true }
    fn star(&mut self, mut f: impl FnMut(&mut Self) -> bool) -> bool {
        loop {
            let at = self.i;
            if !self.alt(&mut f) || self.i == at { return true }
        }
    }
    fn scalar(&mut self, p: &Props, kind: Kind, v: String, s: Style) -> bool {
        self.check(p);
        let tag = match &p.1 { Some((h, s)) if h == "!" && s.is_empty() => None, t => t.clone() };
        self.ev.push(Ev::Scalar { anchor: p.0.clone(), tag, kind, val: Ok((v, s)) });
        true
    }
    fn empty(&mut self, p: &Props, kind: Kind) -> bool { self.scalar(p, kind, String::new(), Style::Plain) }
    fn check(&mut self, _p: &Props) {}
    fn map(&mut self, p: &Props, kind: Kind) { self.check(p); self.ev.push(Ev::Map { anchor: p.0.clone(), tag: p.1.clone(), kind }) }
    fn seq(&mut self, p: &Props, kind: Kind) { self.check(p); self.ev.push(Ev::Seq { anchor: p.0.clone(), tag: p.1.clone(), kind }) }

    // ---- spaces [28 ..]
    fn b_break(&mut self) -> bool {
        if self.chr('\r') { self.chr('\n'); true } else { self.chr('\n') }
    }
    fn indent(&mut self, n: isize) -> bool {
        if n <= 0 { return n == 0 }
        let n = n as usize;
        if (0..n).all(|k| self.is(k, |c| c == ' ')) { self.i += n; true } else { false }
    }
    fn separate_in_line(&mut self) -> bool { self.many(white) > 0 || self.sol() }
    fn flow_line_prefix(&mut self, n: isize) -> bool {
        // Tabs before a scalar or flow collection may do as indentation
        if self.lax && self.alt(|g| g.many(white) as isize >= n) { return true }
        self.alt(|g| g.indent(n.max(0)) && g.opt(|g| g.separate_in_line()))
    }
    fn line_prefix(&mut self, n: isize, c: C) -> bool { if matches!(c, BlockIn | BlockOut) { self.indent(n.max(0)) } else { self.flow_line_prefix(n) } }
    /// [70]
    fn l_empty(&mut self, n: isize, c: C) -> bool {
        self.alt(|g| {
            if !g.alt(|g| g.line_prefix(n, c) && g.b_break()) {
                let have = g.many(|c| c == ' ');
                return (have as isize) < n && g.b_break();
            }
            true
        })
    }
    /// [73], the text it stands for
    fn l_folded(&mut self, n: isize, c: C) -> Option<String> {
        if !self.b_break() { return None }
        let mut s = String::new();
        while self.l_empty(n, c) { s.push('\n') }
        Some(if s.is_empty() { " ".into() } else { s })
    }
    /// [74]
    fn flow_folded(&mut self, n: isize) -> Option<String> {
        let at = self.i;
        self.many(white);
        if let Some(s) = self.l_folded(n, FlowIn) {
            if self.flow_line_prefix(n) { return Some(s) }
        }
        self.i = at;
        None
    }
    fn comment_text(&mut self) -> bool { self.chr('#') && { self.many(nb_char); true } }
    fn b_comment(&mut self) -> bool { self.eof() || self.b_break() }
    /// [77]
    fn s_b_comment(&mut self) -> bool {
        self.alt(|g| {
            g.opt(|g| g.separate_in_line() && g.opt(|g| g.comment_text()));
            g.b_comment()
        })
    }
    /// [78]
    fn l_comment(&mut self) -> bool { !self.eof() && self.alt(|g| g.separate_in_line() && g.opt(|g| g.comment_text()) && g.b_comment()) }
    /// [79]
    fn l_comments(&mut self) -> bool { self.alt(|g| (g.s_b_comment() || g.sol()) && g.star(|g| g.l_comment())) }
    /// [80], [81]
    fn separate(&mut self, n: isize, c: C) -> bool {
        if matches!(c, BlockKey | FlowKey) { return self.separate_in_line() }
        self.alt(|g| g.l_comments() && g.flow_line_prefix(n)) || self.separate_in_line()
    }

    // ---- properties [96 ..]
    fn properties(&mut self, n: isize, c: C) -> Option<Props> {
        let (at, mut p) = (self.i, NONE);
        if let Some(t) = self.tag() {
            p.1 = Some(t);
            let mut a = None;
            self.alt(|g| g.separate(n, c) && { a = g.anchor(); a.is_some() });
            p.0 = a;
        } else if let Some(a) = self.anchor() {
            p.0 = Some(a);
            let mut t = None;
            self.alt(|g| g.separate(n, c) && { t = g.tag(); t.is_some() });
            p.1 = t;
        } else {
            self.i = at;
            return None;
        }
        Some(p)
    }
    fn anchor_name(&mut self) -> Option<String> {
        let at = self.i;
        if self.many(|c| ns_char(c) && !flow_ind(c)) == 0 { return None }
        Some(self.c[at..self.i].iter().collect())
    }
    fn anchor(&mut self) -> Option<String> {
        if !self.chr('&') { return None }
        let a = self.anchor_name();
        if a.is_none() { self.i -= 1 }
        a
    }
    fn uri(&mut self, f: impl Fn(char) -> bool) -> String {
        let mut out = String::new();
        let mut bytes: Vec<u8> = vec![];
        loop {
            if self.is(0, |c| c == '%') && (1..3).all(|n| self.is(n, |c| c.is_ascii_hexdigit())) {
                let h: String = self.c[self.i + 1..self.i + 3].iter().collect();
                bytes.push(u8::from_str_radix(&h, 16).unwrap());
                self.i += 3;
                continue;
            }
            match std::str::from_utf8(&bytes) { Ok(s) => out.push_str(s), _ => self.bad = true }
            bytes.clear();
            match self.at(0) { Some(c) if f(c) => { out.push(c); self.i += 1 } _ => return out }
        }
    }
    fn tag(&mut self) -> Option<Tag> {
        let at = self.i;
        if !self.chr('!') { return None }
        if self.chr('<') {
            let s = self.uri(uri_char);
            if !s.is_empty() && self.chr('>') { return Some((String::new(), s)) }
            self.i = at + 1;
        }
        // [91] handles
        let words = |c: char| c.is_ascii_alphanumeric() || c == '-';
        let start = self.i;
        let lax = self.lax;
        let suffix = move |c: char| uri_char(c) && (lax || c != '!') && !flow_ind(c);
        if self.chr('!') || self.many(words) > 0 && self.chr('!') {
            let h: String = self.c[at..self.i].iter().collect();
            let s = self.uri(suffix);
            if !s.is_empty() { return Some((h, s)) }
        }
        self.i = start;
        let s = self.uri(suffix);
        Some(("!".into(), s))
    }
    fn alias(&mut self) -> bool {
        self.alt(|g| g.chr('*') && match g.anchor_name() { Some(a) => { g.ev.push(Ev::Alias(a)); true } None => false })
    }

    // ---- flow scalars [106 ..]
    fn double(&mut self, n: isize, c: C) -> Option<String> {
        if !self.chr('"') { return None }
        let n = if self.lax { 0 } else { n };
        let multi = !matches!(c, BlockKey | FlowKey);
        let mut out = String::new();
        loop {
            // White space is only content if it does not touch a break
            let at = self.i;
            self.many(white);
            let ws: String = self.c[at..self.i].iter().collect();
            if self.is(0, brk) {
                if !multi { return None }
                self.i = at;
                out.push_str(&self.flow_folded(n)?);
                continue;
            }
            out.push_str(&ws);
            match self.at(0)? {
                '"' => { self.i += 1; return Some(out) }
                '\\' => {
                    self.i += 1;
                    let c = self.at(0)?;
                    if brk(c) {
                        // [112] s-double-escaped
                        if !multi { return None }
                        self.b_break();
                        while self.l_empty(n, FlowIn) { out.push('\n') }
                        if !self.flow_line_prefix(n) { return None }
                        continue;
                    }
                    self.i += 1;
                    let len = match c { 'x' => 2, 'u' => 4, 'U' => 8, _ => 0 };
                    if len > 0 {
                        let mut v = 0u32;
                        for _ in 0..len {
                            v = v.wrapping_mul(16) + self.at(0)?.to_digit(16)?;
                            self.i += 1;
                        }
                        out.push(char::from_u32(v)?);
                        continue;
                    }
                    out.push(match c {
                        '0' => '\0', 'a' => '\x07', 'b' => '\x08', 't' | '\t' => '\t', 'n' => '\n', 'v' => '\x0b', 'f' => '\x0c', 'r' => '\r', 'e' => '\x1b',
                        ' ' => ' ', '"' => '"', '/' => '/', '\\' => '\\', 'N' => '\u{85}', '_' => '\u{a0}', 'L' => '\u{2028}', 'P' => '\u{2029}',
                        _ => return None,
                    });
                }
                c if json_char(c) => { out.push(c); self.i += 1 }
                _ => return None,
            }
        }
    }
    fn single(&mut self, n: isize, c: C) -> Option<String> {
        if !self.chr('\'') { return None }
        let n = if self.lax { 0 } else { n };
        let multi = !matches!(c, BlockKey | FlowKey);
        let mut out = String::new();
        loop {
            let at = self.i;
            self.many(white);
            let ws: String = self.c[at..self.i].iter().collect();
            if self.is(0, brk) {
                if !multi { return None }
                self.i = at;
                out.push_str(&self.flow_folded(n)?);
                continue;
            }
            out.push_str(&ws);
            match self.at(0)? {
                '\'' if self.is(1, |c| c == '\'') => { out.push('\''); self.i += 2 }
                '\'' => { self.i += 1; return Some(out) }
                c if json_char(c) => { out.push(c); self.i += 1 }
                _ => return None,
            }
        }
    }
    fn plain_safe(c: C, x: char) -> bool { ns_char(x) && (matches!(c, FlowOut | BlockKey) || !flow_ind(x)) }
    fn plain_char(&self, c: C) -> bool {
        match self.at(0) {
            Some(':') => self.is(1, |x| Self::plain_safe(c, x)),
            Some('#') => self.prev().map_or(false, ns_char),
            Some(x) => Self::plain_safe(c, x),
            None => false,
        }
    }
    fn plain_line(&mut self, c: C, out: &mut String) {
        loop {
            let at = self.i;
            self.many(white);
            if !self.plain_char(c) { self.i = at; return }
            self.i += 1;
            out.extend(&self.c[at..self.i]);
        }
    }
    fn plain(&mut self, n: isize, c: C) -> Option<String> {
        let x = self.at(0)?;
        if !(ns_char(x) && !indicator(x) || matches!(x, '?' | ':' | '-') && self.is(1, |x| Self::plain_safe(c, x))) { return None }
        self.i += 1;
        let mut out = x.to_string();
        self.plain_line(c, &mut out);
        if matches!(c, FlowOut | FlowIn) {
            loop {
                let at = self.i;
                let Some(s) = self.flow_folded(n) else { break };
                if !self.plain_char(c) { self.i = at; break }
                out.push_str(&s);
                out.push(self.at(0).unwrap());
                self.i += 1;
                self.plain_line(c, &mut out);
            }
        }
        Some(out)
    }

    // ---- flow nodes [137 ..]
    fn yaml_content(&mut self, n: isize, c: C, p: &Props, kind: Kind) -> bool {
        let at = self.i;
        match self.plain(n, c) { Some(s) => self.scalar(p, kind, s, Style::Plain), None => { self.i = at; false } }
    }
    fn json_content(&mut self, n: isize, c: C, p: &Props, kind: Kind) -> bool {
        let at = self.i;
        match self.at(0) {
            Some('"') => match self.double(n, c) { Some(s) => self.scalar(p, kind, s, Style::Double), None => { self.i = at; false } },
            Some('\'') => match self.single(n, c) { Some(s) => self.scalar(p, kind, s, Style::Single), None => { self.i = at; false } },
            Some('[') => self.flow_seq(n, c, p, kind),
            Some('{') => self.flow_map(n, c, p, kind),
            _ => false,
        }
    }
    fn content(&mut self, n: isize, c: C, p: &Props, kind: Kind) -> bool { self.json_content(n, c, p, kind) || self.yaml_content(n, c, p, kind) }
    /// [159]
    fn yaml_node(&mut self, n: isize, c: C, kind: Kind) -> bool {
        self.alias() || self.alt(|g| g.yaml_content(n, c, &NONE, kind)) || self.alt(|g| {
            let Some(p) = g.properties(n, c) else { return false };
            g.alt(|g| g.separate(n, c) && g.yaml_content(n, c, &p, kind)) || g.empty(&p, kind)
        })
    }
    /// [160]
    fn json_node(&mut self, n: isize, c: C, kind: Kind) -> bool {
        self.alt(|g| {
            let mut p = NONE;
            if !g.alt(|g| match g.properties(n, c) { Some(q) => { p = q; g.separate(n, c) } None => false }) { p = NONE }
            g.json_content(n, c, &p, kind)
        })
    }
    /// [161]
    fn flow_node(&mut self, n: isize, c: C, kind: Kind) -> bool {
        self.alias() || self.alt(|g| g.content(n, c, &NONE, kind)) || self.alt(|g| {
            let Some(p) = g.properties(n, c) else { return false };
            g.alt(|g| g.separate(n, c) && g.content(n, c, &p, kind)) || g.empty(&p, kind)
        })
    }
    fn flow_seq(&mut self, n: isize, c: C, p: &Props, kind: Kind) -> bool {
        self.alt(|g| {
            if !g.chr('[') { return false }
            let n = if g.lax { 0 } else { n };
            g.seq(p, kind);
            let d = in_flow(c);
            g.opt(|g| g.separate(n, c));
            loop {
                if !g.flow_seq_entry(n, d) { break }
                g.opt(|g| g.separate(n, d));
                if !g.chr(',') { break }
                g.opt(|g| g.separate(n, d));
            }
            g.ev.push(Ev::SeqEnd);
            g.chr(']')
        })
    }
    fn flow_seq_entry(&mut self, n: isize, c: C) -> bool { self.flow_pair(n, c) || self.alt(|g| g.flow_node(n, c, Kind::Entry)) }
    fn flow_map(&mut self, n: isize, c: C, p: &Props, kind: Kind) -> bool {
        self.alt(|g| {
            if !g.chr('{') { return false }
            let n = if g.lax { 0 } else { n };
            g.map(p, kind);
            let d = in_flow(c);
            g.opt(|g| g.separate(n, c));
            loop {
                let entry = g.alt(|g| g.chr('?') && g.separate(n, d) && g.explicit_entry(n, d)) || g.implicit_entry(n, d);
                if !entry { break }
                g.opt(|g| g.separate(n, d));
                if !g.chr(',') { break }
                g.opt(|g| g.separate(n, d));
            }
            g.ev.push(Ev::MapEnd);
            g.chr('}')
        })
    }
    fn explicit_entry(&mut self, n: isize, c: C) -> bool {
        self.implicit_entry(n, c) || { self.empty(&NONE, Kind::Key); self.empty(&NONE, Kind::Value) }
    }
    /// [144]
    fn implicit_entry(&mut self, n: isize, c: C) -> bool {
        // A key of the JSON style first, as what follows it is less restricted
        self.alt(|g| g.json_node(n, c, Kind::Key) && (g.alt(|g| g.opt(|g| g.separate(n, c)) && g.adjacent_value(n, c)) || g.empty(&NONE, Kind::Value)))
            || self.alt(|g| g.yaml_node(n, c, Kind::Key) && (g.alt(|g| g.opt(|g| g.separate(n, c)) && g.separate_value(n, c)) || g.empty(&NONE, Kind::Value)))
            || self.alt(|g| g.empty(&NONE, Kind::Key) && g.separate_value(n, c))
    }
    fn separate_value(&mut self, n: isize, c: C) -> bool {
        self.alt(|g| {
            if !g.chr(':') || g.is(0, |x| Self::plain_safe(c, x)) { return false }
            g.alt(|g| (g.separate(n, c) || g.lax && g.is(0, |c| c == '[' || c == '{')) && g.flow_node(n, c, Kind::Value)) || g.empty(&NONE, Kind::Value)
        })
    }
    fn adjacent_value(&mut self, n: isize, c: C) -> bool {
        self.alt(|g| g.chr(':') && (g.alt(|g| g.opt(|g| g.separate(n, c)) && g.flow_node(n, c, Kind::Value)) || g.empty(&NONE, Kind::Value)))
    }
    /// [150]
    fn flow_pair(&mut self, n: isize, c: C) -> bool {
        self.alt(|g| {
            g.map(&NONE, Kind::Entry);
            let ok = g.alt(|g| g.chr('?') && g.separate(n, c) && g.explicit_entry(n, c))
                || g.alt(|g| g.implicit_json_key(FlowKey) && g.adjacent_value(n, c))
                || g.alt(|g| g.implicit_yaml_key(FlowKey) && g.separate_value(n, c))
                || g.alt(|g| g.empty(&NONE, Kind::Key) && g.separate_value(n, c));
            g.ev.push(Ev::MapEnd);
            ok
        })
    }
    fn implicit_yaml_key(&mut self, c: C) -> bool {
        let at = self.i;
        self.alt(|g| g.yaml_node(0, c, Kind::Key) && g.opt(|g| g.separate_in_line()) && g.i - at <= 1024)
    }
    fn implicit_json_key(&mut self, c: C) -> bool {
        let at = self.i;
        self.alt(|g| g.json_node(0, c, Kind::Key) && g.opt(|g| g.separate_in_line()) && g.i - at <= 1024)
    }

    // ---- block scalars [162 ..]
    fn block_scalar(&mut self, n: isize, p: &Props, kind: Kind) -> bool {
        self.alt(|g| {
            let fold = match g.at(0) { Some('|') => false, Some('>') => true, _ => return false };
            g.i += 1;
            let (mut m, mut chomp) = (None, None);
            for _ in 0..2 {
                match g.at(0) {
                    Some(c @ '0'..='9') if m.is_none() && (c != '0' || g.lax) => { m = Some(c as isize - '0' as isize); g.i += 1 }
                    Some(c @ ('+' | '-')) if chomp.is_none() => { chomp = Some(c); g.i += 1 }
                    _ => {}
                }
            }
            let m = m.filter(|m| *m > 0);
            if !g.s_b_comment() { return false }
            // The lines up to the first less indented one which is not empty
            let content = |g: &mut G, ind: isize| -> Vec<String> {
                let mut lines = vec![];
                loop {
                    if g.eof() { break }
                    let at = g.i;
                    let sp = g.many(|c| c == ' ') as isize;
                    if g.is(0, brk) || g.eof() {
                        // Empty, or only white space in excess of the indentation
                        if sp <= ind {
                            if g.eof() { g.i = at; break }
                            g.b_break();
                            lines.push(String::new());
                            continue;
                        }
                    } else if sp < ind {
                        g.i = at;
                        break;
                    }
                    g.i = at + ind as usize;
                    let from = g.i;
                    g.many(nb_char);
                    lines.push(g.c[from..g.i].iter().collect());
                    if !g.eof() && !g.b_break() { return vec!["\0".into()] }
                }
                lines
            };
            let ind = match m {
                // At the root as if it were not less indented than 0
                Some(m) => n.max(0) + m,
                None => {
                    // Auto detected from the first line which is not empty; those before
                    // it may not have more spaces
                    let at = g.i;
                    let mut most = 0;
                    let found = loop {
                        let sp = g.many(|c| c == ' ') as isize;
                        if g.is(0, brk) { most = most.max(sp); g.b_break(); continue }
                        if g.eof() { most = most.max(sp); break None }
                        break Some(sp);
                    };
                    g.i = at;
                    match found {
                        Some(sp) if sp > n => { if most > sp { return false } sp }
                        // No content at all
                        _ => most.max(n + 1),
                    }
                }
            };
            let ind = ind.max(0);
            let mut lines = content(g, ind);
            if lines.len() == 1 && lines[0] == "\0" { return false }
            let unterminated = !lines.is_empty() && g.eof() && g.prev().map_or(false, |c| !brk(c));
            let mut trailing = 0;
            while lines.last().map_or(false, |l| l.is_empty()) { lines.pop(); trailing += 1 }
            let mut s = String::new();
            let more = |l: &str| l.starts_with([' ', '\t']);
            if !fold { s = lines.join("\n") }
            else {
                // Breaks before and after more indented lines are kept
                let mut last: Option<&str> = None;
                let mut blank = 0;
                for l in &lines {
                    if l.is_empty() { blank += 1; continue }
                    match last {
                        None => s.push_str(&"\n".repeat(blank)),
                        Some(k) if more(k) || more(l) => s.push_str(&"\n".repeat(blank + 1)),
                        Some(_) if blank == 0 => s.push(' '),
                        Some(_) => s.push_str(&"\n".repeat(blank)),
                    }
                    s.push_str(l);
                    blank = 0;
                    last = Some(l);
                }
            }
            match chomp {
                Some('-') => {}
                Some('+') => {
                    let own = !lines.is_empty() && !(unterminated && trailing == 0);
                    s.push_str(&"\n".repeat(trailing + own as usize));
                }
                _ => if !lines.is_empty() && !(unterminated && trailing == 0) { s.push('\n') },
            }
            // [169] l-trail-comments
            g.alt(|g| {
                let sp = g.many(|c| c == ' ') as isize;
                sp < ind.max(1) && g.comment_text() && g.b_comment() && g.star(|g| g.l_comment())
            });
            g.scalar(p, kind, s, if fold { Style::Folded } else { Style::Literal })
        })
    }

    // ---- block collections [183 ..]
    fn spaces(&self) -> isize {
        let mut n = 0;
        while self.is(n, |c| c == ' ') { n += 1 }
        n as isize
    }
    fn block_seq(&mut self, n: isize, p: &Props, kind: Kind) -> bool {
        self.alt(|g| {
            let m = g.spaces();
            if m < n + 1 { return false }
            g.seq(p, kind);
            let mut any = false;
            g.star(|g| g.sol() && g.indent(m) && g.seq_entry(m) && { any = true; true });
            g.ev.push(Ev::SeqEnd);
            any
        })
    }
    fn seq_entry(&mut self, n: isize) -> bool { self.alt(|g| g.chr('-') && !g.is(0, ns_char) && g.block_indented(n, BlockIn, Kind::Entry)) }
    /// [185]
    fn block_indented(&mut self, n: isize, c: C, kind: Kind) -> bool {
        self.alt(|g| {
            let m = g.spaces();
            // An indentation indicator is not within the line
            m > 0 && g.indent(m) && (g.compact_seq(n + 1 + m, kind) || g.compact_map(n + 1 + m, kind))
        }) || self.block_node(n, c, kind)
            || self.alt(|g| g.empty(&NONE, kind) && g.l_comments())
    }
    fn compact_seq(&mut self, n: isize, kind: Kind) -> bool {
        self.alt(|g| {
            g.seq(&NONE, kind);
            if !g.seq_entry(n) { return false }
            g.star(|g| g.sol() && g.indent(n) && g.seq_entry(n));
            g.ev.push(Ev::SeqEnd);
            true
        })
    }
    fn compact_map(&mut self, n: isize, kind: Kind) -> bool {
        self.alt(|g| {
            g.map(&NONE, kind);
            if !g.map_entry(n) { return false }
            g.star(|g| g.sol() && g.indent(n) && g.map_entry(n));
            g.ev.push(Ev::MapEnd);
            true
        })
    }
    fn block_map(&mut self, n: isize, p: &Props, kind: Kind) -> bool {
        self.alt(|g| {
            let m = g.spaces();
            if m < n + 1 { return false }
            g.map(p, kind);
            let mut any = false;
            g.star(|g| g.sol() && g.indent(m) && g.map_entry(m) && { any = true; true });
            g.ev.push(Ev::MapEnd);
            any
        })
    }
    fn map_entry(&mut self, n: isize) -> bool {
        // [189]
        self.alt(|g| {
            g.chr('?') && !g.is(0, ns_char) && g.block_indented(n, BlockOut, Kind::Key)
                && (g.alt(|g| g.sol() && g.indent(n) && g.chr(':') && !g.is(0, ns_char) && g.block_indented(n, BlockOut, Kind::Value)) || g.empty(&NONE, Kind::Value))
        })
        // [192]
        || self.alt(|g| {
            (g.alt(|g| g.implicit_json_key(BlockKey) && g.implicit_value(n))) || g.alt(|g| g.implicit_yaml_key(BlockKey) && g.implicit_value(n)) || g.alt(|g| g.empty(&NONE, Kind::Key) && g.implicit_value(n))
        })
    }
    fn implicit_value(&mut self, n: isize) -> bool {
        self.alt(|g| g.chr(':') && !g.is(0, ns_char) && (g.block_node(n, BlockOut, Kind::Value) || g.alt(|g| g.empty(&NONE, Kind::Value) && g.l_comments())))
    }
    /// [196]
    fn block_node(&mut self, n: isize, c: C, kind: Kind) -> bool {
        // [199]
        self.alt(|g| {
            g.separate(n + 1, c) && {
                let mut p = NONE;
                if !g.alt(|g| match g.properties(n + 1, c) { Some(q) => { p = q; g.separate(n + 1, c) } None => false }) { p = NONE }
                g.block_scalar(n, &p, kind)
            }
        })
        // [200]
        || self.block_collection(n, c, kind, true)
        || self.block_collection(n, c, kind, false)
        // [197]
        || self.alt(|g| g.separate(n + 1, FlowOut) && g.flow_node(n + 1, FlowOut, kind) && g.l_comments())
    }
    fn block_collection(&mut self, n: isize, c: C, kind: Kind, with: bool) -> bool {
        // Both ways of reading properties over lines: of the collection, and of its first key
        for one in [false, true] {
            let ok = self.alt(|g| {
                let mut p = NONE;
                if with {
                    if !g.separate(n + 1, c) { return false }
                    if one {
                        match (g.tag(), ()) {
                            (Some(t), _) => p.1 = Some(t),
                            _ => match g.anchor() { Some(a) => p.0 = Some(a), None => return false },
                        }
                    } else {
                        match g.properties(n + 1, c) { Some(q) => p = q, None => return false }
                    }
                }
                g.l_comments() && (g.block_seq(if c == BlockOut { n - 1 } else { n }, &p, kind) || g.block_map(n, &p, kind))
            });
            if ok { return true }
            if !with { return false }
        }
        false
    }

    // ---- documents [202 ..]
    fn forbidden(&self) -> bool {
        let at = |n: usize| self.c.get(self.i + n).copied();
        self.sol() && ['-', '.'].iter().any(|m| (0..3).all(|n| at(n) == Some(*m))) && at(3).map_or(true, |c| white(c) || brk(c))
    }
    fn marker(&mut self, c: char) -> bool { if self.forbidden() && self.c[self.i] == c { self.i += 3; true } else { false } }
    fn limit(&mut self) {
        self.end = self.c.len();
        let at = self.i;
        while self.i < self.c.len() && !(self.i > at && self.forbidden() || self.i == at && self.forbidden()) { self.i += 1 }
        self.end = self.i;
        self.i = at;
    }
    fn prefix(&mut self) -> bool { self.star(|g| g.l_comment()) }
    /// [82]
    fn directives(&mut self, tags: &mut BTreeMap<String, String>, version: &mut Option<(u8, u8)>) -> Option<bool> {
        let mut any = false;
        while self.sol() && self.is(0, |c| c == '%') {
            any = true;
            self.i += 1;
            let word = |g: &Self, w: &str| w.chars().enumerate().all(|(n, c)| g.at(n) == Some(c));
            if word(self, "YAML") {
                self.i += 4;
                if self.many(white) == 0 { return None }
                let at = self.i;
                self.many(|c| c.is_ascii_digit());
                let a: String = self.c[at..self.i].iter().collect();
                if !self.chr('.') { return None }
                let at = self.i;
                self.many(|c| c.is_ascii_digit());
                let b: String = self.c[at..self.i].iter().collect();
                if version.replace((a.parse().ok()?, b.parse().ok()?)).is_some() { return None }
            } else if word(self, "TAG") {
                self.i += 3;
                if self.many(white) == 0 { return None }
                let at = self.i;
                if !self.chr('!') { return None }
                if self.many(|c| c.is_ascii_alphanumeric() || c == '-') > 0 { if !self.chr('!') { return None } } else { self.chr('!'); }
                let h: String = self.c[at..self.i].iter().collect();
                if self.many(white) == 0 { return None }
                if self.is(0, flow_ind) { return None }
                let p = self.uri(uri_char);
                if p.is_empty() || tags.insert(h, p).is_some() { return None }
            } else { return None }
            if !self.l_comments() { return None }
        }
        Some(any)
    }
    /// [211]
    fn stream(&mut self) -> bool {
        self.ev.push(Ev::StreamStart);
        let mut documents = 0;
        // May the next document have directives, or no marker?
        let mut open = true;
        loop {
            self.end = self.c.len();
            self.limit();
            self.prefix();
            self.end = self.c.len();
            while open && self.forbidden() && self.c[self.i] == '.' {
                self.marker('.');
                if !self.l_comments() { return false }
                self.prefix();
            }
            if self.i >= self.c.len() { break }
            let (mut tags, mut version) = (BTreeMap::new(), None);
            let directives = match if open { self.directives(&mut tags, &mut version) } else { Some(false) } { Some(d) => d, None => return false };
            self.prefix();
            let explicit = self.marker('-');
            if !explicit && (directives || !open) { return false }
            for (h, p) in [("!", "!"), ("!!", "tag:yaml.org,2002:")] { tags.entry(h.into()).or_insert(p.into()); }
            self.tags = tags.clone();
            self.ev.push(Ev::DocStart { version: version.unwrap_or((1, 2)), tags, implicit: !explicit });
            self.limit();
            let body = self.ev.len();
            if !self.block_node(-1, BlockIn, Kind::Root) {
                // [208], an empty document has no node in the library
                if !explicit || !self.l_comments() { return false }
                self.ev.truncate(body);
            }
            // [211] has comments between documents
            // (except that the library has no lines of nothing but tabs after a block scalar)
            self.star(|g| g.sol() && { let mut k = 0; while g.is(k, |c| c == ' ') { k += 1 } !g.is(k, |c| c == '\t') } && g.l_comment());
            if self.i < self.end { return false }
            for e in &self.ev[body..] {
                if let Ev::Scalar { tag: Some((h, _)), .. } | Ev::Map { tag: Some((h, _)), .. } | Ev::Seq { tag: Some((h, _)), .. } = e {
                    if !h.is_empty() && !self.tags.contains_key(h) { return false }
                }
            }
            self.end = self.c.len();
            documents += 1;
            let ended = self.marker('.');
            self.ev.push(Ev::DocEnd { implicit: !ended });
            if ended && !self.l_comments() { return false }
            open = ended;
        }
        if documents == 0 {
            let tags = [("!", "!"), ("!!", "tag:yaml.org,2002:")].into_iter().map(|(h, p)| (h.to_string(), p.to_string())).collect();
            self.ev.push(Ev::DocStart { version: (1, 2), tags, implicit: true });
            self.ev.push(Ev::DocEnd { implicit: true });
        }
        self.ev.push(Ev::StreamEnd);
        true
    }
}

/// The events of a well formed stream, None for any other
pub fn grammar(s: &str, lax: bool) -> Option<Vec<Ev>> {
    let c: Vec<char> = s.chars().collect();
    let end = c.len();
    let mut g = G { c, i: 0, end, ev: vec![], tags: BTreeMap::new(), bad: false, fuel: 5_000_000, lax };
    let ok = g.stream();
    if g.fuel == 0 { panic!("out of fuel for {s:?}") }
    if ok && !g.bad { Some(g.ev) } else { None }
}

/// Is this text within what the productions and the library agree upon to be
/// characters? (The library has the line breaks of YAML 1.1.)
pub fn covers(s: &str) -> bool { s.chars().all(|c| printable(c) && !matches!(c, '\u{85}' | '\u{2028}' | '\u{2029}')) }

/// What must be accepted must be accepted with these events; what is accepted
/// beyond that must still be one of the documented leniencies
pub fn judge(s: &str, got: Result<&[Ev], String>) -> Result<(), String> {
    let show = crate::oracle::show_evs;
    match (grammar(s, false), got) {
        (Some(g), Err(e)) => Err(format!("REJECTED {e} / grammar {}", show(&g))),
        (Some(g), Ok(t)) if g == t => Ok(()),
        (Some(g), Ok(t)) => Err(format!("DIFFER {} / grammar {}", show(t), show(&g))),
        (None, Err(_)) => Ok(()),
        (None, Ok(t)) => match grammar(s, true) {
            None => Err(format!("ACCEPTED {}", show(t))),
            Some(g) if g == t => Ok(()),
            Some(g) => Err(format!("DIFFER {} / lax grammar {}", show(t), show(&g))),
        },
    }
}
