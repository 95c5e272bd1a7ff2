//! Documents written from their structure: every tree of nodes in every
//! presentation, as far as a budget goes. The generator makes choices, all
//! sequences of choices are explored; the first option of each choice is free,
//! others are paid from the budget. The expected events are those of the tree.
use crate::{engine::*, model, oracle::Res, source::*, spaces::Tier, trace::*};

/// A sequence of choices, and where in it the current run is
pub struct Choices {
    path: Vec<(u8, u8)>,
    at: usize,
    left: Budget,
    budget: Budget,
}

/// What may be spent on the structure, and on everything else
pub type Budget = (u32, u32);
/// The costs of structure, as opposed to 1 for anything else
const S: u32 = 100;
const NEVER: u32 = 99;

impl Choices {
    pub fn new(budget: Budget) -> Self { Choices { path: vec![], at: 0, left: budget, budget } }
    fn restart(&mut self) {
        self.at = 0;
        self.left = self.budget;
    }
    /// One of the options which can be paid for. The first one must be free.
    fn pick(&mut self, costs: &[u32]) -> usize {
        let open: Vec<usize> = (0..costs.len()).filter(|i| costs[*i] / S <= self.left.0 && costs[*i] % S <= self.left.1).collect();
        if self.at == self.path.len() { self.path.push((0, open.len() as u8)) }
        let i = open[self.path[self.at].0 as usize];
        self.at += 1;
        self.left.0 -= costs[i] / S;
        self.left.1 -= costs[i] % S;
        i
    }
    fn more(&mut self) -> bool { self.pick(&[0, S]) == 1 }
    fn flip(&mut self) -> bool { self.pick(&[0, 1]) == 1 }
    /// Go on to the next sequence whose first `fixed` choices are the same
    fn advance(&mut self, fixed: usize) -> bool {
        while self.path.len() > fixed {
            let last = self.path.len() - 1;
            let (c, n) = &mut self.path[last];
            if *c + 1 < *n {
                *c += 1;
                return true;
            }
            self.path.pop();
        }
        false
    }
}

/// Where a node stands in a block collection
#[derive(Clone, Copy, PartialEq)]
enum At {
    /// At the start of a line
    Root,
    /// After `---`
    Marker,
    Entry,
    Key,
    /// After the `:` of an implicit key
    Value,
    /// After the `:` of an explicit key
    Explicit,
}

struct Writer<'a> {
    c: &'a mut Choices,
    out: String,
    evs: Vec<Ev>,
    names: u8,
    /// The text ends with a block scalar
    open: bool,
}

type Props = (Option<String>, Option<Tag>);

impl Writer<'_> {
    fn name(&mut self) -> char {
        self.names += 1;
        (b'a' + (self.names - 1) % 26) as char
    }
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
        self.open = false;
    }
    fn indent(&mut self, n: isize) { self.out.push_str(&" ".repeat(n.max(0) as usize)) }
    fn eol(&mut self) {
        let s = ["\n", " # c\n", "\n\n", "\n   # c\n", " \t\n"][self.c.pick(&[0, 1, 1, 1, 1])];
        self.put(s);
    }
    fn props(&mut self) -> (String, Props) {
        let k = self.c.pick(&[0, 1, 1, 1, 1, 2]);
        if k == 0 { return (String::new(), (None, None)) }
        let n = self.name();
        let tag = |h: &str, s: String| Some((h.to_string(), s));
        match k {
            1 => (format!("&{n}"), (Some(n.to_string()), None)),
            2 => (format!("!{n}"), (None, tag("!", n.to_string()))),
            3 => (format!("&{n} !!{n}"), (Some(n.to_string()), tag("!!", n.to_string()))),
            4 => (format!("!<{n}> &{n}-1"), (Some(format!("{n}-1")), tag("", n.to_string()))),
            _ => (format!("!{n}%41"), (None, tag("!", format!("{n}A")))),
        }
    }
    fn scalar(&mut self, kind: Kind, (anchor, tag): Props, v: String, s: Style) { self.evs.push(Ev::Scalar { anchor, tag, kind, val: Ok((v, s)) }) }
    fn empty(&mut self, kind: Kind, p: Props) { self.scalar(kind, p, String::new(), Style::Plain) }

    /// A scalar which may stand in flow: its text, value and style. `cont` is
    /// what continuation lines start with.
    fn flow_text(&mut self, k: usize, cont: &str) -> (String, String, Style) {
        let (n, c) = (self.name(), cont);
        match k {
            0 => (format!("{n}"), format!("{n}"), Style::Plain),
            1 => (format!("'{n}'"), format!("{n}"), Style::Single),
            2 => (format!("\"{n}\""), format!("{n}"), Style::Double),
            3 => (format!("{n} b:c#d"), format!("{n} b:c#d"), Style::Plain),
            4 => (format!("-{n}é"), format!("-{n}é"), Style::Plain),
            5 => (format!("'{n}'': # '''"), format!("{n}': # '"), Style::Single),
            6 => (format!("\"\\x41{n}\\\\\\\" - \""), format!("A{n}\\\" - "), Style::Double),
            7 => ("''".into(), "".into(), Style::Single),
            // Over several lines
            8 => (format!("{n}\n{c}b"), format!("{n} b"), Style::Plain),
            9 => (format!("{n} \n\n{c}b\t\n{c}\n\n{c}c"), format!("{n}\nb\n\nc"), Style::Plain),
            10 => (format!("' {n}\n{c}b''\n\n{c}c '"), format!(" {n} b'\nc "), Style::Single),
            _ => (format!("\"{n}\\\n{c}b \n\n{c}\\ c\\n\n{c}\""), format!("{n}b\n c\n "), Style::Double),
        }
    }

    /// A node in a block collection whose column is `n`
    fn block(&mut self, n: isize, at: At, kind: Kind) {
        // 0-11: text, 12: nothing, 13: alias, 14-21: block scalars, 22: flow sequence, 23: flow mapping, 24: sequence, 25: mapping
        let mut costs = [1; 26];
        costs[0] = 0;
        for c in &mut costs[22..] { *c = S }
        if at == At::Root { costs[12] = NEVER }
        let k = self.c.pick(&costs);
        let (p, props) = if k == 13 { Default::default() } else { self.props() };
        let gap = if at == At::Root { "" } else { " " };
        if k >= 24 { return self.collection(n, at, kind, k == 25, gap, p, props) }
        // On the same line, or on the next one
        if at == At::Root || k == 12 || !self.c.flip() {
            let gap = if !gap.is_empty() && !(k == 12 && p.is_empty()) && self.c.flip() { "  " } else { gap };
            if !(k == 12 && p.is_empty()) { self.put(gap) }
            self.put(&p);
            if !p.is_empty() && k != 12 { self.put(" ") }
        } else if !p.is_empty() && self.c.flip() {
            self.put(gap);
            self.put(&p);
            self.eol();
            self.indent(n + 1);
        } else {
            self.eol();
            self.indent(n + 1);
            self.put(&p);
            if !p.is_empty() { self.put(" ") }
        }
        match k {
            0..=11 => {
                let cont = " ".repeat((n + 1) as usize);
                let (text, v, s) = self.flow_text(k, &cont);
                self.put(&text);
                self.scalar(kind, props, v, s);
                self.eol();
            }
            12 => {
                // A document may have no node at all
                if at != At::Marker || !p.is_empty() { self.empty(kind, props) }
                self.eol();
            }
            13 => {
                let a = self.name();
                self.put(&format!("*{a}"));
                self.evs.push(Ev::Alias(a.to_string()));
                self.eol();
            }
            14..=21 => self.block_scalar(n, kind, props, k - 14),
            _ => {
                self.flow_collection(n, kind, props, k == 23, false);
                self.eol();
            }
        }
    }

    fn block_scalar(&mut self, n: isize, kind: Kind, props: Props, k: usize) {
        let a = self.name();
        let i = " ".repeat((n.max(0) + 1 + self.c.flip() as isize) as usize);
        let d = i.len() as isize - n.max(0);
        let (text, v, s) = match k {
            0 => (format!("|\n{i}{a}\n"), format!("{a}\n"), Style::Literal),
            1 => (format!(">\n{i}{a}\n"), format!("{a}\n"), Style::Folded),
            2 => (format!("|- # c\n{i}{a}\n{i}  - b:\n\n{i}c\n\n"), format!("{a}\n  - b:\n\nc"), Style::Literal),
            3 => (format!(">-\n{i}{a}\n{i}b\n\n{i} c\n{i}\td\n{i}e\n{i}f\n\n"), format!("{a} b\n\n c\n\td\ne f"), Style::Folded),
            4 => (format!("|+\n\n{i}{a} \n{i}\n\n"), format!("\n{a} \n\n\n"), Style::Literal),
            5 => (format!(">+\n\n{i}{a}\n\n\n"), format!("\n{a}\n\n\n"), Style::Folded),
            6 => (format!("|{d}\n{i} {a}\n{i}#b\n"), format!(" {a}\n#b\n"), Style::Literal),
            _ => (format!(">-{d}\n\n{i} {a}\n{i}b\n\n{i}c\n"), format!("\n {a}\nb\nc"), Style::Folded),
        };
        // At the root, the indentation is told from column 0
        self.put(&text);
        self.scalar(kind, props, v, s);
        if self.c.flip() { self.put("# c\n") }
        self.open = true;
    }

    fn collection(&mut self, n: isize, at: At, kind: Kind, map: bool, gap: &str, p: String, (anchor, tag): Props) {
        self.evs.push(if map { Ev::Map { anchor, tag, kind } } else { Ev::Seq { anchor, tag, kind } });
        let compact = p.is_empty() && matches!(at, At::Entry | At::Key | At::Explicit) && !self.c.flip();
        let m = if compact {
            let gap = if self.c.flip() { "   " } else { " " };
            self.put(gap);
            n + 1 + gap.len() as isize
        } else {
            if !p.is_empty() {
                self.put(gap);
                self.put(&p);
            }
            if at != At::Root || !p.is_empty() { self.eol() }
            let zero = !map && matches!(at, At::Key | At::Value | At::Explicit);
            let deeper = at != At::Root || !p.is_empty();
            let m = n + [1, 2, 0][self.c.pick(&[0, if deeper { 1 } else { NEVER }, if zero { 1 } else { NEVER }])];
            self.indent(m);
            m
        };
        // An explicit key without a value takes any value which follows
        let mut keyed = false;
        loop {
            if map { keyed = self.pair(m, keyed) } else {
                self.put("-");
                self.block(m, At::Entry, Kind::Entry);
            }
            if !self.c.more() { break }
            self.indent(m);
        }
        self.evs.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
    }

    fn pair(&mut self, m: isize, keyed: bool) -> bool {
        match self.c.pick(&[0, S, S]) {
            0 => {
                self.key(m, !keyed, false);
                self.put(":");
                self.block(m, At::Value, Kind::Value);
                false
            }
            k => {
                self.put("?");
                self.block(m, At::Key, Kind::Key);
                if k == 2 {
                    self.empty(Kind::Value, (None, None));
                    return true;
                }
                self.indent(m);
                self.put(":");
                self.block(m, At::Explicit, Kind::Value);
                false
            }
        }
    }

    /// An implicit key, on one line. True if a value may directly follow its indicator.
    fn key(&mut self, n: isize, nothing: bool, flow: bool) -> bool {
        let k = self.c.pick(&[0, 1, 1, if flow { NEVER } else { 1 }, 1, 1, 1, 1, if nothing { 1 } else { NEVER }, 1, S, S]);
        if k == 9 {
            let a = self.name();
            self.put(&format!("*{a} "));
            self.evs.push(Ev::Alias(a.to_string()));
            return false;
        }
        let (p, props) = self.props();
        self.put(&p);
        if !p.is_empty() { self.put(" ") }
        match k {
            8 => {
                self.empty(Kind::Key, props);
                return false;
            }
            10 | 11 => self.flow_collection(n, Kind::Key, props, k == 11, true),
            _ => {
                let (text, v, s) = self.flow_text(k, "");
                self.put(&text);
                self.scalar(Kind::Key, props, v, s);
            }
        }
        if self.c.flip() { self.put(" ") }
        matches!(k, 1 | 2 | 5 | 6 | 7 | 10 | 11)
    }

    /// White space within a flow collection
    fn space(&mut self, n: isize, single: bool, default: &str) {
        let cont = " ".repeat((n + 1) as usize);
        match self.c.pick(&[0, 1, if single { NEVER } else { 1 }, if single { NEVER } else { 1 }]) {
            0 => self.put(default),
            1 => self.put("  "),
            2 => self.put(&format!("\n{cont}")),
            _ => self.put(&format!(" # c\n\n{cont} ")),
        }
    }

    fn flow_collection(&mut self, n: isize, kind: Kind, (anchor, tag): Props, map: bool, single: bool) {
        self.evs.push(if map { Ev::Map { anchor, tag, kind } } else { Ev::Seq { anchor, tag, kind } });
        self.put(if map { "{" } else { "[" });
        self.space(n, single, "");
        // Collections may be empty
        let mut more = !self.c.flip();
        while more {
            if map { self.flow_pair(n, single, true) } else if self.c.more() {
                self.evs.push(Ev::Map { anchor: None, tag: None, kind: Kind::Entry });
                self.flow_pair(n, single, false);
                self.evs.push(Ev::MapEnd);
            } else { self.flow(n, Kind::Entry, single, false) }
            self.space(n, single, "");
            more = false;
            match self.c.pick(&[0, S, 1]) {
                0 => {}
                1 => {
                    self.put(",");
                    self.space(n, single, " ");
                    more = true;
                }
                _ => {
                    self.put(",");
                    self.space(n, single, "");
                }
            }
        }
        self.put(if map { "}" } else { "]" });
        self.evs.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
    }

    fn flow_pair(&mut self, n: isize, single: bool, map: bool) {
        // k: v, k, ? k : v, ? k
        match self.c.pick(&[0, if map { S } else { NEVER }, S, S]) {
            0 => {
                let adjacent = self.key(n, true, true);
                self.put(":");
                if !(adjacent && self.c.flip()) { self.space(n, single, " ") }
                self.flow(n, Kind::Value, single, true);
            }
            1 => {
                let k = self.evs.len();
                self.key(n, false, true);
                debug_assert!(self.evs.len() > k);
                self.empty(Kind::Value, (None, None));
            }
            2 => {
                self.put("?");
                self.space(n, single, " ");
                self.flow(n, Kind::Key, single, true);
                self.put(" :");
                self.space(n, single, " ");
                self.flow(n, Kind::Value, single, true);
            }
            _ => {
                self.put("?");
                self.space(n, single, " ");
                self.flow(n, Kind::Key, single, true);
                self.empty(Kind::Value, (None, None));
            }
        }
    }

    fn flow(&mut self, n: isize, kind: Kind, single: bool, nothing: bool) {
        let far = if single { NEVER } else { 1 };
        let k = self.c.pick(&[0, 1, 1, NEVER, 1, 1, 1, 1, far, far, far, far, 1, 1, S, S]);
        if k == 13 {
            let a = self.name();
            self.put(&format!("*{a}"));
            self.evs.push(Ev::Alias(a.to_string()));
            return;
        }
        let (mut p, mut props) = self.props();
        if k == 12 && p.is_empty() && !nothing {
            p = "&z".into();
            props.0 = Some("z".into());
        }
        self.put(&p);
        if !p.is_empty() { self.put(" ") }
        match k {
            12 => self.empty(kind, props),
            14 | 15 => self.flow_collection(n, kind, props, k == 15, single),
            _ => {
                let cont = " ".repeat((n + 1) as usize);
                let (text, v, s) = self.flow_text(k, &cont);
                self.put(&text);
                self.scalar(kind, props, v, s);
            }
        }
    }

    fn document(&mut self, first: bool, ended: bool) -> bool {
        let start = |version, tags: &[(&str, &str)], implicit| {
            let mut all: std::collections::BTreeMap<String, String> = [("!", "!"), ("!!", "tag:yaml.org,2002:")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            for (a, b) in tags { all.insert(a.to_string(), b.to_string()); }
            Ev::DocStart { version, tags: all, implicit }
        };
        let dirs = if ended { 1 } else { NEVER };
        let bare = first || ended;
        let how = self.c.pick(&[if bare { 0 } else { NEVER }, bare as u32, dirs, dirs]);
        match how {
            0 => self.evs.push(start((1, 2), &[], true)),
            1 => {
                self.put("---");
                self.evs.push(start((1, 2), &[], false));
            }
            2 => {
                self.put("%YAML 1.1 # c\n---");
                self.evs.push(start((1, 1), &[], false));
            }
            _ => {
                self.put("%TAG !e! e:%41\n\n%TAG ! !\n---");
                self.evs.push(start((1, 2), &[("!e!", "e:A"), ("!", "!")], false));
            }
        }
        self.block(-1, if how == 0 { At::Root } else { At::Marker }, Kind::Root);
        let end = self.c.pick(&[0, 1]) == 1;
        if end { self.put("...") }
        self.evs.push(Ev::DocEnd { implicit: !end });
        if end { self.eol() }
        end
    }
}

/// The document of a sequence of choices, and its events
pub fn write(c: &mut Choices) -> (String, Vec<Ev>) {
    c.restart();
    let mut w = Writer { c, out: String::new(), evs: vec![Ev::StreamStart], names: 0, open: false };
    let (mut first, mut ended) = (true, true);
    loop {
        ended = w.document(first, ended);
        first = false;
        if !w.c.more() { break }
    }
    w.evs.push(Ev::StreamEnd);
    let open = w.open;
    let how = w.c.pick(&[0, if open { NEVER } else { 1 }, 1, 1]);
    let Writer { mut out, evs, .. } = w;
    match how {
        1 => { out.truncate(out.trim_end_matches('\n').len()) }
        2 => out = out.replace('\n', "\r\n"),
        3 => out = out.replace('\n', "\r"),
        _ => {}
    }
    (out, evs)
}

/// Run `f` on every document which uses up a budget, or a part of it
pub fn each_tree<F>(budgets: &[Budget], st: &mut Stats, f: F) -> Result<(), Violation>
where
    F: Fn(&str, &[Ev], &mut Stats) -> Res + Sync,
{
    let top = budgets.iter().map(|b| b.0 + b.1).max().unwrap_or(0);
    let all = (0..=top).flat_map(|n| (0..=n).map(move |a| (a, n - a))).filter(|x| budgets.iter().any(|b| x.0 <= b.0 && x.1 <= b.1));
    for budget in all {
        // What follows the same first choices is one job
        const FIXED: usize = 12;
        let mut jobs = vec![];
        let mut c = Choices::new(budget);
        loop {
            write(&mut c);
            c.path.truncate(FIXED);
            jobs.push(c.path.clone());
            if !c.advance(0) { break }
        }
        each(jobs.len() as u64, st, |i, st| {
            let mut c = Choices::new(budget);
            c.path = jobs[i as usize].clone();
            let fixed = c.path.len();
            loop {
                let (s, evs) = write(&mut c);
                // Those which leave something of the budget are explored with a smaller one
                if c.left == (0, 0) {
                    on(&s);
                    st.add("inputs", 1);
                    f(&s, &evs, st).map_err(|what| Violation { input: s, what })?;
                }
                if !c.advance(fixed) { break Ok(()) }
            }
        })?;
    }
    Ok(())
}

/// What is written is what is read
pub fn read_back(s: &str, want: &[Ev], st: &mut Stats) -> Res {
    let ways = [("eager", run_str(s, false)), ("lazy", run_str(s, true)), ("from a source", run_reader(&source(s.as_bytes(), &[ALL]).0, false, s.len()))];
    st.add("executions", 3);
    st.see("outcomes", hash_from(0, &want));
    if want.len() > 12 { st.sample(|| format!("{s:?} => {}", crate::oracle::show_evs(want))) }
    for (how, t) in ways {
        if t.end != End::Done || t.plain() != want { return Err(format!("{how}: {} was written, and {} is read", crate::oracle::show_evs(want), crate::oracle::show(&t))) }
    }
    Ok(())
}

pub fn check(t: Tier, st: &mut Stats) -> Result<(), Violation> {
    each_tree(t.pick(&[(6, 0), (5, 1), (4, 2), (2, 3)], &[(7, 0), (6, 1), (4, 2), (3, 3), (1, 5)]), st, |s, want, st| {
        if t == Tier::Thorough {
            // The model was not made from the generator, nor the other way around
            let m = model::model(s);
            if !m.ok || m.evs != want { return Err(format!("HARNESS: the model reads {} instead of {} ({})", crate::oracle::show_evs(&m.evs), crate::oracle::show_evs(want), m.why)) }
            st.add("confirmed by the model", 1);
        }
        read_back(s, want, st)
    })
}
