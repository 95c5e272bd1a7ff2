//! Runs the real library on one input and renders what a user of its public
//! API observes as plain, comparable values.
use std::{
    cell::Cell,
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
};

use yary::{
    error::Category,
    event::{
        flag::{Flags, O_LAZY, O_NIL},
        types::{Event, EventData, NodeKind, ScalarLike, ScalarStyle},
        Events,
    },
    reader::{from_utf8, Read},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Style { Plain, Single, Double, Literal, Folded }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind { Root, Entry, Key, Value }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Err {
    pub cat: Cat,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cat { IO, Syntax, Data, EOF }

impl From<Category> for Cat {
    fn from(c: Category) -> Self {
        match c {
            Category::IO => Cat::IO,
            Category::Syntax => Cat::Syntax,
            Category::Data => Cat::Data,
            Category::EOF => Cat::EOF,
        }
    }
}

pub type Tag = (String, String);

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    StreamStart,
    StreamEnd,
    DocStart { version: (u8, u8), tags: BTreeMap<String, String>, implicit: bool },
    DocEnd { implicit: bool },
    Alias(String),
    Scalar { anchor: Option<String>, tag: Option<Tag>, kind: Kind, val: Result<(String, Style), Err> },
    Map { anchor: Option<String>, tag: Option<Tag>, kind: Kind },
    MapEnd,
    Seq { anchor: Option<String>, tag: Option<Tag>, kind: Kind },
    SeqEnd,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MarkedEv {
    pub ev: Ev,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum End {
    /// The iterator returned None
    Done,
    /// The iterator returned an error
    Err(Err),
    /// The library panicked
    Panic(String),
    /// More events than any input of this length may produce
    Runaway,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Trace {
    pub evs: Vec<MarkedEv>,
    pub end: End,
}

impl Trace {
    pub fn plain(&self) -> Vec<Ev> { self.evs.iter().map(|e| e.ev.clone()).collect() }
}

pub fn err_of(e: &yary::Error) -> Err {
    Err { cat: e.classify().into(), msg: e.to_string() }
}

fn kind(k: NodeKind) -> Kind {
    match k {
        NodeKind::Root => Kind::Root,
        NodeKind::Entry => Kind::Entry,
        NodeKind::Key => Kind::Key,
        NodeKind::Value => Kind::Value,
    }
}

pub fn style(s: ScalarStyle) -> Style {
    match s {
        ScalarStyle::Plain => Style::Plain,
        ScalarStyle::SingleQuote => Style::Single,
        ScalarStyle::DoubleQuote => Style::Double,
        ScalarStyle::Literal => Style::Literal,
        ScalarStyle::Folded => Style::Folded,
    }
}

fn own(a: &Option<yary::event::types::Slice>) -> Option<String> { a.as_ref().map(|s| s.to_string()) }
fn own2(a: &Option<(yary::event::types::Slice, yary::event::types::Slice)>) -> Option<Tag> {
    a.as_ref().map(|(h, s)| (h.to_string(), s.to_string()))
}

pub fn scalar_val(s: ScalarLike<'_>) -> Result<(String, Style), Err> {
    match s.evaluate() {
        Ok(s) => Ok((s.data().to_string(), style(s.style()))),
        Err(e) => Err(err_of(&e)),
    }
}

pub fn render(e: &Event<'_>) -> MarkedEv {
    let ev = match e.data() {
        EventData::StreamStart(_) => Ev::StreamStart,
        EventData::StreamEnd => Ev::StreamEnd,
        EventData::DocumentStart(d) => Ev::DocStart {
            version: (d.directives.version.major, d.directives.version.minor),
            tags: d.directives.tags.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            implicit: d.implicit,
        },
        EventData::DocumentEnd(d) => Ev::DocEnd { implicit: d.implicit },
        EventData::Alias(a) => Ev::Alias(a.name.to_string()),
        EventData::Scalar(n) => Ev::Scalar {
            anchor: own(&n.anchor),
            tag: own2(&n.tag),
            kind: kind(n.kind),
            val: scalar_val(n.content.clone()),
        },
        EventData::MappingStart(n) => Ev::Map { anchor: own(&n.anchor), tag: own2(&n.tag), kind: kind(n.kind) },
        EventData::MappingEnd => Ev::MapEnd,
        EventData::SequenceStart(n) => Ev::Seq { anchor: own(&n.anchor), tag: own2(&n.tag), kind: kind(n.kind) },
        EventData::SequenceEnd => Ev::SeqEnd,
    };
    MarkedEv { ev, start: e.start(), end: e.end() }
}

/// No input of `len` bytes produces more events than this.
pub fn cap(len: usize) -> usize { 8 * len + 16 }

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
    static EXPECTED: Cell<u32> = const { Cell::new(0) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if EXPECTED.with(|e| e.get()) == 0 { println!("the harness itself panicked: {i}") }
        LAST_PANIC.with(|c| c.set(Some(format!("{} ({})", i.to_string().lines().last().unwrap_or(""), loc))));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    EXPECTED.with(|e| e.set(e.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    EXPECTED.with(|e| e.set(e.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|c| c.take()).unwrap_or_default())
}

pub fn flags(lazy: bool) -> Flags { if lazy { O_LAZY } else { O_NIL } }

/// Drain a reader through the by-value iterator.
pub fn run_reader<R: Read>(r: &R, lazy: bool, len: usize) -> Trace {
    let mut evs = Vec::new();
    let res = guarded(|| {
        let mut it = Events::new(r, flags(lazy)).into_iter();
        loop {
            if evs.len() > cap(len) {
                return End::Runaway;
            }
            match it.next() {
                None => return End::Done,
                Some(Err(e)) => return End::Err(err_of(&e)),
                Some(Ok(e)) => evs.push(render(&e)),
            }
        }
    });
    let end = res.unwrap_or_else(End::Panic);
    Trace { evs, end }
}

pub fn run_str(s: &str, lazy: bool) -> Trace {
    let r = from_utf8(s);
    run_reader(&r, lazy, s.len())
}
