//! Byte sources under the control of the harness: every answer a `read` call
//! gives is chosen by the explorer.
use std::{
    cell::{Cell, RefCell},
    io::{self, Read},
    rc::Rc,
};
use yary::reader::{from_read, owned::OwnedReader};

/// How a source answers one call
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Answer {
    /// Up to this many bytes
    Give(usize),
    /// A retryable interruption
    Interrupt,
    /// A failure
    Fail(io::ErrorKind),
    /// A failure without a message of its own
    Bare(io::ErrorKind),
    /// A failure reported by the operating system
    Os(i32),
}

impl Answer {
    /// The error of a failure
    pub fn error(self) -> Option<io::Error> {
        match self {
            Answer::Fail(k) => Some(io::Error::new(k, MARK)),
            Answer::Bare(k) => Some(k.into()),
            Answer::Os(n) => Some(io::Error::from_raw_os_error(n)),
            _ => None,
        }
    }
}

/// What the harness can see of a source while the library owns it
#[derive(Default)]
pub struct Seen {
    /// Bytes handed out
    pub given: Cell<usize>,
    /// A failure was returned
    pub failed: Cell<bool>,
    /// The end was reported
    pub ended: Cell<bool>,
    /// Calls made
    pub calls: Cell<usize>,
    /// Dropped
    pub dropped: Cell<bool>,
}

pub struct Script {
    data: Vec<u8>,
    at: usize,
    /// One answer per call, the last repeats
    answers: Vec<Answer>,
    next: usize,
    seen: Rc<Seen>,
}

pub const MARK: &str = "injected by the harness";

impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.seen.calls.set(self.seen.calls.get() + 1);
        let a = self.answers[self.next.min(self.answers.len() - 1)];
        self.next += 1;
        match a {
            Answer::Interrupt => Err(io::ErrorKind::Interrupted.into()),
            Answer::Fail(_) | Answer::Bare(_) | Answer::Os(_) => {
                self.seen.failed.set(true);
                Err(a.error().unwrap())
            }
            Answer::Give(n) => {
                let n = n.min(buf.len()).min(self.data.len() - self.at);
                buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
                self.at += n;
                self.seen.given.set(self.at);
                if n == 0 && !buf.is_empty() { self.seen.ended.set(true) }
                Ok(n)
            }
        }
    }
}
impl Drop for Script {
    fn drop(&mut self) { self.seen.dropped.set(true) }
}

pub fn source(data: &[u8], answers: &[Answer]) -> (OwnedReader, Rc<Seen>) {
    let seen = Rc::new(Seen::default());
    let s = Script { data: data.to_vec(), at: 0, answers: answers.to_vec(), next: 0, seen: seen.clone() };
    (from_read(s), seen)
}

/// A source without an end: some text, and then another one over and over
struct Endless {
    pre: Vec<u8>,
    unit: Vec<u8>,
    at: usize,
    most: usize,
    far: usize,
    seen: Rc<Seen>,
}

/// What an endless source hands out until it is clear that it was asked for too much
pub const FAR: usize = 1 << 18;

impl Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.seen.calls.set(self.seen.calls.get() + 1);
        if self.at > self.far {
            self.seen.failed.set(true);
            return Err(io::Error::new(io::ErrorKind::Other, MARK));
        }
        let n = buf.len().min(self.most);
        for b in &mut buf[..n] {
            *b = match self.pre.get(self.at) {
                Some(b) => *b,
                None => self.unit[(self.at - self.pre.len()) % self.unit.len()],
            };
            self.at += 1;
        }
        self.seen.given.set(self.at);
        Ok(n)
    }
}

pub fn endless(pre: &str, unit: &str, most: usize, far: usize) -> (OwnedReader, Rc<Seen>) {
    let seen = Rc::new(Seen::default());
    (from_read(Endless { pre: pre.into(), unit: unit.into(), at: 0, most, far, seen: seen.clone() }), seen)
}

pub const ALL: Answer = Answer::Give(usize::MAX);
pub const ONE: Answer = Answer::Give(1);

thread_local! { static BOUNDS: RefCell<Option<Vec<usize>>> = const { RefCell::new(None) }; }

/// The offsets in a stream after which the library stops to read more, found
/// by watching it read. (These depend on nothing but the amount of data for
/// streams made out of small tokens.)
pub fn boundaries() -> Vec<usize> {
    BOUNDS.with(|b| {
        b.borrow_mut()
            .get_or_insert_with(|| {
                let text = "- x\n".repeat(40_000);
                let (r, seen) = source(text.as_bytes(), &[ALL]);
                let mut out: Vec<usize> = vec![];
                for e in yary::event::Events::new(&r, yary::event::flag::O_NIL) {
                    if e.is_err() { break }
                    let g = seen.given.get();
                    if g > 0 && out.last() != Some(&g) && g < text.len() { out.push(g) }
                }
                out
            })
            .clone()
    })
}
