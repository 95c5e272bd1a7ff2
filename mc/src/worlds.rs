//! Checks which explore more than inputs: answers of the byte source, places
//! of chunk boundaries, schedules of several consumers, sizes.
use crate::{alloc, engine::*, model, oracle::*, pumps, source::*, spaces::*, trace::*, trees};
use std::io::ErrorKind;
use yary::{
    event::{
        types::{Event, EventData},
        EventIter, EventIterRef, Events,
    },
    reader::{from_utf8, owned::OwnedReader, try_from_bytes, Read},
};

type V = Result<(), Violation>;

pub fn case<T>(input: &str, how: impl std::fmt::Display, r: Result<T, String>) -> Result<T, Violation> {
    r.map_err(|what| Violation { input: input.to_string(), what: format!("{how}: {what}") })
}

/// All words of an alphabet up to a depth, as a list
pub fn words(s: &Space) -> Vec<String> {
    let mut out = vec![];
    for len in 0..=s.n {
        for i in 0..(s.alpha.len() as u64).pow(len) {
            let mut w = String::new();
            s.nth(len, i, &mut w);
            out.push(w);
        }
    }
    out
}

// ---------------------------------------------------------------- chunking

fn owned(data: &[u8], answers: &[Answer], lazy: bool) -> Trace {
    let (r, _) = source(data, answers);
    run_reader(&r, lazy, data.len())
}

fn same(a: &Trace, b: &Trace, st: &mut Stats) -> Res {
    st.add("executions", 1);
    if a == b { Ok(()) } else { Err(differ("borrowed and owned results differ", a, b)) }
}

/// Documents at least one chunk long; `{}` is where the explored text goes
pub fn fillers() -> Vec<(&'static str, String, String)> {
    vec![
        ("a comment", "#".into(), "\n".into()),
        ("blank lines", "".into(), "\n".into()),
        ("a block sequence", "- '".into(), "'\n- ".into()),
        ("a plain key", "".into(), ": x\n".into()),
        ("a double quote", "- \"".into(), "".into()),
        ("a single quote", "- '".into(), "".into()),
        ("a plain scalar", "- ".into(), "".into()),
        ("a literal", "|\n a".into(), "\n ".into()),
        ("a flow sequence", "[ \"".into(), "\", ".into()),
        ("a nested mapping", "k:\n  j: ".into(), "\n  ".into()),
        ("a verbatim tag", "!<".into(), "".into()),
    ]
}

pub fn chunk(t: Tier, st: &mut Stats) -> V {
    // Every way in which a source may split its answers
    let spaces = [
        Space::new("splits", &["a", ":", " ", "-", "\n", "[", "]", "\"", "é", "|", "#", "&", "'", "---", "\\"], t.pick(4, 5)),
        Space::new("splits, wide", &["😀", "\u{2028}", "\r\n", "'", "a ", ": "], t.pick(3, 4)),
    ];
    explore(&spaces, st, |s, st| {
        let lazy = [run_str(s, false), run_str(s, true)];
        let n = s.len();
        let max = 1u32 << n.saturating_sub(1).min(7);
        for mask in 0..max {
            let mut answers = vec![];
            let mut run = 1;
            for i in 0..n.saturating_sub(1) {
                if mask >> i.min(31) & 1 == 1 {
                    answers.push(Answer::Give(run));
                    run = 1;
                } else { run += 1 }
            }
            answers.push(Answer::Give(run));
            for l in [false, true] {
                same(&lazy[l as usize], &owned(s.as_bytes(), &answers, l), st).map_err(|e| format!("answers {answers:?}, lazy {l}: {e}"))?;
            }
            answers = answers.into_iter().flat_map(|a| [Answer::Interrupt, a]).collect();
            same(&lazy[0], &owned(s.as_bytes(), &answers, false), st).map_err(|e| format!("answers {answers:?}: {e}"))?;
        }
        st.see("outcomes", hash_from(0, &lazy[0].plain()));
        if n > 3 { st.sample(|| format!("{s:?}: {max} splits, each with and without interruptions")) }
        Ok(())
    })?;

    // Texts of every kind, all at once and byte by byte
    anywhere(t, t.pick(2, 1), st, |s, st| {
        let e = run_str(s, false);
        same(&e, &owned(s.as_bytes(), &[ALL], false), st)?;
        if s.len() < 5000 { same(&e, &owned(s.as_bytes(), &[ONE], false), st)? }
        Ok(())
    })?;

    // A chunk ends at every position of the text
    let bounds = boundaries();
    if bounds.is_empty() { st.add("no chunk boundaries found", 1) }
    let spaces = [
        Space::new("chunk ends", &["a", ": ", "- ", "\n", "é", "]", "\"", "---", "\\", "|\n ", " ", "'", "#", "!t ", "&b ", "...", "\r\n", "?"], t.pick(2, 3)),
        Space::new("chunk ends, long tokens", &["--- ", "\"\\u0041\"", "'it''s'", "!!str ", "%TAG !e! x\n", "k: ", "\n", "|+2\n", "😀"], t.pick(2, 3)),
    ];
    let all: Vec<String> = spaces.iter().flat_map(words).filter(|w| !w.is_empty()).collect();
    let fill = fillers();
    let which: Vec<usize> = bounds.iter().copied().take(t.pick(2, 4)).collect();
    let n = all.len() * fill.len() * which.len();
    each(n as u64, st, |i, st| {
        let i = i as usize;
        let (w, rest) = (&all[i / (fill.len() * which.len())], i % (fill.len() * which.len()));
        let ((what, pre, post), b) = (&fill[rest / which.len()], which[rest % which.len()]);
        st.add("inputs", 1);
        on(&format!("{what} up to byte {b}, then {w:?}"));
        // The boundary falls after `k` bytes of (post + w)
        let tail = format!("{post}{w}");
        for k in 0..=tail.len() {
            let Some(pad) = (b + 1).checked_sub(k + pre.len() + 1) else { continue };
            let c = if *what == "blank lines" { "\n" } else { "x" };
            let s = format!("{pre}{}{tail}", c.repeat(pad));
            let lazy = (i + k) % 2 == 1;
            for l in if b == which[0] { vec![false, true] } else { vec![lazy] } {
                let e = run_str(&s, l);
                case(&s, format!("{what}, then {w:?}, the chunk ends at byte {b} (after {k} bytes), lazy {l}"), same(&e, &owned(s.as_bytes(), &[ALL], l), st))?;
            }
        }
        if w.len() > 3 { st.sample(|| format!("{what} up to byte {b}, then {w:?}: {} positions", tail.len() + 1)) }
        Ok(())
    })?;

    // The same for documents, of every structure and of all features together
    let b = bounds.first().copied().unwrap_or(8192);
    let ends = |s: &str, st: &mut Stats| -> Res {
        let mut text = String::with_capacity(b + s.len());
        for k in 0..=s.len() {
            text.clear();
            text.push('#');
            text.extend(std::iter::repeat('x').take(b - k - 1));
            text.push('\n');
            text.push_str(s);
            for l in if s.len() < 200 { vec![k % 2 == 1] } else { vec![false, true] } {
                let e = run_str(&text, l);
                same(&e, &owned(text.as_bytes(), &[ALL], l), st).map_err(|e| format!("behind a comment, the chunk ends at byte {b} (about {k} bytes into it), lazy {l}: {e}"))?;
            }
        }
        Ok(())
    };
    each(SEEDS.len() as u64, st, |i, st| {
        let s = SEEDS[i as usize];
        on(&format!("{s:?} with chunks which end inside"));
        case(s, "document", ends(s, st))
    })?;
    trees::each_tree(t.pick(&[(2, 1), (1, 2)], &[(3, 1), (2, 2)]), st, |s, _, st| ends(s, st))?;

    // Tokens longer than any number of chunks, and streams of them
    let b = bounds.first().copied().unwrap_or(8192);
    let long = long_tokens();
    // The position of every byte of three repetitions against the chunks
    let shifts = t.pick(32, 64);
    let sizes: Vec<usize> = t.pick(vec![b, 3 * b, 8 * b], vec![b, 2 * b, 3 * b, 5 * b, 9 * b, 20 * b]);
    let n = long.len() * shifts * sizes.len();
    each(n as u64, st, |i, st| {
        let i = i as usize;
        let (what, pre, body, post) = &long[i / (shifts * sizes.len())];
        let (shift, size) = (i / sizes.len() % shifts, sizes[i % sizes.len()]);
        let s = format!("#{}\n{pre}{}{post}", "x".repeat(shift), body.repeat(size / body.len() + 1));
        on(&format!("{what}, {} bytes, shifted by {shift}", s.len()));
        st.add("inputs", 1);
        let l = shift % 2 == 1;
        let e = run_str(&s, l);
        st.see("outcomes", hash_from(0, &(e.evs.len(), size, i)));
        case(&s, format!("{what} of {size} bytes, shifted by {shift}, lazy {l}"), same(&e, &owned(s.as_bytes(), &[ALL], l), st))?;
        let short = [Answer::Give(shift * 37 + 1)];
        case(&s, format!("{what} of {size} bytes, {short:?}"), same(&e, &owned(s.as_bytes(), &short, l), st))
    })
}

/// Long tokens and streams: what comes first, what is repeated, what comes last
fn long_tokens() -> Vec<(&'static str, String, String, String)> {
    vec![
        ("plain", "".into(), "abc ".into(), "".into()),
        ("plain lines", "- ".into(), "abc\n  ".into(), "z\n- b".into()),
        ("single", "'".into(), "ab''c ".into(), "'".into()),
        ("single lines", "{a: '".into(), "é\n\n c".into(), "', b: c}".into()),
        ("double", "\"".into(), "a\\n b\\u0041".into(), "\"".into()),
        ("double lines", "? \"".into(), "a\\\n  b\n\n c".into(), "\"\n: b".into()),
        ("literal", "|\n".into(), " ab\n".into(), "".into()),
        ("literal, kept", "k: |+\n".into(), "  é\n\n".into(), "j: x".into()),
        ("folded", "- >\n".into(), "  a\n  b\n\n   c\n".into(), "- b".into()),
        ("explicit", "- |2-\n".into(), "   a\n".into(), "- b".into()),
        ("blank block", "|+\n".into(), "\n".into(), " x".into()),
        ("comment", "#".into(), " c".into(), "\na: b".into()),
        ("blanks", "a:".into(), " ".into(), "b".into()),
        ("blank lines", "a:".into(), "\n".into(), " b".into()),
        ("anchor", "&".into(), "ab".into(), " x".into()),
        ("tag", "!".into(), "a%41".into(), " x".into()),
        ("prefix", "%TAG !e! ".into(), "xy".into(), "\n--- !e!t a".into()),
        ("flow", "[".into(), "a, ".into(), "]".into()),
        ("flow map", "{".into(), "\"é\": b,\n".into(), "}".into()),
        ("flow key", "{".into(), "[a".into(), "".into()),
        ("entries", "".into(), "- a\n".into(), "".into()),
        ("entries of maps", "".into(), "- a: b\n  c: |\n   d\n".into(), "".into()),
        ("pairs", "".into(), "k: v\n".into(), "".into()),
        ("documents", "".into(), "---\na\n...\n".into(), "".into()),
        ("directives", "".into(), "%YAML 1.1\n--- !!t a\n...\n".into(), "".into()),
        ("unfinished quote", "\"".into(), "a".into(), "".into()),
        ("bad escape", "\"".into(), "a".into(), "\\q\"".into()),
        ("bad ending", "- a\n".into(), "- b\n".into(), "]".into()),
    ]
}

// ---------------------------------------------------------------- faults

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::InvalidData, ErrorKind::PermissionDenied, ErrorKind::InvalidInput, ErrorKind::NotFound, ErrorKind::BrokenPipe, ErrorKind::ConnectionAborted, ErrorKind::ConnectionRefused, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::AlreadyExists, ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::OutOfMemory,
];

/// Pull everything; the last error converted to an io::Error, if there was one
fn pull_io(r: &OwnedReader, lazy: bool, len: usize) -> Result<(Trace, Option<(ErrorKind, String)>), String> {
    guarded(|| {
        let mut t = Trace { evs: vec![], end: End::Done };
        let mut io = None;
        let mut it = Events::new(r, flags(lazy)).into_iter();
        for e in &mut it {
            match e {
                Ok(e) => t.evs.push(render(&e)),
                Err(e) => {
                    t.end = End::Err(err_of(&e));
                    let e: std::io::Error = e.into();
                    io = Some((e.kind(), e.to_string()));
                    break;
                }
            }
            if t.evs.len() > cap(len) {
                t.end = End::Runaway;
                break;
            }
        }
        for k in 0..3 {
            if it.next().is_some() { return Err(format!("the stream continues after its end (+{k})")) }
        }
        Ok((t, io))
    })
    .map_err(|p| format!("panic: {p}"))?
}

fn faulty(data: &[u8], answers: &[Answer], lazy: bool, clean: &Trace, st: &mut Stats) -> Res {
    let (r, seen) = source(data, answers);
    st.add("executions", 1);
    let (t, io) = pull_io(&r, lazy, data.len())?;
    if t.evs.len() > clean.evs.len() || t.evs[..] != clean.evs[..t.evs.len()] {
        return Err(differ("events delivered before the fault", clean, &t));
    }
    if !seen.failed.get() {
        st.add("not reached", 1);
        return if *clean == t { Ok(()) } else { Err(differ("no fault was reached, yet", clean, &t)) };
    }
    st.add("faults", 1);
    // What the same source delivers before it is asked for the answer that failed here
    let at = answers.iter().position(|a| a.error().is_some()).unwrap();
    let mut healthy = answers[..at].to_vec();
    healthy.push(ALL);
    let (r, seen) = source(data, &healthy);
    let due = guarded(|| Events::new(&r, flags(lazy)).into_iter().take_while(|e| e.is_ok() && seen.calls.get() <= at).count()).map_err(|p| format!("panic: {p}"))?;
    if t.evs.len() < due { return Err(format!("the source failed, and only {} of the {due} events which were complete by then were delivered", t.evs.len())) }
    let fault = answers[at].error().unwrap();
    let kind = fault.kind();
    match (&t.end, io) {
        (End::Err(e), Some((k, m))) if e.cat == Cat::IO => {
            st.see("outcomes", hash_from(t.evs.len() as u64, &(format!("{k:?}"), at, data.len(), data.iter().take(40).map(|b| *b as u64).sum::<u64>())));
            if k != kind || !m.contains(&fault.to_string()) { return Err(format!("the fault {fault:?} became {k:?}: {m}")) }
            Ok(())
        }
        // An error in what had been read takes precedence
        (End::Err(_), _) if t.end == clean.end => Ok(()),
        (e, _) => Err(format!("the source failed ({kind:?}), but the stream ended with {e:?}, after {} events", t.evs.len())),
    }
}

pub fn faults(t: Tier, st: &mut Stats) -> V {
    // Every sequence of answers of a source, for every small text
    let menu = [Answer::Give(1), Answer::Give(2), ALL, Answer::Interrupt, Answer::Fail(ErrorKind::Other)];
    let depth = t.pick(6, 7) as u32;
    let mut scripts: Vec<Vec<Answer>> = vec![vec![]];
    for len in 1..=depth {
        for i in 0..(menu.len() as u64).pow(len) {
            let s: Vec<Answer> = (0..len).map(|k| menu[(i / (menu.len() as u64).pow(k) % menu.len() as u64) as usize]).collect();
            // Nothing happens after the fault
            if s[..s.len() - 1].iter().all(|a| !matches!(a, Answer::Fail(_))) { scripts.push(s) }
        }
    }
    let space = Space::new("answers", &["a", ": ", "- ", "\n", "[", "\"", "é", "]", "|", "---\n", "'"], t.pick(3, 4));
    explore(&[space], st, |s, st| {
        let clean = [run_str(s, false), run_str(s, true)];
        for sc in &scripts {
            let mut a = sc.clone();
            if !matches!(a.last(), Some(Answer::Fail(_))) { a.push(ALL) }
            let lazy = sc.len() % 2 == 1;
            faulty(s.as_bytes(), &a, lazy, &clean[lazy as usize], st).map_err(|e| format!("answers {a:?}, lazy {lazy}: {e}"))?;
        }
        if s.len() > 3 { st.sample(|| format!("{s:?} x {} answer sequences", scripts.len())) }
        Ok(())
    })?;

    // Every kind of failure, after every number of bytes
    let texts = [
        "a: [b, 'c d']\n- ", "- \"é\\n😀\"\n- |\n  x\n", "%YAML 1.1\n--- !!t &a x\n...\n", "? a\n: *b\n# c\n", "k: >-\n  a\n  b\n\nj: ''\n", "]", "\"\\q\"", "", "\n", "a", "a\n...\n",
    ];
    let mut fails: Vec<Answer> = KINDS.iter().flat_map(|k| [Answer::Fail(*k), Answer::Bare(*k)]).collect();
    // Every error an operating system has, but the one which means to try again
    fails.extend((1..134).filter(|n| Answer::Os(*n).error().unwrap().kind() != ErrorKind::Interrupted).map(Answer::Os));
    each((texts.len() * fails.len()) as u64, st, |i, st| {
        let (s, f) = (texts[i as usize / fails.len()], fails[i as usize % fails.len()]);
        on(s);
        for lazy in [false, true] {
            let clean = run_str(s, lazy);
            for at in 0..=s.len() {
                let mut a = vec![ONE; at];
                a.push(f);
                st.add("inputs", 1);
                case(s, format!("{f:?} after {at} bytes, lazy {lazy}"), faulty(s.as_bytes(), &a, lazy, &clean, st))?;
            }
        }
        Ok(())
    })?;
    // Small documents of every kind, each of which fails everywhere, also after many interruptions
    trees::each_tree(t.pick(&[(4, 0), (2, 1)], &[(5, 0), (3, 1), (1, 2)]), st, |s, _, st| {
        let clean = [run_str(s, false), run_str(s, true)];
        for at in 0..=s.len() {
            for (k, lazy) in [(Answer::Fail(ErrorKind::Other), false), (Answer::Bare(ErrorKind::UnexpectedEof), true)] {
                let mut a = vec![Answer::Give(at)];
                if at == 0 { a.clear() }
                if at % 3 == 0 { a.extend([Answer::Interrupt; 40]) }
                a.push(k);
                faulty(s.as_bytes(), &a, lazy, &clean[lazy as usize], st).map_err(|e| format!("answers {a:?}, lazy {lazy}: {e}"))?;
            }
        }
        Ok(())
    })?;

    // Failures in later chunks: after every few bytes of several chunks, and
    // after every byte around the ends of chunks
    let b = boundaries();
    let total = b.get(t.pick(1, 2)).copied().unwrap_or(70_000) + 4_000;
    let units = ["- a\n", "- \"é\" # c\n", "--- {a: b}\n...\n", "k:\n  - |\n   x\n", "- 'a\n  b'\n", "? &a !t b\n: *c\n", "[😀, \"\\x41\"]: x\n"];
    let step = t.pick(97, 13);
    let mut points: Vec<usize> = (0..total).step_by(step).collect();
    points.extend(b.iter().flat_map(|b| b.saturating_sub(t.pick(12, 40))..b + t.pick(12, 40)).filter(|x| *x < total));
    let many = units.len() * points.len();
    each(many as u64, st, |i, st| {
        let (u, at) = (units[i as usize % units.len()], points[i as usize / units.len()]);
        let s = u.repeat(total / u.len() + 1);
        let kind = KINDS[i as usize % KINDS.len()];
        on(&format!("{u:?} repeated, {kind:?} after {at} bytes"));
        st.add("inputs", 1);
        let lazy = i / 2 % 2 == 1;
        let clean = run_str(&s, lazy);
        // Hand out exactly `at` bytes, in pieces, then fail
        let mut a = vec![Answer::Give(61); at / 61];
        a.push(Answer::Give(at % 61));
        a.retain(|a| *a != Answer::Give(0));
        if i % 3 == 0 { a.push(Answer::Interrupt) }
        a.push(Answer::Fail(kind));
        case(&s, format!("{kind:?} after {at} bytes"), faulty(s.as_bytes(), &a, lazy, &clean, st))
    })?;
    // A token of several chunks, and failures in each of them
    let longs = [("'", "a b ", "'"), ("|\n", " é\n", ""), ("#", "c", "\nx"), ("- a\n- \"", "\\n", "\"\n- b"), ("&", "abc", " x"), ("", "\n", "x")];
    each((longs.len() * points.len()) as u64, st, |i, st| {
        let ((pre, body, post), at) = (longs[i as usize % longs.len()], points[i as usize / longs.len()]);
        let s = format!("{pre}{}{post}", body.repeat(total / body.len() + 1));
        let kind = KINDS[i as usize % KINDS.len()];
        on(&format!("{pre:?} {body:?} repeated {post:?}, {kind:?} after {at} bytes"));
        st.add("inputs", 1);
        let lazy = i / 2 % 2 == 1;
        let clean = run_str(&s, lazy);
        let mut a = vec![Answer::Give(1021); at / 1021];
        a.push(Answer::Give(at % 1021));
        a.retain(|a| *a != Answer::Give(0));
        a.push(Answer::Fail(kind));
        case(&s, format!("{kind:?} after {at} bytes"), faulty(s.as_bytes(), &a, lazy, &clean, st))
    })
}

/// Ill formed UTF-8 anywhere in a stream of bytes
pub fn bytes(t: Tier, st: &mut Stats) -> V {
    // Every short sequence of bytes
    let edge: Vec<u8> = (0..=255u8).collect();
    let few: Vec<u8> = vec![0x00, 0x0a, 0x20, 0x22, 0x2d, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xff];
    let sets = [(edge, t.pick(2, 3)), (few, t.pick(4, 5))];
    for (set, deep) in &sets {
        for len in 0..=*deep {
            each((set.len() as u64).pow(len), st, |mut i, st| {
                let mut b = vec![];
                for _ in 0..len {
                    b.push(set[(i % set.len() as u64) as usize]);
                    i /= set.len() as u64;
                }
                on(&format!("bytes {b:02x?}"));
                st.add("inputs", 1);
                one_bytes(&b, st, true).map_err(|what| Violation { input: format!("bytes {b:02x?}"), what })
            })?;
        }
    }
    // Every single corruption of realistic texts, also around the ends of chunks
    let bad: [&[u8]; 12] = [&[0x80], &[0xbf], &[0xc0, 0x80], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0x98], &[0xf4, 0x90, 0x80, 0x80], &[0xf5], &[0xff], &[0xfe, 0xff], &[0xe0, 0x80, 0x80]];
    let texts = ["a: [b, 'c é']\n- \"😀\"\n", "--- |\n é\n... # ü\n%TAG ! é\n--- &a *a !<é> \u{2028}x"];
    let b = boundaries();
    let mut cases: Vec<(usize, &str, usize, &[u8])> = vec![];
    for s in texts {
        for at in 0..=s.len() {
            for x in bad {
                cases.push((0, s, at, x));
            }
        }
    }
    for bound in b.iter().take(t.pick(3, 4)) {
        for x in bad {
            for k in 0..=x.len() + 1 {
                for s in ["\n", "\"", " a\n"] {
                    cases.push((bound.saturating_sub(k), s, 0, x));
                    cases.push((bound.saturating_sub(k), s, s.len(), x));
                }
            }
        }
    }
    each(cases.len() as u64, st, |i, st| {
        let (pad, s, at, x) = cases[i as usize];
        let mut v = vec![];
        if pad > 0 {
            v.push(b'#');
            v.resize(pad.max(1), b'x');
        }
        v.extend_from_slice(&s.as_bytes()[..at]);
        v.extend_from_slice(x);
        v.extend_from_slice(&s.as_bytes()[at..]);
        let name = format!("{pad} bytes of comment, then {s:?} with {x:02x?} at {at}");
        on(&name);
        st.add("inputs", 1);
        one_bytes(&v, st, false).map_err(|what| Violation { input: name, what })
    })?;
    bytes_long(t, st)
}

/// Corruptions all over texts of several chunks
fn bytes_long(t: Tier, st: &mut Stats) -> V {
    let b = boundaries();
    let total = b.get(1).copied().unwrap_or(24_000) + 3_000;
    let mut points: Vec<usize> = (0..total).step_by(t.pick(97, 11)).collect();
    points.extend(b.iter().flat_map(|b| b.saturating_sub(6)..b + 6).filter(|x| *x < total));
    let bad: [&[u8]; 6] = [&[0x80], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0x98], &[0xff]];
    let units = ["- a\n", "- \"é\" # ü\n", "--- {a: 'b'}\n...\n", "k:\n  - |\n   x\n", "#\n"];
    each((units.len() * bad.len() * points.len()) as u64, st, |i, st| {
        let i = i as usize;
        let (u, x, at) = (units[i % units.len()], bad[i / units.len() % bad.len()], points[i / units.len() / bad.len()]);
        let s = u.repeat(total / u.len() + 1);
        let v = [&s.as_bytes()[..at], x, &s.as_bytes()[at..]].concat();
        let name = format!("{u:?} repeated, with {x:02x?} at {at}");
        on(&name);
        st.add("inputs", 1);
        one_bytes(&v, st, i % 2 == 1).map_err(|what| Violation { input: name, what })
    })
}

fn one_bytes(b: &[u8], st: &mut Stats, small: bool) -> Res {
    let valid = std::str::from_utf8(b);
    st.add("executions", 2);
    let r = guarded(|| try_from_bytes(b)).map_err(|p| format!("panic: {p}"))?;
    match (&r, valid) {
        (Err(e), Err(_)) => {
            let cat: Cat = e.classify().into();
            if cat != Cat::Data { return Err(format!("ill formed UTF-8 is reported as {cat:?}: {e}")) }
        }
        (Err(e), Ok(_)) => return Err(format!("valid UTF-8 was refused: {e}")),
        (Ok(_), Err(_)) => return Err("ill formed UTF-8 was taken for text".into()),
        (Ok(r), Ok(s)) => {
            let (a, b) = (run_reader(r, false, s.len()), run_str(s, false));
            if a != b { return Err(differ("from bytes and from text", &a, &b)) }
        }
    }
    for answers in if small { vec![vec![ALL], vec![ONE]] } else { vec![vec![ALL], vec![ONE], vec![Answer::Give(3)]] } {
        let (src, _) = source(b, &answers);
        let lazy = answers != [ALL];
        let (t, io) = pull_io(&src, lazy, b.len())?;
        match valid {
            Ok(s) => {
                let e = run_str(s, lazy);
                if e != t { return Err(differ("borrowed and owned", &e, &t)) }
            }
            Err(u) => {
                // What precedes the corruption may be delivered, nothing else
                let good = run_str(std::str::from_utf8(&b[..u.valid_up_to()]).unwrap(), lazy);
                let n = t.evs.len();
                let same = t.evs.iter().zip(&good.evs).take_while(|(a, b)| a == b).count();
                let End::Err(e) = &t.end else { return Err(format!("a stream with ill formed UTF-8 was read to its end: {}", show(&t))) };
                let first = matches!(good.end, End::Err(_)) && good.end == t.end;
                if e.cat == Cat::IO || (e.cat != Cat::Data && !first) { return Err(format!("ill formed UTF-8 is reported as {e:?}")) }
                if e.cat == Cat::Data && io.as_ref().map(|x| x.0) != Some(ErrorKind::InvalidData) { return Err(format!("converted to {io:?}")) }
                // Events after the last common one could only come from the ill formed text
                if same + 1 < n && n > 3 { return Err(format!("events from ill formed text: {}", show(&t))) }
                st.add("faults", 1);
            }
        }
        st.see("outcomes", hash_from(0, &(t.plain(), b.len())));
    }
    if valid.is_err() { st.sample(|| format!("{:02x?}", &b[b.len().saturating_sub(12)..])) }
    Ok(())
}

// ---------------------------------------------------------------- lifetimes

/// Hold all events until the very end, and look at them then
fn held<R: Read>(r: &R, lazy: bool, len: usize, st: &mut Stats) -> Res {
    guarded(|| {
        let mut events: Vec<Event<'_>> = vec![];
        let mut at_once = vec![];
        let mut it = Events::new(r, flags(lazy)).into_iter();
        for e in &mut it {
            let Ok(e) = e else { break };
            at_once.push(render(&e));
            events.push(e);
            if events.len() > cap(len) { return Err("runaway".to_string()) }
        }
        let clones = events.clone();
        drop(it);
        // Give the allocator every chance to reuse what was freed
        let churn: Vec<Vec<u8>> = (0..4).map(|k| vec![alloc::BYTE ^ 0xff; 64 << (3 * k)]).collect();
        for (set, name) in [(events, "event"), (clones, "cloned event")] {
            for (n, (e, was)) in set.iter().zip(&at_once).enumerate() {
                let now = render(e);
                if now != *was { return Err(format!("{name} {n} was {was:?}, and became {now:?}")) }
            }
        }
        st.add("executions", 1);
        st.add("events held", at_once.len() as u64);
        st.see("outcomes", hash_from(0, &at_once.iter().map(|e| e.ev.clone()).collect::<Vec<_>>()));
        drop(churn);
        Ok(())
    })
    .map_err(|p| format!("panic: {p}"))?
}

pub fn lifetimes(t: Tier, st: &mut Stats) -> V {
    explore(&mixed(t, 4, 5), st, |s, st| {
        for lazy in [false, true] {
            held(&from_utf8(s), lazy, s.len(), st)?;
            held(&source(s.as_bytes(), &[ALL]).0, lazy, s.len(), st)?;
        }
        if s.len() > 6 { st.sample(|| format!("{s:?}")) }
        Ok(())
    })?;
    // Across the ends of chunks
    let b = boundaries();
    let bound = b.first().copied().unwrap_or(8192);
    let bounds: Vec<usize> = if b.is_empty() { vec![8192] } else { b.iter().copied().take(t.pick(2, 4)).collect() };
    let space = Space::new("held across chunks", &["a", ": ", "- ", "\n", "é ", "[", "]", "\"b\"", "'c", "|\n d\n", "&x ", "*x", "!t ", "--- "], t.pick(2, 3));
    let ws = words(&space);
    let fill = fillers();
    each((ws.len() * fill.len()) as u64, st, |i, st| {
        let (w, (what, pre, post)) = (&ws[i as usize / fill.len()], &fill[i as usize % fill.len()]);
        on(&format!("{what}, then {w:?}"));
        st.add("inputs", 1);
        let tail = format!("{post}{w}");
        for k in 0..=tail.len() {
            let c = if *what == "blank lines" { "\n" } else { "x" };
            let bound = bounds[(k / 2 + i as usize) % bounds.len()];
            let s = format!("{pre}{}{tail}", c.repeat(bound.saturating_sub(k + pre.len())));
            for lazy in [false, true] {
                case(&s, format!("{what}, then {w:?}, chunk at {bound} ends after {k} bytes, lazy {lazy}"), held(&source(s.as_bytes(), &[ALL]).0, lazy, s.len(), st))?;
            }
        }
        Ok(())
    })?;
    // Many chunks
    let units = ["- abc\n", "- \"x\\n\" # c\n", "k: &a !t 'v w'\n", "- |\n  text\n  more\n", "--- [a, *b, {c: d}]\n...\n", "- a\n  b\n", "%TAG !e! x\n--- !e!y z\n...\n", "? é : x\n"];
    let times = t.pick(1, 4);
    each((units.len() * 16 * times) as u64, st, |i, st| {
        let i = i as usize;
        let u = units[i % units.len()];
        let (lazy, shift) = (i / units.len() % 2 == 1, i / units.len());
        let s = format!("#{}\n{}", "x".repeat(shift), u.repeat(bound * 12 / u.len()));
        on(&format!("{u:?} many times, shifted by {shift}"));
        st.add("inputs", 1);
        case(&s, format!("{u:?} x {}, shifted by {shift}, lazy {lazy}", bound * 12 / u.len()), held(&source(s.as_bytes(), &[ALL]).0, lazy, s.len(), st))
    })?;
    // So many that whatever is bounded runs over
    each((units.len() * 2) as u64, st, |i, st| {
        let (u, lazy) = (units[i as usize / 2], i % 2 == 1);
        let s = u.repeat(t.pick(1 << 21, 1 << 24) / u.len());
        on(&format!("{u:?} for {} bytes", s.len()));
        st.add("inputs", 1);
        let short: String = s.chars().take(100).collect();
        case(&short, format!("{u:?} for {} bytes, lazy {lazy}", s.len()), held(&source(s.as_bytes(), &[ALL]).0, lazy, s.len(), st))
    })?;
    // A hundred chunks
    each(2, st, |i, st| {
        let u = format!("- &a !b 'c'\n- |\n  d\n#{}\n", "x".repeat(if i == 0 { 500 } else { 5000 }));
        let n = t.pick(1 << 26, 1 << 28);
        on(&format!("{n} bytes with long comments"));
        st.add("inputs", 1);
        let s = u.repeat(n / u.len());
        case(&u, format!("{} times, lazy {}", n / u.len(), i == 1), held(&source(s.as_bytes(), &[ALL]).0, i == 1, s.len(), st))
    })?;
    // Texts of every kind
    anywhere(t, t.pick(2, 1), st, |s, st| {
        for lazy in [false, true] { held(&source(s.as_bytes(), &[ALL]).0, lazy, s.len(), st)? }
        Ok(())
    })
}

// ---------------------------------------------------------------- consumers

/// How the next event is asked for
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask {
    /// By a fresh borrowing iterator
    Iter,
    /// By a fresh owning iterator, turned back into its stream
    Into,
    /// By a borrowing iterator made by hand
    Ref,
}

enum Item<'a> {
    Ev(MarkedEv, std::marker::PhantomData<&'a ()>),
    Err(Err),
    None,
}

fn ask<'de, R: Read>(ev: Events<'de, R>, how: Ask) -> (Events<'de, R>, Item<'de>) {
    let mut ev = ev;
    let item = match how {
        Ask::Iter => ev.iter().next(),
        Ask::Ref => EventIterRef::new(&mut ev).next(),
        Ask::Into => {
            let mut it = EventIter::new(ev);
            let x = it.next();
            ev = it.into_inner();
            x
        }
    };
    let item = match item {
        None => Item::None,
        Some(Ok(e)) => Item::Ev(render(&e), std::marker::PhantomData),
        Some(Err(e)) => Item::Err(err_of(&e)),
    };
    (ev, item)
}

fn asked<R: Read>(r: &R, lazy: bool, asks: &[Ask], len: usize) -> Result<Trace, String> {
    guarded(|| {
        let mut ev = Events::new(r, flags(lazy));
        let mut t = Trace { evs: vec![], end: End::Done };
        let mut n = 0;
        loop {
            let (e, item) = ask(ev, asks[n % asks.len()]);
            ev = e;
            n += 1;
            match item {
                Item::Ev(m, _) => t.evs.push(m),
                Item::Err(e) => {
                    t.end = End::Err(e);
                    break;
                }
                Item::None => break,
            }
            if n > cap(len) {
                t.end = End::Runaway;
                break;
            }
        }
        for k in 0..4 {
            let (e, item) = ask(ev, asks[(n + k) % asks.len()]);
            ev = e;
            if !matches!(item, Item::None) { return Err(format!("the stream continues after its end ({asks:?})")) }
        }
        Ok(t)
    })
    .map_err(|p| format!("panic: {p}"))?
}

pub fn consumers(t: Tier, st: &mut Stats) -> V {
    // Every pattern of asking
    let menu = [Ask::Iter, Ask::Into, Ask::Ref];
    let depth = t.pick(5, 6);
    let mut patterns: Vec<Vec<Ask>> = vec![];
    for i in 0..3usize.pow(depth) {
        patterns.push((0..depth).map(|k| menu[i / 3usize.pow(k) % 3]).collect());
    }
    explore(&mixed(t, 3, 4), st, |s, st| {
        for lazy in [false, true] {
            let want = run_str(s, lazy);
            // The convenient ways in
            let r = from_utf8(s);
            let got = guarded(|| {
                let ev = match lazy {
                    false => yary::event::from_reader(&r),
                    true => yary::event::from_reader_with(&r, flags(true)),
                };
                gather(ev, s.len())
            })
            .map_err(|p| format!("panic: {p}"))?;
            if got != want { return Err(differ("from_reader", &want, &got)) }
            st.see("outcomes", hash_from(0, &want.plain()));
            for p in &patterns {
                st.add("executions", 2);
                let r = from_utf8(s);
                let got = asked(&r, lazy, p, s.len())?;
                if got != want { return Err(differ(&format!("asked by {p:?} (lazy {lazy})"), &want, &got)) }
                let (r, _) = source(s.as_bytes(), &[Answer::Give(2)]);
                let got = asked(&r, lazy, p, s.len())?;
                if got != want { return Err(differ(&format!("owned, asked by {p:?} (lazy {lazy})"), &want, &got)) }
            }
        }
        if s.len() > 3 { st.sample(|| format!("{s:?} x {} patterns", patterns.len())) }
        Ok(())
    })?;
    // Every point at which the way of asking changes, with for loops in between
    explore(&mixed(t, 4, 5), st, |s, st| {
        let want = run_str(s, false);
        for lazy in [false, true] {
            let w = if lazy { run_str(s, true) } else { want.clone() };
            st.add("executions", 1);
            adapters(s, lazy, &w).map_err(|e| format!("{e} (lazy {lazy})"))?;
        }
        let total = want.evs.len() + 2;
        for k in 0..total {
            st.add("executions", 2);
            for owned in [false, true] {
                let got = if owned { halves(&source(s.as_bytes(), &[ONE]).0, k, s.len()) } else { halves(&from_utf8(s), k, s.len()) }?;
                if got != want { return Err(differ(&format!("resumed after {k} events (owned {owned})"), &want, &got)) }
            }
        }
        Ok(())
    })?;
    // Every schedule of two streams over one source
    let texts = words(&Space::new("shared sources", &["a", ": b\n", "- ", "[", "]", "\"\\n\"", "\"\\q", "|\n x\n"], t.pick(3, 4)));
    each(texts.len() as u64, st, |i, st| {
        let s = &texts[i as usize];
        on(s);
        st.add("inputs", 1);
        let want = [run_str(s, false), run_str(s, true)];
        let n = [want[0].evs.len() + 1, want[1].evs.len() + 1];
        let deep = (n[0] + n[1]).min(t.pick(14, 18));
        // A bit per step says which of the two moves
        for mask in 0u32..1 << deep {
            let ones = mask.count_ones() as usize;
            if ones > n[1] || deep - ones > n[0] { continue }
            st.add("schedules", 1);
            case(s, format!("schedule {mask:0deep$b} of an eager and a lazy stream"), two(s, mask, deep, &want))?;
        }
        Ok(())
    })?;
    // Every schedule of three streams
    let texts = words(&Space::new("shared by three", &["a", ": b\n", "- ", "[", "\"\\n\"", "|\n x\n"], t.pick(3, 4)));
    each(texts.len() as u64, st, |i, st| {
        let s = &texts[i as usize];
        on(s);
        st.add("inputs", 1);
        let want = [run_str(s, false), run_str(s, true), run_str(s, false)];
        let deep = t.pick(8u32, 10);
        for mut mask in 0..3u32.pow(deep) {
            let all = mask;
            st.add("schedules", 1);
            let r = from_utf8(s);
            let other = r.clone();
            let res = guarded(|| -> Res {
                let mut its = [Events::new(&r, flags(false)).into_iter(), Events::new(&r, flags(true)).into_iter(), Events::new(&other, flags(false)).into_iter()];
                let mut at = [0; 3];
                for _ in 0..deep {
                    let who = (mask % 3) as usize;
                    mask /= 3;
                    let w = &want[who];
                    let got = its[who].next();
                    let ok = match (&got, w.evs.get(at[who])) {
                        (Some(Ok(e)), Some(x)) => render(e) == *x,
                        (Some(Err(e)), None) => at[who] == w.evs.len() && End::Err(err_of(e)) == w.end,
                        (None, None) => at[who] > w.evs.len() || w.end == End::Done,
                        _ => false,
                    };
                    at[who] += 1;
                    if !ok { return Err(format!("stream {who} of three got {got:?} as its item {}", at[who] - 1)) }
                }
                Ok(())
            });
            case(s, format!("schedule {all} of three streams"), res.unwrap_or_else(|p| Err(format!("panic: {p}"))))?;
        }
        Ok(())
    })?;
    // Texts of several chunks: the way of asking changes, a second stream is
    // tried, or the stream is left, at every few events
    let b = boundaries();
    let total = b.get(1).copied().unwrap_or(24_000) + 3_000;
    let units = ["- a\n", "k: 'v'\n", "--- \"\\x41\"\n...\n", "- |\n é\n"];
    let step = t.pick(211, 23);
    each((units.len() * total / step) as u64, st, |i, st| {
        let (u, k) = (units[i as usize % units.len()], i as usize / units.len() * step);
        let s = u.repeat(total / u.len() + 1);
        on(&format!("{u:?} repeated, at event {k}"));
        st.add("inputs", 1);
        let want = run_str(&s, false);
        if k > want.evs.len() { return Ok(()) }
        let short: String = s.chars().take(60).collect();
        let how = format!("{u:?} for {total} bytes, at event {k}");
        st.add("executions", 3);
        for owned in [false, true] {
            let got = if owned { halves(&source(s.as_bytes(), &[ALL]).0, k, s.len()) } else { halves(&from_utf8(&s), k, s.len()) };
            let got = case(&short, &how, got)?;
            if got != want { return case(&short, &how, Err(differ("resumed", &want, &got))) }
        }
        let got = case(&short, &how, refused(&s, k.max(1)))?;
        if got != want { return case(&short, &how, Err(differ("a second stream was tried", &want, &got))) }
        Ok(())
    })?;
    // A source which can be read only once says so, and keeps serving its first stream
    explore(&mixed(t, 3, 4), st, |s, st| {
        let want = run_str(s, false);
        for k in 1..=want.evs.len() + 1 {
            st.add("executions", 1);
            let got = refused(s, k)?;
            if got != want { return Err(differ(&format!("a second stream was tried after {k} events"), &want, &got)) }
        }
        Ok(())
    })?;
    // Stopping early leaves what was delivered alone
    explore(&mixed(t, 4, 5), st, |s, st| {
        let want = run_str(s, false);
        for k in 0..=want.evs.len() {
            st.add("executions", 1);
            let (r, seen) = source(s.as_bytes(), &[ALL]);
            let some: Vec<Event<'_>> = guarded(|| Events::new(&r, flags(false)).into_iter().take(k).filter_map(|e| e.ok()).collect()).map_err(|p| format!("panic: {p}"))?;
            let got: Vec<_> = some.iter().map(render).collect();
            if got[..] != want.evs[..got.len()] { return Err(format!("after stopping at {k} events: {got:?}")) }
            if seen.dropped.get() { return Err("the source was dropped while in use".into()) }
            drop(some);
            drop(r);
            if !seen.dropped.get() { return Err("the source was leaked".into()) }
        }
        Ok(())
    })
}

/// The first stream over a source, after a second one was tried once it delivered `k` items
fn refused(s: &str, k: usize) -> Result<Trace, String> {
    guarded(|| {
                let (r, _) = source(s.as_bytes(), &[ALL]);
                let mut a = Events::new(&r, flags(false)).into_iter();
                let mut t = Trace { evs: vec![], end: End::Runaway };
                let pull = |a: &mut EventIter<'_, OwnedReader>, t: &mut Trace| match a.next() {
                    Some(Ok(e)) => {
                        t.evs.push(render(&e));
                        true
                    }
                    Some(Err(e)) => {
                        t.end = End::Err(err_of(&e));
                        false
                    }
                    None => {
                        t.end = End::Done;
                        false
                    }
                };
                let mut live = true;
                for _ in 0..k { if live { live = pull(&mut a, &mut t) } }
                let mut b = Events::new(&r, flags(false)).into_iter();
                match b.next() {
                    Some(Err(e)) if Cat::from(e.classify()) == Cat::IO => {}
                    x => return Err(format!("a second stream over a drained source got {x:?}")),
                }
                if b.next().is_some() { return Err("the refused stream continues".into()) }
                while live { live = pull(&mut a, &mut t) }
                Ok(t)
            })
            .map_err(|p| format!("panic: {p}"))?
}

fn gather<R: Read>(ev: Events<'_, R>, len: usize) -> Trace {
    let mut t = Trace { evs: vec![], end: End::Done };
    for e in ev {
        match e {
            Ok(e) => t.evs.push(render(&e)),
            Err(e) => {
                t.end = End::Err(err_of(&e));
                break;
            }
        }
        if t.evs.len() > cap(len) {
            t.end = End::Runaway;
            break;
        }
    }
    t
}

/// What an iterator has to say of itself, and what the adapters of the standard
/// library make of it, must fit to its items
fn adapted<'de, I, F>(make: F, want: &Trace) -> Res
where
    I: Iterator<Item = Result<yary::event::types::Event<'de>, yary::Error>>,
    F: Fn() -> I,
{
    let item = |k: usize| match want.evs.get(k) {
        Some(e) => Some(Ok(e.clone())),
        None if k == want.evs.len() => match &want.end {
            End::Err(e) => Some(Err(e.clone())),
            _ => None,
        },
        None => None,
    };
    let total = want.evs.len() + usize::from(matches!(want.end, End::Err(_)));
    let plain = |x: Option<Result<yary::event::types::Event<'de>, yary::Error>>| match x {
        Some(Ok(e)) => Some(Ok(render(&e))),
        Some(Err(e)) => Some(Err(err_of(&e))),
        None => None,
    };
    let same = |how: &str, k: usize, got: Option<Result<MarkedEv, Err>>, want: Option<Result<MarkedEv, Err>>| match got == want {
        true => Ok(()),
        false => Err(format!("{how} {k} gives {got:?}, the items are {want:?}")),
    };
    let hint = |at: usize, (lo, hi): (usize, Option<usize>)| {
        let left = total.saturating_sub(at);
        match lo <= left && hi.map_or(true, |h| h >= left) {
            true => Ok(()),
            false => Err(format!("after {at} of {total} items size_hint claims {lo} to {hi:?}")),
        }
    };
    let mut it = make();
    for k in 0..total + 2 {
        hint(k, it.size_hint())?;
        same("item", k, plain(it.next()), item(k))?;
    }
    let n = make().count();
    if n != total { return Err(format!("count() is {n} of {total} items")) }
    same("last of", total, plain(make().last()), total.checked_sub(1).and_then(item))?;
    let n = make().collect::<Vec<_>>().len();
    if n != total { return Err(format!("collect() has {n} of {total} items")) }
    for k in 0..total + 1 {
        let mut it = make();
        same("nth", k, plain(it.nth(k)), item(k))?;
        hint(k + 1, it.size_hint())?;
        same("the one after nth", k, plain(it.next()), item(k + 1))?;
        let mut it = make().skip(k).peekable();
        let peeked = it.peek().is_some();
        same("skip", k, plain(it.next()), item(k))?;
        if peeked != item(k).is_some() { return Err(format!("peeking at {k} differs from taking it")) }
        let mut it = make();
        let n = it.by_ref().take(k).count();
        if n != k.min(total) { return Err(format!("take({k}) has {n} of {total} items")) }
        same("the one after taking", k, plain(it.next()), item(k))?;
    }
    for by in 1..4 {
        for (k, e) in make().step_by(by).enumerate() { same("every few, number", k, plain(Some(e)), item(k * by))? }
    }
    let mut it = make().fuse();
    for k in 0..total + 2 { same("fused", k, plain(it.next()), item(k))? }
    let n = make().zip(make()).filter(|(a, b)| a.is_ok() == b.is_ok()).count();
    if n != total { return Err(format!("two of the same zip to {n} of {total} items")) }
    Ok(())
}

fn adapters(s: &str, lazy: bool, want: &Trace) -> Res {
    let res = guarded(|| -> Res {
        let r = from_utf8(s);
        adapted(|| Events::new(&r, flags(lazy)).into_iter(), want)?;
        // Borrowing iterators: at every item a new one takes over
        let total = want.evs.len() + 2;
        for k in 0..total {
            let mut ev = Events::new(&r, flags(lazy));
            let first = ev.iter().nth(k).is_some();
            let left = ev.iter().size_hint();
            let rest = ev.iter().count();
            let n = want.evs.len() + usize::from(matches!(want.end, End::Err(_)));
            if first != (k < n) || rest != n.saturating_sub(k + 1) { return Err(format!("nth({k}) and count() of borrowing iterators: {first}, {rest} of {n} items")) }
            if left.0 > rest || left.1.map_or(false, |h| h < rest) { return Err(format!("size_hint {left:?} with {rest} items left")) }
            if ev.into_iter().next().is_some() { return Err("the stream continues after it was counted".into()) }
        }
        Ok(())
    });
    res.unwrap_or_else(|p| Err(format!("panic: {p}")))
}

fn halves<R: Read>(r: &R, k: usize, len: usize) -> Result<Trace, String> {
    guarded(|| {
        let mut t = Trace { evs: vec![], end: End::Done };
        let mut ev = Events::new(r, flags(false));
        for e in ev.iter().take(k) {
            match e {
                Ok(e) => t.evs.push(render(&e)),
                Err(e) => {
                    t.end = End::Err(err_of(&e));
                    if ev.into_iter().next().is_some() { return Err("the stream continues after an error".to_string()) }
                    return Ok(t);
                }
            }
        }
        for e in ev {
            match e {
                Ok(e) => t.evs.push(render(&e)),
                Err(e) => {
                    t.end = End::Err(err_of(&e));
                    break;
                }
            }
            if t.evs.len() > cap(len) { return Err("runaway".into()) }
        }
        Ok(t)
    })
    .map_err(|p| format!("panic: {p}"))?
}

fn two(s: &str, mask: u32, deep: usize, want: &[Trace; 2]) -> Res {
    guarded(|| {
        let r = from_utf8(s);
        let mut its = [Events::new(&r, flags(false)).into_iter(), Events::new(&r, flags(true)).into_iter()];
        let mut at = [0, 0];
        let mut step = |who: usize, its: &mut [EventIter<'_, _>; 2]| -> Res {
            let got = its[who].next();
            let w = &want[who];
            let ok = match (&got, w.evs.get(at[who])) {
                (Some(Ok(e)), Some(x)) => render(e) == *x,
                (Some(Err(e)), None) => at[who] == w.evs.len() && End::Err(err_of(e)) == w.end,
                (None, None) => at[who] > w.evs.len() || w.end == End::Done,
                _ => false,
            };
            at[who] += 1;
            if ok { Ok(()) } else { Err(format!("stream {who} got {got:?} as its item {}, alone it gets {:?}", at[who] - 1, w.evs.get(at[who] - 1))) }
        };
        for k in 0..deep { step((mask >> k & 1) as usize, &mut its)? }
        for who in [0, 1] {
            for _ in 0..want[who].evs.len() + 2 { step(who, &mut its)? }
        }
        Ok(())
    })
    .map_err(|p| format!("panic: {p}"))?
}

// ---------------------------------------------------------------- code points

fn scalar_values(f: impl Fn(char, &mut Stats) -> Result<(), Violation> + Sync, st: &mut Stats) -> V {
    each(0x110000, st, |i, st| match char::from_u32(i as u32) {
        Some(c) => f(c, st),
        None => Ok(()),
    })
}

/// Inputs of every kind: words of all alphabets, repetitions, edits of
/// documents, code points, and texts of several chunks
pub fn anywhere(t: Tier, by: u32, st: &mut Stats, f: impl Fn(&str, &mut Stats) -> Res + Sync) -> V {
    explore(&all_models(t, by), st, &f)?;
    pumps::pump(&pumps::everything(), t, st, &f)?;
    for s in SEEDS {
        let mut all: Vec<String> = edits_of(s).into_iter().map(|e| edited(s, e)).collect();
        all.extend((0..=s.len()).filter(|i| s.is_char_boundary(*i)).flat_map(|i| [s[..i].to_string(), s[i..].to_string()]));
        each(all.len() as u64, st, |i, st| {
            let x = &all[i as usize];
            on(x);
            st.add("inputs", 1);
            case(x, "edited document", f(x, st))
        })?;
    }
    scalar_values(
        |c, st| {
            for s in [format!("{c}"), format!("- a{c}b\n- '{c}'\n- \"{c}\\n\"\n- |\n {c}\n"), format!("&a{c} !b{c} \"\\{c}"), format!("[*{c}, {c}: %{c}")] {
                on(&s);
                st.add("inputs", 1);
                case(&s, format!("U+{:04X}", c as u32), f(&s, st))?;
            }
            Ok(())
        },
        st,
    )?;
    trees::each_tree(t.pick(&[(4, 1), (2, 2)], &[(5, 1), (3, 2), (1, 3)]), st, |s, _, st| f(s, st))?;
    // Texts of several chunks, with an end of a chunk at every place of these
    let units = ["- a: 'b'\n", "--- [é, \"\\x41\", *c]\n...\n", "k: |\n  a\n   b\n\n", "? &a b\n: !t >-\n  c\n", "# d\n- e\n  f\n"];
    let b = boundaries();
    each((units.len() * t.pick(24, 64)) as u64, st, |i, st| {
        let (u, shift) = (units[i as usize % units.len()], i as usize / units.len());
        let n = b.get(1).copied().unwrap_or(32768) + 2000;
        let s = format!("#{}\n{}", "x".repeat(shift), u.repeat(n / u.len()));
        on(&format!("{u:?} repeated, shifted by {shift}"));
        st.add("inputs", 1);
        case(&s, format!("{u:?} repeated, shifted by {shift}"), f(&s, st))
    })
}

/// Every code point, written as itself, in every context
pub fn codepoints(t: Tier, st: &mut Stats) -> V {
    let frames: Vec<&str> = vec![
        "a@b", "\"a@b\"", "'@'", "|\n a@b", ">\n @\n b", "- a #@\n- b", "{a@: @}", "[@]", "@", "&a@ b", "!a@ b", "\"\\@\"", "%TAG !e! @\n---",
        "a: @\n", "[a, 'b@', c@d]", "--- @\n...\n", "?@a", "- @", "!<@> a", "|@\n a", "*a@",
    ];
    let n = frames.len();
    // Next to every indicator, and in the middle of every kind of syntax
    let near = [
        "a:@b", "a: @b", "a#@", "a @b: c", "a@\nb", "a\n@b", "a\n @b: c", "!@!x y", "!e!@ y", "%TAG !@! x\n--- !@!y z", "%TAG !e! x\n--- !e!@ z", "%@ x\n---", "%YAML@1.2\n---", "%YAML 1.2@\n---", "%YAML 1.2 @\n---", "%YAML @1.2\n---", "%YAML 1@2\n---", "%TAG@!e! x\n---", "%TAG !e!@x\n---", "%TAG !e! x@\n--- !e!y z", "%TAG !e! x @\n---",
        "---@", "---@a", "--- @a: b", "...@", "a\n...@", "a\n... @", "\"a\"@", "\"a\"@: b", "'a'@: b", "'a' @: b", "[a]@", "[a]@: b", "{a: b}@", "-@", "-@a", "- a\n-@b", "?@", "? a\n:@b", ":@b", "a :@b", "[a:@]", "[a:@b]", "[a :@b]", "[\"a\":@]", "[\"a\":@b]", "{a:@}", "{a:@b}", "{a @: b}", "{? @a: b}", "{?@}", "[?@a]", "[-@]", "[-@a]", "[:@]", "[a@, b]", "[a,@b]", "[@a: b]", "{\"a\"@:b}",
        "&a@", "*a@: b", "*a @: b", "[*a@]", "[&a@]", "{&a @: b}", "!a@: b", "!a @: b", "!@", "!!@ b", "![@] b", "[!a@]", "!<@", "!<a@> b", "!<a>@b", "!a%4@ b", "!a%@1 b",
        "|@\n a", "|1@\n a", "|-@\n a", "| @\n a", "| #@\n a", "|\n@a", "|\n @\n", "|\n  a\n @b", "|\n a\n@b", "|+\n a\n\n@", ">\n a\n @b\n c", ">\n a\n@\n b", ">-\n a@\n\n b", "- |\n @a\n- b", "|\n@\n a", "|\n \n@ a",
        "'a@\nb'", "'a\n@b'", "'a\n@\nb'", "'@''@'", "''@", "\"a@\nb\"", "\"a\n@b\"", "\"a@\\\nb\"", "\"a\\\n@b\"", "\"\\x4@\"", "\"\\x@1\"", "\"\\u00e@\"", "\"\\U0001F60@\"", "\"\\\\@\"", "\"\\@\\@\"",
        "#@", "a #@", "#\n@", "@\na: b", "a: b\n@", "a: b\n@c: d", " @a", "- a\n @b", "- a\n@- b", "a:\n@b: c", "a:\n @- b", "\n@a", "a: |\n  b\n@c: d", "a:@\n  b: c", "-@\n  a", "[a\n@]", "[@\na]", "{@\na: b}", "@[a]", "@{a: b}", "@\"a\"", "@'a'", "@*a", "@&a b", "@!a b", "@- a", "@? a", "@: a", "@|\n a", "@---", "@%YAML 1.2\n---",
    ];
    let some: Vec<u32> = t.pick((0..0x3100).chain(0xD7F0..0xE010).chain(0xFD00..0x10100).chain((1..17).map(|p| p << 16).flat_map(|p| p - 8..p + 8)).chain(0x10FFF0..0x110000).collect(), (0..0x11000).chain((0x11000..0x110000).step_by(37)).chain((1..17).map(|p| p << 16).flat_map(|p| p - 64..p + 64)).chain(0x10FF00..0x110000).collect());
    each(some.len() as u64, st, |i, st| {
        let Some(c) = char::from_u32(some[i as usize]) else { return Ok(()) };
        let mut s = String::new();
        for f in near {
            s.clear();
            for x in f.chars() { s.push(if x == '@' { c } else { x }) }
            on(&s);
            st.add("inputs", 1);
            case(&s, format!("U+{:04X}", c as u32), agrees(&s, st))?;
        }
        Ok(())
    })?;
    scalar_values(
        |c, st| {
            let mut s = String::new();
            for f in &frames[..n] {
                s.clear();
                for x in f.chars() { s.push(if x == '@' { c } else { x }) }
                on(&s);
                st.add("inputs", 1);
                case(&s, format!("U+{:04X}", c as u32), agrees(&s, st))?;
                // Chunks of a single byte
                if f.len() < 4 || t == Tier::Thorough {
                    let (a, b) = (run_str(&s, true), owned(s.as_bytes(), &[ONE], true));
                    case(&s, format!("U+{:04X}, bytewise", c as u32), same(&a, &b, st))?;
                }
            }
            Ok(())
        },
        st,
    )
}

/// Every code point, written as an escape; everything which is not one
pub fn escapes_all(_: Tier, st: &mut Stats) -> V {
    // The escape characters
    scalar_values(
        |c, st| {
            for s in [format!("\"\\{c}\""), format!("\"a\\{c}41b\""), format!("\"\\{c}0041 \\{c}\"")] {
                on(&s);
                st.add("inputs", 1);
                case(&s, format!("escape character U+{:04X}", c as u32), agrees(&s, st))?;
            }
            Ok(())
        },
        st,
    )?;
    // Every value, in both cases
    each(0x110000 + 0x2000, st, |v, st| {
        let mut all = vec![("a", format!("U{v:08x}"), "b"), ("", format!("U{v:08X}"), "")];
        if v < 0x10000 { all.extend([("", format!("u{v:04x}"), "c"), ("", format!("u{v:04X}"), "")]) }
        if v < 0x100 { all.extend([("", format!("x{v:02x}"), ""), ("", format!("x{v:02X}"), "d")]) }
        for (pre, e, post) in all {
            let s = format!("\"{pre}\\{e}{post}\"");
            on(&s);
            st.add("inputs", 1);
            case(&s, format!("value {v:#x}"), agrees(&s, st))?;
            // The value is the code point, whatever the model thinks
            let got = run_str(&s, false);
            let want = char::from_u32(v as u32).map(|c| format!("{pre}{c}{post}"));
            let text = got.evs.iter().find_map(|e| if let Ev::Scalar { val: Ok((v, _)), .. } = &e.ev { Some(v.clone()) } else { None });
            if want != text { return case(&s, "value", Err(format!("{v:#x} became {}", show(&got)))) }
        }
        Ok(())
    })?;
    // Values that do not fit
    let high: Vec<u64> = (0..=0xff).map(|h| h << 24).chain((0..=0xff).map(|h| h << 24 | 0x41)).chain((0x11..=0xff).map(|h| h << 16)).chain([0xffff_ffff, 0x7fff_ffff, 0x8000_0000]).collect();
    each(high.len() as u64, st, |i, st| {
        let s = format!("\"\\U{:08x}\"", high[i as usize]);
        on(&s);
        st.add("inputs", 1);
        case(&s, "high value", agrees(&s, st))
    })?;
    // Something else than a digit, or nothing, at every place
    let odd: Vec<char> = ('\0'..='\u{ff}').chain(['０', '😀', '\u{2028}', 'é']).collect();
    each(odd.len() as u64, st, |i, st| {
        for (e, n) in [('x', 2), ('u', 4), ('U', 8)] {
            for at in 0..n {
                for fill in ['0', '1'] {
                    let digits: String = (0..n).map(|k| if k == at { odd[i as usize] } else { fill }).collect();
                    for s in [format!("\"\\{e}{digits}\""), format!("[\"\\{e}{digits}"), format!("\"\\{e}{}", digits.chars().take(at).collect::<String>())] {
                        on(&s);
                        st.add("inputs", 1);
                        case(&s, format!("digit {at} is {:?}", odd[i as usize]), agrees(&s, st))?;
                    }
                }
            }
        }
        Ok(())
    })
}

/// Every code point, and every kind of bytes, as the escapes of tags
pub fn percent(t: Tier, st: &mut Stats) -> V {
    let tag_is = |s: &str, want: Option<&(String, String)>, st: &mut Stats| -> Res {
        on(s);
        st.add("inputs", 1);
        agrees(s, st)?;
        let got = run_str(s, false);
        let tag = got.evs.iter().find_map(|e| if let Ev::Scalar { tag, .. } = &e.ev { tag.clone() } else { None });
        if tag.as_ref() != want { return Err(format!("the tag is {tag:?}, not {want:?}")) }
        Ok(())
    };
    // In a suffix, a verbatim tag and a prefix
    let check = |bytes: &[u8], upper: bool, st: &mut Stats| -> V {
        let e: String = bytes.iter().map(|b| if upper { format!("%{b:02X}") } else { format!("%{b:02x}") }).collect();
        let text = std::str::from_utf8(bytes).ok();
        let of = |h: &str, pre: &str, post: &str| text.map(|x| (h.to_string(), format!("{pre}{x}{post}")));
        for (s, want) in [
            (format!("!{e} b"), of("!", "", "")),
            (format!("!!a{e}b c"), of("!!", "a", "b")),
            (format!("!<{e}> b"), of("", "", "")),
            (format!("!<a{e}b>"), of("", "a", "b")),
        ] {
            case(&s, format!("the bytes {bytes:x?}"), tag_is(&s, want.as_ref(), st))?
        }
        let s = format!("%TAG !e! {e}x\n--- !e!y z");
        on(&s);
        st.add("inputs", 1);
        case(&s, format!("the bytes {bytes:x?}"), agrees(&s, st))?;
        let got = run_str(&s, false);
        let prefix = got.evs.iter().find_map(|e| if let Ev::DocStart { tags, .. } = &e.ev { tags.get("!e!").cloned() } else { None });
        if prefix != text.map(|x| format!("{x}x")) { return case(&s, "prefix", Err(format!("the prefix is {prefix:?}"))) }
        Ok(())
    };
    scalar_values(|c, st| check(c.encode_utf8(&mut [0; 4]).as_bytes(), c as u32 % 2 == 0, st), st)?;
    // All pairs of bytes, and longer ones of every class
    let edge = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xff];
    each(0x10000, st, |i, st| check(&[(i >> 8) as u8, i as u8], i % 2 == 0, st))?;
    each(0x10000, st, |i, st| {
        let (a, b) = ((i >> 8) as u8, i as u8);
        if a < 0xbf && t == Tier::Quick { return Ok(()) }
        for c in edge {
            check(&[a, b, c], c % 2 == 0, st)?;
            if a >= 0xe0 { for d in [0x41, 0x7f, 0x80, 0xbf, 0xc0] { check(&[a, b, c, d], d % 2 == 0, st)? } }
        }
        Ok(())
    })?;
    // Something else than a digit, or nothing, at every place
    let odd: Vec<char> = ('\0'..='\u{ff}').chain(['０', '😀', '\u{2028}']).collect();
    each(odd.len() as u64, st, |i, st| {
        for full in ["%41", "%c3%a9", "%E2%82%AC", "%f0%9f%98%80"] {
            for at in 0..full.len() {
                let e: String = full.chars().enumerate().map(|(k, c)| if k == at { odd[i as usize] } else { c }).collect();
                for s in [format!("!a{e} b"), format!("!<{e}> b"), format!("%TAG !e! a{e}\n--- !e!y z"), format!("!{}", &full[..at]), format!("[!<a{}", &full[..at]), format!("%TAG !e! {}", &full[..at])] {
                    on(&s);
                    st.add("inputs", 1);
                    case(&s, format!("place {at} of {full} is {:?}", odd[i as usize]), agrees(&s, st))?
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- layout

fn unmarked(s: &str) -> (Vec<Ev>, bool, Trace) {
    let t = run_str(s, false);
    (t.plain(), t.end == End::Done, t)
}

/// The same document, laid out in some other way
fn relaid(s: &str, other: &str, how: &str, both_ways: bool, st: &mut Stats) -> Res {
    let (a, ok, ta) = unmarked(s);
    if !ok && !both_ways { return Ok(()) }
    on(other);
    let (b, ok2, tb) = unmarked(other);
    st.add("executions", 2);
    if let End::Panic(_) | End::Runaway = tb.end { return Err(format!("{how}: {other:?}: {:?}", tb.end)) }
    if ok != ok2 || ok && a != b {
        return Err(format!("{how}: {other:?} means something else: {} instead of {}", show(&tb), show(&ta)));
    }
    if ok && a.len() > 6 { st.sample(|| format!("{s:?} / {other:?} ({how})")) }
    if ok { st.see("outcomes", hash_from(0, &a)) }
    Ok(())
}

pub fn layouts(t: Tier, st: &mut Stats) -> V {
    // Line breaks, everywhere
    let mut spaces = layout(t);
    spaces.extend(layout_scalars(t));
    spaces.extend(all_models(t, t.pick(2, 1)));
    explore(&spaces, st, |s, st| {
        if !s.contains('\n') || s.contains('\r') { return Ok(()) }
        relaid(s, &s.replace('\n', "\r\n"), "CR LF", true, st)?;
        relaid(s, &s.replace('\n', "\r"), "CR", true, st)
    })?;
    // Around, and shifted
    explore(&layout(t), st, |s, st| {
        for p in ["\n", "# c\n", "  # c\n\n", "#\n"] { relaid(s, &format!("{p}{s}"), "leading lines", true, st)? }
        for p in ["\n", "\n# c\n", "\n\n  # c"] { relaid(s, &format!("{s}{p}"), "trailing lines", true, st)? }
        if !s.contains("---") && !s.contains("...") {
            for pad in ["  ", "   "] {
                let other: String = s.split_inclusive('\n').map(|l| format!("{pad}{l}")).collect();
                relaid(s, &other, "shifted", true, st)?;
            }
        }
        Ok(())
    })?;
    trees::each_tree(t.pick(&[(4, 1), (2, 2)], &[(5, 1), (3, 2), (1, 3)]), st, |s, want, st| {
        if s.contains('\r') { return Ok(()) }
        relaid(s, &s.replace('\n', "\r\n"), "CR LF", true, st)?;
        relaid(s, &s.replace('\n', "\r"), "CR", true, st)?;
        for p in ["\n", "  # c\n\n"] { relaid(s, &format!("{p}{s}"), "leading lines", true, st)? }
        // What a block scalar keeps at its end is content
        let kept = matches!(want.iter().rev().find(|e| matches!(e, Ev::Scalar { val: Ok((v, _)), .. } if !v.is_empty())), Some(Ev::Scalar { val: Ok((_, Style::Literal | Style::Folded)), .. }));
        if !kept { for p in ["\n", "\n\n  # c"] { relaid(s, &format!("{s}{p}"), "trailing lines", true, st)? } }
        let fixed = matches!(want.get(2), Some(Ev::Scalar { val: Ok((_, Style::Literal | Style::Folded)), .. }));
        if !fixed && !s.contains("---") && !s.contains("...") {
            let other: String = s.split_inclusive('\n').map(|l| format!("   {l}")).collect();
            relaid(s, &other, "shifted", true, st)?;
        }
        Ok(())
    })?;
    // Comments and blank lines between lines which are complete by themselves
    let lines = ["- a\n", "b:\n", "b: c\n", "- d: 'e'\n", "  f: g\n", "  - h\n", "? i\n", ": j\n", "---\n", "...\n", "- [k, l]\n", "  m: {n: o}\n", "-\n", "- &p !q r\n", "- *s\n"];
    let space = Space::new("lines", &lines, t.pick(4, 5));
    explore(&[space], st, |s, st| {
        // Blank lines count within plain scalars
        if run_str(s, false).evs.iter().any(|e| matches!(&e.ev, Ev::Scalar { val: Ok((v, _)), .. } if v.contains([' ', '\n']))) { return Ok(()) }
        let at: Vec<usize> = s.match_indices('\n').map(|(i, _)| i + 1).collect();
        for ins in ["\n", "# c\n", "    # c\n", "\t\n", "  \n"] {
            let mut other = String::new();
            for l in s.split_inclusive('\n') {
                other.push_str(l);
                other.push_str(ins);
            }
            relaid(s, &other, "lines between lines", false, st)?;
            for &k in &at { relaid(s, &format!("{}{ins}{}", &s[..k], &s[k..]), "a line between lines", false, st)? }
        }
        relaid(s, &s.replace('\n', " # c\n"), "comments after lines", false, st)?;
        relaid(s, &s.replace('\n', " \t\n"), "blanks after lines", false, st)?;
        let wider: String = s.split_inclusive('\n').map(|l| if let Some(r) = l.strip_prefix("  ") { if s.contains("- d") { l.to_string() } else { format!("      {r}") } } else { l.to_string() }).collect();
        if !s.contains("- d") && !s.contains("- &") { relaid(s, &wider, "wider indentation", false, st)? }
        Ok(())
    })?;
    // Space within flow collections
    let words = ["a", "'b'", "[", "]", "{", "}", ",", ": ", "? ", "&c d", "*e "];
    let space = Space::new("flow words", &words, t.pick(5, 6)).framed("[", "]");
    explore(&[space], st, |s, st| {
        let (evs, ok, _) = unmarked(s);
        // The outer one, and not just the start of a mapping of the block context
        if !ok || !matches!(evs.get(2), Some(Ev::Seq { .. })) { return Ok(()) }
        let nested_key = evs.iter().any(|e| matches!(e, Ev::Map { kind: Kind::Key, .. } | Ev::Seq { kind: Kind::Key, .. }));
        for sep in [" ", "\t", " \t "] {
            for c in [",", "[", "{"] { relaid(s, &s.replace(c, &format!("{c}{sep}")), "space after indicators", false, st)? }
            for c in [",", "]", "}"] { relaid(s, &s.replace(c, &format!("{sep}{c}")), "space before indicators", false, st)? }
        }
        if !nested_key {
            for sep in ["\n", "\n  ", " # c\n", "\n# c\n\n"] {
                for c in [",", "[", "{"] { relaid(s, &s.replace(c, &format!("{c}{sep}")), "lines after indicators", false, st)? }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- keys

const KEYS: pumps::Templates = &[
    "'a\n‹ ›b': c", "[a\n‹ ›: b]", "‹a› : b", "{a\n‹ ›: b}", "a‹\n›: b", "\"a\\\n‹ ›b\": c", "- [a,\n‹ ›b]: c", "{[a,\n b]: c}", "[[a,\n b]: c]", "? 'a\n b'\n: c", "&a 'b\n‹ ›c': d", "!t\n‹ ›a: b",
    "{a: b,\n‹ ›c: d}", "{\"a\"\n‹ ›:b}", "[\"a\"\n‹ ›:b]", "a: b\nc\n‹ ›d", "- a: b\n  c\n‹ ›", "k: 'a\n b': c", "? a\n‹ ›b: c", "[{a\n: b}\n‹ ›: c]", "a\n\nb: c", "*a\n‹ ›: b", "&a\n‹ ›b: c", "{a‹\n›b: c}", "[a‹\n›b: c]",
];

pub fn keys(t: Tier, st: &mut Stats) -> V {
    let styles: Vec<(&str, fn(usize) -> String)> = vec![
        ("plain", |n| "k".repeat(n)),
        ("plain words", |n| "k ".repeat(n / 2) + &"x".repeat(n % 2)),
        ("double", |n| format!("\"{}\"", "k".repeat(n.saturating_sub(2)))),
        ("escaped", |n| format!("\"{}{}\"", "\\n".repeat(n.saturating_sub(2) / 2), "x".repeat(n % 2))),
        ("single", |n| format!("'{}'", "k".repeat(n.saturating_sub(2)))),
        ("sequence", |n| format!("[{}]", "k".repeat(n.saturating_sub(2)))),
        ("mapping", |n| format!("{{a: {}}}", "k".repeat(n.saturating_sub(5)))),
        ("nested", |n| format!("[[{}]]", "k,".repeat(n.saturating_sub(4) / 2) + &"x".repeat(n % 2))),
        ("alias", |n| format!("*{} ", "k".repeat(n.saturating_sub(2)))),
        ("anchored", |n| format!("&{} k", "a".repeat(n.saturating_sub(3)))),
        ("tagged", |n| format!("!{} k", "t".repeat(n.saturating_sub(3)))),
        ("tagged and quoted", |n| format!("!t &a '{}'", "t".repeat(n.saturating_sub(8)))),
        ("padded", |n| format!("k{}", " ".repeat(n.saturating_sub(1)))),
    ];
    let frames = ["@: v", "- @: v", "{@: v}", "[@: v]", "[a, @: v, b]", "a: b\n@: v", "? @: v", "? a\n: @: v", "a:\n  @: v", "--- \n@: v\n...", "@", "{@}", "- [{@: v}]", "&x !y\n@: v", "@: v\n@: w"];
    let sizes: Vec<usize> = t.pick((1..=40).chain(1000..=1050).chain([1500, 2047, 2048, 2049, 5000]).collect(), (1..=1200).chain([2047, 2048, 2049, 5000, 9000, 20000]).collect());
    each((styles.len() * frames.len() * sizes.len()) as u64, st, |i, st| {
        let i = i as usize;
        let n = sizes[i / (styles.len() * frames.len())];
        let (what, make) = styles[i / frames.len() % styles.len()];
        let s = frames[i % frames.len()].replace('@', &make(n));
        on(&format!("{what} key of {n} bytes in {:?}", frames[i % frames.len()]));
        st.add("inputs", 1);
        let how = format!("{what} key of {n} bytes in {:?}", frames[i % frames.len()]);
        case(&s, &how, agrees(&s, st))?;
        if n % 16 == 0 || (1015..1035).contains(&n) { case(&s, &how, same(&run_str(&s, false), &owned(s.as_bytes(), &[Answer::Give(100)], false), st))? }
        Ok(())
    })?;
    // Keys behind much else
    pumps::far(KEYS, false, t, st)?;
    // Keys across lines
    let space = Space::new("keys across lines", &["a", "'b\nc'", "\"d\ne\"", "[f,\ng]", "{h:\ni}", ": ", ":", "\n", "- ", " ", "? "], t.pick(5, 6));
    explore(&[space.clone(), space.clone().framed("[", "]"), space.framed("{", "}")], st, agrees)
}

// ---------------------------------------------------------------- scale

pub fn scale(t: Tier, st: &mut Stats) -> V {
    let depths: Vec<usize> = (1..=t.pick(300, 1200)).chain((9..=t.pick(16, 18)).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1])).chain([1000, 10_000, 100_000]).collect();
    // (name, opening, innermost, closing, events when opened, events when closed)
    type Nest = (&'static str, &'static str, &'static str, usize);
    let nests: Vec<Nest> = vec![("sequences", "[", "]", 1), ("mappings", "{a: ", "}", 2), ("keys", "{? ", "}", 1), ("pairs", "[a: ", "]", 3), ("mixed", "[{b: ", "}]", 3)];
    each((nests.len() * depths.len()) as u64, st, |i, st| {
        let (name, open, close, _) = nests[i as usize % nests.len()];
        let d = depths[i as usize / nests.len()];
        let s = format!("{}x{}", open.repeat(d), close.repeat(d));
        let how = format!("{d} nested {name}");
        on(&how);
        st.add("inputs", 1);
        let evs = nest_events(name, d);
        deep(&s, &evs, &how, st)
    })?;
    // Block collections nest by indentation; quadratic text
    let depths: Vec<usize> = (1..=t.pick(100, 400)).chain([t.pick(700, 2500)]).collect();
    let kinds = ["sequences", "mappings", "compact sequences", "compact mappings in sequences", "explicit keys"];
    each((depths.len() * kinds.len()) as u64, st, |i, st| {
        let (d, kind) = (depths[i as usize / kinds.len()], kinds[i as usize % kinds.len()]);
        let mut s = String::new();
        for k in 0..d {
            match kind {
                "sequences" => s.push_str(&format!("{}-\n", " ".repeat(k))),
                "mappings" => s.push_str(&format!("{}a:\n", " ".repeat(k))),
                "compact sequences" => s.push_str("- "),
                "compact mappings in sequences" => s.push_str(&format!("{}- a:\n", " ".repeat(3 * k))),
                _ => s.push_str("? "),
            }
        }
        let indent = match kind {
            "sequences" | "mappings" => d,
            "compact mappings in sequences" => 3 * d,
            _ => 0,
        };
        s.push_str(&format!("{}x\n", " ".repeat(indent)));
        let how = format!("{d} nested {kind}");
        on(&how);
        st.add("inputs", 1);
        let evs = nest_events(kind, d);
        deep(&s, &evs, &how, st)
    })?;
    // Long scalars and long collections
    let mut sizes: Vec<usize> = (0..=t.pick(70, 300)).collect();
    for k in 7..=t.pick(17, 19) { sizes.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]) }
    let styles = ["plain", "single", "double", "literal", "folded", "entries", "pairs", "flow entries", "documents", "tags", "comment", "escapes", "blank lines"];
    each((sizes.len() * styles.len()) as u64, st, |i, st| {
        let (n, style) = (sizes[i as usize / styles.len()], styles[i as usize % styles.len()]);
        // Events take much more space than text
        if n > 140_000 && ["entries", "pairs", "flow entries", "documents", "tags"].contains(&style) { return Ok(()) }
        let how = format!("{style} of size {n}");
        on(&how);
        st.add("inputs", 1);
        let text = "y".repeat(n);
        let root = |v: String, st: Style| doc(vec![scalar(Kind::Root, &v, st)]);
        let (s, want) = match style {
            "plain" => (format!("x{text}"), root(format!("x{text}"), Style::Plain)),
            "single" => (format!("'{text}'"), root(text, Style::Single)),
            "double" => (format!("\"{text}\""), root(text, Style::Double)),
            "literal" => (format!("|\n x{text}\n"), root(format!("x{text}\n"), Style::Literal)),
            "folded" => (format!(">\n x{text}\n z"), root(format!("x{text} z"), Style::Folded)),
            "escapes" => (format!("\"{}\"", "\\x41".repeat(n)), root("A".repeat(n), Style::Double)),
            "blank lines" => (format!("\"a{}b\"", "\n".repeat(n + 1)), root(format!("a{}b", if n == 0 { " ".to_string() } else { "\n".repeat(n) }), Style::Double)),
            "comment" => (format!("#{text}\nx"), root("x".into(), Style::Plain)),
            "entries" => {
                let mut v = vec![Ev::Seq { anchor: None, tag: None, kind: Kind::Root }];
                v.extend((0..=n).map(|_| scalar(Kind::Entry, "x", Style::Plain)));
                v.push(Ev::SeqEnd);
                ("- x\n".repeat(n + 1), doc(v))
            }
            "flow entries" => {
                let mut v = vec![Ev::Seq { anchor: None, tag: None, kind: Kind::Root }];
                v.extend((0..n).map(|_| scalar(Kind::Entry, "x", Style::Plain)));
                v.push(Ev::SeqEnd);
                (format!("[{}]", "x, ".repeat(n)), doc(v))
            }
            "pairs" => {
                let mut v = vec![Ev::Map { anchor: None, tag: None, kind: Kind::Root }];
                for _ in 0..=n { v.extend([scalar(Kind::Key, "k", Style::Plain), scalar(Kind::Value, "v", Style::Single)]) }
                v.push(Ev::MapEnd);
                ("k: 'v'\n".repeat(n + 1), doc(v))
            }
            "documents" => {
                let mut v = vec![Ev::StreamStart];
                for _ in 0..=n {
                    v.push(doc_start(false));
                    v.push(scalar(Kind::Root, "d", Style::Plain));
                    v.push(Ev::DocEnd { implicit: true });
                }
                v.push(Ev::StreamEnd);
                ("--- d\n".repeat(n + 1), v)
            }
            _ => {
                let tag = Some(("!".to_string(), format!("x{text}")));
                (format!("!x{text} v"), doc(vec![Ev::Scalar { anchor: None, tag, kind: Kind::Root, val: Ok(("v".into(), Style::Plain)) }]))
            }
        };
        deep(&s, &want, &how, st)
    })
}

extern "C" {
    fn clock_gettime(id: i32, to: *mut [i64; 2]) -> i32;
}
/// Time this thread spent running, in seconds
fn cpu() -> f64 {
    let mut t = [0i64; 2];
    // SAFETY: a timespec is two words on all 64 bit Linux targets; 3 is CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 { return 0.0 }
    t[0] as f64 + t[1] as f64 * 1e-9
}

/// Seconds a megabyte may take. It takes about one where nesting is deepest; anything
/// quadratic takes minutes.
const SLOW: f64 = 15.0;

/// Bytes held at once, for each byte of a text which is read from memory
fn held_by_text(s: &str) -> f64 {
    alloc::peak(|| guarded(|| Events::new(&from_utf8(s), flags(false)).into_iter().count())).1 as f64 / s.len() as f64
}

/// Text of a megabyte of every kind is read in time and memory proportional to its size
pub fn speed(t: Tier, st: &mut Stats) -> V {
    let n = t.pick(1 << 20, 1 << 22);
    let mut all: Vec<(String, String)> = long_tokens().into_iter().map(|(what, pre, body, post)| (what.to_string(), format!("{pre}{}{post}", body.repeat(n / body.len())))).collect();
    for (what, unit) in [
        ("lines of comments", "# c\n"), ("anchors", "- &a b\n"), ("tags", "- !a%41 b\n"), ("aliases", "- *a\n"), ("empty entries", "-\n"), ("empty keys", ":\n"), ("explicit keys", "? a\n: b\n"), ("quoted keys", "'a': \"b\"\n"), ("flow keys", "[a, b]: {c: d}\n"),
        ("flow lines", "- [a, {b: c}]\n"), ("folds", "- a\n  b\n"), ("literals", "- |\n  a\n"), ("escapes", "- \"\\x41\"\n"), ("empty documents", "---\n"), ("two levels", "a:\n- b\n- c: d\n"), ("three levels", "a:\n  b:\n    c: d\n"), ("not quite keys", "- a b c\n"), ("wide", "- é😀\n"), ("carriage returns", "- a\r"), ("tag directives", "%TAG !e! x\n--- a\n...\n"),
    ] {
        all.push((what.into(), unit.repeat(n / unit.len())));
    }
    for (what, pre, unit, post) in [
        ("distinct handles", "", "%TAG !@! x\n", "--- a\n"), ("distinct anchors", "", "- &@ x\n", ""), ("distinct keys", "", "k@: x\n", ""), ("deeper and deeper", "", "[@,", ""), ("pairs in flow", "[", "a@: b, ", "]"), ("explicit keys in flow", "{", "? a@ : b, ", "}"), ("open mappings", "", "{a@: ", ""), ("open keys", "", "[@]: [", ""), ("lines in flow", "{", "a@:\n b,\n", "}"), ("blanks in flow", "[", "@ \n   ,", "]"),
    ] {
        let mut s = pre.to_string();
        let mut k = 0;
        while s.len() < n / 4 {
            s.push_str(&unit.replace('@', &k.to_string()));
            k += 1;
        }
        s.push_str(post);
        all.push((what.into(), s));
    }
    each(all.len() as u64 * 3, st, |i, st| {
        let (what, s) = &all[i as usize / 3];
        let way = ["eager", "lazy", "from a source"][i as usize % 3];
        on(&format!("{what}, {} bytes, {way}", s.len()));
        st.add("inputs", 1);
        st.add("executions", 1);
        let from = cpu();
        let (r, held) = alloc::peak(|| {
            guarded(|| match i % 3 {
                2 => Events::new(&source(s.as_bytes(), &[ALL]).0, flags(false)).into_iter().count(),
                k => Events::new(&from_utf8(s), flags(k == 1)).into_iter().count(),
            })
        });
        let held = held as f64 / s.len() as f64;
        let took = (cpu() - from) / s.len() as f64 * (1 << 20) as f64;
        let short: String = s.chars().take(100).collect();
        let events = case(&short, what, r.map_err(|p| format!("panic: {p}")))?;
        st.see("outcomes", hash_from(events as u64, what));
        if took > SLOW { return case(&short, format!("{what}, {} bytes, {way}", s.len()), Err(format!("takes {took:.1} s for each megabyte"))) }
        // What is held beside the text: the chunks of a source repeat what was not yet read
        // of the ones before
        let most = if i % 3 == 2 { held_by_text(s) + 30.0 + n as f64 * (8.0 / (1 << 20) as f64) } else { 1000.0 };
        if held > most { return case(&short, format!("{what}, {} bytes, {way}", s.len()), Err(format!("holds {held:.1} bytes for each byte of text, rather than {most:.1} at most"))) }
        if took > 0.2 { st.sample(|| format!("{what}, {way}: {took:.3} s for each megabyte")) }
        if std::env::var_os("YARY_MC_TIMES").is_some() { println!("{took:.3} {held:.1} {what} {way} {events}") }
        Ok(())
    })
}

fn scalar(kind: Kind, v: &str, s: Style) -> Ev { Ev::Scalar { anchor: None, tag: None, kind, val: Ok((v.to_string(), s)) } }
fn doc_start(implicit: bool) -> Ev {
    Ev::DocStart { version: (1, 2), tags: [("!", "!"), ("!!", "tag:yaml.org,2002:")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), implicit }
}
fn doc(content: Vec<Ev>) -> Vec<Ev> {
    let mut v = vec![Ev::StreamStart, doc_start(true)];
    v.extend(content);
    v.extend([Ev::DocEnd { implicit: true }, Ev::StreamEnd]);
    v
}

fn nest_events(name: &str, d: usize) -> Vec<Ev> {
    let seq = |kind| Ev::Seq { anchor: None, tag: None, kind };
    let map = |kind| Ev::Map { anchor: None, tag: None, kind };
    let mut v = vec![];
    let mut close = vec![];
    let mut kind = Kind::Root;
    for _ in 0..d {
        match name {
            "sequences" | "compact sequences" => {
                v.push(seq(kind));
                close.push(vec![Ev::SeqEnd]);
                kind = Kind::Entry;
            }
            "mappings" => {
                v.push(map(kind));
                v.push(scalar(Kind::Key, "a", Style::Plain));
                close.push(vec![Ev::MapEnd]);
                kind = Kind::Value;
            }
            "keys" | "explicit keys" => {
                v.push(map(kind));
                close.push(vec![scalar(Kind::Value, "", Style::Plain), Ev::MapEnd]);
                kind = Kind::Key;
            }
            "pairs" | "mixed" | "compact mappings in sequences" => {
                v.push(seq(kind));
                v.push(map(Kind::Entry));
                v.push(scalar(Kind::Key, if name == "mixed" { "b" } else { "a" }, Style::Plain));
                close.push(vec![Ev::MapEnd, Ev::SeqEnd]);
                kind = Kind::Value;
            }
            _ => unreachable!(),
        }
    }
    v.push(scalar(kind, "x", Style::Plain));
    while let Some(c) = close.pop() { v.extend(c) }
    doc(v)
}

fn deep(s: &str, want: &[Ev], how: &str, st: &mut Stats) -> V {
    let mut last = 0;
    for (n, t) in [run_str(s, false), run_str(s, true), owned(s.as_bytes(), &[ALL], false)].into_iter().enumerate() {
        st.add("executions", 1);
        let evs = t.plain();
        if t.end != End::Done || evs != want {
            let at = evs.iter().zip(want).position(|(a, b)| a != b).unwrap_or(evs.len().min(want.len()));
            let short: String = s.chars().take(200).collect();
            let e = format!("way {n}: event {at} is {:?}, expected {:?}; end {:?}", evs.get(at), want.get(at), t.end);
            return case(&short, how, Err(e.chars().take(2000).collect()));
        }
        last = evs.len();
    }
    st.add("events", last as u64);
    st.see("outcomes", hash_from(last as u64, &how.to_string()));
    st.sample(|| format!("{how}: {last} events"));
    Ok(())
}

// ---------------------------------------------------------------- isolation

pub fn isolation(t: Tier, st: &mut Stats) -> V {
    pumps::far(pumps::DOCUMENTS, false, t, st)?;
    let heads = ["---\n", "--- ", "%YAML 1.1\n---\n", "%TAG !e! x:\n--- ", "%TAG !! y:\n---\n", ""];
    let body = Space::new("documents", &["a", ": ", "- ", "\n", "  ", "[", "]", "\"b\"", "|\n ", "!e!t ", "!!t ", "? ", "&x ", "*x", "{"], t.pick(3, 4));
    let bodies = words(&body);
    // First documents which can be read by themselves, and last ones of any kind
    let alone: Vec<(String, Vec<MarkedEv>, bool)> = {
        let mut v = vec![];
        for b in &bodies {
            for h in heads {
                let s = format!("{h}{b}");
                let t = run_str(&s, false);
                // No document at all, only an empty stream makes one of it
                if h.is_empty() && t.evs.len() <= 4 && t.end == End::Done { continue }
                v.push((s, t.evs, t.end == End::Done));
            }
        }
        v
    };
    st.add("documents", alone.len() as u64);
    // Representatives: one document per way of ending it and shape of its events
    let mut firsts: Vec<&(String, Vec<MarkedEv>, bool)> = vec![];
    let mut known = Set::default();
    let small = t.pick(2, 3);
    let few = words(&Space { n: small, ..body.clone() });
    let few: std::collections::HashSet<&String> = few.iter().collect();
    for d in &alone {
        let text = heads.iter().filter_map(|h| d.0.strip_prefix(h)).next().unwrap_or("").to_string();
        let shape: Vec<_> = d.1.iter().map(|e| std::mem::discriminant(&e.ev)).collect();
        let last = d.0.chars().rev().take(2).collect::<String>();
        if d.2 && (few.contains(&text) && known.insert(hash_from(1, &(format!("{shape:?}"), last, d.0.starts_with('%'), d.0.contains("!e!"))))) { firsts.push(d) }
    }
    st.add("first documents", firsts.len() as u64);
    let seps = ["\n", "\n...\n"];
    // Directives, and documents without a marker, need the previous document to be ended explicitly
    let follows = |sep: &str, d: &str| sep != "\n" || d.starts_with("---");
    // A document which is followed by another one
    let before = |d: &(String, Vec<MarkedEv>, bool), sep: &str| -> Vec<Ev> {
        // A sole line break more is part of some scalars
        let mut evs: Vec<Ev> = if d.0.contains('|') { run_str(&format!("{}{sep}", d.0), false).plain() } else { d.1.iter().map(|e| e.ev.clone()).collect() };
        evs.pop();
        if sep != "\n" { if let Some(Ev::DocEnd { implicit }) = evs.last_mut() { *implicit = false } }
        evs
    };
    let compare = |s: &str, want: &[Ev], ok2: bool, st: &mut Stats| -> Result<(), Violation> {
        on(s);
        st.add("inputs", 1);
        let t = run_str(s, false);
        let got = t.plain();
        let ok = (t.end == End::Done) == ok2 && if ok2 { got == want } else { got[..] == want[..got.len().min(want.len())] };
        st.see("outcomes", hash_from(0, &got));
        if ok2 && got.len() > 8 { st.sample(|| format!("{s:?}")) }
        if ok { return Ok(()) }
        case(s, "a document changed the meaning of the next one", Err(format!("{} instead of {} (alone it is {})", show(&t), show_evs(want), if ok2 { "accepted" } else { "rejected" })))
    };
    let n = firsts.len() * alone.len() * seps.len();
    each(n as u64, st, |i, st| {
        let i = i as usize;
        let sep = seps[i % seps.len()];
        let (d2, e2, ok2) = &alone[i / seps.len() / firsts.len()];
        let d1 = firsts[i / seps.len() % firsts.len()];
        if !follows(sep, d2) { return Ok(()) }
        let mut want = before(d1, sep);
        want.extend(e2.iter().skip(1).map(|e| e.ev.clone()));
        compare(&format!("{}{sep}{d2}", d1.0), &want, *ok2, st)
    })?;
    // Three documents, the last of which asks for what any of the others could have left behind
    let lasts: Vec<_> = alone.iter().filter(|d| ["--- !e!t a", "--- !!t a", "!e!t ", "!!t a", "%YAML 1.1\n---\na", "%TAG !e! x:\n--- !e!t a", "%TAG !! y:\n---\n!!t a", "- a", "a: a", "--- *x", "--- &x a", "--- [", "---\n: a", "--- \"b\"", "|\n a"].contains(&&*d.0)).collect();
    let n = firsts.len() * firsts.len() * lasts.len() * 4;
    each(n as u64, st, |i, st| {
        let i = i as usize;
        let (sep1, sep2) = (seps[i % 2], seps[i / 2 % 2]);
        let (i, d3) = (i / 4 / lasts.len(), lasts[i / 4 % lasts.len()]);
        let (d1, d2) = (firsts[i / firsts.len()], firsts[i % firsts.len()]);
        if !follows(sep1, &d2.0) || !follows(sep2, &d3.0) { return Ok(()) }
        let mut want = before(d1, sep1);
        want.extend(before(d2, sep2).into_iter().skip(1));
        want.extend(d3.1.iter().skip(1).map(|e| e.ev.clone()));
        compare(&format!("{}{sep1}{}{sep2}{}", d1.0, d2.0, d3.0), &want, d3.2, st)
    })
}

// ---------------------------------------------------------------- edits

/// Documents such as people write, using every feature
pub const SEEDS: &[&str] = &[
    "a: 1\nb:\n  - x\n  - y: z\n    w: v\nc: {d: e, f: [g, h]}\n",
    "- 'it''s'\n- \"a\\tb \\\n  c\"\n- plain text\n  continued\n\n  here\n",
    "lit: |\n  one\n   two\n\n  three\nfold: >-\n  one\n  two\n\n  three\nend: x\n",
    "%YAML 1.2\n%TAG !e! tag:e,2000:\n---\n!e!t &a k: *a\n...\n--- !!str x\n",
    "? complex key\n: complex value\n? - a\n  - b\n: - c\n",
    "[a, {b: c}, \"d\": e, ? f : g, [h: i], {}]\n",
    "k:\n- a\n-\n  b\n- c: d\nj:\n  - e\n",
    "# comment\na: b # trailing\n\n# between\nc: # after key\n  d\n# end\n",
    "- - - a\n    - b\n  - c\n- d\n",
    "k: |2\n    a\n   b\nl: >+\n  x\n\nm: |-\n  y\n\n",
    "--- |\n text\n--- \"q\"\n---\n- x\n...\n---\n",
    "{a: , b: 'c', \"d\":e, f, ? g, : h}\n",
    "a: &x\n  b: !t\n    c: !<v> d\n  e: *x\n",
    "url: http://a.b/c?d#e\ntime: 12:30\nneg: -1\nq: ?x\n",
    "\"a b\": 'c'\n'd': [\n  e,\n  f\n]\n",
];

pub const TOKENS: &[&str] = &[
    "a", ":", ": ", "-", "- ", "\n", " ", "  ", "\t", "[", "]", "{", "}", ",", "?", "? ", "#", " #", "&", "*", "!", "|", ">", "'", "\"", "\\", "%", "@", "\n---\n", "\n...\n", "\r", "é",
];

fn edits_of(s: &str) -> Vec<(usize, usize, usize)> {
    // (at, bytes removed, token inserted), the token count stands for none
    let mut v = vec![];
    for (i, c) in s.char_indices() {
        v.push((i, c.len_utf8(), TOKENS.len()));
        for k in 0..TOKENS.len() {
            v.push((i, 0, k));
            v.push((i, c.len_utf8(), k));
        }
    }
    for k in 0..TOKENS.len() { v.push((s.len(), 0, k)) }
    v
}

fn edited(s: &str, (at, del, k): (usize, usize, usize)) -> String {
    format!("{}{}{}", &s[..at], TOKENS.get(k).unwrap_or(&""), &s[at + del..])
}

pub fn edits(t: Tier, st: &mut Stats) -> V {
    // No edit, one, two
    for s in SEEDS {
        on(s);
        case(s, "unedited", agrees(s, st))?;
        if !model::model(s).ok { return case(s, "seed", Err("HARNESS: the seed is malformed".into())) }
    }
    for s in SEEDS {
        let all = edits_of(s);
        each(all.len() as u64, st, |i, st| {
            let x = edited(s, all[i as usize]);
            on(&x);
            st.add("inputs", 1);
            case(&x, "one edit", agrees(&x, st))
        })?;
        // Every prefix, every suffix, every infix of lines
        for i in 0..=s.len() {
            if !s.is_char_boundary(i) { continue }
            for x in [&s[..i], &s[i..]] {
                on(x);
                st.add("inputs", 1);
                case(x, "cut", agrees(x, st))?;
            }
        }
    }
    // Every edit of every small document
    trees::each_tree(t.pick(&[(4, 0), (2, 1)], &[(5, 0), (3, 1), (1, 2)]), st, |s, _, st| {
        for e in edits_of(s) {
            let x = edited(s, e);
            on(&x);
            st.add("edited documents", 1);
            agrees(&x, st).map_err(|m| format!("edited to {x:?}: {m}"))?;
        }
        Ok(())
    })?;
    // Two edits; within a window of each other in the quick tier
    let window = t.pick(6, 40);
    for s in SEEDS.iter() {
        let all = edits_of(s);
        each(all.len() as u64, st, |i, st| {
            let a = all[i as usize];
            let x = edited(s, a);
            for b in edits_of(&x) {
                if b.0 < a.0 || b.0 > a.0 + window { continue }
                if t == Tier::Quick && (b.2 + a.2) % 4 != 0 { continue }
                let y = edited(&x, b);
                on(&y);
                st.add("inputs", 1);
                case(&y, "two edits", agrees(&y, st))?;
            }
            Ok(())
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- lazy scalars of long streams

/// Scalars across the ends of chunks, evaluated once the stream is over
pub fn lazies_long(t: Tier, st: &mut Stats) -> V {
    let b = boundaries().first().copied().unwrap_or(8192);
    let scalars = [
        "a\n  b", "'a''b\n\n  c'", "\"x\\n\\\n  \\u00e9y\"", "|\n  a\n   b\n", ">+\n  é\n  b\n\n", ">-\n  a\n\n\n  b\n\n", "|2\n   a\n", "\"\\q\"", "''", "|\n",
    ];
    let frames = [("- ", "\n- z\n"), ("k: ", "\nj: z\n"), ("- k: ", ""), ("- ? ", "\n"), ("- &a !t ", "\n...\n")];
    let n = scalars.len() * frames.len();
    let reach = t.pick(30, 90);
    each((n * reach) as u64, st, |i, st| {
        let (s, (pre, post)) = (scalars[i as usize % n / frames.len()], frames[i as usize % frames.len()]);
        let back = i as usize / n;
        let text = format!("#{}\n{pre}{s}{post}", "x".repeat(b.saturating_sub(back + 2)));
        on(&format!("{s:?} in {pre:?}, {back} bytes before the end of a chunk"));
        st.add("inputs", 1);
        let eager = run_str(&text, false);
        for answers in [vec![ALL], vec![Answer::Give(b), ONE]] {
            let (r, _) = source(text.as_bytes(), &answers);
            let how = format!("{answers:?}, {back} bytes before the end of a chunk");
            let (held, end) = case(&text, &how, collect(&r, true, text.len()))?;
            st.add("executions", 2);
            case(&text, &how, lazy_against(&eager, held, end, st))?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- marks

pub fn marks_everywhere(t: Tier, st: &mut Stats) -> V {
    explore(&marked(t), st, marks)?;
    for w in t.pick(vec![pumps::BLOCK, pumps::QUOTED], vec![pumps::BLOCK, pumps::FLOW, pumps::QUOTED, pumps::BLOCK_SCALAR, pumps::PROPERTIES]) { pumps::far(w, true, t, st)? }
    anywhere(t, t.pick(1, 0), st, marks)
}

// ---------------------------------------------------------------- endless sources

/// Events of the text which follow one, when it is delivered
const AHEAD: usize = 8;

/// The text is `pre`, and `unit` over and over. Whatever can be told from the text so far is delivered.
fn incremental(pre: &str, unit: &str, most: usize, lazy: bool, st: &mut Stats) -> Res { incremental_for(1, pre, unit, most, lazy, st) }

/// The same for some times 24,000 bytes
fn incremental_for(times: usize, pre: &str, unit: &str, most: usize, lazy: bool, st: &mut Stats) -> Res {
    let some = |n: usize| format!("{pre}{}", unit.repeat(n / unit.len() + 1));
    let short = some(12_000 * times);
    let long = some(24_000 * times + 16_000);
    let a = run_str(&short, lazy);
    let want = run_str(&long, lazy);
    // Each of flow collections which are opened without end could be a key yet
    let depth = |t: &Trace| t.evs.iter().fold((0usize, 0usize), |(d, most), e| match e.ev {
        Ev::Seq { .. } | Ev::Map { .. } => (d + 1, most.max(d + 1)),
        Ev::SeqEnd | Ev::MapEnd => (d.saturating_sub(1), most),
        _ => (d, most),
    }).1;
    if unit.contains(['[', '{']) && depth(&want) > 100 { return Ok(()) }
    // The end of the text is not where it fails
    let fails = matches!(want.end, End::Err(_)) && a == want;
    // Reading up to here is fine for an event which ends at `end`
    let fine = |end: usize| 2 * (end + 2048) + (64 << 10);
    let (r, seen) = endless(pre, unit, most, FAR * times);
    st.add("executions", 1);
    let res = guarded(|| -> Res {
        let mut it = Events::new(&r, flags(lazy)).into_iter();
        if seen.given.get() > 0 { return Err("the source was read before anything was asked for".into()) }
        let mut k = 0;
        loop {
            let item = it.next();
            let due = want.evs.get(k + AHEAD).map(|e| e.end);
            match (item, due) {
                (Some(Ok(e)), Some(due)) => {
                    let e = render(&e);
                    if e != want.evs[k] { return Err(format!("event {k} is {e:?} instead of {:?}", want.evs[k])) }
                    if seen.given.get() > fine(due) { return Err(format!("event {k} ({e:?}) is delivered after {} bytes were read, its {AHEAD} next ones end at {due}", seen.given.get())) }
                    k += 1;
                    if due > 24_000 * times { break }
                }
                (item, Some(due)) => return Err(format!("{item:?} instead of event {k} ({:?}) whose {AHEAD} next ones end at {due}; {} bytes were read", want.evs[k], seen.given.get())),
                // From here on it may go on reading, unless there is an error
                (_, None) if !fails => break,
                (Some(Ok(e)), None) => {
                    let e = render(&e);
                    if want.evs.get(k) != Some(&e) { return Err(format!("event {k} is {e:?} instead of {:?}", want.evs.get(k))) }
                    k += 1;
                }
                // It fails because of a token without end
                (Some(Err(_)), None) if seen.failed.get() => break,
                (Some(Err(e)), None) => {
                    if End::Err(err_of(&e)) != want.end || k != want.evs.len() { return Err(format!("{e:?} instead of {:?} after {} events", want.end, want.evs.len())) }
                    let calls = seen.calls.get();
                    for _ in 0..3 { if it.next().is_some() { return Err("the stream continues after its error".into()) } }
                    if seen.calls.get() != calls { return Err("the source is read after the error".into()) }
                    st.add("errors", 1);
                    break;
                }
                (None, None) => return Err(format!("the stream ended, but the source has not; {} bytes were read", seen.given.get())),
            }
        }
        st.add("events", k as u64);
        st.see("outcomes", hash_from(k as u64, &want.evs.iter().take(k.min(400)).map(|e| &e.ev).collect::<Vec<_>>()));
        if k > 100 { st.sample(|| format!("{pre:?}, {unit:?}..: {k} events, {} bytes read", seen.given.get())) }
        Ok(())
    });
    res.unwrap_or_else(|p| Err(format!("panic: {p}"))).map_err(|e| format!("repeated without end, {most} bytes at most at once (lazy {lazy}): {e}"))
}

pub fn streaming(t: Tier, st: &mut Stats) -> V {
    let words = ["a", ": ", "- ", "\n", " ", "[", "]", "{", ", ", "'b'", "\"\\n", "\"", "é", "&x ", "*x ", "!t ", "---\n", "...\n", "|\n", "#", "? "];
    explore(&[Space::new("units", &words, t.pick(3, 4))], st, |s, st| {
        if s.is_empty() { return Ok(()) }
        for lazy in [false, true] { incremental("", s, usize::MAX, lazy, st)? }
        if s.len() < t.pick(3, 5) { incremental("", s, 1, false, st)? }
        incremental("- ", s, 1000, true, st)
    })?;
    // The text in front, and the shape of what is repeated
    let fronts = ["", "- a\n", "k: v\n", "--- [", "{", "[a, {b: ", "- - \"", "%YAML 1.1\n---\n", "? ", "|\n", "- >\n", "a:\n  b:\n", "'", "# c\n"];
    let units = ["a: b\n", "- a\n", "a, ", "a: b, ", "  a\n", " - b\n", "--- a\n", "--- |\n a\n...\n", "[], ", "{}: a, ", "'a', ", "\": \"", "', '", "  c: |\n    d\n", "? a\n: b\n", "- &a !b c\n", "%TAG !e! x\n--- !e!y z\n...\n", "# c\n- a\n", "- 'a\n  b'\n", "a b c, \"d\": e, "];
    each((fronts.len() * units.len() * 6) as u64, st, |i, st| {
        let (pre, unit, how) = (fronts[i as usize / 6 % fronts.len()], units[i as usize / 6 / fronts.len()], i % 6);
        on(&format!("{pre:?}, {unit:?}.."));
        st.add("inputs", 1);
        case(unit, format!("{pre:?} and then"), incremental(pre, unit, [usize::MAX, 1, 4097][how as usize / 2], how % 2 == 1, st))
    })?;
    // Through many chunks
    each((fronts.len() * units.len()) as u64, st, |i, st| {
        let (pre, unit) = (fronts[i as usize % fronts.len()], units[i as usize / fronts.len()]);
        on(&format!("{pre:?}, {unit:?}.., for long"));
        st.add("inputs", 1);
        case(unit, format!("{pre:?} and then, for long,"), incremental_for(t.pick(40, 400), pre, unit, usize::MAX, true, st))
    })
}
