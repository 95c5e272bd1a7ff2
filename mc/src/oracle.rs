//! The predicates evaluated on each explored input.
use crate::{engine::*, grammar, model, source::*, trace::*};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use yary::{
    event::{
        types::{Event, EventData, ScalarLike, Slice},
        Events,
    },
    reader::{from_utf8, Read},
};

const BREAKS: [char; 5] = ['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}'];

pub type Res = Result<(), String>;

pub fn show(t: &Trace) -> String { format!("{} then {:?}", show_evs(&t.plain()), t.end) }
pub fn show_evs(e: &[Ev]) -> String {
    let mut s = format!("{e:?}");
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) { n -= 1 }
        s.truncate(n);
        s += "…";
    }
    s
}

pub fn differ(what: &str, a: &Trace, b: &Trace) -> String {
    let at = a.evs.iter().zip(&b.evs).position(|(x, y)| x != y).unwrap_or(a.evs.len().min(b.evs.len()));
    format!("{what}: first difference at event {at}: {:?} / {:?}; ends {:?} / {:?}", a.evs.get(at), b.evs.get(at), a.end, b.end)
}

/// The histories of events visited, and the steps between them
pub fn count_states(evs: &[Ev], st: &mut Stats) {
    let mut h = 1;
    st.add("transitions", evs.len() as u64);
    for e in evs {
        h = hash_from(h, e);
        st.see("states", h);
    }
}

/// Does the library read the input in the way the model does?
pub fn agrees(s: &str, st: &mut Stats) -> Res {
    let m = guarded(|| model::model(s)).map_err(|e| format!("HARNESS: the model failed: {e}"))?;
    count_states(&m.evs, st);
    st.add("replayed", 1);
    st.add(if m.ok { "well formed" } else { "malformed" }, 1);
    if m.ok && m.evs.len() > 7 {
        st.sample(|| format!("{s:?} => {}", show_evs(&m.evs)))
    }
    if GRAMMAR.load(Relaxed) { grammatical_model(s, &m, st)? }
    judge(&m, &run_str(s, false))?;
    // From a source, where the end of what was read is not the end of the text
    let (r, _) = source(s.as_bytes(), &[ALL]);
    judge(&m, &run_reader(&r, false, s.len())).map_err(|e| format!("from a byte source: {e}"))?;
    // Deferred, which only matters for scalars
    let r = from_utf8(s);
    let (held, end) = collect(&r, true, s.len()).map_err(|p| format!("panic (lazy): {p}"))?;
    let (mut t, mut bad) = (vec![], None);
    for e in &held {
        let e = guarded(|| render(e)).map_err(|p| format!("panic while evaluating: {p}"))?;
        if let Ev::Scalar { val: Err(e), .. } = &e.ev { bad = Some(e.clone()) }
        t.push(e)
    }
    let end = match (end, bad) {
        (End::Done, Some(e)) => End::Err(e),
        (e, _) => e,
    };
    judge(&m, &Trace { evs: t, end }).map_err(|e| format!("lazily: {e}"))
}

/// Also confirm the model by the grammar, in the thorough tier
pub static GRAMMAR: AtomicBool = AtomicBool::new(false);

/// Does the model read the input as the productions of YAML 1.2 do?
pub fn grammatical_model(s: &str, m: &model::Verdict, st: &mut Stats) -> Res {
    if !grammar::covers(s) || s.len() > 400 { return Ok(()) }
    st.add("model confirmed by the grammar", 1);
    grammar::judge(s, if m.ok { Ok(&m.evs) } else { Err(m.why.into()) }).map_err(|e| format!("HARNESS: the model deviates from the grammar: {e}"))
}

pub fn judge(m: &model::Verdict, t: &Trace) -> Res {
    match (&t.end, m.ok) {
        (End::Done, true) => {
            let evs = t.plain();
            if evs == m.evs { return Ok(()) }
            let at = evs.iter().zip(&m.evs).position(|(x, y)| x != y).unwrap_or(evs.len().min(m.evs.len()));
            Err(format!("event {at} is {:?}, expected {:?}", evs.get(at), m.evs.get(at)))
        }
        (End::Done, false) => Err(format!("accepted, but it is malformed ({}): {}", m.why, show_evs(&t.plain()))),
        (End::Err(e), true) => Err(format!("rejected ({e:?}), but it is well formed: {}", show_evs(&m.evs))),
        (End::Err(_), false) => Ok(()),
        (e, _) => Err(format!("{e:?}")),
    }
}

/// Everything an application could do with an input, without caring for the result
pub fn survives(s: &str, st: &mut Stats) -> Res {
    let bad = |t: &Trace, how: &str| match &t.end {
        End::Panic(p) => Err(format!("panic ({how}): {p}")),
        _ => Ok(()),
    };
    let a = run_str(s, false);
    bad(&a, "borrowed, eager")?;
    let b = run_str(s, true);
    bad(&b, "borrowed, lazy")?;
    let (r, _) = source(s.as_bytes(), &[ONE]);
    bad(&run_reader(&r, false, s.len()), "owned, eager")?;
    let (r, _) = source(s.as_bytes(), &[Answer::Give(3)]);
    bad(&run_reader(&r, true, s.len()), "owned, lazy")?;
    st.see("outcomes", hash_from(0, &(a.plain(), format!("{:?}", a.end))));
    st.add("executions", 4);
    if a.end == End::Done && a.evs.len() > 6 { st.sample(|| format!("{s:?} => {} events", a.evs.len())) }
    Ok(())
}

/// Formatting, comparing, evaluating and converting anything the library hands out
pub fn prints(s: &str, _: &mut Stats) -> Res {
    guarded(|| -> Res {
        use std::fmt::Write;
        let mut out = String::new();
        let mut last: Vec<Event<'_>> = vec![];
        let text = from_utf8(s);
        let again = text.clone();
        for (lazy, r) in [(false, &text), (true, &text), (false, &again)] {
            let mut all = vec![];
            let mut ev = Events::new(r, flags(lazy));
            write!(out, "{ev:?} {r:?}").unwrap();
            for (n, e) in ev.iter().enumerate() {
                if n > cap(s.len()) { break }
                out.clear();
                match e {
                    Ok(mut e) => {
                        write!(out, "{e:?}").unwrap();
                        let c = e.clone();
                        let _ = (c == e, last.get(n) == Some(&e));
                        if let EventData::Scalar(n) = e.data_mut() {
                            if let Ok(v) = n.content.evaluate_by_ref() {
                                let n = v.len() + v.as_ref().len();
                                let _ = write!(out, "{v:?} {n}");
                                v.data_mut().to_mut().push('x');
                            }
                            n.anchor = None;
                        }
                        write!(out, "{e:?}").unwrap();
                        all.push(c);
                    }
                    Err(e) => {
                        write!(out, "{e} {e:?} {} {} {} {} {:?}", e.line(), e.column(), e.at(), e.has_context(), e.classify()).unwrap();
                        let mut src = std::error::Error::source(&e);
                        while let Some(e) = src {
                            write!(out, "{e} {e:?}").unwrap();
                            src = e.source();
                        }
                        let io: std::io::Error = e.into();
                        write!(out, "{io} {io:?}").unwrap();
                        break;
                    }
                }
            }
            write!(out, "{ev:?}").unwrap();
            // The same text gives equal events
            if !lazy {
                if !last.is_empty() && last != all { return Err("events of the same text are not equal to each other".into()) }
                last = all;
            }
        }
        let (r, _) = source(s.as_bytes(), &[ALL]);
        let mut ev = Events::new(&r, flags(true));
        let _ = ev.iter().take(3).count();
        write!(out, "{ev:?} {r:?}").unwrap();
        Ok(())
    })
    .map_err(|p| format!("panic while formatting: {p}"))?
}

/// A stream ends, and stays ended
pub fn terminates(s: &str, st: &mut Stats) -> Res {
    for lazy in [false, true] {
        for owned in [false, true] {
            let go = |it: &mut dyn Iterator<Item = yary::error::Result<Event<'_>>>| -> Result<usize, String> {
                let mut n = 0;
                loop {
                    match it.next() {
                        None => break,
                        Some(Err(_)) => {
                            n += 1;
                            break;
                        }
                        Some(Ok(_)) => n += 1,
                    }
                    if n > cap(s.len()) { return Err(format!("more than {} events from {} bytes", cap(s.len()), s.len())) }
                }
                for k in 0..4 {
                    if let Some(e) = it.next() { return Err(format!("after its end (+{k}) the stream continued with {e:?}")) }
                }
                Ok(n)
            };
            let res = guarded(|| match owned {
                false => {
                    let r = from_utf8(s);
                    let mut it = Events::new(&r, flags(lazy)).into_iter();
                    go(&mut it)
                }
                true => {
                    let (r, _) = source(s.as_bytes(), &[ALL]);
                    let mut it = Events::new(&r, flags(lazy)).into_iter();
                    go(&mut it)
                }
            });
            let n = res.map_err(|p| format!("panic: {p}"))??;
            st.add("transitions", n as u64);
            st.see("lengths", hash_from(n as u64, &(s.len() as u64)));
        }
    }
    st.add("executions", 4);
    if s.len() > 3 { st.sample(|| format!("{s:?}")) }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ctx {
    Seq,
    /// Waiting for a key
    Key,
    /// Waiting for a value
    Value,
}

/// The documented grammar of the event stream
pub fn grammar(t: &Trace) -> Res {
    let mut stack: Vec<Ctx> = vec![];
    let (mut started, mut ended, mut in_doc, mut root, mut docs) = (false, false, false, false, 0);
    for (n, e) in t.evs.iter().enumerate() {
        let fail = |m: &str| Err(format!("event {n} ({:?}): {m}; stream: {}", e.ev, show(t)));
        if ended { return fail("follows the end of the stream") }
        if !started && e.ev != Ev::StreamStart { return fail("precedes the start of the stream") }
        // The place of a node, None if there can be none here
        let want = match stack.last() {
            Some(Ctx::Seq) => Some(Kind::Entry),
            Some(Ctx::Key) => Some(Kind::Key),
            Some(Ctx::Value) => Some(Kind::Value),
            None if in_doc && !root => Some(Kind::Root),
            None => None,
        };
        let mut node = |kind: Option<Kind>| -> Res {
            if want.is_none() { return fail("node outside of a document, or a second root") }
            if kind.is_some() && kind != want { return fail(&format!("its kind should be {want:?}")) }
            match stack.last_mut() {
                Some(c @ Ctx::Key) => *c = Ctx::Value,
                Some(c @ Ctx::Value) => *c = Ctx::Key,
                Some(Ctx::Seq) => {}
                None => root = true,
            }
            Ok(())
        };
        match &e.ev {
            Ev::StreamStart => {
                if started { return fail("second start of the stream") }
                started = true
            }
            Ev::StreamEnd => {
                if in_doc { return fail("inside of a document") }
                if docs == 0 { return fail("no documents") }
                ended = true;
            }
            Ev::DocStart { tags, .. } => {
                if in_doc { return fail("inside of a document") }
                if !tags.contains_key("!") || !tags.contains_key("!!") { return fail("no default handles") }
                in_doc = true;
                root = false;
                docs += 1;
            }
            Ev::DocEnd { .. } => {
                if !in_doc || !stack.is_empty() { return fail("no document to end, or open collections") }
                in_doc = false;
            }
            Ev::Alias(_) => node(None)?,
            Ev::Scalar { kind, .. } => node(Some(*kind))?,
            Ev::Map { kind, .. } => {
                node(Some(*kind))?;
                stack.push(Ctx::Key)
            }
            Ev::Seq { kind, .. } => {
                node(Some(*kind))?;
                stack.push(Ctx::Seq)
            }
            Ev::MapEnd => if stack.pop() != Some(Ctx::Key) { return fail("not in a mapping, or a key without a value") },
            Ev::SeqEnd => if stack.pop() != Some(Ctx::Seq) { return fail("not in a sequence") },
        }
    }
    match t.end {
        End::Done if !ended => Err(format!("the stream stopped without an end: {}", show(t))),
        End::Err(_) if ended => Err(format!("error after the end of the stream: {}", show(t))),
        End::Panic(_) | End::Runaway => Err(format!("{:?}", t.end)),
        _ => Ok(()),
    }
}

pub fn grammatical(s: &str, st: &mut Stats) -> Res {
    for lazy in [false, true] {
        let t = run_str(s, lazy);
        count_states(&t.plain(), st);
        st.add("executions", 1);
        if t.end == End::Done && t.evs.len() > 8 { st.sample(|| format!("{s:?} => {}", show_evs(&t.plain()))) }
        grammar(&t).map_err(|e| format!("{} {e}", if lazy { "lazy:" } else { "eager:" }))?;
    }
    Ok(())
}

/// Marks never run backwards, nor out of the input, and end where the node does
pub fn marks(s: &str, st: &mut Stats) -> Res {
    let t = run_str(s, false);
    st.add("executions", 1);
    st.see("outcomes", hash_from(0, &t.evs.iter().map(|e| (e.start, e.end)).collect::<Vec<_>>()));
    if s.len() > 4096 {
        // The same marks, from a source
        let o = run_reader(&source(s.as_bytes(), &[ALL]).0, true, s.len());
        if o.evs.iter().zip(&t.evs).any(|(a, b)| (a.start, a.end) != (b.start, b.end)) { return Err(differ("marks from memory and from a byte source", &t, &o)) }
    }
    marks_of(s, &t)?;
    if t.end == End::Done && t.evs.len() > 6 { st.sample(|| format!("{s:?} => {:?}", t.evs.iter().map(|e| (e.start, e.end)).collect::<Vec<_>>())) }
    Ok(())
}
pub fn marks_of(s: &str, t: &Trace) -> Res {
    if let End::Panic(_) | End::Runaway = t.end { return Err(format!("{:?}", t.end)) }
    let mut last = 0;
    let mut flow: Vec<bool> = vec![];
    for (n, e) in t.evs.iter().enumerate() {
        let fail = |m: &str| Err(format!("event {n} ({:?}) is marked {}..{}: {m}", e.ev, e.start, e.end));
        if e.start > e.end { return fail("it ends before it starts") }
        if e.end > s.len() { return fail(&format!("beyond the {} bytes of input", s.len())) }
        if e.start < last { return fail(&format!("it starts before the previous mark ({last})")) }
        last = e.end;
        let Some(before) = s.get(..e.end) else { return fail("it ends within a code point") };
        if s.get(..e.start).is_none() { return fail("it starts within a code point") }
        match &e.ev {
            Ev::Scalar { anchor, tag, .. } | Ev::Seq { anchor, tag, .. } | Ev::Map { anchor, tag, .. } => {
                let was = &s[..e.start];
                let props = anchor.as_ref().is_some_and(|a| was.ends_with(&format!("&{a}")) || was.ends_with('!')) || tag.as_ref().is_some_and(|(_, x)| was.ends_with(&**x) || was.ends_with('>') || was.ends_with('!') || has_escapes(was));
                if (anchor.is_some() || tag.is_some()) && !props { return fail("it does not start after its properties") }
                if anchor.is_none() && tag.is_none() && e.start != e.end && !s.contains('!') { return fail("a node without properties covers more than its end") }
            }
            _ => {}
        }
        match &e.ev {
            Ev::Seq { .. } => flow.push(before.ends_with('[') && !s[e.end..].starts_with('-')),
            Ev::Map { .. } => flow.push(before.ends_with('{') && !s[e.end..].starts_with('?')),
            _ => {}
        }
        match &e.ev {
            Ev::Scalar { val: Ok((v, Style::Plain)), .. } if !v.is_empty() => {
                let w = v.rsplit([' ', '\t', '\n']).next().unwrap();
                if !before.ends_with(w) { return fail("it does not end after its text") }
            }
            Ev::Scalar { val: Ok((_, Style::Single)), .. } if !before.ends_with('\'') => return fail("it does not end after its quote"),
            Ev::Scalar { val: Ok((_, Style::Double)), .. } if !before.ends_with('"') => return fail("it does not end after its quote"),
            Ev::Alias(a) if !before.ends_with(&format!("*{a}")) => return fail("it does not end after its name"),
            Ev::Seq { .. } if !before.ends_with('[') && !s[e.end..].starts_with('-') => return fail("neither after a bracket, nor at an entry"),
            Ev::DocStart { implicit: false, .. } if !before.ends_with("---") => return fail("not after its marker"),
            Ev::DocEnd { implicit: false } if !before.ends_with("...") => return fail("not after its marker"),
            Ev::SeqEnd if flow.pop() == Some(true) && !before.ends_with(']') => return fail("not after its bracket"),
            Ev::MapEnd if flow.pop() == Some(true) && !before.ends_with('}') => return fail("not after its brace"),
            _ => {}
        }
    }
    if t.end == End::Done && last != s.len() { return Err(format!("the stream ends at {last}, not at {}", s.len())) }
    Ok(())
}

/// Pull everything, without looking at it
pub fn collect<'de, R: Read>(r: &'de R, lazy: bool, len: usize) -> Result<(Vec<Event<'de>>, End), String> {
    guarded(|| {
        let mut out = vec![];
        for e in Events::new(r, flags(lazy)) {
            match e {
                Ok(e) => out.push(e),
                Err(e) => return (out, End::Err(err_of(&e))),
            }
            if out.len() > cap(len) { return (out, End::Runaway) }
        }
        (out, End::Done)
    })
}

/// Deferring the evaluation of scalars changes nothing but when it happens
pub fn lazy_same(s: &str, st: &mut Stats) -> Res {
    let e = run_str(s, false);
    let r = from_utf8(s);
    let (held, end) = collect(&r, true, s.len()).map_err(|p| format!("panic (lazy): {p}"))?;
    st.add("executions", 2);
    lazy_against(&e, held, end, st)?;
    if e.end == End::Done && e.evs.len() > 6 { st.sample(|| format!("{s:?} => {}", show_evs(&e.plain()))) }
    let r = from_utf8(s);
    let (held, _) = collect(&r, false, s.len()).map_err(|p| format!("panic (eager): {p}"))?;
    for h in &held {
        if let EventData::Scalar(n) = h.data() {
            if n.content.is_unevaluated() { return Err(format!("scalar {h:?} was deferred without being asked to")) }
        }
    }
    Ok(())
}

pub fn lazy_against(eager: &Trace, held: Vec<Event<'_>>, end: End, st: &mut Stats) -> Res {
    let mut lazy = Trace { evs: vec![], end };
    let mut bad = None;
    for (n, e) in held.into_iter().enumerate() {
        let m = guarded(|| render(&e)).map_err(|p| format!("panic while evaluating: {p}"))?;
        if let (EventData::Scalar(node), Ev::Scalar { val, .. }) = (e.data(), &m.ev) {
            one_scalar(&node.content, val)?;
            st.see("scalars", hash_from(0, val));
            if val.is_err() && bad.is_none() { bad = Some(n) }
        }
        lazy.evs.push(m);
    }
    match (&eager.end, &lazy.end, bad) {
        (End::Done, End::Done, None) if eager.evs == lazy.evs => Ok(()),
        (End::Err(_), End::Done, Some(_)) | (End::Err(_), End::Err(_), _) => {
            let same = eager.evs.len().min(lazy.evs.len());
            if eager.evs[..same] == lazy.evs[..same] && eager.evs.len() <= lazy.evs.len() { return Ok(()) }
            Err(differ("before the error, eager and lazy events differ", eager, &lazy))
        }
        _ => Err(differ("eager and lazy results differ", eager, &lazy)),
    }
}

/// All of the ways to evaluate a scalar agree
fn one_scalar(s: &ScalarLike<'_>, val: &Result<(String, Style), Err>) -> Res {
    guarded(|| {
        let deferred = s.is_unevaluated();
        if deferred == s.is_evaluated() { return Err("is_evaluated contradicts is_unevaluated".to_string()) }
        match val {
            // Only scalars implied by the structure of the document come evaluated
            Ok((v, st)) if !deferred && (!v.is_empty() || *st != Style::Plain) => return Err(format!("{val:?} was not deferred")),
            _ => {}
        }
        let mut c = s.clone();
        let first = c.evaluate_by_ref().map(|s| (s.data().to_string(), style(s.style()))).map_err(|e| err_of(&e));
        if &first != val { return Err(format!("evaluate says {val:?}, evaluate_by_ref {first:?}")) }
        if c.is_unevaluated() { return Err("evaluate_by_ref left it unevaluated".into()) }
        let again = c.evaluate_by_ref().map(|s| s.data().to_string()).map_err(|e| err_of(&e));
        let want = match val {
            Ok((v, _)) => v.clone(),
            Err(_) => String::new(),
        };
        if again.as_ref() != Ok(&want) { return Err(format!("evaluated again, {val:?} became {again:?}")) }
        if let ScalarLike::Lazy(l) = s.clone() {
            let l = l.evaluate().map(|s| (s.data().to_string(), style(s.style()))).map_err(|e| err_of(&e));
            if &l != val { return Err(format!("evaluate says {val:?}, the lazy scalar {l:?}")) }
        }
        Ok(())
    })
    .map_err(|p| format!("panic while evaluating: {p}"))?
}

/// Is there anything that has to be decoded in a tag?
fn has_escapes(s: &str) -> bool { s.as_bytes().windows(3).any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit()) }

/// Text that needs no processing is not copied, and what is not copied is part of the input
pub fn borrows(s: &str, st: &mut Stats) -> Res {
    let escapes = has_escapes(s);
    for lazy in [false, true] {
        st.add("executions", 1);
        let r = from_utf8(s);
        let (held, end) = collect(&r, lazy, s.len()).map_err(|p| format!("panic: {p}"))?;
        if let End::Panic(_) | End::Runaway = end { return Err(format!("{end:?}")) }
        let inside = |c: &Slice<'_>| {
            let (a, n) = (c.as_ptr() as usize, c.len());
            let base = s.as_ptr() as usize;
            a >= base && a + n <= base + s.len()
        };
        // A name is never processed
        let name = |c: &Slice<'_>, what: &str, verbatim: bool| -> Res {
            match c {
                Slice::Borrowed(b) if b.is_empty() => Ok(()),
                Slice::Borrowed(b) if inside(c) => {
                    let at = b.as_ptr() as usize - s.as_ptr() as usize;
                    if &s[at..at + b.len()] != *b { return Err("impossible".into()) }
                    Ok(())
                }
                Slice::Borrowed(b) => if *b == "!" || *b == "!!" || *b == "tag:yaml.org,2002:" { Ok(()) } else { Err(format!("{what} {b:?} is borrowed, but not from the input")) },
                Slice::Owned(o) => if verbatim { Err(format!("{what} {o:?} was copied")) } else { Ok(()) },
            }
        };
        for e in held {
            let tag = |t: &Option<(Slice<'_>, Slice<'_>)>| -> Res {
                if let Some((h, x)) = t {
                    // What was decoded is copied, together with its handle
                    let decoded = escapes;
                    name(h, "tag handle", !decoded)?;
                    name(x, "tag suffix", !decoded)?;
                }
                Ok(())
            };
            let end = e.end();
            match e.data() {
                EventData::Alias(a) => name(&a.name, "alias", true)?,
                EventData::MappingStart(n) => {
                    if let Some(a) = &n.anchor { name(a, "anchor", true)? }
                    tag(&n.tag)?
                }
                EventData::SequenceStart(n) => {
                    if let Some(a) = &n.anchor { name(a, "anchor", true)? }
                    tag(&n.tag)?
                }
                EventData::DocumentStart(d) => for (h, p) in &d.directives.tags {
                    let decoded = escapes;
                    name(h, "handle", !decoded)?;
                    name(p, "prefix", !decoded)?;
                },
                EventData::Scalar(n) => {
                    if let Some(a) = &n.anchor { name(a, "anchor", true)? }
                    tag(&n.tag)?;
                    let Ok(v) = n.content.clone().evaluate() else { continue };
                    let d = v.data();
                    let lent = matches!(d, Slice::Borrowed(_));
                    st.add(if lent { "borrowed" } else { "copied" }, 1);
                    st.see("borrowed text", hash_from(lent as u64, &(&**d, end)));
                    // Is the text right there in the source?
                    let before = &s[..end];
                    let plainly = match style(v.style()) {
Style::Plain => before.ends_with(&**d),
                        Style::Single => before.ends_with(&format!("'{}'", &**d)),
                        Style::Double => before.ends_with(&format!("\"{}\"", &**d)),
                        _ => false,
                    } && !d.contains(BREAKS) && !d.contains(['\\', '\'']);
                    name(d, "scalar", plainly)?;
                    if plainly && !d.is_empty() { st.sample(|| format!("{s:?}: {:?} is borrowed", &**d)) }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

/// Errors fall into the documented categories
pub fn categories(s: &str, st: &mut Stats) -> Res {
    let m = guarded(|| model::model(s)).map_err(|e| format!("HARNESS: the model failed: {e}"))?;
    let r = from_utf8(s);
    let res = guarded(|| {
        for (n, e) in Events::new(&r, flags(false)).into_iter().enumerate() {
            if n > cap(s.len()) { return Err("runaway".to_string()) }
            let Err(e) = e else { continue };
            let cat: Cat = e.classify().into();
            let msg = e.to_string();
            if msg.is_empty() { return Err("the error has no message".into()) }
            let io: std::io::Error = e.into();
            let want = match cat {
                Cat::Syntax => std::io::ErrorKind::InvalidInput,
                Cat::Data => std::io::ErrorKind::InvalidData,
                Cat::EOF => std::io::ErrorKind::UnexpectedEof,
                Cat::IO => return Err(format!("IO error ({msg}) from memory")),
            };
            if io.kind() != want { return Err(format!("{cat:?} error ({msg}) became {:?}", io.kind())) }
            if io.to_string().is_empty() { return Err("the converted error has no message".into()) }
            return Ok(Some((cat, msg)));
        }
        Ok(None)
    })
    .map_err(|p| format!("panic: {p}"))??;
    st.add("executions", 1);
    let Some((cat, msg)) = res else { return Ok(()) };
    st.see("outcomes", hash_from(cat as u64, &(msg.as_str(), m.why)));
    st.sample(|| format!("{s:?} => {cat:?}: {msg}"));
    let unfinished = [
        "end of stream in a scalar", "end of stream in an escape", "bad handle", "bad prefix", "bad tag escape", "bad verbatim tag", "bad version",
    ];
    let must_eof = m.lexical && (m.why.starts_with("end of stream"));
    if must_eof && cat != Cat::EOF { return Err(format!("the input ends within a scalar, but the error is {cat:?}: {msg}")) }
    if cat == Cat::EOF && m.lexical && !unfinished.contains(&m.why) { return Err(format!("{cat:?} ({msg}), but the input does not end within a token ({})", m.why)) }
    if cat == Cat::Data { return Err(format!("{cat:?} ({msg}) for a syntax error ({})", m.why)) }
    Ok(())
}

/// Causes of the model which are the same rule to the library, with an example of each
const RULES: &[(&[&str], &str)] = &[
    (&["bad anchor", "empty anchor"], "a: & b\n"),
    (&["bad escape", "not a code point", "bad tag escape", "unknown escape"], "\"\\y\"\n"),
    (&["bad handle"], "%TAG e x\n--- a\n"),
    (&["bad prefix"], "%TAG !e!\n--- a\n"),
    (&["bad verbatim tag", "tag without a suffix", "text touches a tag"], "!<a b\n"),
    (&["bad version"], "%YAML a\n--- a\n"),
    (&["missing ':'", "block scalar is not indented"], "a:\nb\n"),
    (&["cannot start a token", "text after a document end marker", "not in a flow collection"], "a: @b\n"),
    (&["directives within a document", "missing document start"], "'a'\n'b'\n"),
    (&["document marker in a scalar"], "\"a\n---\n\"\n"),
    (&["duplicate tag"], "%TAG !e! a\n%TAG !e! b\n--- c\n"),
    (&["duplicate version"], "%YAML 1.2\n%YAML 1.2\n--- a\n"),
    (&["empty lines more indented than the text", "text after a block scalar header"], "| a\n b\n"),
    (&["entry not allowed here"], "a: - b\n"),
    (&["key not allowed here"], "a: ? b\n"),
    (&["value not allowed here"], "'a\n b': c\n"),
    (&["tab as indentation", "not where a key may be"], "|2\n\ta\n"),
    (&["undefined tag"], "!e!a b\n"),
    (&["unknown directive"], "%A\n--- a\n"),
    (&["missing entry"], "- a\nb: c\n"),
    (&["missing key"], "a: b\n- c\n"),
    (&["missing node"], "[a: b, }\n"),
    (&["missing ',' or ']'"], "['a' 'b']\n"),
    (&["missing ',' or '}'"], "{'a' 'b'}\n"),
    (&["end of stream in a scalar", "end of stream in an escape"], "'a"),
];

/// What the error of each cause says, by the examples
pub fn says(why: &str) -> &'static str {
    static SAYS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let says = SAYS.get_or_init(|| {
        RULES.iter().map(|(_, s)| match run_str(s, false).end { End::Err(e) => e.msg, e => format!("{e:?}") }).collect()
    });
    RULES.iter().position(|(w, _)| w.contains(&why)).map_or("", |i| &says[i])
}

/// The examples themselves: every cause is rejected, and told apart
pub fn examples(st: &mut Stats) -> Result<(), crate::engine::Violation> {
    use crate::worlds::case;
    for (i, (w, s)) in RULES.iter().enumerate() {
        let m = model::model(s);
        if !w.contains(&m.why) || !m.ahead.is_empty() { return case(s, "example", Err(format!("HARNESS: the model says {}, not {w:?}", m.why))) }
        let End::Err(e) = run_str(s, false).end else { return case(s, "example", Err(format!("is not rejected ({})", m.why))) };
        st.add("inputs", 1);
        st.add("executions", 1);
        if let Some(j) = (0..i).find(|j| says(RULES[*j].0[0]) == e.msg) {
            return case(s, "example", Err(format!("the error for {:?} is the one for {:?}: {}", w[0], RULES[j].0[0], e.msg)));
        }
    }
    Ok(())
}

/// The error names the rule which was broken first
pub fn causes(s: &str, st: &mut Stats) -> Res {
    let m = guarded(|| model::model(s)).map_err(|e| format!("HARNESS: the model failed: {e}"))?;
    if m.ok { return Ok(()) }
    let t = run_str(s, false);
    st.add("executions", 1);
    let End::Err(e) = &t.end else { return Ok(()) };
    st.see("outcomes", hash_from(0, &(e.msg.as_str(), m.why, m.ahead)));
    st.sample(|| format!("{s:?}: {} => {}", m.why, e.msg));
    let may_end = ["bad handle", "bad prefix", "bad tag escape", "bad verbatim tag", "bad version"];
    let end = "end of stream in a scalar";
    let want = [says(m.why), says(m.ahead)];
    if want.contains(&e.msg.as_str()) || e.msg == says(end) && (may_end.contains(&m.why) || may_end.contains(&m.ahead)) { return Ok(()) }
    Err(format!("the error is {:?}, but the cause is: {}, for which other text gets {:?}{}", e.msg, m.why, want[0], if m.ahead.is_empty() { String::new() } else { format!(" ({} behind)", m.ahead) }))
}

/// What is delivered before an error is what the text up to there means
pub fn delivered(s: &str, st: &mut Stats) -> Res {
    let m = guarded(|| model::model(s)).map_err(|e| format!("HARNESS: the model failed: {e}"))?;
    if m.ok { return Ok(()) }
    let t = run_str(s, false);
    st.add("executions", 1);
    let evs = t.plain();
    st.see("outcomes", hash_from(evs.len() as u64, &m.evs));
    st.sample(|| format!("{s:?} => {} of {} events before: {}", evs.len(), m.evs.len(), m.why));
    st.add("events before errors", evs.len() as u64);
    // Complete documents are delivered
    let complete = (1..m.evs.len())
        .rev()
        .find(|i| matches!(m.evs[*i], Ev::DocEnd { implicit: false }) || matches!((&m.evs[*i - 1], &m.evs[*i]), (Ev::DocEnd { .. }, Ev::DocStart { implicit: false, .. })))
        .unwrap_or(0);
    if evs.len() < complete { return Err(format!("{} events are delivered, although the {complete} of complete documents precede the error ({})", evs.len(), m.why)) }
    if evs.len() > m.evs.len() { return Err(format!("{:?} is delivered, although the error precedes it ({})", evs[m.evs.len()], m.why)) }
    let n = evs.len().min(m.evs.len());
    match (0..n).find(|i| evs[*i] != m.evs[*i]) {
        None => Ok(()),
        Some(i) => Err(format!("event {i} is {:?}, expected {:?} before the error ({})", evs[i], m.evs[i], m.why)),
    }
}
