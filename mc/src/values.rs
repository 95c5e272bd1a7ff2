//! What is delivered are values: they are compared, cloned, edited and
//! evaluated by a consumer, in any order, with the documented effect only.
use crate::{engine::*, oracle::*, source::*, spaces::*, trace::*, trees, worlds::case};
use yary::{
    event::{
        flag::{Flags, O_LAZY, O_NIL},
        from_reader, from_reader_with,
        types::{Event, EventData, NodeKind, ScalarLike, ScalarStyle, Slice, DEFAULT_TAGS, DEFAULT_VERSION, EMPTY_SCALAR},
        Events,
    },
    reader::{from_utf8, Read},
};

type V = Result<(), Violation>;

// ---------------------------------------------------------------- flags

const FLAG_OPS: [&str; 14] = ["new", "nil", "lazy", "no_lazy", "| O_LAZY", "| O_NIL", "- O_LAZY", "- O_NIL", "^ O_LAZY", "& O_LAZY", "insert", "remove", "default", "toggle"];

fn flag_op(op: usize, mut f: Flags, mut m: bool) -> (Flags, bool) {
    match op {
        0 => { f = Flags::new(); m = false }
        1 => { f = f.nil(); m = false }
        2 => { f = f.lazy(); m = true }
        3 => { f = f.no_lazy(); m = false }
        4 => { f = f | O_LAZY; m = true }
        5 => f = f | O_NIL,
        6 => { f = f - O_LAZY; m = false }
        7 => f = f - O_NIL,
        8 => { f = f ^ O_LAZY; m = !m }
        9 => f = f & O_LAZY,
        10 => { f.insert(O_LAZY); m = true }
        11 => { f.remove(O_LAZY); m = false }
        12 => { f = Flags::default(); m = false }
        _ => { f.toggle(O_LAZY); m = !m }
    }
    (f, m)
}

/// Every sequence of operations on flags; what it asks for is what is done
fn flags_everywhere(t: Tier, st: &mut Stats) -> V {
    let depth = t.pick(4, 5);
    let n = FLAG_OPS.len() as u64;
    const TEXT: &str = "- \"a\\n\"\n- 'b'\n- c d\n- |\n  e\n- [f, \"\\x41\"]\n";
    for len in 0..=depth {
        each(n.pow(len), st, |mut i, st| {
            let (mut f, mut m) = (Flags::new(), false);
            let mut names = vec![];
            for _ in 0..len {
                let op = (i % n) as usize;
                i /= n;
                names.push(FLAG_OPS[op]);
                (f, m) = flag_op(op, f, m);
            }
            let name = format!("flags: {}", names.join(", "));
            on(&name);
            st.add("executions", 1);
            let res = guarded(|| -> Res {
                if f.contains(O_LAZY) != m || (f == O_LAZY) != m || (f == O_NIL) == m || f.is_empty() == m { return Err(format!("lazy should be {m}, the flags are {f:?}")) }
                let r = from_utf8(TEXT);
                let mut deferred = 0;
                for e in from_reader_with(&r, f) {
                    if let EventData::Scalar(s) = e.map_err(|e| e.to_string())?.data() { deferred += s.content.is_unevaluated() as u32 }
                }
                if deferred != if m { 6 } else { 0 } { return Err(format!("lazy should be {m}, {deferred} scalars were deferred")) }
                Ok(())
            });
            case(&name, "flags", res.unwrap_or_else(|p| Err(format!("panic: {p}"))))
        })?;
    }
    // Eager is the default
    let r = from_utf8(TEXT);
    for e in from_reader(&r).into_iter().flatten() {
        if let EventData::Scalar(s) = e.data() { case(TEXT, "from_reader", if s.content.is_evaluated() { Ok(()) } else { Err("a scalar was deferred without being asked to".into()) })? }
    }
    Ok(())
}

// ---------------------------------------------------------------- scalars

/// What a scalar is, as far as a consumer knows
#[derive(Clone, Debug, PartialEq)]
enum Known {
    Deferred(Result<(String, Style), Err>),
    Value(String, Style),
}

const SCALAR_OPS: [&str; 12] = [
    "evaluate a clone", "evaluate", "evaluate in place", "evaluate in place and edit", "clone", "take", "compare with its clone", "compare with empty", "swap with a clone and evaluate that", "unwrap what is deferred", "replace by default",
    "edit a clone",
];

fn scalar_op<'de>(op: usize, s: ScalarLike<'de>, k: Known) -> Result<(ScalarLike<'de>, Known), String> {
    let value = |k: &Known| match k {
        Known::Deferred(r) => r.clone(),
        Known::Value(v, st) => Ok((v.clone(), *st)),
    };
    let said = |r: Result<&yary::event::types::Scalar<'_>, &yary::Error>| r.map(|s| (s.data().to_string(), style(s.style()))).map_err(err_of);
    let is = |got: Result<(String, Style), Err>, want: &Result<(String, Style), Err>| if &got == want { Ok(()) } else { Err(format!("{want:?} became {got:?}")) };
    // What is left in place of a scalar which was evaluated there
    let settled = |k: &Known| match value(k) {
        Ok((v, st)) => Known::Value(v, st),
        Err(_) => Known::Value(String::new(), Style::Plain),
    };
    let mut s = s;
    match op {
        0 => {
            let c = s.clone().evaluate();
            is(said(c.as_ref()), &value(&k))?;
            if let Ok(c) = c {
                let (v, _) = value(&k).unwrap();
                if &*c != v.as_str() || c.as_ref() != v.as_str() || &**c.data() != v.as_str() || c.len() != v.len() { return Err(format!("{c:?} is not {v:?} in every way")) }
            }
            Ok((s, k))
        }
        1 => match s.evaluate() {
            Ok(c) => {
                is(said(Ok(&c)), &value(&k))?;
                let k = settled(&k);
                Ok((ScalarLike::Eager(c), k))
            }
            Err(e) => {
                is(said(Err(&e)), &value(&k))?;
                Ok((ScalarLike::empty(), Known::Value(String::new(), Style::Plain)))
            }
        },
        2 => {
            let r = s.evaluate_by_ref();
            is(said(r.as_ref().map(|s| &**s)), &value(&k))?;
            let k = settled(&k);
            Ok((s, k))
        }
        3 => {
            let r = s.evaluate_by_ref();
            is(said(r.as_ref().map(|s| &**s)), &value(&k))?;
            let mut k = settled(&k);
            if let Ok(c) = r {
                c.data_mut().to_mut().push('é');
                if let Known::Value(v, _) = &mut k { v.push('é') }
            }
            Ok((s, k))
        }
        4 => Ok((s.clone(), k)),
        5 => {
            let taken = std::mem::take(&mut s);
            if s != EMPTY_SCALAR || s.is_unevaluated() { return Err(format!("{s:?} was left behind")) }
            Ok((taken, k))
        }
        6 => {
            let want = matches!(k, Known::Value(..));
            let c = s.clone();
            if (s == c) != want || (c == s) != want { return Err(format!("equality of {s:?} with its clone is not {want}")) }
            Ok((s, k))
        }
        7 => {
            let want = k == Known::Value(String::new(), Style::Plain);
            if (s == EMPTY_SCALAR) != want || (ScalarLike::default() == s) != want { return Err(format!("equality of {s:?} with the empty scalar is not {want}")) }
            Ok((s, k))
        }
        8 => {
            let mut c = s.clone();
            std::mem::swap(&mut s, &mut c);
            let r = c.evaluate_by_ref();
            is(said(r.as_ref().map(|s| &**s)), &value(&k))?;
            if let Ok(c) = r { c.data_mut().to_mut().clear() }
            Ok((s, k))
        }
        9 => match s {
            ScalarLike::Lazy(l) => {
                let c = l.clone().evaluate();
                is(said(c.as_ref()), &value(&k))?;
                let r = l.evaluate();
                is(said(r.as_ref()), &value(&k))?;
                let k = settled(&k);
                Ok((r.map(ScalarLike::Eager).unwrap_or_default(), k))
            }
            ScalarLike::Eager(e) => {
                is(said(Ok(&e)), &value(&k))?;
                let style = e.style();
                if e != e.clone() || e.style() != style { return Err(format!("{e:?} is not its clone")) }
                Ok((ScalarLike::Eager(e), k))
            }
        },
        10 => Ok((ScalarLike::default(), Known::Value(String::new(), Style::Plain))),
        _ => {
            let mut c = s.clone();
            if let Ok(c) = c.evaluate_by_ref() { *c.data_mut() = Slice::Borrowed("edited") }
            if s.is_evaluated() && value(&k).map(|v| v.0 != "edited").unwrap_or(true) && s == c { return Err(format!("editing a clone of {s:?} changed it")) }
            Ok((s, k))
        }
    }
}

const SCALARS: &[&str] = &[
    "", "a", "a b", "a\n b", "a\n\n b c", "é😀", "'a'", "'a''b'", "'a\n  b'", "''", "\"a\"", "\"a\\n\"", "\"\\x41\\u00e9\\U0001F600\"", "\"a\n  b\\\n  c\"", "\"\"", "|\n a\n", "|-\n a\n\n", "|+2\n   a\n\n", ">\n a\n b\n\n c\n", ">+\n a\n  b\n\n", "|", "\"\\q\"",
    "\"a\\xZZ\"", "\"\\uD800\"", "\"\\U00110000\"", "\"a\n---\nb\"", "'a\n...\nb'", "[a b]", "[\"\\n\"]", "{'a':b}", "? |\n  a\n: >-\n  b\n", "!t 'a'", "&x \"\\t\"", "[\"\\x4\"]", "|1\n  a\n b",
];

/// Every sequence of operations on every scalar of these texts
fn scalars_everywhere(t: Tier, st: &mut Stats) -> V {
    let depth = t.pick(4u32, 5);
    let n = SCALAR_OPS.len() as u64;
    for len in 0..=depth {
        each(n.pow(len) * SCALARS.len() as u64 * 2, st, |mut i, st| {
            let lazy = i % 2 == 1;
            i /= 2;
            let text = SCALARS[(i % SCALARS.len() as u64) as usize];
            i /= SCALARS.len() as u64;
            let ops: Vec<usize> = (0..len).map(|k| ((i / n.pow(k)) % n) as usize).collect();
            let name = || format!("{}: {}", if lazy { "lazy" } else { "eager" }, ops.iter().map(|o| SCALAR_OPS[*o]).collect::<Vec<_>>().join(", "));
            on(text);
            st.add("executions", 1);
            let res = guarded(|| -> Res {
                let r = from_utf8(text);
                for e in Events::new(&r, flags(lazy)).into_iter().flatten() {
                    let EventData::Scalar(node) = e.data() else { continue };
                    let mut s = node.content.clone();
                    let mut k = if s.is_unevaluated() {
                        Known::Deferred(scalar_val(s.clone()))
                    } else {
                        let (v, y) = scalar_val(s.clone()).map_err(|e| format!("an evaluated scalar has an error: {e:?}"))?;
                        Known::Value(v, y)
                    };
                    for op in &ops {
                        (s, k) = scalar_op(*op, s, k)?;
                        let deferred = matches!(k, Known::Deferred(_));
                        if s.is_unevaluated() != deferred || s.is_evaluated() == deferred || matches!(s, ScalarLike::Lazy(_)) != deferred { return Err(format!("{s:?} should {}be deferred", if deferred { "" } else { "not " })) }
                    }
                    st.see("outcomes", hash_from(lazy as u64, &format!("{k:?}")));
                    // In the end it is what is known about it, and the event is what it was
                    let want = match k { Known::Deferred(r) => r, Known::Value(v, y) => Ok((v, y)) };
                    let got = scalar_val(s);
                    if got != want { return Err(format!("it ends as {got:?} instead of {want:?}")) }
                }
                Ok(())
            });
            let res = res.unwrap_or_else(|p| Err(format!("panic: {p}")));
            if len > 2 && !text.is_empty() && lazy { st.sample(|| format!("{text:?}, {}", name())) }
            res.map_err(|what| Violation { input: text.to_string(), what: format!("{}: {what}", name()) })
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- equality

/// Events of any two texts are equal exactly if nothing about them differs
fn equality(t: Tier, st: &mut Stats) -> V {
    let space = Space::new("compared", &["a", "b", ": ", "- ", "\n", " ", "'a'", "\"a\"", "[", "]", "{", "}", "&a ", "&b ", "*a", "*b", "!a ", "!b ", "!!a ", "|\n a\n", ">\n a\n", "---\n", "...\n", "%YAML 1.1\n", "%TAG !e! x\n", "%TAG !e! y\n", "? "], 2);
    let mut texts = crate::worlds::words(&space);
    let more = ["a: b", "a:  b", "a : b", "- a: b", "- a:\n  - b", "[a: b]", "[a, b]", "[a,  b]", "{a: b}", "{a}", "&a a", "&a !a a", "!a &a a", "!a a", "!<a> a", "&a [a]", "&a {a: b}", "!a {a: b}", "&a\na: b", "- - a", "- a\n- b", "? a\n: b", "? a", "a:", "--- a", "--- a\n...", "a\n...", "%YAML 1.2\n--- a", "%YAML 1.1\n--- a",
        "%TAG !e! x\n--- a", "%TAG !e! y\n--- a", "%TAG !f! x\n--- a", "%TAG !e! x\n--- !e!a b", "%TAG !e! y\n--- !e!a b", "a\n--- a", "\"\\x61\"", "'a b'", "a b", "a\n b", "> \n a\n b", "|\n  a\n", "|-\n a", ">-\n a"];
    texts.extend(more.iter().map(|s| s.to_string()));
    texts.sort();
    texts.dedup();
    let readers: Vec<_> = texts.iter().map(|s| from_utf8(s)).collect();
    // One of each, and where it comes from
    let mut all: Vec<(MarkedEv, Event<'_>, usize)> = vec![];
    let mut seen = std::collections::HashSet::new();
    let deepest = t.pick(2500usize, 8000);
    for (k, r) in readers.iter().enumerate() {
        for lazy in [false, true] {
            for e in Events::new(r, flags(lazy)).into_iter().flatten() {
                let m = render(&e);
                let deferred = matches!(e.data(), EventData::Scalar(n) if n.content.is_unevaluated());
                // Two of the same, from different texts, are kept
                let key = (format!("{m:?}"), deferred);
                let second = (format!("{m:?} again"), deferred);
                if seen.insert(key) || (deferred == lazy && seen.insert(second)) { all.push((m, e, k)) }
            }
        }
    }
    all.truncate(deepest);
    st.add("events compared", all.len() as u64);
    let n = all.len();
    for i in 0..n {
        on(&texts[all[i].2]);
        let (a, x, from) = &all[i];
        for (b, y, other) in &all[i..] {
            let deferred = |e: &Event<'_>| matches!(e.data(), EventData::Scalar(n) if n.content.is_unevaluated());
            let want = a == b && !deferred(x) && !deferred(y);
            st.add("executions", 1);
            if (x == y) != want || (y == x) != want || (x != y) == want {
                return Err(Violation { input: texts[*from].clone(), what: format!("{x:?} and {y:?} of {:?} should {}be equal", texts[*other], if want { "" } else { "not " }) });
            }
            if !deferred(x) && !deferred(y) && (x.data() == y.data()) != (a.ev == b.ev) {
                return Err(Violation { input: texts[*from].clone(), what: format!("the data of {x:?} and {y:?} of {:?} is the same: {}", texts[*other], a.ev == b.ev) });
            }
        }
        st.see("outcomes", hash_from(7, &a.ev));
    }
    Ok(())
}

// ---------------------------------------------------------------- editing

/// Change everything about an event that can be changed
fn vandalise(e: &mut Event<'_>, how: u32) {
    let spoil = |s: &mut Slice<'_>| match how % 3 {
        0 => s.to_mut().push_str("spoiled"),
        1 => s.to_mut().clear(),
        _ => *s = Slice::Borrowed("!"),
    };
    let name = |a: &mut Option<Slice<'_>>, t: &mut Option<(Slice<'_>, Slice<'_>)>, k: &mut NodeKind| {
        match a {
            Some(a) => spoil(a),
            None => *a = Some(Slice::Borrowed("spoiled")),
        }
        match t {
            Some((h, s)) => { spoil(h); spoil(s) }
            None => *t = Some((Slice::Borrowed("!"), Slice::Borrowed("spoiled"))),
        }
        *k = match *k { NodeKind::Key => NodeKind::Value, NodeKind::Value => NodeKind::Entry, NodeKind::Entry => NodeKind::Root, NodeKind::Root => NodeKind::Key };
    };
    match e.data_mut() {
        EventData::DocumentStart(d) => {
            match how % 4 {
                0 => d.directives.tags.clear(),
                1 => { d.directives.tags.insert(Slice::Borrowed("!"), Slice::Borrowed("spoiled")); d.directives.tags.insert(Slice::Borrowed("!e!"), Slice::Borrowed("spoiled")); }
                2 => d.directives = Default::default(),
                _ => for v in d.directives.tags.values_mut() { spoil(v) },
            }
            d.directives.version.major ^= 1;
            d.directives.version.minor ^= 3;
            d.implicit = !d.implicit;
        }
        EventData::DocumentEnd(d) => d.implicit = !d.implicit,
        EventData::Alias(a) => spoil(&mut a.name),
        EventData::Scalar(n) => {
            name(&mut n.anchor, &mut n.tag, &mut n.kind);
            if how % 2 == 0 {
                if let Ok(s) = n.content.evaluate_by_ref() { spoil(s.data_mut()) }
            } else { n.content = EMPTY_SCALAR }
        }
        EventData::MappingStart(n) => name(&mut n.anchor, &mut n.tag, &mut n.kind),
        EventData::SequenceStart(n) => name(&mut n.anchor, &mut n.tag, &mut n.kind),
        _ => {}
    }
    if how % 5 == 4 { *e.data_mut() = EventData::StreamEnd }
}

fn edited<R: Read>(r: &R, want: &Trace, lazy: bool, how: u32, before: bool, st: &mut Stats) -> Res {
    st.add("executions", 1);
    guarded(|| -> Res {
        let mut kept: Vec<Event<'_>> = vec![];
        let mut it = Events::new(r, flags(lazy)).into_iter();
        for (k, w) in want.evs.iter().enumerate() {
            let mut e = match it.next() {
                Some(Ok(e)) => e,
                o => return Err(format!("after editing what came before, {o:?} was delivered instead of {w:?}")),
            };
            let m = render(&e);
            if &m != w { return Err(format!("after editing what came before, {m:?} was delivered instead of {w:?}")) }
            let c = e.clone();
            if render(&c) != *w { return Err(format!("the clone of {w:?} is {c:?}")) }
            vandalise(&mut e, how + if before { 0 } else { k as u32 });
            if e.start() != w.start || e.end() != w.end { return Err("editing an event moved its marks".into()) }
            if render(&c) != *w { return Err(format!("editing {w:?} changed its clone to {c:?}")) }
            kept.push(c);
        }
        let end = match it.next() {
            None => End::Done,
            Some(Err(e)) => End::Err(err_of(&e)),
            Some(Ok(e)) => return Err(format!("after editing what came before, {e:?} was delivered too")),
        };
        if end != want.end { return Err(format!("after editing what came before, the end is {end:?} instead of {:?}", want.end)) }
        for (c, w) in kept.iter().zip(&want.evs) {
            if render(c) != *w { return Err(format!("{w:?} became {c:?} later")) }
        }
        Ok(())
    })
    .unwrap_or_else(|p| Err(format!("panic: {p}")))
}

pub fn editing(s: &str, st: &mut Stats) -> Res {
    for lazy in [false, true] {
        let want = run_str(s, lazy);
        st.see("outcomes", hash_from(lazy as u64, &show_evs(&want.plain())));
        for how in 0..5 {
            let r = from_utf8(s);
            edited(&r, &want, lazy, how, true, st)?;
            if how == 0 { edited(&r, &want, lazy, how, false, st)? }
        }
        let (r, _) = source(s.as_bytes(), &[ALL]);
        edited(&r, &want, lazy, 0, true, st)?;
    }
    Ok(())
}

fn constants(st: &mut Stats) -> V {
    let c = |what: &str, ok: bool| case(what, "constant", if ok { Ok(()) } else { Err("is not as documented".to_string()) });
    st.add("executions", 1);
    c("DEFAULT_TAGS", DEFAULT_TAGS[0] == (Slice::Borrowed("!"), Slice::Borrowed("!")) && DEFAULT_TAGS[1] == (Slice::Borrowed("!!"), Slice::Borrowed("tag:yaml.org,2002:")))?;
    c("DEFAULT_VERSION", DEFAULT_VERSION.major == 1 && DEFAULT_VERSION.minor == 2)?;
    c("EMPTY_SCALAR", matches!(EMPTY_SCALAR, ScalarLike::Eager(s) if s.is_empty() && s.style() == ScalarStyle::Plain))?;
    let d = yary::event::types::Directives::default();
    c("Directives::default", d.version == DEFAULT_VERSION && d.tags.len() == 2 && DEFAULT_TAGS.iter().all(|(k, v)| d.tags.get(k) == Some(v)))?;
    let d = yary::event::types::Directives::empty();
    c("Directives::empty", d.version == DEFAULT_VERSION && d.tags.is_empty())
}

pub fn check(t: Tier, st: &mut Stats) -> V {
    constants(st)?;
    flags_everywhere(t, st)?;
    scalars_everywhere(t, st)?;
    equality(t, st)?;
    let space = Space::new("edited", &["a", ": ", "- ", "\n", "[", "]", "{", "}", "'b'", "\"\\n\"", "|\n c\n", "&x ", "*x ", "!t ", "!!t ", "!e!t ", "---\n", "--- ", "...\n", "%TAG !e! y\n", "%TAG ! z\n", "%YAML 1.1\n", ", ", "? "], t.pick(4, 5));
    explore(&[space], st, editing)?;
    trees::each_tree(t.pick(&[(4, 1), (2, 2)], &[(5, 1), (3, 2)]), st, |s, _, st| editing(s, st))
}
