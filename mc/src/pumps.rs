//! Templates in which some words are repeated: `‹word›` stands for any number
//! of them. Every combination of counts within bounds is explored.
use crate::{engine::*, source::*, spaces::Tier, trace::*};

pub type Templates = &'static [&'static str];

pub const QUOTED: Templates = &[
    "'‹a›'", "'‹ ›'", "'a‹ ›b'", "'‹''›'", "'a‹\n›b'", "'a‹ ›\n‹ ›b'", "'‹é›'", "'‹a\n›'", "k: '‹a b\n  ›'", "'‹a›': x", "'a‹\n›‹ ›b'", "'a‹ ›‹\n›‹ ›b'", "'‹a›", "'a‹\n›", "'‹ ›\n‹ ›'", "- '‹#›'\n- b", "'‹a''›‹ ›b'",
    "\"‹a›\"", "\"‹ ›\"", "\"a‹ ›b\"", "\"‹\\n›\"", "\"a‹\\\n›b\"", "\"a‹ ›\\\n‹ ›b\"", "\"‹😀›\"", "\"‹a\n›\"", "k: \"‹a b\n  ›\"", "\"‹a›\": x", "\"a‹\n›‹ ›b\"", "\"a‹ ›‹\n›‹ ›b\"", "\"‹a›", "\"a‹\n›", "\"‹ ›\n‹ ›\"", "- \"‹#›\"\n- b",
    "\"a‹\\\n\n›b\"", "\"‹a\\\n›‹ ›b\"", "\"‹\\\\›‹\\\"›\"", "[ '‹a, ›', \"‹b: ›\" ]", "{'‹a›': \"‹b›\"}", "'a\n‹ ›--- b'", "'a‹\n›... b'", "\"a‹\\\n›---\"", "k:\n  j: 'a\n‹ ›b'\nl: m", "'‹\t›a‹\t›\n‹\t›b'", "\"a‹\r\n›‹\r›b\"", "\"‹a›‹é›\"", "'‹a›‹😀›'", "\"‹a›\\x41‹b›\"", "'‹a›''‹b›'",
];

pub const PLAIN: Templates = &[
    "‹a›", "a‹ ›b", "a‹ ›\n‹ ›b", "a‹\n›b", "‹a ›# c", "‹a ›", "- ‹a\n  ›b", "[‹a ›]", "[a‹\n›b]", "a‹-›", "‹a:›", "‹-›a", "‹?›a", "‹:›a", "a‹ ›#b", "a‹#›", "‹é›", "‹😀 ›a", "k: a‹ ›‹\n›‹ ›b", "‹a.›\n...", "a‹ ›: b", "‹a›: b", "a\n‹ ›b: c",
    "[a‹ ›,‹ ›b]", "{a‹ ›:‹ ›b}", "a‹ ›‹\t›b", "a‹\t›# b", "k: a\n‹ ›# b\nj: c", "k: a\n‹ ›b: c", "- a\n‹ ›- b", "a\n‹ ›--- b", "a‹\n›---", "a‹\n›...", "k: ‹a\n ›\nj: b", "‹a›‹é›", "[‹a:›]", "{‹a›: ‹b›}", "a‹ ›‹\r\n›b", "k:‹ ›a\n‹ ›b\nj: c", "? a‹ ›\n‹ ›b\n: c", "‹a\n\n›b", "http:‹/›a#‹b›",
];

pub const BLOCK_SCALAR: Templates = &[
    "|\n‹ ›a\n‹ ›b", ">\n‹ ›a\n‹ ›b", "|‹ ›\n a", ">\n a‹\n›‹ ›b", "|\n a‹\n›‹ ›b", "|\n ‹a\n ›", "|\n‹\n›‹ ›a", ">\n‹\n›‹ ›a", "|+\n a‹\n›", "|-\n a‹\n›", "|\n a‹\n›", ">+\n a‹\n›", ">-\n a‹\n›", ">\n ‹a\n ›b", ">\n ‹a\n\n ›b", "- |\n‹ ›a\n‹ ›b\n- c", "- >\n‹ ›a\n‹ ›b\n- c",
    "k:\n  j: >\n‹ ›a‹\n›‹ ›b\nl: m", "k:\n  j: |\n‹ ›a‹\n›‹ ›b\nl: m", "|2\n‹ ›a\n‹ ›b", "|9\n‹ ›a\n", ">1-\n‹ ›a\n‹\n›‹ ›b", ">2+\n‹ ›a\n‹\n›‹ ›b", "| #‹c›\n a", "|‹ ›#c\n a", "|\n ‹é›", "|\n ‹a›", ">\n ‹a ›", ">\n ‹😀 ›\n b", "|\n ‹\t›a\n  ‹ ›", "‹- ›|\n‹ ›a\n", "‹- ›>-\n‹ ›a\n- b",
    "|\n‹ ›\n‹ ›a", ">\n‹ ›\n‹ ›a\n‹ ›b", "k: |+\n‹ ›\n‹\n›j: x", "|+\n‹\n›‹ ›", "|-\n‹ ›\n‹ ›\n", ">\n a\n‹  b\n› c", ">\n a‹\n›  b‹\n› c", ">\n a\n \t‹\n›‹ ›b", "|\n  a\n‹ ›#b", "|\n a\n‹ ›---", "|\n a‹\n›...", "|‹+›", "|‹1›", "|\r\n‹ ›a\r\n‹ ›b", "- - |3\n‹ ›a\n- b", "? |\n‹ ›a\n‹ ›: b", "k: >\n‹ a\n›j: x", ">\n ‹a›\n ‹b›\n\n",
];

pub const ESCAPES: Templates = &[
    "\"‹\\x41›\"", "\"‹\\u00e9›\"", "\"‹\\U0001F600›\"", "\"‹a›\\n‹b›\"", "\"‹\\U0001F600›‹a›\\q\"", "\"‹\\\\›\"", "\"‹ ›\\ ‹ ›\"", "\"‹\\\\›n\"", "\"‹\\\\›\\x4", "\"‹\\t›‹ ›\n‹ ›b\"", "\"‹a›\\\n‹ ›\\ b\"", "\"‹\\\"›\"", "\"‹\\/›\"", "\"\\x‹4›\"", "\"\\u‹0›\"", "\"\\U‹0›\"", "\"\\U‹f›\"", "\"\\u‹0›41\"", "[\"‹\\_›\": \"‹\\N›\"]", "\"‹é›\\u00e9‹é›\"", "\"a‹\\n›‹ ›\"", "\"‹\\0›", "\"‹\\L›‹\\P›\"",
];

pub const FLOW: Templates = &[
    "‹[›‹]›", "‹{›‹}›", "[‹a,›]", "[‹a§, ›]", "{‹k§: v§, ›}", "[‹k§: v§, ›]", "{‹\"k§\":v§,›}", "{‹a: b,›}", "[‹,›", "[‹[],›]", "{‹? ›a}", "[‹a: b, ›]", "‹[›a‹]›: b", "{‹a, ›‹b: c, ›}", "[a‹ ›:‹ ›b]", "[a‹\n›:‹\n›b]", "{a‹\n›:‹\n›b}", "{\"a\"‹ ›:‹ ›b}", "{\"a\"‹\n›:‹\n›b}", "‹[{a: ›b‹}]›", "k:‹ ›[‹ ›a‹ ›]", "[‹\n›a‹\n›]", "{‹\n›a:‹\n›b‹\n›}",
    "‹[? ›a‹]›", "‹{? ›a‹}›", "[? a‹\n›: b]", "‹{[›a‹]: b}›", "- [‹a\n ›]\n- b", "k: {‹a: b\n ,›}\nj: x", "[‹\"a\":b,›]", "[‹{}: x, ›]", "[a‹ ›#c\n]", "[‹#c\n›a]", "[a, ‹#c\n›b]", "‹[]: ›a", "[[‹a,›], {‹b,›}]", "[‹- ›a]", "[‹a›: b]", "[\"‹a›\": b]", "{‹a›: b}", "{[‹a›]: b}", "[‹: a, ›]", "{‹: a, ›}", "{‹a:, ›}", "{‹[a], ›}", "‹[›\n‹ ›a‹]›", "‹[a, {b: ›c‹}]›",
];

pub const BLOCK: Templates = &[
    "‹ ›- a\n‹ ›- b", "‹ ›a: b\n‹ ›c: d", "-‹ ›a", "-‹ ›- a\n‹ ›- b", "‹- ›a", "‹- ›a\n‹ ›- b", "k:\n‹ ›a: b\n‹ ›c: d", "k:\n‹ ›- b\n‹ ›- d", "‹- a\n›", "‹a: b\n›", "‹? ›a", "? a\n‹ ›: b", "‹\n›- a‹\n›", "a:‹\n›‹ ›b", "a‹ ›: b", "- a:\n‹ ›b: c\n‹ ›d: e", "‹- ›a: b\n‹ ›c: d", "k:\n  - a\n‹ ›- b\n‹ ›j: c",
    "a:‹ ›b", "? a\n:‹ ›b", "?‹ ›a\n: b", "? a\n‹\n›: b", "- ‹? ›a\n‹ ›: b", "a:\n‹ ›b:\n‹ ›c: d", "a:\n  b:\n    c: d\n‹ ›e: f", "- - - a\n‹ ›- b", "- a: b\n‹ ›- c", "‹-\n›", "‹a:\n›", "‹?\n›", "‹- - a\n›", "‹a:\n - b\n›", "- a\n‹ ›# c\n‹ ›- b", "‹k§: v§\n›", "‹- ›a: b§\n‹ ›c: d", "a:\n‹  k§: v\n›b: c", "‹- a§\n›", "‹k§:\n- a§\n›", "‹? k§\n›: x", "a: b\n‹ ›# c\n‹ ›d: e", "‹k: [a,\n b]\n›", "- \"a\n‹ ›b\"\n‹ ›- c", "k: |\n  a\n‹ ›j: b", "‹#\n›a: b‹ ›# c", "a:\n‹ ›- b:\n‹ ›- c", "a: ‹&x ›b", "-‹\t›a", "a:‹\t›b", "‹\t›- a", "- a:\n‹ ›- b\n‹ ›c: d", "?‹ ›- a\n‹ ›- b\n: c", "?‹ ›a: b\n‹ ›c: d\n: e", ":‹ ›- a\n‹ ›- b",
];

pub const DOCUMENTS: Templates = &[
    "‹---\n›a", "‹...\n›a", "‹--- a\n›", "‹a\n...\n›", "‹#\n›--- a", "%YAML‹ ›1.2\n---", "%YAML 1.‹0›1\n---", "%YAML ‹0›1.2\n---", "%YAML 1.‹9›\n---", "%YAML ‹1›.1\n---", "%TAG‹ ›!e!‹ ›x\n---‹ ›!e!y z", "%TAG !‹e›! x\n--- !‹e›!y", "%TAG !e! ‹x›\n--- !e!‹y› z", "‹\n›---‹ ›a", "a\n‹.›", "a\n‹-›", "‹ ›---", "---‹-›", "...‹.›", "...‹ ›#", "...‹ ›a",
    "‹%TAG !a! b\n›---", "‹%TAG !h§! p§:\n›---‹\n- !h§!x y›", "‹%TAG !h§! p:\n---\n- !h§!x y\n...\n›", "%TAG !h3! a\n‹%TAG !h§! b\n›---", "‹%TAG !h§! p§:\n›---\n- !h7!a b\n- !!str c\n- !d e", "‹%TAG !h§! p§:\n›--- !h0!x y\n...\n‹%TAG !h§! q§:\n›--- !h0!x y\n", "%TAG ! l:\n%TAG !! g:\n‹%TAG !h§! p§:\n›---\n- !a b\n- !!c d\n- !h0!e f", "‹--- k§\n›", "‹%YAML 1.1\n---\na\n...\n›", "‹%TAG !e! x\n--- !e!y z\n...\n›", "‹%TAG !e! x\n---\n...\n›!e!y z", "%YAML 1.1‹ ›#c\n---", "%YAML 1.1\n‹\n›‹#\n›---", "- a\n‹---\n›- b", "---‹\n›a‹\n›...", "‹---\n›‹...\n›", "‹- a\n---\n›b", "‹|\n a\n---\n›b", "'a\n‹ ›---'", "[a,\n‹ ›---]", "[a\n‹...›]", "--- |\n‹ ›a\n---\nb", "a\n...\n‹#c\n›b", "a\n---\n‹b\n›", "%TAG !e! ‹%41›\n--- !e!a b", "‹%YAML 1.2\n›---", "a‹\n›%YAML 1.2", "...\n‹%›a", "‹--- []\n›", "‹--- {a: b}\n...\n›",
];

pub const PROPERTIES: Templates = &[
    "&‹a› b", "!‹a› b", "‹- &a§ x\n›‹- *a§\n›", "[‹&a§ b, ›‹*a§, ›]", "‹&a§ k§: !t§ v§\n›", "{‹&a§ k§: *a§, ›}", "‹- !t§ x\n›", "‹- !<v§> x\n›", "*‹a›", "!<‹a›> b", "!‹%41› b", "!‹e›!x b", "&a‹ ›!t‹ ›b", "&a‹\n›!t b", "&a‹ ›‹\n›‹ ›b", "- &a‹\n›‹ ›b: c", "‹- &a ›b", "‹? &a ›b", "[‹&a b, ›]", "{‹!t a: &b c, ›}", "‹&a [›‹]›", "!!‹t› a", "!t‹ ›", "*a‹ ›: b", "&‹é› x", "*‹😀› ", "‹&a ›b", "‹!t ›b", "[‹*a, ›]", "{‹*a : b, ›}", "‹*a : b\n›",
    "k: &a\n‹ ›b: c\n‹ ›d: e", "k: !t\n‹ ›- b\n‹ ›- d", "&a‹ ›: b", "!t‹ ›: b", "&a‹ ›*b", "!‹a›‹%e2%82%ac› b", "!<‹%41›> b", "&‹a›: b", "!‹a›: b", "*‹a› : b", "&a &b‹ ›x", "‹&a\n›b: c", "- !t‹ ›\n- &a‹ ›\n-", "k: !t &a |\n‹ ›x", "--- &a\n‹ ›b: c", "--- !t‹ ›&a‹ ›\n- b", "!‹!›a", "!a‹!›b", "[&a‹ ›,‹ ›!t]", "{&a‹ ›:‹ ›!t}", "&a‹-›b", "%TAG !e! x\n--- ‹- !e!a\n›",
];

fn parts(t: &str) -> Vec<(&str, &str)> {
    // (text, word repeated after it)
    let mut v = vec![];
    let mut rest = t;
    while let Some((a, b)) = rest.split_once('‹') {
        let (w, b) = b.split_once('›').unwrap();
        v.push((a, w));
        rest = b;
    }
    v.push((rest, ""));
    v
}

/// `§` in a word is the number of the repetition: the words are all different
fn fill(p: &[(&str, &str)], c: &[usize]) -> String {
    let mut s = String::new();
    for (k, (text, word)) in p.iter().enumerate() {
        s.push_str(text);
        let numbered = word.contains('§');
        for n in 0..c.get(k).copied().unwrap_or(0) {
            if numbered { s.push_str(&word.replace('§', &n.to_string())) } else { s.push_str(word) }
        }
    }
    s
}

fn counts(slots: usize, t: Tier) -> Vec<Vec<usize>> {
    let top = t.pick(12, 14);
    let big: Vec<usize> = (0..=t.pick(130, 300)).chain((8..=top).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1])).chain(1000..=1040).collect();
    match slots {
        1 => big.into_iter().map(|n| vec![n]).collect(),
        2 => {
            let m = t.pick(20, 40);
            let mut v: Vec<Vec<usize>> = (0..=m).flat_map(|a| (0..=m).map(move |b| vec![a, b])).collect();
            for n in big.iter().filter(|n| **n > m && (**n < 70 || **n > 120)) {
                for o in [0, 1, 2, *n, *n - 1, *n + 1] { v.extend([vec![*n, o], vec![o, *n]]) }
            }
            v
        }
        _ => {
            let m = t.pick(8, 12);
            (0..=m).flat_map(|a| (0..=m).flat_map(move |b| (0..=m).map(move |c| vec![a, b, c]))).collect()
        }
    }
}

pub fn pump<F>(templates: &[&str], t: Tier, st: &mut Stats, f: F) -> Result<(), Violation>
where
    F: Fn(&str, &mut Stats) -> Result<(), String> + Sync,
{
    let mut cases: Vec<(Vec<(&str, &str)>, Vec<usize>)> = vec![];
    for x in templates {
        let p = parts(x);
        for c in counts(p.len() - 1, t) { cases.push((p.clone(), c)) }
    }
    each(cases.len() as u64, st, |i, st| {
        let (p, c) = &cases[i as usize];
        let s = fill(p, c);
        on(&s);
        st.add("inputs", 1);
        st.add("repetitions", 1);
        f(&s, st).map_err(|what| Violation { input: s, what })
    })
}

/// The same templates with counts around large powers of two
pub fn pump_far<F>(templates: &[&str], t: Tier, st: &mut Stats, f: F) -> Result<(), Violation>
where
    F: Fn(&str, &mut Stats) -> Result<(), String> + Sync,
{
    let mut cases: Vec<(Vec<(&str, &str)>, Vec<usize>)> = vec![];
    for k in t.pick(15..=16, 13..=18) {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            for x in templates {
                let p = parts(x);
                // Nesting has its own bounds
                let flat: Vec<bool> = p[..p.len() - 1].iter().map(|(_, w)| !w.contains(['[', '{']) && (w.contains('\n') || !(w.contains("- ") || w.contains("? ") || w.contains("-\t")))).collect();
                let some = |c: Vec<usize>| if c.iter().zip(&flat).all(|(c, f)| *f || *c < 100) { Some((p.clone(), c)) } else { None };
                match flat.len() {
                    0 => {}
                    1 => cases.extend(some(vec![n])),
                    2 => cases.extend([vec![n, 1], vec![1, n], vec![n, n], vec![2, n], vec![n, 2]].into_iter().filter_map(some)),
                    _ => cases.extend((0..flat.len()).filter_map(|k| some((0..flat.len()).map(|j| if j == k { n } else { 1 }).collect()))),
                }
            }
        }
    }
    each(cases.len() as u64, st, |i, st| {
        let (p, c) = &cases[i as usize];
        let s = fill(p, c);
        let name: String = p.iter().map(|(a, b)| format!("{a}‹{b}›")).collect();
        on(&format!("{name:?} repeated {c:?}"));
        st.add("inputs", 1);
        st.add("executions", 1);
        st.see("outcomes", hash_from(s.len() as u64, &name));
        f(&s, st).map_err(|what| Violation { input: name.clone(), what: format!("repeated {c:?} times: {}", what.chars().take(2000).collect::<String>()) })
    })
}

pub fn everything() -> Vec<&'static str> { [QUOTED, PLAIN, BLOCK_SCALAR, ESCAPES, FLOW, BLOCK, DOCUMENTS, PROPERTIES].concat() }

/// Small instances of the templates
fn small(templates: &[&str]) -> Vec<String> {
    let mut v = vec![];
    for x in templates {
        let p = parts(x);
        let n = p.len() - 1;
        for i in 0..3usize.pow(n.min(3) as u32) {
            let c: Vec<usize> = (0..n).map(|k| i / 3usize.pow(k.min(2) as u32) % 3).collect();
            let s = fill(&p, &c);
            if !v.contains(&s) { v.push(s) }
        }
    }
    v
}

/// What precedes a text does not matter, however much it is: lines, tokens, bytes
/// and documents, up to and across powers of two; nor does its indentation.
/// `marks` also compares the places of what follows.
pub fn far(templates: &[&str], marks: bool, t: Tier, st: &mut Stats) -> Result<(), Violation> {
    let mut before: Vec<(&str, &str, &str, usize)> = vec![];
    for n in [254, 255, 32764, 32765, 32766, 65534, 65535, 70_000] { before.push(("", "- a\n", "...\n", n)) }
    for n in [254, 65534, 65535] { before.push(("", "\n", "", n)) }
    for n in [65530, 65533, 65535, 70_000] { before.push(("#", "c", "\n", n)) }
    for n in [255, 256, 21844, 21845, 65535] { before.push(("", "--- a\n", "...\n", n)) }
    for n in t.pick(vec![254, 65535], vec![126, 254, 255, 16383, 32767, 65534, 65535]) { before.push(("k: |\n", " é\n", "...\n", n)) }
    // The prefixes read alone: how many events they are
    let alone = |(a, w, z, _): (&str, &str, &str, usize), n: usize| {
        let s = [a, &w.repeat(n), z].concat();
        let evs = run_str(&s, false).evs.len();
        (s, evs)
    };
    let before: Vec<_> = before.into_iter().map(|b| (b, alone(b, 1), alone(b, b.3))).collect();
    let texts = small(templates);
    each((texts.len() * before.len()) as u64, st, |i, st| {
        let s = &texts[i as usize / before.len()];
        let (b, (near, n0), (far, n1)) = &before[i as usize % before.len()];
        let bad = |what: String| Violation { input: s.clone(), what: format!("after {:?} repeated {} times: {what}", b.1, b.3) };
        on(&format!("{s:?} after {:?} repeated {} times", b.1, b.3));
        st.add("inputs", 1);
        st.add("after much else", 1);
        let lazy = i % 2 == 1;
        let (x, y) = (run_str(&[near, &**s].concat(), lazy), run_str(&[far, &**s].concat(), lazy));
        // Without documents of its own the prefix belongs to the text
        let (n0, n1) = if b.2 == "...\n" { (n0 - 1, n1 - 1) } else { (0, 0) };
        let shift = far.len() - near.len();
        let (x1, y1) = (x.evs.get(n0..).unwrap_or(&[]), y.evs.get(n1..).unwrap_or(&[]));
        if x.end != y.end { return Err(bad(format!("ends with {:?} instead of {:?}", y.end, x.end))) }
        if x1.len() != y1.len() { return Err(bad(format!("{} events instead of {}", y1.len(), x1.len()))) }
        for (a, b) in x1.iter().zip(y1) {
            if a.ev != b.ev { return Err(bad(format!("{:?} instead of {:?}", b.ev, a.ev))) }
            let moved = |m: usize| if m < near.len() { m } else { m + shift };
            if marks && n0 > 0 && (moved(a.start), moved(a.end)) != (b.start, b.end) { return Err(bad(format!("{:?} at {}..{} instead of {}..{}", b.ev, b.start, b.end, moved(a.start), moved(a.end)))) }
        }
        Ok(())
    })?;
    // Indentation
    let texts: Vec<String> = texts.into_iter().filter(|s| !s.contains(['[', '{', '%', '\r']) && !s.contains("---") && !s.contains("...") && !s.contains(|c: char| c.is_ascii_digit())).collect();
    let deep = t.pick(vec![127, 128, 254, 255, 256, 1023, 1024, 4096, 65534, 65535, 65536], (3..300).chain(1020..1030).chain(4090..4100).chain(65530..65540).collect());
    each((texts.len() * deep.len()) as u64, st, |i, st| {
        let s = &texts[i as usize / deep.len()];
        let n = deep[i as usize % deep.len()];
        on(&format!("{s:?} indented by {n}"));
        st.add("inputs", 1);
        st.add("indented much", 1);
        let at = |n: usize| {
            let ind = " ".repeat(n);
            let mut out = String::from("k:\n");
            for l in s.split_inclusive('\n') {
                if l != "\n" { out.push_str(&ind) }
                out.push_str(l)
            }
            out
        };
        let lazy = i % 2 == 1;
        let (x, y) = (run_str(&at(2), lazy), run_str(&at(n), lazy));
        let bad = |what: String| Err(Violation { input: s.clone(), what: format!("indented by {n}: {what}") });
        if x.end != y.end { return bad(format!("ends with {:?} instead of {:?}", y.end, x.end)) }
        let (a, b) = (x.plain(), y.plain());
        if a != b { return bad(format!("{b:?} instead of {a:?}").chars().take(1500).collect()) }
        Ok(())
    })
}
