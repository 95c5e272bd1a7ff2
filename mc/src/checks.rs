//! The table of checks, one per property.
use crate::{engine::*, oracle::*, pumps::*, spaces::*, trees, values, worlds};

#[derive(Clone, Copy, PartialEq)]
pub enum Level { Model, Explore, Fault }
impl Level {
    pub fn name(self) -> &'static str {
        match self {
            Level::Model => "model_checking",
            Level::Explore => "exploration",
            Level::Fault => "fault_enumeration",
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: Level,
    /// The counter of executions, and the set of what was different between them
    pub evaluations: &'static str,
    pub distinct: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(Tier, &mut Stats) -> Result<(), Violation>,
}

const MODEL: &[&str] = &[
    "the reference model in mc/src/model.rs states the documented YAML 1.2 reading of the library; it is replayed on the library for every word explored",
    "words longer than the bounds of the spaces are not explored",
    "on malformed input only the rejection is compared, not how much is delivered before it",
];
const REAL: &[&str] = &["the library itself is run, there is no model", "inputs beyond the bounds of the spaces are not explored"];

const MODEL_RULE: &str = "every word up to a depth over each alphabet is read by the model and by the library; a state is a distinct history of events, a transition one event after it";

macro_rules! model {
    ($id:expr, $spaces:expr) => {
        Check { id: $id, level: Level::Model, evaluations: "", distinct: "", rule: MODEL_RULE, assumptions: MODEL, run: |t, st| explore(&$spaces(t), st, agrees) }
    };
    ($id:expr, $spaces:expr, $more:expr) => {
        Check {
            id: $id,
            level: Level::Model,
            evaluations: "",
            distinct: "",
            rule: MODEL_RULE,
            assumptions: MODEL,
            run: |t, st| {
                explore(&$spaces(t), st, agrees)?;
                $more(t, st)
            },
        }
    };
}
macro_rules! real {
    ($id:expr, $level:expr, $ev:expr, $di:expr, $rule:expr, $run:expr) => {
        Check { id: $id, level: $level, evaluations: $ev, distinct: $di, rule: $rule, assumptions: REAL, run: $run }
    };
}
use Level::*;

pub const ALL: &[Check] = &[
    real!("P01", Explore, "executions", "outcomes", "every word up to a depth, read in four ways (borrowed and owned, eager and lazy), and everything handed out formatted; distinct by events and error", |t, st| {
        explore(&broad(t), st, |s, st| { survives(s, st)?; prints(s, st) })?;
        explore(&crash(t), st, |s, st| { survives(s, st)?; prints(s, st) })?;
        explore(&all_models(t, t.pick(3, 2)), st, prints)?;
        pump(&everything(), t, st, |s, st| if s.len() < 60 { prints(s, st) } else { Ok(()) })?;
        worlds::anywhere(t, t.pick(2, 1), st, survives)
    }),
    real!("P02", Explore, "executions", "lengths", "every word up to a depth, read in four ways until the end and beyond; distinct by input size and number of events", |t, st| {
        explore(&broad(t), st, terminates)?;
        explore(&crash(t), st, terminates)?;
        worlds::anywhere(t, t.pick(1, 0), st, terminates)
    }),
    real!("P03", Explore, "executions", "states", "every word up to a depth, the monitor follows each event; distinct by history of events", |t, st| {
        explore(&grammar_spaces(t), st, grammatical)?;
        worlds::anywhere(t, t.pick(1, 0), st, grammatical)
    }),
    real!("P04", Explore, "executions", "outcomes", "every split of small texts into answers of the source, with interruptions; every position of a chunk boundary against every word, inside of every kind of token; distinct by events", worlds::chunk),
    real!("P05", Fault, "executions", "outcomes", "every sequence of answers up to a depth for every small text; every kind of failure after every byte; failures within several chunks; distinct by kind and number of events delivered", worlds::faults),
    real!("P06", Explore, "executions", "scalars", "every word up to a depth read eagerly and lazily, each lazy scalar evaluated in every way after the stream ended; distinct by scalar value", |t, st| {
        explore(&lazies(t), st, lazy_same)?;
        worlds::lazies_long(t, st)?;
        worlds::anywhere(t, t.pick(1, 0), st, lazy_same)
    }),
    real!("P07", Explore, "executions", "outcomes", "all events of every word, also across chunk boundaries at every position, are held until the end of the stream and compared, with an allocator which overwrites freed memory; distinct by events", worlds::lifetimes),
    real!("P08", Explore, "executions", "outcomes", "every pattern of asking for events, every point of changing it, every interleaving of two streams over a source, every point of stopping; distinct by events", worlds::consumers),
    model!("P09", quoted, |t, st: &mut Stats| {
        explore(&quoted_around(t), st, agrees)?;
        pump(QUOTED, t, st, agrees)?;
        far(QUOTED, false, t, st)
    }),
    model!("P10", plain, |t, st: &mut Stats| {
        explore(&plain_around(t), st, agrees)?;
        pump(PLAIN, t, st, agrees)?;
        far(PLAIN, false, t, st)
    }),
    model!("P11", block_scalar, |t, st: &mut Stats| {
        explore(&block_scalar_around(t), st, agrees)?;
        pump(BLOCK_SCALAR, t, st, agrees)?;
        far(BLOCK_SCALAR, false, t, st)
    }),
    model!("P12", escapes, |t, st: &mut Stats| {
        explore(&escapes_around(t), st, agrees)?;
        pump(ESCAPES, t, st, agrees)?;
        far(ESCAPES, false, t, st)?;
        worlds::escapes_all(t, st)?;
        worlds::percent(t, st)
    }),
    model!("P13", flow, |t, st: &mut Stats| {
        explore(&flow_around(t), st, agrees)?;
        pump(FLOW, t, st, agrees)?;
        far(FLOW, false, t, st)
    }),
    model!("P14", block, |t, st: &mut Stats| {
        explore(&block_around(t), st, agrees)?;
        pump(BLOCK, t, st, agrees)?;
        far(BLOCK, false, t, st)
    }),
    model!("P15", documents, |t, st: &mut Stats| {
        explore(&documents_around(t), st, agrees)?;
        pump(DOCUMENTS, t, st, agrees)?;
        far(DOCUMENTS, false, t, st)
    }),
    model!("P16", properties, |t, st: &mut Stats| {
        explore(&properties_around(t), st, agrees)?;
        pump(PROPERTIES, t, st, agrees)?;
        far(PROPERTIES, false, t, st)
    }),
    real!("P17", Explore, "executions", "outcomes", "every word up to a depth against each of its rewritings; distinct by events", worlds::layouts),
    real!("P18", Explore, "executions", "borrowed text", "every text handed out for every word is located in memory; distinct by text and place", |t, st| {
        explore(&zero_copy(t), st, borrows)?;
        worlds::anywhere(t, t.pick(2, 1), st, borrows)
    }),
    real!("P19", Explore, "executions", "outcomes", "the marks of every event of every word; distinct by list of marks", worlds::marks_everywhere),
    Check { id: "P20", level: Model, evaluations: "", distinct: "", rule: "every edit, and every pair of near edits, of realistic documents, and all of their prefixes and suffixes, read by the model and by the library; a state is a distinct history of events, a transition one event after it", assumptions: MODEL, run: worlds::edits },
    real!("P21", Explore, "executions", "outcomes", "the error of every malformed word up to a depth; distinct by category, message and cause in the model", |t, st| {
        explore(&broad(t), st, categories)?;
        explore(&crash(t), st, categories)?;
        worlds::anywhere(t, t.pick(1, 0), st, categories)
    }),
    real!("P22", Fault, "executions", "outcomes", "every short sequence of bytes; every ill formed sequence at every position of realistic texts, and around the ends of chunks; distinct by events", worlds::bytes),
    Check { id: "P23", level: Model, evaluations: "", distinct: "", rule: "keys of every style and every length around the limit in every context, and all words of keys across lines, read by the model and by the library; a state is a distinct history of events, a transition one event after it", assumptions: MODEL, run: worlds::keys },
    real!("P24", Explore, "executions", "outcomes", "every depth and size up to a bound, and powers of two beyond it; distinct by case and number of events; a megabyte of every kind of text", |t, st| {
        worlds::scale(t, st)?;
        pump_far(&everything(), t, st, agrees)?;
        worlds::speed(t, st)
    }),
    real!("P25", Explore, "inputs", "outcomes", "every pair of a first document and a second one, with and without an end marker; distinct by events", worlds::isolation),
    Check { id: "P26", level: Model, evaluations: "", distinct: "", rule: "every code point in every context, read by the model and by the library; a state is a distinct history of events, a transition one event after it", assumptions: MODEL, run: worlds::codepoints },
    real!("P27", Explore, "executions", "outcomes", "every unit up to a depth, repeated by a source without an end; distinct by the events delivered", worlds::streaming),
    real!("P28", Explore, "executions", "outcomes", "every tree of nodes within a budget of structure, in every presentation within a budget of decorations, read in three ways; distinct by events", trees::check),
    real!("P29", Explore, "executions", "outcomes", "every sequence of operations on flags and on scalars up to a depth, every pair of events of small texts, every text up to a depth with its events edited as they are delivered; distinct by value of a scalar and by events", values::check),
    real!("P30", Explore, "executions", "outcomes", "the error of every malformed word up to a depth; distinct by message and cause in the model", |t, st| {
        examples(st)?;
        explore(&broad(t), st, causes)?;
        explore(&crash(t), st, causes)?;
        worlds::anywhere(t, t.pick(1, 0), st, causes)
    }),
    real!("P31", Explore, "executions", "outcomes", "the events delivered of every malformed word up to a depth, compared to those of the model; distinct by events", |t, st| {
        explore(&broad(t), st, delivered)?;
        explore(&crash(t), st, delivered)?;
        worlds::anywhere(t, t.pick(1, 0), st, delivered)
    }),
];
