//! C09, C23: building input graphs.

use std::collections::BTreeMap;

use fast_paths::InputGraph;
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(usize, usize, usize, bool),
    Freeze,
    Thaw,
    /// go on with a copy; the original must stay as it is
    Clone,
    /// go on with what has been serialized and deserialized again (bincode or JSON)
    Serialize(bool),
    /// go on with what has been written to a file and read again (DIMACS or text)
    File(bool),
    /// go on with a DIMACS file of the same graph with so many more nodes
    Isolated(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops {
    pub ops: Vec<Op>,
}

impl Case for Ops {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let less = shrink_list(&self.ops, 0).into_iter().map(|ops| Ops { ops });
        let simpler = (0..self.ops.len()).flat_map(move |i| {
            let mut v = vec![];
            if let Op::Add(a, b, w, bi) = self.ops[i] {
                let mut c = |a, b, w, bi| {
                    let mut c = self.clone();
                    c.ops[i] = Op::Add(a, b, w, bi);
                    v.push(c);
                };
                if bi {
                    c(a, b, w, false);
                }
                for x in [1, w / 2, w.saturating_sub(1)] {
                    if x < w {
                        c(a, b, x, bi);
                    }
                }
                for x in [0, a / 2, a.saturating_sub(1)] {
                    if x < a {
                        c(x, b, w, bi);
                    }
                }
                for x in [0, b / 2, b.saturating_sub(1)] {
                    if x < b {
                        c(a, x, w, bi);
                    }
                }
            }
            v
        });
        Box::new(less.chain(simpler))
    }
}

#[derive(Clone, Default)]
struct Ref {
    n: usize,
    edges: BTreeMap<(usize, usize), usize>,
    frozen: bool,
}

impl Ref {
    fn add(&mut self, a: usize, b: usize, w: usize) {
        let e = self.edges.entry((a, b)).or_insert(w);
        *e = (*e).min(w);
    }
}

fn observe(g: &InputGraph, m: &Ref) -> Result<(), String> {
    if !m.frozen {
        for (what, r) in [
            ("get_edges()", guard(|| g.get_edges().len()).is_ok()),
            ("get_num_edges()", guard(|| g.get_num_edges()).is_ok()),
            ("get_num_nodes()", guard(|| g.get_num_nodes()).is_ok()),
        ] {
            if r {
                return Err(format!("{} did not refuse to work before freeze()", what));
            }
        }
        return Ok(());
    }
    if g.get_num_nodes() != m.n {
        return Err(format!("{} nodes instead of {}", g.get_num_nodes(), m.n));
    }
    let got: Vec<_> = g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect();
    let expected: Vec<_> = m.edges.iter().map(|(e, w)| (e.0, e.1, *w)).collect();
    if got != expected {
        let first = got.iter().zip(&expected).find(|(a, b)| a != b);
        return Err(format!(
            "{} edges instead of {}, first difference {:?}",
            got.len(),
            expected.len(),
            first
        ));
    }
    if g.get_num_edges() != expected.len() {
        return Err(format!(
            "get_num_edges() is {} instead of {}",
            g.get_num_edges(),
            expected.len()
        ));
    }
    Ok(())
}

/// `g.add_edge(1, 2, 3);`
fn parse(line: &str) -> Option<(usize, usize, usize)> {
    let inner = line.strip_prefix("g.add_edge(")?.strip_suffix(");")?;
    let mut v = inner.split(", ").map(|x| x.parse::<usize>());
    let e = (v.next()?.ok()?, v.next()?.ok()?, v.next()?.ok()?);
    (v.next().is_none() && line == format!("g.add_edge({}, {}, {});", e.0, e.1, e.2)).then_some(e)
}

/// The printed form must be a program that builds the same graph.
fn printed(g: &InputGraph, m: &Ref) -> Result<(), String> {
    let mut all = vec![];
    for (what, text) in [
        ("unit_test_output_string()", guard(|| g.unit_test_output_string())?),
        ("Debug", guard(|| format!("{:?}", g))?),
    ] {
        let mut lines = vec![];
        for l in text.split('\n').filter(|l| !l.is_empty()) {
            lines.push(parse(l).ok_or_else(|| format!("{} has the line {:?}", what, l))?);
        }
        let mut again = InputGraph::new();
        for l in &lines {
            let n = guard(|| again.add_edge(l.0, l.1, l.2))?;
            if n != 1 {
                return Err(format!("{} states the edge {:?}, which is not allowed", what, l));
            }
        }
        again.freeze();
        let n = m.edges.keys().map(|e| e.0.max(e.1) + 1).max().unwrap_or(0);
        let same = Ref {
            n,
            edges: m.edges.clone(),
            frozen: true,
        };
        observe(&again, &same).map_err(|e| format!("{} states another graph: {}", what, e))?;
        if m.frozen && lines.len() != m.edges.len() {
            return Err(format!("{} has {} lines for {} edges", what, lines.len(), m.edges.len()));
        }
        all.push(text);
    }
    if m.frozen {
        for (e, l) in g.get_edges().iter().zip(all[0].split('\n')) {
            if e.unit_test_output_string() != l {
                return Err(format!("the edge {:?} has the line {:?}", e, l));
            }
        }
    }
    if all[0] != guard(|| g.unit_test_output_string())? {
        return Err("printed again, the graph looks different".into());
    }
    Ok(())
}

fn run(case: &Ops, t: &mut Tally, print: bool) -> Result<(), String> {
    let mut g = InputGraph::new();
    let mut m = Ref::default();
    // the originals of the copies
    let mut others: Vec<(InputGraph, Ref)> = vec![];
    let (mut duplicates, mut reductions, mut refused, mut cycles, mut isolated) = (0, 0, 0, 0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        let at = |e: String| format!("step {} ({:?}): {}", i, op, e);
        match op {
            Op::Add(a, b, w, bidir) => {
                let r = guard(|| {
                    if *bidir {
                        g.add_edge_bidir(*a, *b, *w)
                    } else {
                        g.add_edge(*a, *b, *w)
                    }
                });
                if m.frozen {
                    if r.is_ok() {
                        return Err(at("a frozen graph was changed".into()));
                    }
                    refused += 1;
                    continue;
                }
                let ignored = a == b || *w == 0;
                if !ignored && (*a == usize::MAX || *b == usize::MAX) {
                    // the number of nodes could not be represented
                    if r.is_ok() {
                        return Err(at("the reserved node id was accepted".into()));
                    }
                    refused += 1;
                    observe(&g, &m).map_err(at)?;
                    continue;
                }
                let expected = if ignored {
                    0
                } else if *bidir {
                    2
                } else {
                    1
                };
                if r != Ok(expected) {
                    return Err(at(format!("returned {:?} instead of {}", r, expected)));
                }
                if !ignored {
                    if let Some(x) = m.edges.get(&(*a, *b)) {
                        duplicates += 1;
                        reductions += (w < x) as usize;
                    }
                    m.n = m.n.max(a.max(b) + 1);
                    m.add(*a, *b, *w);
                    if *bidir {
                        m.add(*b, *a, *w);
                    }
                }
            }
            Op::Freeze => {
                let r = guard(|| g.freeze());
                if r.is_ok() == m.frozen {
                    return Err(at(format!(
                        "freeze() of a graph that {} frozen: {:?}",
                        if m.frozen { "is" } else { "is not" },
                        r
                    )));
                }
                m.frozen = true;
            }
            Op::Thaw => {
                cycles += m.frozen as usize;
                guard(|| g.thaw()).map_err(|e| at(format!("thaw() failed: {}", e)))?;
                m.frozen = false;
            }
            Op::Clone => {
                let copy = g.clone();
                others.push((std::mem::replace(&mut g, copy), m.clone()));
            }
            Op::Serialize(json) => {
                let copy: InputGraph = if *json {
                    let s = serde_json::to_string(&g).map_err(|e| at(e.to_string()))?;
                    serde_json::from_str(&s).map_err(|e| at(e.to_string()))?
                } else {
                    let s = bincode::serialize(&g).map_err(|e| at(e.to_string()))?;
                    bincode::deserialize(&s).map_err(|e| at(e.to_string()))?
                };
                others.push((std::mem::replace(&mut g, copy), m.clone()));
            }
            Op::File(dimacs) => {
                let path = scratch_file("copy");
                let name = path.to_str().unwrap();
                let _ = std::fs::remove_file(&path);
                let r = guard(|| if *dimacs { g.to_dimacs_file(name) } else { g.to_file(name) });
                if !m.frozen {
                    if r.is_ok() {
                        return Err(at("a graph that is not frozen was written".into()));
                    }
                    refused += 1;
                    continue;
                }
                match r {
                    Ok(Ok(())) => {}
                    r => return Err(at(format!("{:?}", r))),
                }
                let copy = guard(|| {
                    if *dimacs {
                        InputGraph::from_dimacs_file(name)
                    } else {
                        InputGraph::from_file(name)
                    }
                })
                .map_err(at)?;
                others.push((std::mem::replace(&mut g, copy), m.clone()));
                if !dimacs {
                    // the nodes behind the last one with an edge are not part of the text
                    m.n = m.edges.keys().map(|e| e.0.max(e.1) + 1).max().unwrap_or(0);
                }
            }
            Op::Isolated(more) => {
                if !m.frozen {
                    continue;
                }
                let mut s = format!("p sp {} {}\n", m.n.saturating_add(*more), m.edges.len());
                for (e, w) in &m.edges {
                    s += &format!("a {} {} {}\n", e.0 + 1, e.1 + 1, w);
                }
                let path = scratch_file("copy");
                std::fs::write(&path, s).unwrap();
                let copy = guard(|| InputGraph::from_dimacs_file(path.to_str().unwrap())).map_err(at)?;
                others.push((std::mem::replace(&mut g, copy), m.clone()));
                m.n = m.n.saturating_add(*more);
                isolated += 1;
            }
        }
        if case.ops.len() < 200 || matches!(op, Op::Freeze | Op::Clone | Op::Serialize(_) | Op::File(_)) {
            observe(&g, &m).map_err(at)?;
            if print {
                printed(&g, &m).map_err(at)?;
            }
        }
    }
    if !m.frozen {
        g.freeze();
        m.frozen = true;
    }
    observe(&g, &m).map_err(|e| format!("at the end: {}", e))?;
    for (i, (g, m)) in others.iter_mut().enumerate() {
        observe(g, m).map_err(|e| format!("the {}. original: {}", i + 1, e))?;
        if !m.frozen {
            g.freeze();
            m.frozen = true;
            observe(g, m).map_err(|e| format!("the {}. original: {}", i + 1, e))?;
        }
    }
    t.label_if(duplicates > 0, "parallel edges");
    t.label_if(reductions > 0, "a later edge is cheaper");
    t.label_if(refused > 0, "changes refused while frozen");
    t.label_if(isolated > 0, "nodes without edges");
    t.label_if(cycles > 0, "changed again after freeze()");
    t.label_if(m.edges.len() > 65_536, "more than 65536 edges");
    t.count("copies", others.len());
    t.nontrivial_if(if others.is_empty() {
        duplicates > 0 && m.edges.len() > 1
    } else {
        m.edges.len() > 1
    });
    Ok(())
}

fn ops(r: &mut R, len: usize, copies: bool) -> Ops {
    let n = r.pick(&[2usize, 3, 4, 6, 10, 50]);
    let huge = r.chance(15);
    let big_weights = r.chance(20);
    let mut frozen = false;
    let mut ops = vec![];
    for _ in 0..r.range(1, len) {
        let k = r.below(100);
        // the state is followed, so that most operations are not refused
        if k < 8 && !frozen || frozen && k < 5 {
            ops.push(Op::Freeze);
            frozen = true;
        } else if frozen && k < 45 || k == 99 {
            ops.push(Op::Thaw);
            frozen = false;
        } else if copies && k < 60 {
            ops.push(match r.below(8) {
                0..=2 => Op::Clone,
                3..=5 => Op::Serialize(r.chance(50)),
                6 => Op::File(r.chance(50)),
                _ => Op::Isolated(r.range(1, 4)),
            });
        } else {
            let node = |r: &mut R| {
                if huge && r.chance(20) {
                    r.pick(&[255usize, 256, 65_535, 65_536, (1 << 32) - 1, 1 << 32, 1 << 40, usize::MAX - 1, usize::MAX])
                } else {
                    r.below(n)
                }
            };
            let (a, b) = (node(r), node(r));
            let w = if big_weights {
                r.pick(&[
                    0usize,
                    1,
                    255,
                    256,
                    65_535,
                    65_536,
                    (1 << 31) - 1,
                    1 << 31,
                    (1 << 32) - 1,
                    1 << 32,
                    1 << 63,
                    usize::MAX - 1,
                    usize::MAX,
                ])
            } else {
                r.below(6)
            };
            ops.push(Op::Add(a, b, w, r.chance(35)));
        }
    }
    Ops { ops }
}

fn large(r: &mut R, copies: bool) -> Ops {
    let w = gen::weights(r);
    let n = r.pick(&[30usize, 400, 3000]);
    let mut ops = vec![];
    for i in 0..r.range(20_000, 90_000) {
        let (a, b) = (r.below(n), r.below(n));
        let x = w.draw(r);
        ops.push(Op::Add(a, b, x, r.chance(50)));
        if i % 30_000 == 29_999 {
            ops.push(Op::Freeze);
            if copies {
                ops.push(Op::Serialize(false));
            }
            ops.push(Op::Thaw);
        }
    }
    Ops { ops }
}

pub struct C09;
impl Property for C09 {
    type C = Ops;
    const ID: &'static str = "C09";
    const SCALE: u64 = 4;
    const RULE: &'static str = "sequences of add_edge, add_edge_bidir, freeze and thaw (with loops, zero weights, parallel edges, ids and weights up to usize::MAX, and calls that must be refused in the current state), followed by a reference: a map from node pairs to the smallest weight; return values, number of nodes, edges and their order are compared after each step. Non-trivial: at least one parallel edge and two edges in the end";
    fn strata(tier: Tier) -> Vec<Stratum<Ops>> {
        vec![
            random("short", tier.cases(300_000, 6_000_000), |r| ops(r, 15, false)),
            random("long", tier.cases(40_000, 1_000_000), |r| ops(r, 120, false)),
            random("large", tier.cases(64, 800), |r| large(r, false)),
        ]
    }
    fn check(case: &Ops, t: &mut Tally) -> Result<(), String> {
        run(case, t, false)
    }
}

pub struct C23;
impl Property for C23 {
    type C = Ops;
    const ID: &'static str = "C23";
    const SCALE: u64 = 4;
    const RULE: &'static str = "the operation sequences of C09 with clone(), serialization (bincode, JSON) in any state, frozen or not, and writing and reading files (text, DIMACS with nodes without edges) of frozen graphs: the copy is used from then on and must behave like the original would have, and the original must not be affected. Non-trivial: at least one copy and two edges in the end";
    fn strata(tier: Tier) -> Vec<Stratum<Ops>> {
        vec![
            random("short", tier.cases(150_000, 3_000_000), |r| ops(r, 20, true)),
            random("long", tier.cases(20_000, 500_000), |r| ops(r, 100, true)),
            random("large", tier.cases(40, 500), |r| large(r, true)),
        ]
    }
    fn check(case: &Ops, t: &mut Tally) -> Result<(), String> {
        run(case, t, false)
    }
}

pub struct C30;
impl Property for C30 {
    type C = Ops;
    const ID: &'static str = "C30";
    const SCALE: u64 = 4;
    const RULE: &'static str = "the operation sequences of C09 and C23; after each step the printed form of the input graph (unit_test_output_string() and Debug) is parsed, its lines are executed, and the result must have the edges of the reference; if the graph is frozen there must be one line per edge, the one that the edge itself prints. Non-trivial: at least two edges in the end, and a parallel edge or a copy";
    fn strata(tier: Tier) -> Vec<Stratum<Ops>> {
        vec![
            random("short", tier.cases(150_000, 3_000_000), |r| {
                let copies = r.chance(30);
                ops(r, 15, copies)
            }),
            random("long", tier.cases(10_000, 250_000), |r| {
                let copies = r.chance(30);
                ops(r, 100, copies)
            }),
            random("large", tier.cases(32, 300), |r| large(r, false)),
        ]
    }
    fn check(case: &Ops, t: &mut Tally) -> Result<(), String> {
        run(case, t, true)
    }
}
