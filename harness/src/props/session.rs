//! C21: whole sessions.

use std::collections::HashMap;

use fast_paths::{FastGraph, InputGraph, PathCalculator};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen::{self, P};
use crate::model::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// thaws if needed
    Add(usize, usize, usize, bool),
    /// freezes if needed
    Prepare,
    PrepareParams(P),
    /// the nodes are sorted by these numbers
    PrepareOrder(Vec<u16>, Option<usize>),
    /// prepare the current graph with the order of an earlier prepared graph
    Reuse(usize),
    /// put a copy of a prepared graph in its place
    Clone(usize),
    Bincode(usize),
    Json(usize),
    Bit32(usize),
    /// replace the input graph by what has been written and read
    File,
    Dimacs,
    Drop(usize),
    Path(usize, usize, usize),
    Multi(usize, Vec<(usize, usize)>, Vec<(usize, usize)>),
    /// all the pairs
    All(usize),
    /// the same query on all the prepared graphs in turn, twice
    Everywhere(usize, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Session {
    pub ops: Vec<Op>,
    /// one calculator for all the prepared graphs of the same size
    #[serde(default)]
    pub share: bool,
}

impl Case for Session {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let less = shrink_list(&self.ops, 1)
            .into_iter()
            .map(|ops| Session {
                ops,
                share: self.share,
            });
        let simpler = (0..self.ops.len()).flat_map(move |i| {
            let mut v = vec![];
            let mut put = |o: Op| {
                let mut c = self.clone();
                c.ops[i] = o;
                v.push(c);
            };
            match &self.ops[i] {
                Op::Add(a, b, w, bi) => {
                    if *bi {
                        put(Op::Add(*a, *b, *w, false));
                    }
                    if *w > 1 {
                        put(Op::Add(*a, *b, 1, *bi));
                        put(Op::Add(*a, *b, w - 1, *bi));
                    }
                    if *a > 0 {
                        put(Op::Add(a - 1, *b, *w, *bi));
                    }
                    if *b > 0 {
                        put(Op::Add(*a, b - 1, *w, *bi));
                    }
                }
                Op::PrepareParams(_) | Op::PrepareOrder(..) | Op::Reuse(_) => put(Op::Prepare),
                Op::Multi(k, s, t) => {
                    for s in shrink_list(s, 1) {
                        put(Op::Multi(*k, s, t.clone()));
                    }
                    for t in shrink_list(t, 1) {
                        put(Op::Multi(*k, s.clone(), t));
                    }
                }
                _ => {}
            }
            v
        });
        Box::new(less.chain(simpler))
    }
}

struct Slot {
    fg: FastGraph,
    m: Model,
    calc: PathCalculator,
    /// how many changes of the input graph there had been
    version: usize,
}

fn edge(r: &mut R, n: usize, big: bool) -> Op {
    let w = if big {
        1 + (r.u64() as usize & ((1 << 36) - 1))
    } else {
        r.range(1, 12)
    };
    let (a, b) = (r.below(n), r.below(n));
    let w = if r.chance(3) { 0 } else { w };
    Op::Add(a, b, w, r.chance(40))
}

fn session(r: &mut R, n: usize, len: usize) -> Session {
    let big = r.chance(20);
    let mut ops = vec![];
    for _ in 0..r.range(1, n * 2) {
        ops.push(edge(r, n, big));
    }
    for _ in 0..r.range(3, len) {
        let k = r.below(6);
        match r.below(40) {
            0..=9 => {
                for _ in 0..r.range(1, 3) {
                    ops.push(edge(r, n, big))
                }
            }
            10..=13 => ops.push(Op::Prepare),
            14 => ops.push(Op::PrepareParams(gen::params(r))),
            15 => {
                let keys = (0..n).map(|_| r.u64() as u16).collect();
                let limit = if r.chance(50) {
                    None
                } else {
                    Some(r.pick(&gen::LIMITS))
                };
                ops.push(Op::PrepareOrder(keys, limit))
            }
            16 | 17 => ops.push(Op::Reuse(k)),
            18 => ops.push(Op::Clone(k)),
            19 => ops.push(Op::Bincode(k)),
            20 => ops.push(Op::Json(k)),
            21 => ops.push(Op::Bit32(k)),
            22 => ops.push(Op::File),
            23 => ops.push(Op::Dimacs),
            24 => ops.push(Op::Drop(k)),
            25..=29 => ops.push(Op::Multi(
                k,
                gen::endpoints(r, n, 4, true),
                gen::endpoints(r, n, 4, true),
            )),
            30..=31 => ops.push(Op::All(k)),
            32..=34 => ops.push(Op::Everywhere(r.below(n), r.below(n))),
            _ => ops.push(Op::Path(k, r.below(n), r.below(n))),
        }
    }
    ops.push(Op::Prepare);
    for k in 0..6 {
        ops.push(Op::All(k));
    }
    Session {
        ops,
        share: r.chance(60),
    }
}

pub struct C21;
impl Property for C21 {
    type C = Session;
    const ID: &'static str = "C21";
    const SCALE: u64 = 4;
    const RULE: &'static str = "random sessions of up to 100 steps on one input graph: adding edges (thawing it again), preparing in all four ways, preparing with the order of an earlier prepared graph, cloning and writing and reading prepared graphs (bincode, JSON, 32 bit) and the input graph (both text formats), dropping, and queries against any of up to six prepared graphs, each with one calculator for all of its queries, or one calculator for all the graphs of the same size, and the same query on all of them in turn; every prepared graph must go on answering for the input graph as it was when it was prepared. Non-trivial: a query of a graph that was prepared before the input graph changed";
    fn strata(tier: Tier) -> Vec<Stratum<Session>> {
        vec![
            random("up to 7 nodes", tier.cases(50_000, 1_500_000), |r| {
                let n = r.range(2, 7);
                session(r, n, 40)
            }),
            random("up to 30 nodes", tier.cases(10_000, 300_000), |r| {
                let n = r.range(7, 30);
                session(r, n, 60)
            }),
            random("up to 150 nodes", tier.cases(200, 6_000), |r| {
                let n = r.range(60, 150);
                let mut s = session(r, n, 60);
                // otherwise these are denser than necessary
                s.ops.retain(|o| !matches!(o, Op::PrepareParams(_) | Op::PrepareOrder(..)));
                s
            }),
        ]
    }
    fn check(case: &Session, t: &mut Tally) -> Result<(), String> {
        let mut g = InputGraph::new();
        let mut adds = G::default();
        let mut frozen = false;
        let mut version = 0;
        let mut slots: Vec<Slot> = vec![];
        let mut shared: HashMap<usize, PathCalculator> = HashMap::new();
        let file = scratch_file("session");
        let name = file.to_str().unwrap();
        // the reference of the current input graph; a DIMACS file can add nodes
        let check_input = |g: &InputGraph, m: &Model| -> Result<(), String> {
            let e: Vec<_> = g.get_edges().iter().map(|e| ((e.from, e.to), e.weight)).collect();
            if g.get_num_nodes() != m.n || e != m.edges.iter().map(|(e, w)| (*e, *w)).collect::<Vec<_>>() {
                return Err(format!(
                    "the input graph has {} nodes and {} edges instead of {} and {} (or other ones)",
                    g.get_num_nodes(),
                    e.len(),
                    m.n,
                    m.edges.len()
                ));
            }
            Ok(())
        };
        for (i, op) in case.ops.iter().enumerate() {
            let at = |e: String| format!("step {} ({:?}): {}", i, op, e);
            let freeze = |g: &mut InputGraph, frozen: &mut bool| {
                if !*frozen {
                    g.freeze();
                    *frozen = true;
                }
            };
            match op {
                Op::Add(a, b, w, bi) => {
                    if frozen {
                        g.thaw();
                        frozen = false;
                    }
                    if *bi {
                        g.add_edge_bidir(*a, *b, *w);
                    } else {
                        g.add_edge(*a, *b, *w);
                    }
                    adds.adds.push((*a, *b, *w, *bi));
                    version += 1;
                }
                Op::Prepare | Op::PrepareParams(_) | Op::PrepareOrder(..) | Op::Reuse(_) => {
                    freeze(&mut g, &mut frozen);
                    let m = adds.model();
                    check_input(&g, &m).map_err(at)?;
                    let fg = match op {
                        Op::Prepare => fast_paths::prepare(&g),
                        Op::PrepareParams(p) => fast_paths::prepare_with_params(&g, &p.params()),
                        Op::PrepareOrder(keys, l) => {
                            let mut o: Vec<usize> = (0..m.n).collect();
                            o.sort_by_key(|v| (keys.get(*v).copied().unwrap_or(0), *v));
                            Prep::Order(o, *l).build(&g).map_err(at)?
                        }
                        Op::Reuse(k) => {
                            if slots.is_empty() {
                                continue;
                            }
                            let o = fast_paths::get_node_ordering(&slots[k % slots.len()].fg);
                            match fast_paths::prepare_with_order(&g, &o) {
                                Ok(fg) if o.len() == m.n => fg,
                                Err(_) if o.len() != m.n => continue,
                                Ok(_) => return Err(at("an order of another length was accepted".into())),
                                Err(e) => return Err(at(e)),
                            }
                        }
                        _ => unreachable!(),
                    };
                    let calc = fast_paths::create_calculator(&fg);
                    let s = Slot {
                        fg,
                        m,
                        calc,
                        version,
                    };
                    if slots.len() < 6 {
                        slots.push(s);
                    } else {
                        slots[i % 6] = s;
                    }
                    t.count("prepared graphs", 1);
                }
                Op::File | Op::Dimacs => {
                    freeze(&mut g, &mut frozen);
                    let dimacs = matches!(op, Op::Dimacs);
                    let r = if dimacs {
                        g.to_dimacs_file(name)
                    } else {
                        g.to_file(name)
                    };
                    r.map_err(|e| at(e.to_string()))?;
                    g = if dimacs {
                        InputGraph::from_dimacs_file(name)
                    } else {
                        InputGraph::from_file(name)
                    };
                    check_input(&g, &adds.model()).map_err(at)?;
                }
                Op::Everywhere(a, b) => {
                    for _ in 0..2 {
                        for s in slots.iter_mut().filter(|s| s.m.n > 0) {
                            let n = s.m.n;
                            let calc = if case.share {
                                shared.entry(n).or_insert_with(|| fast_paths::create_calculator(&s.fg))
                            } else {
                                &mut s.calc
                            };
                            let (a, b) = (a % n, b % n);
                            let got = calc.calc_path(&s.fg, a, b);
                            check_p2p("", &s.m, s.m.dist_from(a)[b], &got, a, b).map_err(at)?;
                            t.count("queries", 1);
                        }
                    }
                }
                Op::Clone(k)
                | Op::Bincode(k)
                | Op::Json(k)
                | Op::Bit32(k)
                | Op::Drop(k)
                | Op::Path(k, _, _)
                | Op::Multi(k, _, _)
                | Op::All(k) => {
                    if slots.is_empty() {
                        continue;
                    }
                    let k = k % slots.len();
                    if let Op::Drop(_) = op {
                        slots.remove(k);
                        continue;
                    }
                    let Slot {
                        fg,
                        m,
                        calc,
                        version: v,
                    } = &mut slots[k];
                    let n = m.n;
                    let calc = if case.share {
                        shared.entry(n).or_insert_with(|| fast_paths::create_calculator(fg))
                    } else {
                        calc
                    };
                    match op {
                        Op::Clone(_) => *fg = fg.clone(),
                        Op::Bincode(_) => {
                            *fg = bincode::deserialize(&bytes(fg)).map_err(|e| at(e.to_string()))?
                        }
                        Op::Json(_) => {
                            let s = serde_json::to_string(&*fg).map_err(|e| at(e.to_string()))?;
                            *fg = serde_json::from_str(&s).map_err(|e| at(e.to_string()))?;
                        }
                        Op::Bit32(_) => {
                            let small = m.edges.values().map(|w| *w as u128).sum::<u128>()
                                < u32::MAX as u128;
                            let r = guard(|| {
                                let mut out = vec![];
                                fast_paths::serialize_32(
                                    fg,
                                    &mut bincode::Serializer::new(&mut out, bincode::options()),
                                )
                                .map(|_| out)
                                .map_err(|e| e.to_string())
                            })
                            .and_then(|r| r);
                            match r {
                                Err(e) if small => return Err(at(e)),
                                Err(_) => continue,
                                Ok(b) => {
                                    let mut d =
                                        bincode::Deserializer::from_slice(&b, bincode::options());
                                    *fg = fast_paths::deserialize_32(&mut d)
                                        .map_err(|e| at(e.to_string()))?;
                                }
                            }
                        }
                        _ if n == 0 => {}
                        Op::Path(_, a, b) => {
                            let (a, b) = (a % n, b % n);
                            let got = calc.calc_path(fg, a, b);
                            check_p2p("", m, m.dist_from(a)[b], &got, a, b).map_err(at)?;
                            t.nontrivial_if(*v < version && a != b);
                            t.count("queries", 1);
                        }
                        Op::All(_) => {
                            for a in 0..n {
                                let d = m.dist_from(a);
                                for b in 0..n {
                                    let got = calc.calc_path(fg, a, b);
                                    check_p2p("", m, d[b], &got, a, b).map_err(at)?;
                                }
                            }
                            t.nontrivial_if(*v < version && n > 2);
                            t.count("queries", n * n);
                        }
                        Op::Multi(_, s, e) => {
                            let f = |l: &Vec<(usize, usize)>| -> Vec<(usize, usize)> {
                                l.iter().map(|x| (x.0 % n, x.1)).collect()
                            };
                            let u = |l: &Vec<(usize, usize)>| -> Vec<(usize, usize)> {
                                l.iter().filter(|x| x.1 != usize::MAX).cloned().collect()
                            };
                            let (s, e) = (f(s), f(e));
                            let (us, ue) = (u(&s), u(&e));
                            let got =
                                calc.calc_path_multiple_sources_and_targets(fg, s.clone(), e.clone());
                            check_answer(
                                &|| format!("from {:?} to {:?}", s, e),
                                m,
                                multi_expected(m, &us, &ue),
                                &got,
                                &us,
                                &ue,
                            )
                            .map_err(at)?;
                            t.count("queries", 1);
                        }
                        _ => {}
                    }
                }
            }
        }
        Ok(())
    }
}
