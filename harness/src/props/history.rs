//! C08: answers do not depend on what a calculator has been used for before.

use fast_paths::{FastGraph, PathCalculator};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen;
use crate::model::*;
use crate::props::multi::{modulo, Ends};

/// One use of the calculator. The first number selects the graph.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Path(usize, usize, usize),
    Multi(usize, Ends, Ends),
    /// a query that is refused: invalid node or empty list
    Bad(usize, u8),
    /// many queries in a row
    Burst(usize, usize, usize, u32),
    /// the previous query once more, maybe on another graph
    Again(usize),
    /// two graphs change places
    Swap(usize, usize),
    /// as if it had been used for so many queries that this few are left until the (32 bit)
    /// counter of queries starts again
    NearTheEnd(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    /// graphs with the same number of nodes
    pub graphs: Vec<(G, Prep)>,
    pub n: usize,
    pub ops: Vec<Op>,
}

impl Case for History {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let ops = shrink_list(&self.ops, 0)
            .into_iter()
            .map(move |ops| History {
                ops,
                ..self.clone()
            });
        let bursts = (0..self.ops.len()).filter_map(move |i| match &self.ops[i] {
            Op::Burst(g, s, t, k) if *k > 1 => {
                let mut c = self.clone();
                c.ops[i] = Op::Burst(*g, *s, *t, k / 2);
                Some(c)
            }
            _ => None,
        });
        let less = (0..self.ops.len()).filter_map(move |i| match &self.ops[i] {
            Op::Burst(g, s, t, k) if *k > 1 => {
                let mut c = self.clone();
                c.ops[i] = Op::Burst(*g, *s, *t, k - 1);
                Some(c)
            }
            _ => None,
        });
        let fewer = (0..self.graphs.len())
            .filter(move |_| self.graphs.len() > 1)
            .map(move |i| {
                let mut c = self.clone();
                c.graphs.remove(i);
                c
            });
        let graphs = (0..self.graphs.len()).flat_map(move |i| {
            self.graphs[i].0.shrinks().map(move |g| {
                let mut c = self.clone();
                c.graphs[i].0 = g;
                c
            })
        });
        let smaller = std::iter::once_with(move || {
            let mut c = self.clone();
            c.n = c
                .graphs
                .iter()
                .map(|g| g.0.model().n)
                .max()
                .unwrap_or(0)
                .max(2);
            c
        })
        .filter(move |c| c.n < self.n);
        Box::new(ops.chain(fewer).chain(smaller).chain(bursts).chain(graphs).chain(less))
    }
}

/// The graph with exactly n nodes: an edge makes sure that the last node exists.
pub fn with_nodes(g: &G, n: usize) -> G {
    let mut g = g.clone();
    g.adds.retain(|a| a.0 < n && a.1 < n);
    if g.model().n < n {
        g.adds.push((n - 1, 0, 1, false));
    }
    g
}

#[cfg(fast_paths_verif)]
fn near_the_end(calc: &mut PathCalculator, left: u32, done: u32) -> bool {
    // the counter is never turned back
    if u32::MAX - left <= done {
        return false;
    }
    calc.verif_skip_to_generation(u32::MAX - left);
    true
}

#[cfg(not(fast_paths_verif))]
fn near_the_end(_: &mut PathCalculator, _: u32, _: u32) -> bool {
    false
}

fn fast_paths_order(g: &(G, Prep)) -> Vec<usize> {
    match guard(|| g.1.build(&g.0.input())) {
        Ok(Ok(fg)) => guard(|| fast_paths::get_node_ordering(&fg)).unwrap_or_default(),
        _ => vec![],
    }
}

fn history(r: &mut R, lo: usize, hi: usize, ops: usize, bursts: bool) -> History {
    let k = r.range(1, 3);
    let mut graphs: Vec<(G, Prep)> = (0..k)
        .map(|_| {
            let g = gen::graph(r, lo, hi);
            let prep = any_prep(r, &g.model());
            (g, prep)
        })
        .collect();
    // the same edges and order, but other weights
    if r.chance(40) {
        let first = graphs[0].clone();
        let order = fast_paths_order(&first);
        for x in graphs.iter_mut().skip(1) {
            let w = gen::weights(r);
            *x = first.clone();
            for a in x.0.adds.iter_mut().filter(|a| a.2 > 0) {
                a.2 = w.draw(r);
            }
            if r.chance(70) {
                x.1 = Prep::Order(order.clone(), None);
            }
        }
    }
    let n = graphs.iter().map(|g| g.0.model().n).max().unwrap().max(2);
    // nodes that are used again and again, so that old data is met
    let hot = [r.below(n), r.below(n), r.below(n)];
    let node = |r: &mut R| if r.chance(40) { r.pick(&hot) } else { r.below(n) };
    let mut skipped = false;
    let ops = (0..r.range(2, ops))
        .map(|_| {
            let gi = r.below(k);
            match r.below(20) {
                0..=5 => Op::Path(gi, node(r), node(r)),
                6..=8 => Op::Again(gi),
                9 => Op::Swap(gi, r.below(k)),
                10..=15 => Op::Multi(
                    gi,
                    gen::endpoints(r, n, 4, true),
                    gen::endpoints(r, n, 4, true),
                ),
                16..=17 => Op::Bad(gi, r.below(6) as u8),
                18 if bursts => {
                    let l = r.pick(&[250u32, 255, 256, 300, 65_535, 65_536, 66_000]);
                    Op::Burst(gi, node(r), node(r), l)
                }
                _ if !skipped => {
                    skipped = true;
                    Op::NearTheEnd(r.below(8) as u32)
                }
                _ => Op::Path(gi, node(r), node(r)),
            }
        })
        .collect();
    History { graphs, n, ops }
}

/// few queries, then a jump to the end of the counter, then more queries
fn wrap(r: &mut R) -> History {
    let mut h = history(r, 3, 25, 3, false);
    h.ops.retain(|o| !matches!(o, Op::NearTheEnd(_)));
    let k = h.graphs.len();
    let n = h.n;
    for _ in 0..r.range(1, 8) {
        h.ops.push(Op::Path(r.below(k), r.below(n), r.below(n)));
    }
    h.ops.push(Op::NearTheEnd(r.below(4) as u32));
    for _ in 0..r.range(8, 30) {
        h.ops.push(Op::Path(r.below(k), r.below(n), r.below(n)));
    }
    h
}

pub struct C08;
impl Property for C08 {
    type C = History;
    const ID: &'static str = "C08";
    const SCALE: u64 = 6;
    const RULE: &'static str = "sequences of up to 120 uses of a single calculator: point to point and multiple source/target queries, switching between up to three graphs of the same size (often with the same edges and other weights), exactly the same query again on another graph, graphs that change their places in memory, refused queries (panics that are caught), bursts of 256 to 66000 queries, and jumps to shortly before the 32 bit query counter starts again (hook); after each step the answer is compared with the reference (weight, nodes) and its weight with a fresh calculator. Non-trivial: an answer of at least two hops was given by a calculator that had been used before";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the jump sets the query counter to a value that it would reach by itself after the according number of queries",
    ];
    fn strata(tier: Tier) -> Vec<Stratum<History>> {
        vec![
            random("up to 10 nodes", tier.cases(60_000, 2_000_000), |r| {
                history(r, 2, 10, 40, false)
            }),
            random("up to 50 nodes", tier.cases(10_000, 300_000), |r| {
                history(r, 8, 50, 120, false)
            }),
            random("counter starts again", tier.cases(30_000, 800_000), wrap),
            random("bursts", tier.cases(60, 1500), |r| {
                let mut h = history(r, 3, 12, 12, true);
                let (a, b) = (r.below(h.n), r.below(h.n));
                let l = r.pick(&[255u32, 256, 65_533, 65_534, 65_535, 65_536, 65_537]);
                let i = r.below(h.graphs.len());
                h.ops.insert(r.below(h.ops.len() + 1), Op::Burst(i, a, b, l));
                for _ in 0..6 {
                    let i = r.below(h.graphs.len());
                    h.ops.push(Op::Path(i, r.below(h.n), r.below(h.n)));
                }
                h
            }),
            // the burst stays in one component, so that data of the other ones remains untouched
            random("data of long ago", tier.cases(200, 4000), |r| {
                let mut adds = gen::graph(r, 4, 10).compact().adds;
                let k = adds.iter().map(|a| a.0.max(a.1)).max().unwrap() + 1;
                let x = r.range(1, 9);
                adds.push((k, k + 1, x, true));
                let g = G { adds };
                let n = g.model().n;
                let mut ops = vec![];
                for _ in 0..r.range(1, 6) {
                    ops.push(Op::Path(0, r.below(k), r.below(k)));
                }
                let around = r.pick(&[256u32, 65_536]);
                ops.push(Op::Burst(0, n - 2, n - 1, around - 8));
                for _ in 0..20 {
                    if r.chance(70) {
                        ops.push(Op::Path(0, r.below(k), r.below(k)));
                    } else {
                        ops.push(Op::Path(0, n - 2, n - 1));
                    }
                }
                History {
                    graphs: vec![(g, Prep::Default)],
                    n,
                    ops,
                }
            }),
        ]
    }

    fn check(case: &History, t: &mut Tally) -> Result<(), String> {
        let n = case.n;
        if n < 2 || case.graphs.is_empty() {
            return Ok(());
        }
        let mut graphs: Vec<(Model, FastGraph, Vec<Option<Vec<u128>>>)> = vec![];
        for (g, prep) in &case.graphs {
            let g = with_nodes(g, n);
            let fg = prep.build(&g.input())?;
            graphs.push((g.model(), fg, vec![None; n]));
        }
        let mut calc = PathCalculator::new(n);
        let mut done = 0u32;
        let mut jumped = false;
        let mut last = None;
        for (i, op) in case.ops.iter().enumerate() {
            let repeated;
            let op = match (op, &last) {
                (Op::Again(_), None) => continue,
                (Op::Again(g), Some(Op::Path(_, a, b))) => {
                    repeated = Op::Path(*g, *a, *b);
                    t.label("the same query again");
                    &repeated
                }
                (Op::Again(g), Some(Op::Multi(_, s, e))) => {
                    repeated = Op::Multi(*g, s.clone(), e.clone());
                    t.label("the same query again");
                    &repeated
                }
                _ => op,
            };
            if let Op::Path(..) | Op::Multi(..) = op {
                last = Some(op.clone());
            }
            match op {
                Op::Again(_) => {}
                Op::Swap(a, b) => {
                    let len = graphs.len();
                    graphs.swap(a % len, b % len);
                }
                Op::Path(g, a, b) => {
                    let k = g % graphs.len();
                    let (m, fg, dist) = &mut graphs[k];
                    let (a, b) = (a % n, b % n);
                    let d = dist[a].get_or_insert_with(|| m.dist_from(a))[b];
                    let got = calc.calc_path(fg, a, b);
                    check_p2p(&format!("step {}: graph {}: ", i, k), m, d, &got, a, b)?;
                    let fresh = fast_paths::calc_path(fg, a, b);
                    if fresh.as_ref().map(|p| p.get_weight()) != got.as_ref().map(|p| p.get_weight()) {
                        return Err(format!("step {}: a fresh calculator disagrees", i));
                    }
                    t.nontrivial_if(done > 1 && got.map_or(false, |p| p.get_nodes().len() > 2));
                    t.count("queries", 1);
                    t.label_if(jumped, "queries around the end of the counter");
                    done += 1;
                }
                Op::Multi(g, s, e) => {
                    let k = g % graphs.len();
                    let (m, fg, _) = &graphs[k];
                    let (s, e) = (modulo(s, n), modulo(e, n));
                    let usable = |l: &Ends| -> Ends {
                        l.iter().filter(|x| x.1 != usize::MAX).cloned().collect()
                    };
                    let (us, ue) = (usable(&s), usable(&e));
                    let expected = multi_expected(m, &us, &ue);
                    let got = calc.calc_path_multiple_sources_and_targets(fg, s.clone(), e.clone());
                    check_answer(
                        &|| format!("step {}: graph {}: from {:?} to {:?}", i, k, s, e),
                        m,
                        expected,
                        &got,
                        &us,
                        &ue,
                    )?;
                    t.count("queries", 1);
                    done += 1;
                }
                Op::Bad(g, kind) => {
                    let fg = &graphs[g % graphs.len()].1;
                    let r = guard(|| match kind {
                        0 => calc.calc_path(fg, n, 0),
                        1 => calc.calc_path(fg, 0, n),
                        2 => calc.calc_path_multiple_sources_and_targets(fg, vec![], vec![(0, 0)]),
                        3 => calc.calc_path_multiple_sources_and_targets(fg, vec![(0, 0)], vec![]),
                        4 => calc.calc_path_multiple_sources_and_targets(
                            fg,
                            vec![(0, 0), (n, 0)],
                            vec![(1, 0)],
                        ),
                        _ => calc.calc_path_multiple_sources_and_targets(
                            fg,
                            vec![(0, 0)],
                            vec![(1, 0), (n + 3, 2)],
                        ),
                    });
                    if r.is_ok() {
                        return Err(format!("step {}: an invalid query was not refused", i));
                    }
                    t.label("refused queries");
                    done += 1;
                }
                Op::Burst(g, a, b, len) => {
                    let k = g % graphs.len();
                    let (m, fg, _) = &graphs[k];
                    let (a, b) = (a % n, b % n);
                    let d = m.dist_from(a)[b];
                    for j in 0..*len {
                        let got = calc.calc_path(fg, a, b);
                        check_weight(
                            &|| format!("step {}: graph {}: repetition {}: {} -> {}", i, k, j, a, b),
                            d,
                            &got,
                        )?;
                    }
                    t.label_if(*len > 60_000, "bursts of more than 60000 queries");
                    done = done.saturating_add(*len);
                }
                Op::NearTheEnd(left) => {
                    if !jumped && near_the_end(&mut calc, *left, done.saturating_add(2)) {
                        jumped = true;
                        t.label("jump to the end of the counter");
                    }
                }
            }
        }
        Ok(())
    }
}
