//! C05, C16: invalid input is refused.

use fast_paths::{InputGraph, ParamsWithOrder, PathCalculator};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen;
use crate::model::*;
use crate::props::multi::Ends;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OrderCase {
    pub g: G,
    pub order: Vec<usize>,
    pub limit: Option<usize>,
}

impl Case for OrderCase {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        // graph and order belong together: a node less in both
        let n = self.g.model().n;
        let smaller = (0..n).rev().map(move |v| {
            let f = |x: usize| if x > v { x - 1 } else { x };
            let g = G {
                adds: self
                    .g
                    .adds
                    .iter()
                    .filter(|a| a.0 != v && a.1 != v)
                    .map(|a| (f(a.0), f(a.1), a.2, a.3))
                    .collect(),
            };
            let mut removed = false;
            let order = self
                .order
                .iter()
                .filter(|x| {
                    let drop = **x == v && !removed;
                    removed |= drop;
                    !drop
                })
                .map(|x| f(*x))
                .collect();
            OrderCase {
                g,
                order,
                limit: self.limit,
            }
        });
        let g = self.g.shrinks().map(move |g| OrderCase { g, ..self.clone() });
        let limit = self.limit.iter().map(move |_| OrderCase {
            limit: None,
            ..self.clone()
        });
        Box::new(smaller.chain(limit).chain(g))
    }
}

pub struct C05;
impl Property for C05 {
    type C = OrderCase;
    const ID: &'static str = "C05";
    const SCALE: u64 = 20;
    const RULE: &'static str = "random graphs with node orders that are no permutation: a node twice in place of another one, ids out of range, nodes missing or too many, arbitrary lists; such an order must not yield a prepared graph (Err or panic; Err if only the length is wrong), while permutations of the same graph must be accepted, and the input graph must be left as it was. Non-trivial: the order is not a permutation, and the graph has at least three nodes";
    fn strata(tier: Tier) -> Vec<Stratum<OrderCase>> {
        fn spoiled(r: &mut R, g: G) -> OrderCase {
            let n = g.model().n;
            let mut o = r.perm(n);
            let foreign = |r: &mut R| r.pick(&[n, n + 1, n + 7, 2 * n, usize::MAX, usize::MAX - 1, 1 << 32]);
            match r.below(9) {
                // a permutation
                0 => {}
                // one node twice
                1 | 2 => {
                    let (i, j) = (r.below(n), r.below(n));
                    o[i] = o[j];
                }
                // at the very beginning or end
                3 => {
                    if r.chance(50) {
                        o[0] = o[n - 1];
                    } else {
                        o[n - 1] = o[0];
                    }
                }
                4 => {
                    let i = r.below(n);
                    o[i] = foreign(r);
                }
                5 => {
                    let k = r.range(1, n);
                    o.truncate(n - k);
                }
                6 => {
                    for _ in 0..r.range(1, 3) {
                        let at = r.below(o.len() + 1);
                        let v = if r.chance(50) { r.below(n) } else { foreign(r) };
                        o.insert(at, v);
                    }
                }
                // the same node everywhere
                7 => {
                    let v = r.below(n);
                    o = vec![v; n];
                }
                _ => {
                    let k = if r.chance(70) { n } else { r.below(2 * n) };
                    let hi = n + r.below(2);
                    o = (0..k).map(|_| r.below(hi)).collect();
                }
            }
            let limit = if r.chance(50) {
                None
            } else {
                Some(r.pick(&gen::LIMITS))
            };
            OrderCase { g, order: o, limit }
        }
        vec![
            random("up to 10 nodes", tier.cases(300_000, 5_000_000), |r| {
                let g = gen::graph(r, 2, 10);
                spoiled(r, g)
            }),
            random("up to 100 nodes", tier.cases(10_000, 300_000), |r| {
                let w = gen::weights(r);
                let n = r.range(10, 100);
                let g = sparse_graph(r, n, w);
                spoiled(r, g)
            }),
            random("thousands of nodes", tier.cases(100, 2000), |r| {
                // the order does not fit to the graph, so this must not be expensive to prepare
                let n = r.range(1000, 3000);
                let g = G {
                    adds: (0..n / 2).map(|i| (2 * i, 2 * i + 1, 1, true)).collect(),
                };
                spoiled(r, g)
            }),
        ]
    }
    fn check(case: &OrderCase, t: &mut Tally) -> Result<(), String> {
        let g = case.g.input();
        let m = case.g.model();
        let o = &case.order;
        let valid = as_order(o, m.n) == *o && o.len() == m.n;
        let r = guard(|| match case.limit {
            None => fast_paths::prepare_with_order(&g, o),
            Some(l) => {
                fast_paths::prepare_with_order_with_params(&g, o, &ParamsWithOrder::new(l))
            }
        });
        let length = o.len() != m.n;
        let foreign = o.iter().any(|v| *v >= m.n);
        match r {
            Ok(Ok(fg)) if valid => {
                if fast_paths::get_node_ordering(&fg) != *o {
                    return Err("a valid order was not adopted".into());
                }
            }
            Ok(Ok(_)) => {
                return Err(format!(
                    "the order {} was accepted for a graph of {} nodes",
                    short(o),
                    m.n
                ))
            }
            Ok(Err(e)) if valid => return Err(format!("a permutation was refused: {}", e)),
            Err(e) if valid => return Err(format!("a permutation led to a panic: {}", e)),
            Ok(Err(_)) => {}
            Err(p) if length && !foreign => {
                return Err(format!(
                    "an order with {} entries for {} nodes is not answered by an error, but: {}",
                    o.len(),
                    m.n,
                    p
                ))
            }
            Err(_) => {}
        }
        let edges: Vec<_> = g.get_edges().iter().map(|e| ((e.from, e.to), e.weight)).collect();
        if edges != m.edges.iter().map(|(e, w)| (*e, *w)).collect::<Vec<_>>() {
            return Err("the input graph has changed".into());
        }
        t.nontrivial_if(!valid && m.n >= 3);
        t.label_if(valid, "permutation");
        t.label_if(length, "wrong length");
        t.label_if(foreign, "nodes that do not exist");
        t.label_if(!length && !foreign && !valid, "right length, but a node more than once");
        Ok(())
    }
}

/// A call that must be refused.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// an id n + x (wrapping) as source or target
    Source(usize, usize),
    Target(usize, usize),
    /// ... at some position in a list
    SourceIn(Ends, usize, usize, usize),
    TargetIn(Ends, usize, usize, usize),
    NoSources,
    NoTargets,
    Nothing,
    /// calculator of another size
    OtherSize(usize, usize, usize),
    /// prepare (4 ways) an unfrozen graph, that was never frozen or has been thawed
    Unfrozen(u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MisuseCase {
    pub g: G,
    pub bad: Vec<Bad>,
}

impl Case for MisuseCase {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let b = shrink_list(&self.bad, 1).into_iter().map(move |bad| MisuseCase {
            g: self.g.clone(),
            bad,
        });
        let g = self.g.shrinks().map(move |g| MisuseCase {
            g,
            bad: self.bad.clone(),
        });
        Box::new(b.chain(g))
    }
}

pub struct C16;
impl Property for C16 {
    type C = MisuseCase;
    const ID: &'static str = "C16";
    const SCALE: u64 = 12;
    const RULE: &'static str = "random graphs and invalid calls on them: ids out of range (n, n+1, .., 2^32, usize::MAX) as source or target or at any position of a list, empty lists, calculators made for another number of nodes, preparing graphs that are not frozen in all four ways; each must be refused (panic, None of them may return an answer), and afterwards the same objects must give right answers. Non-trivial: a graph with at least three nodes and at least one refusal";
    fn strata(tier: Tier) -> Vec<Stratum<MisuseCase>> {
        fn case(r: &mut R, g: G) -> MisuseCase {
            let n = g.model().n;
            let beyond =
                |r: &mut R| r.pick(&[0usize, 0, 0, 1, 2, 10, n, (1 << 32) - n, usize::MAX - n]);
            let bad = (0..r.range(1, 8))
                .map(|_| match r.below(12) {
                    0 => Bad::Source(beyond(r), r.below(n)),
                    1 => Bad::Target(r.below(n), beyond(r)),
                    2 | 3 => Bad::SourceIn(
                        gen::endpoints(r, n, 5, true),
                        r.below(6),
                        beyond(r),
                        r.pick(&[0usize, 1, 1000, usize::MAX]),
                    ),
                    4 | 5 => Bad::TargetIn(
                        gen::endpoints(r, n, 5, true),
                        r.below(6),
                        beyond(r),
                        r.pick(&[0usize, 1, 1000, usize::MAX]),
                    ),
                    6 => Bad::NoSources,
                    7 => Bad::NoTargets,
                    8 => Bad::Nothing,
                    9 => {
                        let k = r.pick(&[0usize, 1, n - 1, n + 1, n + 2, 2 * n]);
                        Bad::OtherSize(k, r.below(n), r.below(n))
                    }
                    _ => Bad::Unfrozen(r.below(4) as u8, r.chance(50)),
                })
                .collect();
            MisuseCase { g, bad }
        }
        vec![
            random("up to 8 nodes", tier.cases(60_000, 2_000_000), |r| {
                let g = gen::graph(r, 2, 8);
                case(r, g)
            }),
            random("up to 60 nodes", tier.cases(10_000, 300_000), |r| {
                let g = gen::graph(r, 10, 60);
                case(r, g)
            }),
        ]
    }
    fn check(case: &MisuseCase, t: &mut Tally) -> Result<(), String> {
        let m = case.g.model();
        let n = m.n;
        if n == 0 {
            return Ok(());
        }
        let g = case.g.input();
        let fg = fast_paths::prepare(&g);
        let mut calc = fast_paths::create_calculator(&fg);
        for (i, bad) in case.bad.iter().enumerate() {
            let insert = |l: &Ends, at: usize, beyond: usize, w: usize| -> Ends {
                let mut l: Ends = l.iter().map(|x| (x.0 % n, x.1)).collect();
                let at = at % (l.len() + 1);
                l.insert(at, (n.saturating_add(beyond), w));
                l
            };
            let mut wrong = |s: Ends, e: Ends, free: bool| {
                guard(|| {
                    let r = if free {
                        fast_paths::calc_path_multiple_sources_and_targets(&fg, s, e)
                    } else {
                        calc.calc_path_multiple_sources_and_targets(&fg, s, e)
                    };
                    format!("{:?}", r)
                })
            };
            let free = i % 3 == 2;
            let r: Result<String, String> = match bad {
                Bad::Source(x, b) => {
                    let (a, b) = (n.saturating_add(*x), b % n);
                    guard(|| {
                        let r = if free {
                            fast_paths::calc_path(&fg, a, b)
                        } else {
                            calc.calc_path(&fg, a, b)
                        };
                        format!("{:?}", r)
                    })
                }
                Bad::Target(a, x) => {
                    let (a, b) = (a % n, n.saturating_add(*x));
                    guard(|| {
                        let r = if free {
                            fast_paths::calc_path(&fg, a, b)
                        } else {
                            calc.calc_path(&fg, a, b)
                        };
                        format!("{:?}", r)
                    })
                }
                Bad::SourceIn(l, at, x, w) => wrong(insert(l, *at, *x, *w), vec![(0, 0)], free),
                Bad::TargetIn(l, at, x, w) => wrong(vec![(0, 0)], insert(l, *at, *x, *w), free),
                Bad::NoSources => wrong(vec![], vec![(0, 0)], free),
                Bad::NoTargets => wrong(vec![(0, 0)], vec![], free),
                Bad::Nothing => wrong(vec![], vec![], free),
                Bad::OtherSize(k, a, b) => {
                    if *k == n {
                        continue;
                    }
                    let mut other = PathCalculator::new(*k);
                    guard(|| format!("{:?}", other.calc_path(&fg, a % n, b % n)))
                }
                Bad::Unfrozen(way, thawed) => {
                    let g2: InputGraph = if *thawed {
                        let mut g2 = case.g.input();
                        g2.thaw();
                        g2
                    } else {
                        case.g.unfrozen()
                    };
                    let order: Vec<usize> = (0..n).collect();
                    let r = guard(|| {
                        match way {
                            0 => drop(fast_paths::prepare(&g2)),
                            1 => drop(fast_paths::prepare_with_params(
                                &g2,
                                &fast_paths::Params::default(),
                            )),
                            2 => drop(fast_paths::prepare_with_order(&g2, &order).unwrap()),
                            _ => drop(
                                fast_paths::prepare_with_order_with_params(
                                    &g2,
                                    &order,
                                    &ParamsWithOrder::default(),
                                )
                                .unwrap(),
                            ),
                        }
                        "a prepared graph".to_string()
                    });
                    // the refused graph can still be used
                    let mut g2 = g2;
                    g2.freeze();
                    let fg2 = fast_paths::prepare(&g2);
                    if bytes(&fg2) != bytes(&fg) {
                        return Err(format!("{:?}: the graph has changed", bad));
                    }
                    r
                }
            };
            if let Ok(x) = r {
                return Err(format!(
                    "{:?} in a graph of {} nodes was not refused, but returned {}",
                    bad, n, x
                ));
            }
            t.count("refused calls", 1);
            t.nontrivial_if(n >= 3);
            // and everything still works
            let (a, b) = ((i * 7) % n, (i * 5 + n / 2) % n);
            let d = m.dist_from(a)[b];
            let got = calc.calc_path(&fg, a, b);
            check_p2p(&format!("after {:?} was refused: ", bad), &m, d, &got, a, b)?;
        }
        Ok(())
    }
}
