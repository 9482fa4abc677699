//! C01 - C04: point to point routing.

use std::collections::BTreeMap;

use fast_paths::{FastGraph, ShortestPath};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen::{self, W};
use crate::model::*;

const TIES: [W; 3] = [W::Unit, W::Few, W::Pow2];

#[derive(Default)]
struct Seen {
    multi_hop: bool,
    unreachable: bool,
    max_hops: usize,
}

/// Asks all the queries, and compares the answers with Dijkstra's algorithm.
fn compare(
    m: &Model,
    fg: &FastGraph,
    queries: &Queries,
    nodes: bool,
    seen: &mut Seen,
) -> Result<(), String> {
    if fg.get_num_nodes() != m.n {
        return Err(format!(
            "the prepared graph has {} nodes, the input graph {}",
            fg.get_num_nodes(),
            m.n
        ));
    }
    let mut calc = fast_paths::create_calculator(fg);
    let mut before: Option<ShortestPath> = None;
    for (i, (s, ts)) in queries.resolve(m.n).into_iter().enumerate() {
        let d = m.dist_from(s);
        for (j, t) in ts.into_iter().enumerate() {
            let got = if i == j && m.n < 100 {
                fast_paths::calc_path(fg, s, t)
            } else {
                calc.calc_path(fg, s, t)
            };
            if nodes {
                check_p2p("", m, d[t], &got, s, t)?;
                if let Some(p) = &got {
                    compared(p, &before)?;
                    before = got.clone();
                }
            } else {
                check_weight(&|| format!("{} -> {}", s, t), d[t], &got)?;
            }
            match &got {
                None => seen.unreachable = true,
                Some(p) => {
                    seen.max_hops = seen.max_hops.max(p.get_nodes().len());
                    seen.multi_hop |= p.get_nodes().len() > 2;
                }
            }
        }
    }
    Ok(())
}

/// Paths are equal if their ends and weights are. A clone is the same path.
fn compared(p: &ShortestPath, other: &Option<ShortestPath>) -> Result<(), String> {
    let key = |p: &ShortestPath| (p.get_source(), p.get_target(), p.get_weight());
    let c = p.clone();
    if key(&c) != key(p) || c.get_nodes() != p.get_nodes() || c.is_found() != p.is_found() {
        return Err(format!("the clone of {:?} is {:?}", p, c));
    }
    let (s, t, w) = key(p);
    let nodes = |f: &dyn Fn(&mut Vec<usize>)| {
        let mut v = p.get_nodes().clone();
        f(&mut v);
        v
    };
    // answers that differ from this one in a single respect
    let variants = match (s + t) % 4 {
        0 => vec![
            ShortestPath::new(s, t, w, nodes(&|v| v.insert(1, s + t + 1))),
            ShortestPath::new(s, t, w, nodes(&|v| v.iter_mut().skip(1).for_each(|x| *x += 1))),
            ShortestPath::new(s, t, w, vec![s, t]),
        ],
        1 => vec![
            ShortestPath::new(s, t, w + 1, nodes(&|_| ())),
            ShortestPath::new(s, t, w ^ 1 << 40, nodes(&|_| ())),
        ],
        2 => vec![
            ShortestPath::new(s, t + 1, w, nodes(&|_| ())),
            ShortestPath::new(s + 1, t, w, nodes(&|_| ())),
            ShortestPath::new(t, s, w, nodes(&|_| ())),
        ],
        _ => vec![
            ShortestPath::none(s, t),
            ShortestPath::singular(s),
            ShortestPath::singular(t),
        ],
    };
    for q in &variants {
        if q.is_found() != (q.get_weight() != usize::MAX) {
            return Err(format!("is_found() is {} for the weight {}", q.is_found(), q.get_weight()));
        }
    }
    #[allow(clippy::eq_op)]
    for q in [Some(&c), other.as_ref()].into_iter().flatten().chain(&variants) {
        let same = key(p) == key(q);
        if (p == q) != same || (q == p) != same || (p != q) == same {
            return Err(format!(
                "the paths {:?} and {:?} are{} considered equal",
                key(p),
                key(q),
                if p == q { "" } else { " not" }
            ));
        }
    }
    Ok(())
}

fn label(t: &mut Tally, m: &Model, fg: &FastGraph, seen: &Seen) {
    let shortcuts = fg.get_num_out_edges() + fg.get_num_in_edges() > m.edges.len();
    t.nontrivial_if(seen.multi_hop && shortcuts);
    t.label_if(shortcuts, "with shortcuts");
    t.label_if(seen.unreachable, "with unreachable pairs");
    t.label_if(seen.max_hops > 10, "path of more than 10 nodes");
    t.label_if(seen.max_hops > 256, "path of more than 256 nodes");
    t.label_if(seen.max_hops > 1024, "path of more than 1024 nodes");
    t.label_if(m.n > 256, "more than 256 nodes");
    t.label_if(m.n > 65536, "more than 65536 nodes");
    t.label_if(
        m.edges.values().any(|w| *w > u32::MAX as usize),
        "weights beyond 32 bit",
    );
}

fn route(case: &Routing, t: &mut Tally, nodes: bool) -> Result<(), String> {
    let m = case.g.model();
    let fg = case.prep.build(&case.g.input())?;
    let mut seen = Seen::default();
    compare(&m, &fg, &case.queries, nodes, &mut seen)?;
    label(t, &m, &fg, &seen);
    t.label(case.prep.label());
    Ok(())
}

/// The graph with n nodes whose adjacency matrix is given by the digits of i.
fn numbered(i: u64, n: usize, base: u64, weights: &[usize]) -> G {
    let mut i = i;
    let mut adds = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                let d = (i % base) as usize;
                i /= base;
                if d > 0 {
                    adds.push((a, b, weights[d - 1], false));
                }
            }
        }
    }
    G { adds }
}

fn permutation(mut i: u64, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for k in (1..=n).rev() {
        out.push(left.remove((i % k as u64) as usize));
        i /= k as u64;
    }
    out
}

fn sampled(r: &mut R, g: G, prep: Prep, queries: usize) -> Routing {
    let n = g.model().n;
    Routing {
        queries: random_queries(r, n, queries),
        g,
        prep,
    }
}

fn around(r: &mut R, g: G, prep: Prep, sources: usize) -> Routing {
    let n = g.model().n;
    Routing {
        queries: Queries::Around((0..sources).map(|_| r.below(n)).collect()),
        g,
        prep,
    }
}

/// a hub that is connected with many nodes
fn star(r: &mut R) -> G {
    let n = r.range(257, 330);
    let w = gen::weights(r);
    let mut adds = vec![];
    for v in 1..n {
        let x = w.draw(r);
        adds.push((0, v, x, true));
        if r.chance(30) {
            let (u, x) = (r.range(1, n - 1), w.draw(r));
            adds.push((v, u, x, false));
        }
    }
    let ids = r.perm(n);
    for a in adds.iter_mut() {
        a.0 = ids[a.0];
        a.1 = ids[a.1];
    }
    G { adds }
}

/// a hub whose edges are dear, with cheap detours next to many of them
fn detours(r: &mut R) -> G {
    let k = r.pick(&[10usize, 20, 40, 70, 100, 140]);
    let (dir, share) = (r.below(3), r.pick(&[10, 40, 90]));
    let base = r.pick(&[0usize, 10, 100, 5000, 1 << 33]);
    let mut adds = vec![];
    let mut next = k + 1;
    for v in 1..=k {
        for out in [false, true] {
            if out && dir == 0 || !out && dir == 1 {
                continue;
            }
            let mut add = |a, b, w| adds.push(if out { (a, b, w, false) } else { (b, a, w, false) });
            add(0, v, 20 + base + r.below(9));
            if r.chance(share) {
                let (x, y) = (r.range(1, 12), r.range(1, 12));
                add(0, next, x);
                add(next, v, y);
                next += 1;
            }
        }
        if r.chance(60) {
            let (u, x) = (r.range(1, k), r.range(1, 60));
            adds.push((v, u, x, r.chance(50)));
        }
    }
    if r.chance(70) {
        let ids = r.perm(next);
        for a in adds.iter_mut() {
            a.0 = ids[a.0];
            a.1 = ids[a.1];
        }
    }
    G { adds }
}

/// Nodes with edges to (or from) very many others, but in one direction only, so that they can be
/// contracted early without a shortcut for each pair of neighbours. They are the first ones of the
/// order that comes with the graph.
pub fn fan(r: &mut R, k: usize, w: W) -> (G, Vec<usize>, Queries) {
    let hubs = r.range(1, 3);
    let gate = r.chance(30);
    let n = hubs + 1 + k;
    let ids = if r.chance(60) { r.perm(n) } else { (0..n).collect() };
    let inwards: Vec<bool> = (0..hubs).map(|_| r.chance(40)).collect();
    let mut adds: Vec<Add> = vec![];
    let share = r.pick(&[100usize, 95, 80]);
    let lines = r.pick(&[0usize, 5, 40]);
    for v in hubs + 1..n {
        for h in 0..hubs {
            if r.chance(share) {
                let (a, b) = if inwards[h] { (v, h) } else { (h, v) };
                adds.push((ids[a], ids[b], w.draw(r), false));
            }
        }
        if v + 1 < n && r.chance(lines) {
            adds.push((ids[v], ids[v + 1], w.draw(r), r.chance(50)));
        }
    }
    if gate {
        let (a, b) = if inwards[0] { (0, hubs) } else { (hubs, 0) };
        adds.push((ids[a], ids[b], w.draw(r), false));
    }
    if r.chance(50) {
        r.shuffle(&mut adds);
    }
    let mut order: Vec<usize> = ids[..hubs].to_vec();
    let mut rest = ids[hubs..].to_vec();
    if r.chance(50) {
        r.shuffle(&mut rest);
    }
    order.extend(rest);
    let mut q = vec![];
    for h in 0..hubs + 1 {
        let mut other: Vec<usize> = (n.saturating_sub(6)..n).chain(0..4).collect();
        other.extend((0..25).map(|_| r.below(n)));
        for o in other {
            let o = o.min(n - 1);
            q.push(if h < hubs && inwards[h] { (o, ids[h]) } else { (ids[h], o) });
        }
    }
    for _ in 0..20 {
        let s = r.below(n);
        q.push((s, r.below(n)));
    }
    (G { adds }, order, Queries::List(q))
}

pub struct C01;
impl Property for C01 {
    type C = Routing;
    const ID: &'static str = "C01";
    const SCALE: u64 = 2;
    const RULE: &'static str = "random graphs of 13 shapes and 10 weight distributions with noise (duplicates, loops, zero weights, gaps in the ids), plus all graphs of 3 nodes with weights 1-3 and all graphs of 4 nodes with weights 1-2, prepared with prepare(), and others prepared in any way (parameters, given order); all pairs (or sampled ones in larger graphs) are queried and compared with Dijkstra's algorithm in 128 bit on the input. Non-trivial: there is a shortcut and an answer of at least two hops";
    fn strata(tier: Tier) -> Vec<Stratum<Routing>> {
        let small = |g| Routing {
            g,
            prep: Prep::Default,
            queries: Queries::All,
        };
        vec![
            all("all graphs of 3 nodes", 4096, move |i| {
                small(numbered(i, 3, 4, &[1, 2, 3]))
            }),
            all("all graphs of 4 nodes", 531441, move |i| {
                small(numbered(i, 4, 3, &[1, 2]))
            }),
            random("up to 12 nodes", tier.cases(60_000, 3_000_000), move |r| {
                small(gen::graph(r, 2, 12))
            }),
            random("up to 60 nodes", tier.cases(8_000, 400_000), move |r| {
                small(gen::graph(r, 10, 60))
            }),
            random("prepared in any way", tier.cases(60_000, 2_000_000), |r| {
                let g = if r.chance(80) { gen::graph(r, 2, 12) } else { gen::graph(r, 10, 50) };
                let prep = any_prep(r, &g.model());
                Routing {
                    g,
                    prep,
                    queries: Queries::All,
                }
            }),
            random("up to 300 nodes", tier.cases(200, 8_000), move |r| {
                let w = gen::weights(r);
                let n = r.range(60, 300);
                let g = sparse_graph(r, n, w);
                small(g)
            }),
            random("hub", tier.cases(16, 600), move |r| {
                let g = star(r);
                around(r, g, Prep::Default, 12)
            }),
            random("hub with detours", tier.cases(200, 8_000), |r| {
                let g = detours(r);
                around(r, g, Prep::Default, 20)
            }),
            random("fan", tier.cases(20, 800), |r| {
                let w = gen::weights(r);
                let k = r.pick(&[100usize, 300, 700, 1500, 3000]);
                let (g, _, queries) = fan(r, k, w);
                Routing {
                    g,
                    prep: Prep::Default,
                    queries,
                }
            }),
            random("thousands of nodes", tier.cases(40, 1500), |r| {
                let w = gen::weights(r);
                let n = r.range(1000, 5000);
                let g = sparse_graph(r, n, w);
                around(r, g, Prep::Default, 4)
            }),
            random("more than 65536 nodes", tier.cases(8, 64), |r| {
                let w = gen::weights(r);
                let n = r.range(66_000, 80_000);
                let g = sparse_graph(r, n, w);
                sampled(r, g, Prep::Default, 300)
            }),
        ]
    }
    fn check(case: &Routing, t: &mut Tally) -> Result<(), String> {
        route(case, t, false)
    }
}

pub struct C02;
impl Property for C02 {
    type C = Routing;
    const ID: &'static str = "C02";
    const SCALE: u64 = 4;
    const RULE: &'static str = "random graphs, mostly with many equally short paths, prepared in any way (default, parameters, given order); the node sequence of every answer must be a walk along existing edges of the input from source to target whose weights add up to the reported and to the optimal weight, without repeated nodes, the getters must agree, and answers (also ones made up, which differ in one respect) must compare equal exactly if ends and weights agree. Non-trivial: there is a shortcut and an answer of at least two hops";
    fn strata(tier: Tier) -> Vec<Stratum<Routing>> {
        fn mixed(r: &mut R, lo: usize, hi: usize) -> G {
            let w = if r.chance(60) {
                r.pick(&TIES)
            } else {
                gen::weights(r)
            };
            let n = r.range(lo, hi);
            gen::graph_w(r, n, w)
        }
        vec![
            random("up to 12 nodes", tier.cases(150_000, 4_000_000), |r| {
                let g = mixed(r, 2, 12);
                let prep = any_prep(r, &g.model());
                Routing {
                    g,
                    prep,
                    queries: Queries::All,
                }
            }),
            random("up to 50 nodes", tier.cases(20_000, 500_000), |r| {
                let g = mixed(r, 10, 50);
                let prep = any_prep(r, &g.model());
                Routing {
                    g,
                    prep,
                    queries: Queries::All,
                }
            }),
            random("hub", tier.cases(16, 600), |r| {
                let g = star(r);
                around(r, g, Prep::Default, 12)
            }),
            random("hub with detours", tier.cases(40, 3_000), |r| {
                let g = detours(r);
                let prep = any_prep(r, &g.model());
                around(r, g, prep, 12)
            }),
            random("thousands of nodes", tier.cases(40, 1500), |r| {
                let w = if r.chance(60) {
                    r.pick(&TIES)
                } else {
                    gen::weights(r)
                };
                let n = r.range(1000, 5000);
                let g = sparse_graph(r, n, w);
                around(r, g, Prep::Default, 2)
            }),
            random("long lines", tier.cases(20, 400), |r| {
                let n = if r.chance(80) { r.range(1100, 3000) } else { r.range(3000, 80_000) };
                let w = gen::weights(r);
                let mut adds = vec![];
                for v in 0..n - 1 {
                    let x = w.draw(r);
                    let bi = r.chance(70);
                    adds.push((v, v + 1, x, bi));
                }
                let g = G { adds };
                let prep = if r.chance(50) {
                    Prep::Default
                } else {
                    Prep::Order(gen::order(r, &g.model()), None)
                };
                Routing {
                    g,
                    prep,
                    queries: Queries::List(vec![(0, n - 1), (n - 1, 0), (n / 3, n / 2), (n / 2, n / 3)]),
                }
            }),
        ]
    }
    fn check(case: &Routing, t: &mut Tally) -> Result<(), String> {
        route(case, t, true)
    }
}

pub struct C03;
impl Property for C03 {
    type C = Routing;
    const ID: &'static str = "C03";
    const SCALE: u64 = 4;
    const RULE: &'static str = "random graphs prepared with random Params: hierarchy depth factors and edge quotient factors from 0 to the largest number, also negative, infinite and NaN, every witness search limit drawn from 0,1,2,3,4,5,8,20,100,500 and usize::MAX; all pairs compared with the reference, weights and nodes. Non-trivial: there is a shortcut and an answer of at least two hops";
    fn strata(tier: Tier) -> Vec<Stratum<Routing>> {
        vec![
            all("all graphs of 3 nodes, limits 0 to 2", 4096 * 27, |i| {
                let mut k = i / 4096;
                let mut digit = || {
                    let d = (k % 3) as usize;
                    k /= 3;
                    d
                };
                Routing {
                    g: numbered(i % 4096, 3, 4, &[1, 2, 3]),
                    prep: Prep::Params(gen::P {
                        depth: 0.1,
                        quotient: 1.0,
                        initial: digit(),
                        neighbor: digit(),
                        contraction: digit(),
                    }),
                    queries: Queries::All,
                }
            }),
            random("up to 12 nodes", tier.cases(200_000, 6_000_000), |r| {
                Routing {
                    g: gen::graph(r, 2, 12),
                    prep: Prep::Params(gen::params(r)),
                    queries: Queries::All,
                }
            }),
            random("up to 50 nodes", tier.cases(30_000, 800_000), |r| Routing {
                g: gen::graph(r, 10, 50),
                prep: Prep::Params(gen::params(r)),
                queries: Queries::All,
            }),
            random("hub with detours", tier.cases(20, 2_000), |r| {
                let g = detours(r);
                let p = gen::params(r);
                around(r, g, Prep::Params(p), 12)
            }),
            random("up to 1200 nodes", tier.cases(60, 3000), |r| {
                let w = gen::weights(r);
                let n = r.range(300, 1200);
                let g = sparse_graph(r, n, w);
                let mut p = gen::params(r);
                // otherwise there are too many shortcuts
                p.contraction = p.contraction.max(60);
                p.depth = p.depth.max(0.0).min(1.0);
                p.quotient = p.quotient.max(1.0).min(1e6);
                around(r, g, Prep::Params(p), 4)
            }),
        ]
    }
    fn check(case: &Routing, t: &mut Tally) -> Result<(), String> {
        if let Prep::Params(p) = &case.prep {
            t.label_if(p.contraction == 0, "no witness search when contracting");
            t.label_if(p.contraction == usize::MAX, "unlimited witness search");
        }
        route(case, t, true)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ordered {
    pub base: Routing,
    /// If given: take the order from preparing the graph, and reuse it for the same graph with
    /// these weights (in turn, for its edges).
    pub new_weights: Option<Vec<usize>>,
}

impl Case for Ordered {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let w = self
            .new_weights
            .iter()
            .flat_map(|w| shrink_list(w, 1))
            .map(move |w| Ordered {
                base: self.base.clone(),
                new_weights: Some(w),
            });
        Box::new(
            self.base
                .shrinks()
                .map(move |base| Ordered {
                    base,
                    new_weights: self.new_weights.clone(),
                })
                .chain(w),
        )
    }
}

fn ordered(r: &mut R, lo: usize, hi: usize) -> Ordered {
    let g = gen::graph(r, lo, hi);
    let m = g.model();
    let limit = if r.chance(50) {
        None
    } else {
        Some(r.pick(&gen::LIMITS))
    };
    let order = if r.chance(30) {
        gen::order(r, &m)
    } else {
        r.perm(m.n)
    };
    Ordered {
        base: Routing {
            g,
            prep: Prep::Order(order, limit),
            queries: Queries::All,
        },
        new_weights: None,
    }
}

fn reused(r: &mut R, g: G, queries: Queries) -> Ordered {
    let w = gen::weights(r);
    let k = r.range(1, 40);
    let prep = if r.chance(50) {
        Prep::Default
    } else {
        Prep::Params(gen::params(r))
    };
    Ordered {
        base: Routing { g, prep, queries },
        new_weights: Some((0..k).map(|_| w.draw(r)).collect()),
    }
}

pub struct C04;
impl Property for C04 {
    type C = Ordered;
    const ID: &'static str = "C04";
    const SCALE: u64 = 4;
    const RULE: &'static str = "random graphs prepared with any permutation of the nodes as order (random, by degree in both directions, identity, reversed, rotated; witness search limit random), all graphs of 4 nodes with unit weights times all 24 orders, and orders taken from preparing the graph, reused for the graph with other weights; all pairs compared with the reference, weights and nodes, and get_node_ordering() must return the order that was given. Non-trivial: there is a shortcut and an answer of at least two hops";
    fn strata(tier: Tier) -> Vec<Stratum<Ordered>> {
        vec![
            all("all graphs of 4 nodes, all orders", 4096 * 24, |i| Ordered {
                base: Routing {
                    g: numbered(i / 24, 4, 2, &[1]),
                    prep: Prep::Order(permutation(i % 24, 4), None),
                    queries: Queries::All,
                },
                new_weights: None,
            }),
            random("up to 10 nodes", tier.cases(200_000, 6_000_000), |r| {
                ordered(r, 2, 10)
            }),
            random("up to 40 nodes", tier.cases(20_000, 500_000), |r| {
                ordered(r, 8, 40)
            }),
            random("reuse", tier.cases(25_000, 600_000), |r| {
                let g = gen::graph(r, 5, 40);
                reused(r, g, Queries::All)
            }),
            random("hub with detours", tier.cases(100, 4_000), |r| {
                let g = detours(r);
                let m = g.model();
                let order = gen::order(r, &m);
                Ordered {
                    base: around(r, g, Prep::Order(order, None), 12),
                    new_weights: None,
                }
            }),
            random("reuse, thousands of nodes", tier.cases(24, 1000), |r| {
                let w = gen::weights(r);
                let n = r.range(1000, 3000);
                let g = sparse_graph(r, n, w);
                let n = g.model().n;
                let q = Queries::Around((0..3).map(|_| r.below(n)).collect());
                let mut c = reused(r, g, q);
                c.base.prep = Prep::Default;
                c
            }),
            random("fan", tier.cases(60, 1_000), |r| {
                let w = gen::weights(r);
                let k = r.pick(&[100usize, 300, 1000, 3000, 10_000, 70_000]);
                let (g, order, queries) = fan(r, k, w);
                // nodes at the end of which nothing is known are not part of the graph
                let n = g.model().n;
                let order = order.into_iter().filter(|v| *v < n).collect();
                Ordered {
                    base: Routing {
                        g,
                        prep: Prep::Order(order, None),
                        queries,
                    },
                    new_weights: None,
                }
            }),
            // leaves first, so that there is little to do
            random("trees of more than 65536 nodes", tier.cases(2, 64), |r| {
                let w = gen::weights(r);
                let n = r.range(66_000, 80_000);
                let ids = r.perm(n);
                let back = r.pick(&[2usize, 10, 1000]);
                let mut adds: Vec<Add> = (1..n)
                    .map(|v| {
                        let p = v - 1 - r.below(back.min(v));
                        (ids[v], ids[p], w.draw(r), true)
                    })
                    .collect();
                r.shuffle(&mut adds);
                let order = (0..n).rev().map(|v| ids[v]).collect();
                Ordered {
                    base: sampled(r, G { adds }, Prep::Order(order, None), 100),
                    new_weights: None,
                }
            }),
        ]
    }
    fn check(case: &Ordered, t: &mut Tally) -> Result<(), String> {
        let g = case.base.g.input();
        let mut m = case.base.g.model();
        let fg = case.base.prep.build(&g)?;
        let order = fast_paths::get_node_ordering(&fg);
        if as_order(&order, m.n) != order {
            return Err(format!(
                "get_node_ordering() is not a permutation of the nodes: {:?}",
                short(&order)
            ));
        }
        if let Prep::Order(o, _) = &case.base.prep {
            let o = as_order(o, m.n);
            if o != order {
                return Err(format!(
                    "get_node_ordering() is {}, but the given order was {}",
                    short(&order),
                    short(&o)
                ));
            }
        }
        let fg = match &case.new_weights {
            None => fg,
            Some(ws) => {
                let edges: BTreeMap<_, _> = m
                    .edges
                    .keys()
                    .enumerate()
                    .map(|(i, e)| (*e, ws[i % ws.len()]))
                    .collect();
                m = Model::new(m.n, edges);
                let mut g2 = fast_paths::InputGraph::new();
                for (&(a, b), &w) in &m.edges {
                    g2.add_edge(a, b, w);
                }
                g2.freeze();
                let fg2 = fast_paths::prepare_with_order(&g2, &order)
                    .map_err(|e| format!("the order of a prepared graph was refused: {}", e))?;
                if fast_paths::get_node_ordering(&fg2) != order {
                    return Err("reusing an order has changed it".into());
                }
                t.label("order reused with other weights");
                fg2
            }
        };
        let mut seen = Seen::default();
        compare(&m, &fg, &case.base.queries, true, &mut seen)?;
        label(t, &m, &fg, &seen);
        Ok(())
    }
}
