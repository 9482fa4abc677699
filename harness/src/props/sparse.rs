//! C20: no superfluous shortcuts.

use std::cmp::Reverse;
use std::collections::BinaryHeap;

use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen::{self, P};
use crate::model::*;

pub struct C20;

/// Every edge is strictly shorter than any other path between its ends.
fn strict(m: &Model, dist: &[Vec<u128>]) -> bool {
    m.edges.iter().all(|(&(a, b), &w)| {
        dist[a][b] == w as u128 && (0..m.n).all(|x| x == a || x == b || !between(dist, a, x, b))
    })
}

/// Is there a shortest path from a to b by way of x?
fn between(dist: &[Vec<u128>], a: usize, x: usize, b: usize) -> bool {
    dist[a][x] != INF && dist[x][b] != INF && dist[a][x] + dist[x][b] == dist[a][b]
}

/// Removes the edges, one after the other, that are not shorter than any other path between their
/// ends. This changes no distance.
fn reduce(g: &G) -> G {
    let m = g.model();
    let mut edges: Vec<(usize, usize, usize)> = m.edges.iter().map(|(e, w)| (*w, e.0, e.1)).collect();
    edges.sort_unstable_by(|a, b| b.cmp(a));
    let mut out: Vec<Vec<(usize, usize)>> = (0..m.n).map(|v| m.out(v).to_vec()).collect();
    let mut adds = vec![];
    for (w, a, b) in edges {
        // is there another path that is not longer?
        let mut dist = vec![usize::MAX; m.n];
        let mut heap = BinaryHeap::new();
        dist[a] = 0;
        heap.push(Reverse((0, a)));
        while let Some(Reverse((d, v))) = heap.pop() {
            if d > dist[v] || d > w {
                continue;
            }
            for &(u, x) in &out[v] {
                if (v, u) != (a, b) && d + x < dist[u] {
                    dist[u] = d + x;
                    heap.push(Reverse((d + x, u)));
                }
            }
        }
        if dist[b] <= w {
            out[a].retain(|e| e.0 != b);
        } else {
            adds.push((a, b, w, false));
        }
    }
    adds.reverse();
    G { adds }
}

/// The number of (out, in) edges that the order demands if all the witnesses are found: there has
/// to be an edge from u to w exactly if the inner nodes of all the shortest paths from u to w are
/// less important than both. (If they are, the last of them to be contracted leaves the edge
/// behind, since the distance is preserved. If some path has a more important inner node, its
/// remains are a witness whenever another one is contracted.)
fn required(m: &Model, dist: &[Vec<u128>], rank: &[usize]) -> (usize, usize) {
    let (mut up, mut down) = (0, 0);
    for u in 0..m.n {
        for w in 0..m.n {
            let low = rank[u].min(rank[w]);
            if u != w
                && dist[u][w] != INF
                && (0..m.n).all(|x| x == u || x == w || rank[x] < low || !between(dist, u, x, w))
            {
                if rank[u] < rank[w] {
                    up += 1
                } else {
                    down += 1
                }
            }
        }
    }
    (up, down)
}

/// The same if no witness is ever found: an edge from u to w exactly if there is any path whose
/// inner nodes are less important than both.
fn at_most(m: &Model, rank: &[usize]) -> (usize, usize) {
    let n = m.n;
    let (mut up, mut down) = (0, 0);
    for u in 0..n {
        // smallest possible maximum of the inner ranks (bottleneck), plus one
        let mut best = vec![usize::MAX; n];
        let mut done = vec![false; n];
        for &(b, _) in m.out(u) {
            best[b] = 0;
        }
        loop {
            let v = match (0..n).filter(|v| !done[*v] && best[*v] != usize::MAX).min_by_key(|v| best[*v]) {
                Some(v) => v,
                None => break,
            };
            done[v] = true;
            if v == u {
                continue;
            }
            let through = best[v].max(rank[v] + 1);
            for &(b, _) in m.out(v) {
                best[b] = best[b].min(through);
            }
        }
        for w in 0..n {
            if w != u && best[w] != usize::MAX && best[w] <= rank[u].min(rank[w]) {
                if rank[u] < rank[w] {
                    up += 1
                } else {
                    down += 1
                }
            }
        }
    }
    (up, down)
}

/// Are there several shortest paths between some nodes?
fn ties(m: &Model, dist: &[Vec<u128>]) -> bool {
    (0..m.n).any(|s| {
        let mut preds = vec![0; m.n];
        for (&(a, b), &w) in &m.edges {
            if dist[s][a] != INF && dist[s][a] + w as u128 == dist[s][b] {
                preds[b] += 1;
            }
        }
        preds.iter().any(|p| *p > 1)
    })
}

/// A graph with a long dead end, which makes no difference to the shortcuts but keeps the witness
/// searches busy.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sparse {
    pub core: Routing,
    pub dead_end: Option<DeadEnd>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DeadEnd {
    /// where it starts (modulo the number of nodes)
    pub at: usize,
    pub len: usize,
    /// nodes that are all connected with the first one instead of a line
    pub star: bool,
}

impl Case for Sparse {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let mut v = vec![];
        if let Some(d) = &self.dead_end {
            v.push(None);
            for len in [d.len / 8, d.len / 2, d.len * 9 / 10] {
                if len > 0 && len < d.len {
                    v.push(Some(DeadEnd { len, ..d.clone() }));
                }
            }
        }
        let d = v.into_iter().map(move |dead_end| Sparse {
            dead_end,
            ..self.clone()
        });
        let c = self.core.shrinks().map(move |core| Sparse { core, ..self.clone() });
        Box::new(d.chain(c))
    }
}

/// The dead end is the least important part that remains when the graph itself is contracted (for
/// a star: except for the node it is connected with), and no search is cut off. All the nodes of
/// the dead end but the first one have just the edges that they are given.
fn check_dead_end(g: &G, order: &[usize], d: &DeadEnd, t: &mut Tally) -> Result<(), String> {
    let n = g.model().n;
    if n == 0 || d.len == 0 {
        return Ok(());
    }
    let at = d.at % n;
    let mut order: Vec<usize> = order.iter().cloned().filter(|v| *v < n).collect();
    let mut small = g.clone();
    small.adds.push((at, n, 1, true));
    let mut large = small.clone();
    for i in 1..d.len {
        large.adds.push((if d.star { at } else { n + i - 1 }, n + i, 1, true));
    }
    if d.star {
        order.retain(|v| *v != at);
    }
    let mut small_order = order.clone();
    small_order.push(n);
    order.extend((n..n + d.len).rev());
    if d.star {
        small_order.push(at);
        order.push(at);
    }
    let m = small.model();
    let dist = m.all_pairs();
    if small_order.len() != m.n || !strict(&m, &dist) {
        return Ok(());
    }
    let mut rank = vec![0; m.n];
    for (i, v) in small_order.iter().enumerate() {
        rank[*v] = i;
    }
    let (mut out, mut ins) = required(&m, &dist, &rank);
    out += d.len - 1;
    ins += d.len - 1;
    let fg = Prep::Order(order, Some(usize::MAX)).build(&large.input())?;
    let got = (fg.get_num_out_edges(), fg.get_num_in_edges());
    if got != (out, ins) {
        return Err(format!(
            "{} out edges and {} in edges, but {} and {} are needed",
            got.0, got.1, out, ins
        ));
    }
    t.label("unlimited witness search");
    t.label_if(d.len > 1000, "witness searches of more than 1000 nodes");
    let max = at_most(&m, &rank);
    t.nontrivial_if(max != required(&m, &dist, &rank));
    Ok(())
}

impl Property for C20 {
    type C = Sparse;
    const ID: &'static str = "C20";
    const SCALE: u64 = 12;
    const RULE: &'static str = "random graphs in which every edge is strictly shorter than any other path between its ends (with and without pairs that have several shortest paths), prepared in any way; the number of out and in edges of the prepared graph must be exactly the number that its node order demands if no witness search can have been cut off (limit at least the number of nodes), and otherwise, as in 15 % of the cases with any kind of edges, between that number and the one without any witness; computed from the all pairs shortest paths of the input and the node order only; graphs with dead ends of up to 12000 nodes, which lead witness searches far astray. Non-trivial: at least one shortcut is needed, and at least one is avoided";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a witness search whose limit is at least the number of nodes is not cut off",
    ];
    fn strata(tier: Tier) -> Vec<Stratum<Sparse>> {
        fn case(r: &mut R, lo: usize, hi: usize) -> Sparse {
            let n = r.range(lo, hi);
            // random weights of 46 bit make ties unlikely
            let w = if r.chance(40) { gen::W::Huge } else { gen::weights(r) };
            let mut g = gen::graph_w(r, n, w);
            if r.chance(85) {
                g = reduce(&g);
            }
            let m = g.model();
            let limit = |r: &mut R| r.pick(&[0usize, 1, 2, 5, 20, 500, 500, usize::MAX, usize::MAX]);
            let prep = match r.below(4) {
                0 => Prep::Default,
                1 => Prep::Params(P {
                    depth: r.pick(&[0.0f32, 0.1, 1.0]),
                    quotient: 1.0,
                    initial: limit(r),
                    neighbor: limit(r),
                    contraction: limit(r),
                }),
                _ => Prep::Order(gen::order(r, &m), if r.chance(30) { None } else { Some(limit(r)) }),
            };
            Sparse {
                core: Routing {
                    g,
                    prep,
                    queries: Queries::All,
                },
                dead_end: None,
            }
        }
        fn dead_end(r: &mut R) -> Sparse {
            let n = r.range(3, 14);
            let g = reduce(&gen::graph_w(r, n, gen::W::Huge));
            let order = gen::order(r, &g.model());
            let len = r.pick(&[10usize, 300, 1500, 3000, 6000, 12000]);
            Sparse {
                core: Routing {
                    g,
                    prep: Prep::Order(order, None),
                    queries: Queries::All,
                },
                dead_end: Some(DeadEnd {
                    at: r.below(n),
                    len: r.range(len / 2, len),
                    star: r.chance(50),
                }),
            }
        }
        vec![
            random("up to 10 nodes", tier.cases(80_000, 2_000_000), |r| case(r, 3, 10)),
            random("up to 40 nodes", tier.cases(20_000, 500_000), |r| case(r, 10, 40)),
            random("up to 90 nodes", tier.cases(1_200, 30_000), |r| case(r, 40, 90)),
            random("with long dead ends", tier.cases(1_200, 20_000), dead_end),
        ]
    }
    fn check(case: &Sparse, t: &mut Tally) -> Result<(), String> {
        if let (Prep::Order(order, _), Some(d)) = (&case.core.prep, &case.dead_end) {
            return check_dead_end(&case.core.g, order, d, t);
        }
        let case = &case.core;
        let m = case.g.model();
        let dist = m.all_pairs();
        let strict = strict(&m, &dist);
        t.label_if(!strict, "some edge is not the only shortest path");
        let fg = case.prep.build(&case.g.input())?;
        let mut rank = vec![0; m.n];
        for (i, v) in fast_paths::get_node_ordering(&fg).into_iter().enumerate() {
            rank[v] = i;
        }
        let got = (fg.get_num_out_edges(), fg.get_num_in_edges());
        let min = required(&m, &dist, &rank);
        let max = at_most(&m, &rank);
        let limit = match &case.prep {
            Prep::Default => 500,
            Prep::Params(p) => p.contraction,
            Prep::Order(_, l) => l.unwrap_or(100),
        };
        if strict && limit >= m.n {
            if got != min {
                return Err(format!(
                    "{} out edges and {} in edges, but {} and {} are needed",
                    got.0, got.1, min.0, min.1
                ));
            }
            t.label("unlimited witness search");
        } else if got.0 < min.0 || got.1 < min.1 || got.0 > max.0 || got.1 > max.1 {
            return Err(format!(
                "{} out edges and {} in edges, but {} and {} are needed, and {} and {} possible",
                got.0, got.1, min.0, min.1, max.0, max.1
            ));
        } else if strict {
            t.label("limited witness search");
        }
        t.label_if(ties(&m, &dist), "with equally short paths");
        t.nontrivial_if(min.0 + min.1 > m.edges.len() && max != min);
        Ok(())
    }
}
