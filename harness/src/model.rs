//! Concrete graphs and the reference they are checked against.

use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

use fast_paths::{InputGraph, ShortestPath};
use serde::{Deserialize, Serialize};

pub const INF: u128 = u128::MAX;

/// from, to, weight, bidirectional
pub type Add = (usize, usize, usize, bool);

/// A graph, as the sequence of calls that builds it. May contain loops, zero weights and duplicates.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct G {
    pub adds: Vec<Add>,
}

impl G {
    pub fn unfrozen(&self) -> InputGraph {
        let mut g = InputGraph::new();
        for &(a, b, w, bi) in &self.adds {
            if bi {
                g.add_edge_bidir(a, b, w);
            } else {
                g.add_edge(a, b, w);
            }
        }
        g
    }
    pub fn input(&self) -> InputGraph {
        let mut g = self.unfrozen();
        g.freeze();
        g
    }
    /// The number of nodes and the edges, without a structure as large as the ids are.
    pub fn edges(&self) -> (usize, BTreeMap<(usize, usize), usize>) {
        let mut m = BTreeMap::new();
        let mut n = 0;
        for &(a, b, w, bi) in &self.adds {
            if a == b || w == 0 {
                continue;
            }
            n = n.max(a.max(b) + 1);
            let mut put = |a, b| {
                let e = m.entry((a, b)).or_insert(w);
                *e = (*e).min(w);
            };
            put(a, b);
            if bi {
                put(b, a);
            }
        }
        (n, m)
    }

    pub fn model(&self) -> Model {
        let (n, m) = self.edges();
        Model::new(n, m)
    }

    /// Simpler graphs: fewer calls, simpler calls, smaller weights, smaller ids.
    pub fn shrinks(&self) -> Box<dyn Iterator<Item = G> + '_> {
        let n = self.adds.len();
        let mut sizes = vec![];
        let mut k = n;
        while k >= 1 {
            sizes.push(k);
            k /= 2;
        }
        let removals = sizes.into_iter().flat_map(move |k| {
            (0..n.div_ceil(k)).map(move |i| {
                let mut adds = self.adds.clone();
                adds.drain(i * k..((i + 1) * k).min(n));
                G { adds }
            })
        });
        let one_way = (0..n).filter(|i| self.adds[*i].3).map(move |i| {
            let mut g = self.clone();
            g.adds[i].3 = false;
            g
        });
        let weights = (0..n).flat_map(move |i| {
            let w = self.adds[i].2;
            let mut c = vec![1, 2, w / 2, w.saturating_sub(1)];
            c.dedup();
            c.into_iter()
                .filter(move |c| *c < w && *c > 0)
                .map(move |c| {
                    let mut g = self.clone();
                    g.adds[i].2 = c;
                    g
                })
        });
        Box::new(
            removals
                .chain(std::iter::once_with(|| self.compact()).filter(move |g| g != self))
                .chain(one_way)
                .chain(weights),
        )
    }

    /// Renumbers the nodes without gaps, keeping their order.
    pub fn compact(&self) -> G {
        let mut ids: Vec<usize> = self.adds.iter().flat_map(|a| [a.0, a.1]).collect();
        ids.sort_unstable();
        ids.dedup();
        let f = |x: usize| ids.binary_search(&x).unwrap();
        G {
            adds: self.adds.iter().map(|a| (f(a.0), f(a.1), a.2, a.3)).collect(),
        }
    }
}

/// The reference: the graph after dropping loops and zero weights and keeping the cheapest of
/// several parallel edges.
#[derive(Clone, Debug)]
pub struct Model {
    pub n: usize,
    pub edges: BTreeMap<(usize, usize), usize>,
    out: Vec<Vec<(usize, usize)>>,
}

impl Model {
    pub fn new(n: usize, edges: BTreeMap<(usize, usize), usize>) -> Self {
        let mut out = vec![vec![]; n];
        for (&(a, b), &w) in &edges {
            out[a].push((b, w));
        }
        Model { n, edges, out }
    }

    pub fn out(&self, v: usize) -> &[(usize, usize)] {
        &self.out[v]
    }

    pub fn weight(&self, a: usize, b: usize) -> Option<usize> {
        let o = self.out.get(a)?;
        o.binary_search_by_key(&b, |e| e.0).ok().map(|i| o[i].1)
    }

    /// Distances from a set of weighted sources. Textbook Dijkstra in 128 bit.
    pub fn dijkstra(&self, sources: &[(usize, usize)]) -> Vec<u128> {
        let mut dist = vec![INF; self.n];
        let mut heap = BinaryHeap::new();
        for &(s, w) in sources {
            if (w as u128) < dist[s] {
                dist[s] = w as u128;
                heap.push(Reverse((w as u128, s)));
            }
        }
        while let Some(Reverse((d, v))) = heap.pop() {
            if d > dist[v] {
                continue;
            }
            for &(u, w) in &self.out[v] {
                let nd = d + w as u128;
                if nd < dist[u] {
                    dist[u] = nd;
                    heap.push(Reverse((nd, u)));
                }
            }
        }
        dist
    }

    pub fn dist_from(&self, s: usize) -> Vec<u128> {
        self.dijkstra(&[(s, 0)])
    }

    pub fn all_pairs(&self) -> Vec<Vec<u128>> {
        (0..self.n).map(|s| self.dist_from(s)).collect()
    }

    /// Hops of a shortest path with as few hops as possible would need more work, this is only
    /// used to classify cases: is there a pair with a shortest path of at least two hops?
    pub fn has_multi_hop(&self, dist: &[Vec<u128>]) -> bool {
        (0..self.n).any(|s| {
            (0..self.n).any(|t| {
                s != t
                    && dist[s][t] != INF
                    && self.weight(s, t).map(|w| w as u128) != Some(dist[s][t])
            })
        })
    }
}

/// The weight part of the oracle: found exactly when the distance is representable, and then with
/// this weight.
pub fn check_weight(
    what: &dyn Fn() -> String,
    expected: u128,
    got: &Option<ShortestPath>,
) -> Result<(), String> {
    let limit = usize::MAX as u128;
    match got {
        None if expected < limit => Err(format!(
            "{}: no path found, but there is one of weight {}",
            what(),
            expected
        )),
        None => Ok(()),
        Some(p) if expected >= limit => Err(format!(
            "{}: found a path of weight {} ({:?}), but there is none",
            what(),
            p.get_weight(),
            short(p.get_nodes())
        )),
        Some(p) if p.get_weight() as u128 != expected => Err(format!(
            "{}: weight {} ({:?}), but the shortest path has weight {}",
            what(),
            p.get_weight(),
            short(p.get_nodes()),
            expected
        )),
        Some(_) => Ok(()),
    }
}

pub fn short(nodes: &[usize]) -> String {
    if nodes.len() <= 30 {
        format!("{:?}", nodes)
    } else {
        format!("{:?}.. ({} nodes)", &nodes[..30], nodes.len())
    }
}

/// The node sequence is a walk along edges of the graph; returns its weight.
pub fn walk_weight(m: &Model, nodes: &[usize]) -> Result<u128, String> {
    if nodes.is_empty() {
        return Err("the node sequence is empty".into());
    }
    let mut sum = 0u128;
    for v in nodes {
        if *v >= m.n {
            return Err(format!("node {} does not exist", v));
        }
    }
    for h in nodes.windows(2) {
        match m.weight(h[0], h[1]) {
            Some(w) => sum += w as u128,
            None => return Err(format!("there is no edge {} -> {}", h[0], h[1])),
        }
    }
    Ok(sum)
}

/// The path is a genuine path from an offered source to an offered target with the claimed weight.
pub fn check_nodes(
    what: &dyn Fn() -> String,
    m: &Model,
    p: &ShortestPath,
    sources: &[(usize, usize)],
    targets: &[(usize, usize)],
) -> Result<(), String> {
    let nodes = p.get_nodes();
    let fail = |m: String| Err(format!("{}: {} (nodes {}, weight {})", what(), m, short(nodes), p.get_weight()));
    let sum = match walk_weight(m, nodes) {
        Ok(s) => s,
        Err(e) => return fail(e),
    };
    let (first, last) = (nodes[0], nodes[nodes.len() - 1]);
    let s = sources.iter().filter(|s| s.0 == first).map(|s| s.1).min();
    let t = targets.iter().filter(|t| t.0 == last).map(|t| t.1).min();
    let (s, t) = match (s, t) {
        (None, _) => return fail("does not begin at a source".into()),
        (_, None) => return fail("does not end at a target".into()),
        (Some(s), Some(t)) => (s, t),
    };
    let total = sum + s as u128 + t as u128;
    if total != p.get_weight() as u128 {
        return fail(format!("the nodes add up to weight {}", total));
    }
    if p.get_source() != first || p.get_target() != last {
        return fail(format!(
            "get_source() = {}, get_target() = {}",
            p.get_source(),
            p.get_target()
        ));
    }
    if !p.is_found() {
        return fail("is_found() is false".into());
    }
    let mut sorted = nodes.clone();
    sorted.sort_unstable();
    sorted.dedup();
    if sorted.len() != nodes.len() {
        return fail("a node occurs twice".into());
    }
    Ok(())
}

/// Everything about a single answer.
pub fn check_answer(
    what: &dyn Fn() -> String,
    m: &Model,
    expected: u128,
    got: &Option<ShortestPath>,
    sources: &[(usize, usize)],
    targets: &[(usize, usize)],
) -> Result<(), String> {
    check_weight(what, expected, got)?;
    if let Some(p) = got {
        check_nodes(what, m, p, sources, targets)?;
    }
    Ok(())
}

pub fn check_p2p(
    prefix: &str,
    m: &Model,
    expected: u128,
    got: &Option<ShortestPath>,
    s: usize,
    t: usize,
) -> Result<(), String> {
    check_answer(
        &|| format!("{}{} -> {}", prefix, s, t),
        m,
        expected,
        got,
        &[(s, 0)],
        &[(t, 0)],
    )
}

/// The expected weight for many sources and targets.
pub fn multi_expected(m: &Model, sources: &[(usize, usize)], targets: &[(usize, usize)]) -> u128 {
    let d = m.dijkstra(sources);
    targets
        .iter()
        .filter(|t| d[t.0] != INF)
        .map(|t| d[t.0] + t.1 as u128)
        .min()
        .unwrap_or(INF)
}
