//! What many properties share: ways of preparing a graph, and routing cases.

use fast_paths::{FastGraph, InputGraph, ParamsWithOrder};
use serde::{Deserialize, Serialize};

use crate::driver::{Case, R};
use crate::gen::{self, P, W};
use crate::model::{Model, G};

/// Shrinks a list by removing chunks of decreasing size.
pub fn shrink_list<T: Clone>(xs: &[T], min_len: usize) -> Vec<Vec<T>> {
    let n = xs.len();
    let mut out = vec![];
    let mut k = n;
    while k >= 1 {
        for i in 0..n.div_ceil(k) {
            let mut v = xs.to_vec();
            v.drain(i * k..((i + 1) * k).min(n));
            if v.len() >= min_len {
                out.push(v);
            }
        }
        if out.len() > 4000 {
            break;
        }
        k /= 2;
    }
    out
}

/// Makes a permutation of 0..n out of any list: unknown nodes and repetitions are dropped, missing
/// ones appended. The identity for permutations of 0..n.
pub fn as_order(o: &[usize], n: usize) -> Vec<usize> {
    let mut seen = vec![false; n];
    let mut out = Vec::with_capacity(n);
    for &v in o.iter().chain(&(0..n).collect::<Vec<_>>()) {
        if v < n && !seen[v] {
            seen[v] = true;
            out.push(v);
        }
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prep {
    Default,
    Params(P),
    /// the order, and the limit for the witness search
    Order(Vec<usize>, Option<usize>),
}

impl Prep {
    pub fn build(&self, g: &InputGraph) -> Result<FastGraph, String> {
        match self {
            Prep::Default => Ok(fast_paths::prepare(g)),
            Prep::Params(p) => Ok(fast_paths::prepare_with_params(g, &p.params())),
            Prep::Order(o, limit) => {
                let o = as_order(o, g.get_num_nodes());
                match limit {
                    None => fast_paths::prepare_with_order(g, &o),
                    Some(l) => fast_paths::prepare_with_order_with_params(
                        g,
                        &o,
                        &ParamsWithOrder::new(*l),
                    ),
                }
                .map_err(|e| format!("the permutation {:?} was refused: {}", o, e))
            }
        }
    }

    pub fn shrinks(&self) -> Vec<Prep> {
        match self {
            Prep::Default => vec![],
            Prep::Params(p) => {
                let mut v = vec![Prep::Default];
                let d = P {
                    depth: 0.1,
                    quotient: 1.0,
                    initial: 500,
                    neighbor: 100,
                    contraction: 500,
                };
                if p.depth != d.depth || p.quotient != d.quotient {
                    v.push(Prep::Params(P {
                        depth: d.depth,
                        quotient: d.quotient,
                        ..p.clone()
                    }));
                }
                if p.initial != d.initial {
                    v.push(Prep::Params(P {
                        initial: d.initial,
                        ..p.clone()
                    }));
                }
                if p.neighbor != d.neighbor {
                    v.push(Prep::Params(P {
                        neighbor: d.neighbor,
                        ..p.clone()
                    }));
                }
                if p.contraction != d.contraction {
                    v.push(Prep::Params(P {
                        contraction: d.contraction,
                        ..p.clone()
                    }));
                }
                v
            }
            Prep::Order(o, l) => {
                let mut v = vec![Prep::Default];
                if l.is_some() {
                    v.push(Prep::Order(o.clone(), None));
                }
                if !o.is_empty() {
                    // the identity
                    v.push(Prep::Order(vec![], *l));
                    // drop the tail, i.e. sort it by id
                    let mut k = o.len() / 2;
                    while k > 0 && v.len() < 10 {
                        v.push(Prep::Order(o[..k].to_vec(), *l));
                        k /= 2;
                    }
                }
                v
            }
        }
    }

    pub fn label(&self) -> &'static str {
        match self {
            Prep::Default => "prepare",
            Prep::Params(_) => "prepare_with_params",
            Prep::Order(_, None) => "prepare_with_order",
            Prep::Order(_, Some(_)) => "prepare_with_order_with_params",
        }
    }
}

/// Any way of preparing a graph.
pub fn any_prep(r: &mut R, m: &Model) -> Prep {
    match r.below(10) {
        0..=4 => Prep::Default,
        5..=6 => Prep::Params(gen::params(r)),
        7 => Prep::Order(gen::order(r, m), None),
        _ => Prep::Order(gen::order(r, m), Some(r.pick(&gen::LIMITS))),
    }
}

/// A way of preparing that does not take long for hundreds of nodes either.
pub fn calm_prep(r: &mut R, g: &G) -> Prep {
    match r.below(10) {
        0..=4 => Prep::Default,
        5..=7 => Prep::Params(P {
            depth: r.pick(&[0.0f32, 0.1, 0.5, 1.0]),
            quotient: 1.0,
            initial: r.pick(&[5, 20, 100, 500, usize::MAX]),
            neighbor: r.pick(&[5, 20, 100, 500]),
            contraction: r.pick(&[50, 100, 500, 2000]),
        }),
        _ => {
            let order = fast_paths::get_node_ordering(&fast_paths::prepare(&g.input()));
            Prep::Order(order, r.pick(&[None, Some(50), Some(500)]))
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Queries {
    /// all pairs of nodes
    All,
    /// ids are taken modulo the number of nodes
    List(Vec<(usize, usize)>),
    /// from each of these to all the nodes, and back
    Around(Vec<usize>),
}

impl Queries {
    /// grouped by source
    pub fn resolve(&self, n: usize) -> Vec<(usize, Vec<usize>)> {
        if n == 0 {
            return vec![];
        }
        match self {
            Queries::All => (0..n).map(|s| (s, (0..n).collect())).collect(),
            Queries::List(l) => {
                let mut v: Vec<(usize, Vec<usize>)> = vec![];
                for &(s, t) in l {
                    let (s, t) = (s % n, t % n);
                    match v.last_mut() {
                        Some(x) if x.0 == s => x.1.push(t),
                        _ => v.push((s, vec![t])),
                    }
                }
                v
            }
            Queries::Around(l) => l.iter().map(|s| (s % n, (0..n).collect())).collect(),
        }
    }

    fn shrinks(&self) -> Vec<Queries> {
        match self {
            Queries::All => vec![],
            Queries::List(l) => shrink_list(l, 1).into_iter().map(Queries::List).collect(),
            Queries::Around(l) => shrink_list(l, 1).into_iter().map(Queries::Around).collect(),
        }
    }
}

/// A graph, a way to prepare it, and point to point queries.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Routing {
    pub g: G,
    pub prep: Prep,
    pub queries: Queries,
}

impl Case for Routing {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let q = self.queries.shrinks().into_iter().map(move |queries| Routing {
            queries,
            ..self.clone()
        });
        let p = self.prep.shrinks().into_iter().map(move |prep| Routing {
            prep,
            ..self.clone()
        });
        let g = self.g.shrinks().map(move |g| Routing { g, ..self.clone() });
        Box::new(p.chain(g).chain(q))
    }
}

/// A road-like or otherwise sparse graph that can be large: preparing it stays cheap.
pub fn sparse_graph(r: &mut R, n: usize, w: W) -> G {
    let mut e = vec![];
    let one_way = r.pick(&[0usize, 10, 30]);
    let add = |r: &mut R, e: &mut Vec<_>, a: usize, b: usize| {
        let x = w.draw(r);
        if r.chance(one_way) {
            if r.chance(50) {
                e.push((a, b, x, false))
            } else {
                e.push((b, a, x, false))
            }
        } else {
            e.push((a, b, x, true))
        }
    };
    // preparing large random graphs takes too long
    match r.below(if n > 2000 { 4 } else { 5 }) {
        // city: grid with holes
        0 | 1 => {
            let cols = (1..=n).find(|c| c * c >= n).unwrap();
            let drop = r.pick(&[15usize, 25, 35]);
            for v in 0..n {
                if (v + 1) % cols != 0 && v + 1 < n && !r.chance(drop) {
                    add(r, &mut e, v, v + 1);
                }
                if v + cols < n && !r.chance(drop) {
                    add(r, &mut e, v, v + cols);
                }
            }
        }
        // tree with some additional connections
        2 => {
            let back = r.pick(&[3usize, 10, 50]);
            for v in 1..n {
                let p = v - 1 - r.below(back.min(v));
                add(r, &mut e, p, v);
                if r.chance(3) {
                    let p = v - 1 - r.below(back.min(v));
                    add(r, &mut e, p, v);
                }
            }
        }
        // long road with detours
        3 => {
            for v in 0..n - 1 {
                add(r, &mut e, v, v + 1);
                if r.chance(20) {
                    let u = (v + r.range(2, 12)).min(n - 1);
                    add(r, &mut e, v, u);
                }
            }
        }
        // sparse random
        _ => {
            for _ in 0..n * 11 / 10 {
                let (a, b) = (r.below(n), r.below(n));
                add(r, &mut e, a, b);
            }
        }
    }
    let ids = if r.chance(60) { r.perm(n) } else { (0..n).collect() };
    for a in e.iter_mut() {
        a.0 = ids[a.0];
        a.1 = ids[a.1];
    }
    if r.chance(60) {
        r.shuffle(&mut e);
    }
    e.push((0, 1, w.draw(r), true));
    G { adds: e }
}

pub fn random_queries(r: &mut R, n: usize, count: usize) -> Queries {
    // several targets per source, so that the reference is computed once for all of them
    let mut v = vec![];
    while v.len() < count {
        let s = r.below(n);
        for _ in 0..r.range(1, 12) {
            v.push((s, r.below(n)));
        }
    }
    Queries::List(v)
}

pub fn bytes(fg: &FastGraph) -> Vec<u8> {
    bincode::serialize(fg).expect("serialization failed")
}
