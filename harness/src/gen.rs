//! Generators for graphs, queries, orderings and parameters.

use serde::{Deserialize, Serialize};

use crate::driver::R;
use crate::model::{Add, Model, G};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    Unit,
    Few,
    Small,
    Hundred,
    Large,
    Pow2,
    Skew,
    Near32,
    Huge,
    /// 2^k plus very little: everything depends on the last bits
    Precise(u32),
}

pub const WS: [W; 10] = [
    W::Unit,
    W::Few,
    W::Small,
    W::Hundred,
    W::Large,
    W::Pow2,
    W::Skew,
    W::Near32,
    W::Huge,
    W::Precise(47),
];

impl W {
    /// All of these stay so small that no path weight overflows.
    pub fn draw(self, r: &mut R) -> usize {
        match self {
            W::Unit => 1,
            W::Few => r.range(1, 3),
            W::Small => r.range(1, 10),
            W::Hundred => r.range(1, 100),
            W::Large => 1 + (r.u64() as usize & ((1 << 40) - 1)),
            W::Pow2 => 1 << r.below(34),
            W::Skew => {
                if r.chance(80) {
                    r.range(1, 4)
                } else {
                    1_000_000 + r.below(4)
                }
            }
            W::Near32 => (u32::MAX as usize - 3) + r.below(8),
            W::Huge => 1 + (r.u64() as usize & ((1 << 46) - 1)),
            W::Precise(k) => (1 << k) + r.below(4),
        }
    }
}

fn bidir(r: &mut R, out: &mut Vec<Add>, a: usize, b: usize, w: W, style: usize) {
    match style {
        // undirected
        0 => {
            let x = w.draw(r);
            out.push((a, b, x, true))
        }
        // directed both ways, with different weights
        1 => {
            let (x, y) = (w.draw(r), w.draw(r));
            out.push((a, b, x, false));
            out.push((b, a, y, false));
        }
        // road-like: some one-way streets
        _ => {
            let x = w.draw(r);
            let k = r.below(10);
            if k < 6 {
                out.push((a, b, x, true))
            } else if k < 8 {
                out.push((a, b, x, false))
            } else if k < 9 {
                out.push((b, a, x, false))
            } else {
                let y = w.draw(r);
                out.push((a, b, x, false));
                out.push((b, a, y, false));
            }
        }
    }
}

/// A graph of about n nodes with the ids 0..n (before noise and renumbering).
fn shape(r: &mut R, n: usize, w: W) -> Vec<Add> {
    let n = n.max(2);
    let style = r.below(3);
    let mut e = vec![];
    let kind = r.below(13);
    match kind {
        // random, of varying density
        0 | 1 | 12 => {
            let deg = r.pick(&[6usize, 10, 15, 20, 30, 50]);
            let m = (n * deg / 10).max(1);
            for _ in 0..m {
                let (a, b) = (r.below(n), r.below(n));
                let x = w.draw(r);
                let bi = r.chance(10);
                e.push((a, b, x, bi));
            }
        }
        // dense
        2 => {
            let k = n.min(26);
            let p = r.pick(&[40usize, 70, 100]);
            for a in 0..k {
                for b in 0..k {
                    if a != b && r.chance(p) {
                        let x = w.draw(r);
                        e.push((a, b, x, false));
                    }
                }
            }
        }
        // grid with a few missing streets
        3 => {
            let cols = (1..=n).find(|c| c * c >= n).unwrap();
            let drop = r.pick(&[0usize, 5, 20]);
            for v in 0..n {
                if (v + 1) % cols != 0 && v + 1 < n && !r.chance(drop) {
                    bidir(r, &mut e, v, v + 1, w, style);
                }
                if v + cols < n && !r.chance(drop) {
                    bidir(r, &mut e, v, v + cols, w, style);
                }
            }
        }
        // line or cycle, sometimes with chords
        4 => {
            let st = r.below(4);
            for v in 0..n - 1 {
                if st == 3 {
                    let x = w.draw(r);
                    e.push((v, v + 1, x, false));
                } else {
                    bidir(r, &mut e, v, v + 1, w, st);
                }
            }
            if r.chance(40) {
                bidir(r, &mut e, n - 1, 0, w, style);
            }
            if r.chance(30) {
                for _ in 0..n / 8 + 1 {
                    let (a, b, x) = (r.below(n), r.below(n), w.draw(r));
                    e.push((a, b, x, r.chance(50)));
                }
            }
        }
        // hubs
        5 => {
            let hubs = r.range(1, 3.min(n - 1));
            for v in hubs..n {
                for h in 0..hubs {
                    if h == 0 || r.chance(50) {
                        bidir(r, &mut e, h, v, w, style);
                    }
                }
                if r.chance(20) {
                    let (b, x) = (r.below(n), w.draw(r));
                    e.push((v, b, x, false));
                }
            }
        }
        // tree
        6 => {
            let near = r.chance(50);
            for v in 1..n {
                let p = if near && v > 3 {
                    v - 1 - r.below(3)
                } else {
                    r.below(v)
                };
                bidir(r, &mut e, p, v, w, style);
            }
        }
        // chain of diamonds: many equally long paths
        7 => {
            let width = r.range(2, 4);
            let mut v = 0;
            while v + width + 1 < n {
                let x = w.draw(r);
                for k in 1..=width {
                    let bi = style == 0;
                    e.push((v, v + k, x, bi));
                    e.push((v + k, v + width + 1, x, bi));
                }
                v += width + 1;
            }
            if e.is_empty() {
                let x = w.draw(r);
                e.push((0, 1, x, true));
            }
        }
        // clusters with few connections
        8 => {
            let size = r.range(3, 9);
            let clusters = n.div_ceil(size);
            for v in 0..n {
                let base = v / size * size;
                let len = size.min(n - base);
                for _ in 0..r.range(1, 3) {
                    let u = base + r.below(len);
                    let x = w.draw(r);
                    e.push((v, u, x, style == 0));
                }
            }
            for _ in 0..clusters * 2 {
                let (a, b) = (r.below(n), r.below(n));
                let x = w.draw(r);
                e.push((a, b, x, r.chance(50)));
            }
        }
        // layers, acyclic
        9 => {
            let width = r.range(2, 6);
            for v in 0..n {
                let layer = v / width;
                for _ in 0..r.range(1, 3) {
                    let lo = (layer + 1) * width;
                    if lo < n {
                        let u = (lo + r.below(width)).min(n - 1);
                        let x = w.draw(r);
                        e.push((v, u, x, false));
                    }
                }
            }
            if e.is_empty() {
                let x = w.draw(r);
                e.push((0, 1, x, false));
            }
        }
        // expensive direct edges next to cheap detours
        10 => {
            for v in 0..n - 1 {
                bidir(r, &mut e, v, v + 1, W::Few, style);
            }
            for _ in 0..n * 2 {
                let (a, b) = (r.below(n), r.below(n));
                let d = a.abs_diff(b);
                let x = (3 * d).max(1) + r.below(5) * d.max(1);
                let x = if r.chance(40) { r.range(1, d.max(1) * 2) } else { x };
                e.push((a, b, x, false));
            }
        }
        // parts without any connection
        _ => {
            let parts = r.range(2, 3);
            let size = n.div_ceil(parts).max(2);
            for p in 0..parts {
                let m = size * r.pick(&[8usize, 15, 25]) / 10;
                for _ in 0..m.max(1) {
                    let (a, b) = (p * size + r.below(size), p * size + r.below(size));
                    let x = w.draw(r);
                    e.push((a, b, x, style == 0));
                }
            }
        }
    }
    e
}

pub fn graph_w(r: &mut R, n: usize, w: W) -> G {
    let mut adds = shape(r, n, w);
    if adds.is_empty() {
        let x = w.draw(r);
        adds.push((0, 1, x, false));
    }
    // duplicates, loops and zero weights, which must not have any effect
    if r.chance(25) {
        for _ in 0..adds.len() / 6 + 1 {
            let (a, b, x, bi) = r.pick(&adds);
            match r.below(5) {
                0 => adds.push((a, a, x, bi)),
                1 => adds.push((a, b, 0, bi)),
                2 => adds.push((b, a, x.saturating_add(r.below(9)), false)),
                _ => {
                    let y = w.draw(r);
                    adds.push((a, b, y, false))
                }
            }
        }
    }
    // the order of the calls
    if r.chance(60) {
        r.shuffle(&mut adds);
    }
    // other ids
    let max = adds.iter().map(|a| a.0.max(a.1)).max().unwrap() + 1;
    if r.chance(70) {
        // with or without gaps
        let space = if r.chance(20) { max + max / 3 + 1 } else { max };
        let ids = r.perm(space);
        for a in adds.iter_mut() {
            a.0 = ids[a.0];
            a.1 = ids[a.1];
        }
    }
    // there has to be a node
    if adds.iter().all(|a| a.0 == a.1 || a.2 == 0) {
        adds.push((0, 1, 1 + r.below(5), r.chance(50)));
    }
    G { adds }
}

pub fn weights(r: &mut R) -> W {
    r.pick(&WS)
}

pub fn graph(r: &mut R, lo: usize, hi: usize) -> G {
    let w = match weights(r) {
        // beyond the 53 bits of f64
        W::Precise(_) if hi <= 100 => W::Precise(r.pick(&[23, 52, 56])),
        w => w,
    };
    let n = r.range(lo, hi);
    graph_w(r, n, w)
}

/// Random and structured permutations of the nodes: independent of the graph, or adversarial for
/// it (important nodes first).
pub fn order(r: &mut R, m: &Model) -> Vec<usize> {
    let n = m.n;
    let mut o: Vec<usize> = (0..n).collect();
    match r.below(8) {
        0 => {}
        1 => o.reverse(),
        2 | 3 => {
            let mut deg = vec![0; n];
            for (a, b) in m.edges.keys() {
                deg[*a] += 1;
                deg[*b] += 1;
            }
            o.sort_by_key(|v| deg[*v]);
            if r.chance(50) {
                o.reverse();
            }
        }
        4 => {
            let k = r.below(n.max(1));
            o.rotate_left(k);
        }
        _ => r.shuffle(&mut o),
    }
    o
}

/// JSON has no infinite numbers.
mod as_text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(x: &f32, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", x))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f32, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

/// `fast_paths::Params`, which can neither be cloned nor serialized.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P {
    #[serde(with = "as_text")]
    pub depth: f32,
    #[serde(with = "as_text")]
    pub quotient: f32,
    pub initial: usize,
    pub neighbor: usize,
    pub contraction: usize,
}

impl P {
    pub fn params(&self) -> fast_paths::Params {
        let mut p = fast_paths::Params::new(self.depth, self.initial, self.neighbor, self.contraction);
        p.edge_quotient_factor = self.quotient;
        p
    }
}

pub const LIMITS: [usize; 11] = [0, 1, 2, 3, 4, 5, 8, 20, 100, 500, usize::MAX];

pub fn params(r: &mut R) -> P {
    P {
        depth: r.pick(&[0.0f32, 0.001, 0.1, 0.1, 0.5, 1.0, 3.7, 100.0, 1e6, f32::MAX, f32::MIN_POSITIVE, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
        quotient: r.pick(&[0.0f32, 0.5, 1.0, 1.0, 1.0, 10.0, 1e6, f32::MAX, -3.0, f32::INFINITY, f32::NAN]),
        initial: r.pick(&LIMITS),
        neighbor: r.pick(&LIMITS),
        contraction: r.pick(&LIMITS),
    }
}

/// Node lists with initial weights.
pub fn endpoints(r: &mut R, n: usize, hi: usize, max_weights: bool) -> Vec<(usize, usize)> {
    let k = r.range(1, hi);
    let mode = r.below(5);
    let pool = r.range(1, n);
    (0..k)
        .map(|_| {
            let v = r.below(pool);
            let w = match mode {
                0 => 0,
                1 => r.below(4),
                2 => r.below(100),
                3 => r.u64() as usize & ((1 << 40) - 1),
                _ => {
                    if r.chance(70) {
                        r.below(30)
                    } else {
                        1_000_000 + r.below(5)
                    }
                }
            };
            if max_weights && r.chance(8) {
                (v, usize::MAX)
            } else {
                (v, w)
            }
        })
        .collect()
}
