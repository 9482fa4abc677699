//! C24: preparing and querying does not take too long.

use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::sync::Mutex;

use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::model::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    Line,
    Tree,
    /// a grid that is eight nodes wide
    Strip,
    /// the same with one-way streets
    OneWay,
    /// a strip with dead ends that are very far away
    Remote,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Speed {
    /// A city: a grid with holes, every so many streets a fast one.
    City {
        cols: usize,
        rows: usize,
        holes: usize,
        fast: usize,
        seed: u64,
    },
    /// Two networks of the same kind, the second one eight times as large.
    Growth {
        shape: Shape,
        n: usize,
        seed: u64,
    },
    /// Queries within the first nodes of a small and of a large network.
    Local {
        shape: Shape,
        n: usize,
        seed: u64,
    },
}

impl Case for Speed {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        // less is faster, but says less, too
        Box::new(std::iter::empty())
    }
}

/// CPU time of this thread in seconds.
fn now() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

fn time<T>(f: impl FnOnce() -> T) -> (f64, T) {
    let t = now();
    let r = f();
    (now() - t, r)
}

/// only one measurement at a time
static ALONE: Mutex<()> = Mutex::new(());

fn city(cols: usize, rows: usize, holes: usize, fast: usize, seed: u64) -> G {
    let mut rng = rng_from([seed, 24, 1, 1]);
    let r = &mut R(&mut rng);
    let mut adds = vec![];
    for y in 0..rows {
        for x in 0..cols {
            let v = y * cols + x;
            let quick = |k: usize| fast > 0 && k % fast == 0;
            if x + 1 < cols && (quick(y) || !r.chance(holes)) {
                adds.push((v, v + 1, r.range(50, 150) / if quick(y) { 5 } else { 1 }, true));
            }
            if y + 1 < rows && (quick(x) || !r.chance(holes)) {
                adds.push((v, v + cols, r.range(50, 150) / if quick(x) { 5 } else { 1 }, true));
            }
        }
    }
    G { adds }
}

fn network(shape: Shape, n: usize, seed: u64) -> G {
    let mut rng = rng_from([seed, 24, 2, 2]);
    let r = &mut R(&mut rng);
    let mut adds = vec![];
    match shape {
        Shape::Line => {
            for v in 1..n {
                adds.push((v - 1, v, r.range(1, 100), true));
            }
        }
        Shape::Tree => {
            for v in 1..n {
                adds.push((v, v - 1 - r.below(20.min(v)), r.range(1, 100), true));
            }
        }
        Shape::Strip | Shape::OneWay | Shape::Remote => {
            let n = if shape == Shape::Remote { n / 10 * 9 } else { n };
            for v in 0..n {
                let two = shape != Shape::OneWay || v % 16 == 0;
                if v % 8 < 7 && v + 1 < n {
                    adds.push((v, v + 1, r.range(50, 150), two));
                }
                if v + 8 < n {
                    let (a, b) = if two || v % 2 == 0 { (v, v + 8) } else { (v + 8, v) };
                    adds.push((a, b, r.range(50, 150), two));
                }
                if shape == Shape::Remote && v % 9 == 0 {
                    adds.push((v, n + v / 9, r.range(1_000_000_000, 2_000_000_000), true));
                }
            }
        }
    }
    G { adds }
}

/// What takes how long. The smallest of several measurements.
#[derive(Default, Debug, Clone)]
struct Times {
    freeze: f64,
    prepare: f64,
    order: f64,
    serialize: f64,
    /// a path with about n/32 hops
    long: f64,
    edges: f64,
}

fn measure(g: &G, rounds: usize) -> Result<Times, String> {
    let mut best: Option<Times> = None;
    for _ in 0..rounds {
        let mut t = Times::default();
        let (s, input) = time(|| g.input());
        t.freeze = s;
        let (s, fg) = time(|| fast_paths::prepare(&input));
        t.prepare = s;
        let order = fast_paths::get_node_ordering(&fg);
        let (s, again) = time(|| fast_paths::prepare_with_order(&input, &order));
        t.order = s;
        again?;
        let (s, _) = time(|| {
            let b = bytes(&fg);
            bincode::deserialize::<fast_paths::FastGraph>(&b).map(|f| f.get_num_nodes())
        });
        t.serialize = s;
        t.edges = (fg.get_num_in_edges() + fg.get_num_out_edges()) as f64;
        let n = input.get_num_nodes();
        let mut c = fast_paths::create_calculator(&fg);
        let mut sum = 0;
        let mut ask = |k: usize, d: usize| {
            time(|| {
                for i in 0..k {
                    let a = (i * 7919) % (n - d);
                    sum += c.calc_path(&fg, a, a + d).map_or(0, |p| p.get_weight());
                }
            })
            .0 / k as f64
        };
        t.long = ask(4, n / 4);
        if sum == 0 {
            return Err("no path was found".into());
        }
        best = Some(match best {
            None => t,
            Some(b) => Times {
                freeze: b.freeze.min(t.freeze),
                prepare: b.prepare.min(t.prepare),
                order: b.order.min(t.order),
                serialize: b.serialize.min(t.serialize),
                long: b.long.min(t.long),
                edges: t.edges,
            },
        });
    }
    Ok(best.unwrap())
}

/// How much more each of these may take for eight times as much.
const GROWTH: f64 = 28.0;
const LOCAL: f64 = 5.0;

fn growth(shape: Shape, n: usize, seed: u64, t: &mut Tally) -> Result<(), String> {
    let (small, large) = (network(shape, n, seed), network(shape, n * 8, seed));
    let mut worst = None;
    // a slow machine must not be taken for a slow program: another measurement
    for round in 0..4 {
        let a = measure(&small, 2 + round)?;
        let b = measure(&large, 1 + round)?;
        let eps = 20e-6;
        let ratio = |x: f64, y: f64| y / (x + eps);
        let all = [
            ("freezing", ratio(a.freeze, b.freeze), GROWTH),
            ("preparing", ratio(a.prepare, b.prepare), GROWTH),
            ("preparing with an order", ratio(a.order, b.order), GROWTH),
            ("serializing", ratio(a.serialize, b.serialize), GROWTH),
            ("a query over a long distance", ratio(a.long, b.long), GROWTH),
            ("the number of edges", b.edges / a.edges, 12.0),
        ];
        if std::env::var_os("FPV_SPEED").is_some() {
            eprintln!("{:?} {} {:.1?} {:.6?}", shape, n, all.iter().map(|x| x.1).collect::<Vec<_>>(), b);
        }
        worst = all.into_iter().find(|x| x.1 > x.2);
        if worst.is_none() {
            break;
        }
        t.label("measured again");
    }
    match worst {
        Some((what, r, allowed)) => Err(format!(
            "{} takes {:.1} times as much for {} instead of {} nodes ({} times is tolerated)",
            what,
            r,
            8 * n,
            n,
            allowed
        )),
        None => Ok(()),
    }
}

/// The time of a query between near nodes.
fn near(g: &G, rounds: usize) -> Result<f64, String> {
    let fg = fast_paths::prepare(&g.input());
    let mut c = fast_paths::create_calculator(&fg);
    let mut best = f64::MAX;
    let mut sum = 0;
    for _ in 0..rounds {
        let (s, _) = time(|| {
            for i in 0..400 {
                let a = (i * 79) % 1000;
                sum += c.calc_path(&fg, a, a + 1 + i % 30).map_or(0, |p| p.get_weight());
            }
        });
        best = best.min(s / 400.0);
    }
    if sum == 0 {
        return Err("no path was found".into());
    }
    Ok(best)
}

fn local(shape: Shape, n: usize, seed: u64, t: &mut Tally) -> Result<(), String> {
    let (small, large) = (network(shape, 2000, seed), network(shape, n, seed));
    let mut ratio = f64::MAX;
    for _ in 0..4 {
        let (a, b) = (near(&small, 20)?, near(&large, 20)?);
        ratio = ratio.min(b / (a + 0.5e-6));
        if std::env::var_os("FPV_SPEED").is_some() {
            eprintln!("local {:?} {} {:.9} {:.9} {:.1}", shape, n, a, b, ratio);
        }
        if ratio <= LOCAL {
            return Ok(());
        }
        t.label("measured again");
    }
    Err(format!(
        "queries between near nodes take {:.1} times as long for {} instead of 2000 nodes ({} times is tolerated)",
        ratio, n, LOCAL
    ))
}

fn dijkstra(m: &Model, dist: &mut Vec<usize>, a: usize, b: usize) -> usize {
    dist.clear();
    dist.resize(m.n, usize::MAX);
    let mut h = BinaryHeap::new();
    dist[a] = 0;
    h.push(Reverse((0, a)));
    while let Some(Reverse((d, v))) = h.pop() {
        if d > dist[v] {
            continue;
        }
        if v == b {
            return d;
        }
        for &(u, w) in m.out(v) {
            if d + w < dist[u] {
                dist[u] = d + w;
                h.push(Reverse((d + w, u)));
            }
        }
    }
    0
}

/// A query has to be faster than a search by at least this factor (for at least 14000 nodes, the
/// usual one is more than 20).
const FASTER: f64 = 5.0;
/// edges of the prepared graph, relative to the input (usually around 2)
const EDGES: f64 = 3.5;
/// share of the time it takes to prepare without an ordering (usually around 0.15)
const ORDERED: f64 = 1.0;
/// seconds
const PREPARE: f64 = 60.0;

fn in_city(g: &G, seed: u64, t: &mut Tally) -> Result<(), String> {
    let m = g.model();
    let input = g.input();
    let (prepare, fg) = time(|| fast_paths::prepare(&input));
    let edges = (fg.get_num_in_edges() + fg.get_num_out_edges()) as f64 / m.edges.len() as f64;
    if edges > EDGES {
        return Err(format!(
            "the prepared graph has {:.1} times as many edges as the input ({} times is tolerated)",
            edges, EDGES
        ));
    }
    if prepare > PREPARE {
        return Err(format!("preparing {} nodes took {:.0} s", m.n, prepare));
    }
    let order = fg.get_node_ordering();
    let mut share = f64::MAX;
    for _ in 0..3 {
        let (ordered, f) = time(|| fast_paths::prepare_with_order(&input, &order));
        f?;
        share = share.min(ordered / prepare);
        if share < ORDERED {
            break;
        }
    }
    if share >= ORDERED {
        return Err(format!(
            "preparing with the ordering that was reported takes {:.1} times as long as without",
            share
        ));
    }
    let mut rng = rng_from([seed, 24, 3, 3]);
    let r = &mut R(&mut rng);
    let mut calc = fast_paths::create_calculator(&fg);
    let mut dist = vec![];
    let mut ratio = 0f64;
    for _ in 0..4 {
        let q: Vec<(usize, usize)> = (0..300).map(|_| (r.below(m.n), r.below(m.n))).collect();
        let (fast, x) = time(|| {
            q.iter()
                .map(|q| calc.calc_path(&fg, q.0, q.1).map_or(0, |p| p.get_weight()))
                .collect::<Vec<_>>()
        });
        let (slow, y) = time(|| {
            q.iter()
                .take(30)
                .map(|q| dijkstra(&m, &mut dist, q.0, q.1))
                .collect::<Vec<_>>()
        });
        if x[..30] != y[..] {
            return Err("the answers are wrong".into());
        }
        ratio = ratio.max((slow / 30.0) / (fast / 300.0));
        if ratio >= FASTER {
            break;
        }
        t.label("measured again");
    }
    if std::env::var_os("FPV_SPEED").is_some() {
        eprintln!("city {} edges {:.2} prepare {:.2} ordered {:.2} ratio {:.0}", m.n, edges, prepare, share, ratio);
    }
    if ratio < FASTER {
        return Err(format!(
            "a query in a graph of {} nodes is only {:.1} times as fast as Dijkstra's algorithm ({} times is demanded)",
            m.n, ratio, FASTER
        ));
    }
    Ok(())
}

pub struct C24;
impl Property for C24 {
    type C = Speed;
    const ID: &'static str = "C24";
    const SCALE: u64 = 1;
    const RULE: &'static str = "random road-like networks: cities of 14000 to 40000 nodes (grids with holes and fast streets), where a query must be at least 5 times as fast as Dijkstra's algorithm, the prepared graph must have at most 3.5 times as many edges as the input, preparing must take less than 60 s, and preparing with the ordering that was reported less than that; and lines, trees and strips (two-way, one-way, or with very remote dead ends) of n and of 8n nodes, where freezing, preparing (with and without order), serializing and long queries may take at most 28 times as long for the larger one; and lines and trees of 2000 and of 300000 nodes, where the same queries of a kept calculator between near nodes may take at most 5 times as long. CPU time of the thread, one measurement at a time, the best of several, repeated before anything is reported. Non-trivial: every case (there is no trivial one)";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "CPU time as measured by the system is a fair measure; the tolerated factors leave a margin of 3 or more to what was observed",
    ];
    fn strata(tier: Tier) -> Vec<Stratum<Speed>> {
        vec![
            random("cities", tier.cases(8, 64), |r| {
                let cols = r.range(110, 180);
                Speed::City {
                    cols,
                    rows: r.range(130, 220),
                    holes: r.pick(&[10usize, 15, 20, 25]),
                    fast: r.pick(&[0usize, 10, 20, 40]),
                    seed: r.u64(),
                }
            }),
            random("growth", tier.cases(20, 200), |r| {
                let shape = r.pick(&[Shape::Line, Shape::Tree, Shape::Strip, Shape::OneWay, Shape::Remote]);
                Speed::Growth {
                    shape,
                    n: r.range(3000, 6000),
                    seed: r.u64(),
                }
            }),
            random("local queries", tier.cases(8, 80), |r| Speed::Local {
                shape: r.pick(&[Shape::Line, Shape::Tree]),
                n: r.range(250_000, 350_000),
                seed: r.u64(),
            }),
        ]
    }
    fn check(case: &Speed, t: &mut Tally) -> Result<(), String> {
        let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        t.nontrivial = true;
        match case {
            Speed::City {
                cols,
                rows,
                holes,
                fast,
                seed,
            } => in_city(&city(*cols, *rows, *holes, *fast, *seed), *seed, t),
            Speed::Local { shape, n, seed } => local(*shape, *n, *seed, t),
            Speed::Growth { shape, n, seed } => growth(*shape, *n, *seed, t),
        }
    }
}
