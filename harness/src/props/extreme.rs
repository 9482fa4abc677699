//! C17, C18: weights that cannot be represented, and very deep hierarchies.

use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen;
use crate::model::*;
use crate::props::multi::{modulo, Ends};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Extreme {
    pub g: G,
    pub prep: Prep,
    pub multi: Vec<(Ends, Ends)>,
}

impl Case for Extreme {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let m = shrink_list(&self.multi, 0)
            .into_iter()
            .map(move |multi| Extreme {
                multi,
                ..self.clone()
            });
        let p = self.prep.shrinks().into_iter().map(move |prep| Extreme {
            prep,
            ..self.clone()
        });
        let g = self.g.shrinks().map(move |g| Extreme { g, ..self.clone() });
        Box::new(m.chain(p).chain(g))
    }
}

const MAX: usize = usize::MAX;

fn extreme_weight(r: &mut R, mode: usize) -> usize {
    match mode {
        0 => r.pick(&[MAX, MAX - 1, MAX - 2, 1, 2]),
        1 => r.pick(&[MAX / 2 - 1, MAX / 2, MAX / 2 + 1, MAX / 2 + 2, 1, 2]),
        2 => r.pick(&[MAX / 3 - 1, MAX / 3, MAX / 3 + 1, 1]),
        3 => 1 << r.below(64),
        4 => MAX - (1 << r.below(64)),
        5 => MAX / r.range(1, 12),
        _ => {
            if r.chance(60) {
                r.range(1, 20)
            } else {
                MAX - r.below(40)
            }
        }
    }
}

pub struct C17;
impl Property for C17 {
    type C = Extreme;
    const ID: &'static str = "C17";
    const SCALE: u64 = 12;
    const RULE: &'static str = "random graphs whose weights are so large (around usize::MAX, halves and thirds of it, powers of two) that many path weights exceed usize::MAX, prepared in any way; all pairs and queries with start and end weights of the same kind are compared with a reference in 128 bit: an answer exists exactly if the optimum is below WEIGHT_MAX, and has that weight. Non-trivial: some pair is connected, but only by paths whose weight cannot be represented";
    fn strata(tier: Tier) -> Vec<Stratum<Extreme>> {
        fn case(r: &mut R, mut g: G) -> Extreme {
            let mode = r.below(7);
            for a in g.adds.iter_mut() {
                if a.2 != 0 {
                    a.2 = extreme_weight(r, mode);
                }
            }
            let m = g.model();
            let prep = any_prep(r, &m);
            let ends = |r: &mut R| -> Ends {
                (0..r.range(1, 4))
                    .map(|_| {
                        let w = match r.below(3) {
                            0 => 0,
                            1 => extreme_weight(r, mode),
                            _ => r.below(5),
                        };
                        (r.below(m.n), w)
                    })
                    .collect()
            };
            let multi = (0..8).map(|_| (ends(r), ends(r))).collect();
            Extreme { g, prep, multi }
        }
        vec![
            random("up to 8 nodes", tier.cases(150_000, 4_000_000), |r| {
                let g = gen::graph(r, 2, 8);
                case(r, g)
            }),
            random("up to 30 nodes", tier.cases(15_000, 400_000), |r| {
                let g = gen::graph(r, 8, 30);
                case(r, g)
            }),
        ]
    }
    fn check(case: &Extreme, t: &mut Tally) -> Result<(), String> {
        let m = case.g.model();
        if m.n == 0 {
            return Ok(());
        }
        let fg = case.prep.build(&case.g.input())?;
        let mut calc = fast_paths::create_calculator(&fg);
        let mut overflow = 0;
        for s in 0..m.n {
            let d = m.dist_from(s);
            for v in 0..m.n {
                let got = calc.calc_path(&fg, s, v);
                check_p2p("", &m, d[v], &got, s, v)?;
                overflow += (d[v] != INF && d[v] >= MAX as u128) as usize;
                t.label_if(d[v] > u64::MAX as u128 / 4 * 3 && d[v] < MAX as u128, "barely representable");
            }
        }
        for (s, e) in &case.multi {
            let (s, e) = (modulo(s, m.n), modulo(e, m.n));
            let usable = |l: &Ends| -> Ends { l.iter().filter(|x| x.1 != MAX).cloned().collect() };
            let (us, ue) = (usable(&s), usable(&e));
            let expected = multi_expected(&m, &us, &ue);
            let got = calc.calc_path_multiple_sources_and_targets(&fg, s.clone(), e.clone());
            check_answer(
                &|| format!("from {:?} to {:?}", s, e),
                &m,
                expected,
                &got,
                &us,
                &ue,
            )?;
            t.label_if(
                expected != INF && expected >= MAX as u128,
                "lists whose optimum cannot be represented",
            );
        }
        t.count("pairs whose distance cannot be represented", overflow);
        t.nontrivial_if(overflow > 0);
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Nesting {
    Default,
    Sequential,
    Reversed,
    /// odd nodes first, then the odd ones of the remaining ones, and so on
    Balanced,
    Shuffled(u64),
    /// from both ends to the middle, or from the middle to the ends
    Inwards,
    Outwards,
}

/// A long line (or cycle) of nodes, with branches of one node here and there.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub n: usize,
    pub weight: usize,
    pub cycle: bool,
    pub bidir: bool,
    /// detours over two edges that are too expensive, every so many nodes
    pub chords: Option<usize>,
    pub nesting: Nesting,
    /// the first and the last node are the most important ones, in this or the other order
    #[serde(default)]
    pub ends: Option<bool>,
    /// write and read it before it is used
    pub serialize: bool,
}

impl Case for Long {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let mut v = vec![];
        for n in [self.n / 16, self.n / 4, self.n / 2, self.n * 3 / 4, self.n * 9 / 10, self.n - 1] {
            if n >= 2 && n < self.n {
                v.push(Long { n, ..self.clone() });
            }
        }
        if self.cycle {
            v.push(Long {
                cycle: false,
                ..self.clone()
            });
        }
        if self.chords.is_some() {
            v.push(Long {
                chords: None,
                ..self.clone()
            });
        }
        if self.ends.is_some() {
            v.push(Long {
                ends: None,
                ..self.clone()
            });
        }
        if self.serialize {
            v.push(Long {
                serialize: false,
                ..self.clone()
            });
        }
        if self.weight > 1 {
            v.push(Long {
                weight: 1,
                ..self.clone()
            });
        }
        Box::new(v.into_iter())
    }
}

fn check_long(c: &Long, t: &mut Tally) -> Result<(), String> {
    let n = c.n;
    let mut g = fast_paths::InputGraph::new();
    let mut edge = |a, b, w| {
        if c.bidir {
            g.add_edge_bidir(a, b, w);
        } else {
            g.add_edge(a, b, w);
        }
    };
    for v in 0..n - 1 {
        edge(v, v + 1, c.weight);
    }
    if c.cycle {
        edge(n - 1, 0, c.weight);
    }
    if let Some(k) = c.chords {
        let mut v = 0;
        while v + 2 < n {
            edge(v, v + 2, 2 * c.weight + 1);
            v += k.max(1);
        }
    }
    g.freeze();
    let mut order: Option<Vec<usize>> = match &c.nesting {
        Nesting::Default => None,
        Nesting::Sequential => Some((0..n).collect()),
        Nesting::Reversed => Some((0..n).rev().collect()),
        Nesting::Balanced => {
            let mut o: Vec<usize> = (0..n).collect();
            o.sort_by_key(|v| (v.trailing_zeros().min(40), *v));
            Some(o)
        }
        Nesting::Shuffled(s) => {
            let mut rng = rng_from([*s, 9, 9, 9]);
            Some(R(&mut rng).perm(n))
        }
        Nesting::Inwards | Nesting::Outwards => {
            let mut o: Vec<usize> = (0..n).collect();
            o.sort_by_key(|v| (*v).min(n - 1 - *v));
            if matches!(c.nesting, Nesting::Outwards) {
                o.reverse();
            }
            Some(o)
        }
    };
    if let (Some(o), Some(swap)) = (&mut order, c.ends) {
        o.retain(|v| *v != 0 && *v != n - 1);
        o.extend(if swap { [n - 1, 0] } else { [0, n - 1] });
    }
    let mut fg = match &order {
        None => fast_paths::prepare(&g),
        Some(o) => fast_paths::prepare_with_order(&g, o)?,
    };
    if c.serialize {
        fg = bincode::deserialize(&bytes(&fg)).map_err(|e| e.to_string())?;
    }
    let mut calc = fast_paths::create_calculator(&fg);
    let mut longest = 0;
    for (s, e) in [(0, n - 1), (n - 1, 0), (1, n - 2), (n / 3, n - n / 4 - 1), (n / 2, 0), (n / 2, n / 2)] {
        let (s, e) = (s.min(n - 1), e.min(n - 1));
        let got = calc.calc_path(&fg, s, e);
        // forwards and backwards along the line
        let fwd = if e >= s {
            Some(e - s)
        } else if c.cycle {
            Some(n - s + e)
        } else {
            None
        };
        let bwd = if !c.bidir {
            None
        } else if s >= e {
            Some(s - e)
        } else if c.cycle {
            Some(n - e + s)
        } else {
            None
        };
        let hops = [fwd, bwd].into_iter().flatten().min();
        match (&got, hops) {
            (None, None) => {}
            (None, Some(h)) => return Err(format!("{} -> {}: no path, but there is one of {} hops", s, e, h)),
            (Some(p), None) => return Err(format!("{} -> {}: found {}", s, e, short(p.get_nodes()))),
            (Some(p), Some(h)) => {
                if p.get_weight() != h * c.weight || p.get_nodes().len() != h + 1 {
                    return Err(format!(
                        "{} -> {}: weight {} and {} nodes instead of {} and {}",
                        s,
                        e,
                        p.get_weight(),
                        p.get_nodes().len(),
                        h * c.weight,
                        h + 1
                    ));
                }
                let f = |i: usize| (s + i) % n;
                let b = |i: usize| (s + n - i % n) % n;
                let nodes = p.get_nodes();
                if !(nodes.iter().enumerate().all(|(i, v)| *v == f(i))
                    || c.bidir && nodes.iter().enumerate().all(|(i, v)| *v == b(i)))
                {
                    return Err(format!("{} -> {}: the nodes are {}", s, e, short(nodes)));
                }
                longest = longest.max(h);
            }
        }
    }
    t.nontrivial_if(longest >= 1000);
    t.label_if(longest >= 10_000, "path of at least 10000 hops");
    t.label_if(longest >= 100_000, "path of at least 100000 hops");
    t.label_if(order.is_some(), "given order");
    Ok(())
}

pub struct C18;
impl Property for C18 {
    type C = Long;
    const ID: &'static str = "C18";
    const SCALE: u64 = 4;
    const RULE: &'static str = "long lines and cycles of nodes (up to 300000), directed and bidirectional, with and without chords, prepared with prepare() or with orders that nest shortcuts as deeply as possible (sequential, reversed, from both ends to the middle and back, with the ends of the line anywhere or at the top) or as little as possible, also after serialization; paths between the ends are calculated in a thread with the default stack size of 2 MiB, and must consist of exactly the expected nodes. Non-trivial: an answer of at least 1000 hops";
    fn strata(tier: Tier) -> Vec<Stratum<Long>> {
        fn long(r: &mut R, n: usize) -> Long {
            Long {
                n,
                weight: r.pick(&[1usize, 1, 3, 1000, 1 << 40]),
                cycle: r.chance(25),
                bidir: r.chance(60),
                chords: if r.chance(25) { Some(r.range(1, 7)) } else { None },
                nesting: match r.below(9) {
                    0 | 1 => Nesting::Default,
                    2 | 3 => Nesting::Sequential,
                    4 => Nesting::Reversed,
                    5 => Nesting::Balanced,
                    6 => Nesting::Shuffled(r.u64()),
                    7 => Nesting::Inwards,
                    _ => Nesting::Outwards,
                },
                ends: if r.chance(50) { Some(r.chance(50)) } else { None },
                serialize: r.chance(15),
            }
        }
        vec![
            random("up to 50 nodes", tier.cases(40_000, 500_000), |r| {
                let n = r.range(2, 50);
                long(r, n)
            }),
            random("up to 3000 nodes", tier.cases(800, 10_000), |r| {
                let n = r.range(1000, 3000);
                long(r, n)
            }),
            random("up to 70000 nodes", tier.cases(240, 3_000), |r| {
                let n = r.range(20_000, 70_000);
                long(r, n)
            }),
            random("up to 300000 nodes", tier.cases(24, 300), |r| {
                let n = r.range(150_000, 300_000);
                let mut l = long(r, n);
                if r.chance(50) {
                    l.nesting = Nesting::Sequential;
                }
                l
            }),
        ]
    }
    fn check(case: &Long, t: &mut Tally) -> Result<(), String> {
        if case.n < 2 {
            return Ok(());
        }
        if case.n < 500 {
            return check_long(case, t);
        }
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, || guard(|| check_long(case, t)).and_then(|r| r))
                .unwrap()
                .join()
                .unwrap()
        })
    }
}
