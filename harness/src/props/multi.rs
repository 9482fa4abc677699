//! C06, C07: queries with many weighted sources and targets.

use fast_paths::{FastGraph, PathCalculator, ShortestPath};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen::{self, W};
use crate::model::*;

pub type Ends = Vec<(usize, usize)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Multi {
    pub g: G,
    pub prep: Prep,
    /// sources and targets, ids modulo the number of nodes
    pub queries: Vec<(Ends, Ends)>,
}

pub fn modulo(e: &Ends, n: usize) -> Ends {
    e.iter().map(|x| (x.0 % n, x.1)).collect()
}

fn shrink_ends(e: &Ends) -> Vec<Ends> {
    let mut v = shrink_list(e, 1);
    for i in 0..e.len().min(40) {
        for w in [0, 1, e[i].1 / 2] {
            if w < e[i].1 {
                let mut x = e.clone();
                x[i].1 = w;
                v.push(x);
            }
        }
        if e[i].0 > 0 {
            let mut x = e.clone();
            x[i].0 = 0;
            v.push(x);
        }
    }
    v
}

impl Case for Multi {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let q = shrink_list(&self.queries, 1)
            .into_iter()
            .map(move |queries| Multi {
                queries,
                ..self.clone()
            });
        let p = self.prep.shrinks().into_iter().map(move |prep| Multi {
            prep,
            ..self.clone()
        });
        let g = self.g.shrinks().map(move |g| Multi { g, ..self.clone() });
        let ends = (0..self.queries.len().min(4)).flat_map(move |i| {
            let a = shrink_ends(&self.queries[i].0);
            let b = shrink_ends(&self.queries[i].1);
            a.into_iter()
                .map(move |x| (x, self.queries[i].1.clone()))
                .chain(b.into_iter().map(move |x| (self.queries[i].0.clone(), x)))
                .map(move |q| {
                    let mut c = self.clone();
                    c.queries[i] = q;
                    c
                })
        });
        Box::new(q.chain(p).chain(g).chain(ends))
    }
}

fn draw(r: &mut R, g: G, prep: Prep, queries: usize, hi: usize) -> Multi {
    let n = g.model().n;
    let queries = (0..queries)
        .map(|_| {
            let (a, b) = if r.chance(15) {
                (1, hi)
            } else if r.chance(15) {
                (hi, 1)
            } else {
                (hi, hi)
            };
            let mut s = gen::endpoints(r, n, a, true);
            let mut t = gen::endpoints(r, n, b, true);
            // overlapping lists
            if r.chance(25) {
                let x = r.pick(&s);
                t.push((x.0, r.below(10)));
            }
            // repetitions with other weights
            if r.chance(25) {
                let x = r.pick(&s);
                s.push((x.0, x.1.saturating_add(r.below(20)).saturating_sub(r.below(10))));
            }
            if r.chance(25) {
                let x = r.pick(&t);
                t.push((x.0, x.1.saturating_add(r.below(20)).saturating_sub(r.below(10))));
            }
            // all on one node
            if r.chance(3) {
                for e in s.iter_mut().chain(t.iter_mut()) {
                    e.0 = 0;
                }
            }
            (s, t)
        })
        .collect();
    Multi { g, prep, queries }
}

fn strata(tier: Tier, scale: u64) -> Vec<Stratum<Multi>> {
    vec![
        random(
            "up to 10 nodes",
            tier.cases(120_000 / scale, 3_000_000),
            |r| {
                let g = gen::graph(r, 2, 10);
                let prep = any_prep(r, &g.model());
                draw(r, g, prep, 12, 5)
            },
        ),
        random(
            "up to 60 nodes",
            tier.cases(30_000 / scale, 800_000),
            |r| {
                let g = gen::graph(r, 10, 60);
                let prep = any_prep(r, &g.model());
                draw(r, g, prep, 30, 8)
            },
        ),
        random("long lists", tier.cases(1600 / scale, 30_000), |r| {
            let w = gen::weights(r);
            let n = r.range(80, 400);
            let g = sparse_graph(r, n, w);
            let hi = r.pick(&[20usize, 70, 200, 300]);
            draw(r, g, Prep::Default, 10, hi)
        }),
        random("lists of more than 65536 entries", tier.cases(8 / scale, 100), |r| {
            let w = gen::weights(r);
            let n = r.range(300, 3000);
            let g = sparse_graph(r, n, w);
            let n = g.model().n;
            let q = (0..2)
                .map(|i| {
                    let dear = 1usize << r.pick(&[4usize, 20, 50]);
                    let mut list = |long: bool| -> Ends {
                        let k = if long { r.range(65_600, 70_000) } else { r.range(1, 300) };
                        // the best ones are somewhere in the list, the others have the weight of
                        // a detour
                        let mut l: Ends = (0..k).map(|_| (r.below(n), dear + r.below(50))).collect();
                        for _ in 0..3 {
                            let at = if r.chance(60) { k - 1 - r.below(k.min(60)) } else { r.below(k) };
                            l[at].1 = r.below(10);
                        }
                        l
                    };
                    (list(i == 0), list(i == 1))
                })
                .collect();
            Multi { g, prep: Prep::Default, queries: q }
        }),
        random("thousands of nodes", tier.cases(32 / scale, 600), |r| {
            let w = r.pick(&[W::Few, W::Hundred, W::Large]);
            let n = r.range(1000, 4000);
            let g = sparse_graph(r, n, w);
            draw(r, g, Prep::Default, 40, 12)
        }),
    ]
}

fn label(t: &mut Tally, s: &Ends, e: &Ends) {
    t.label_if(s.len() > 64 || e.len() > 64, "more than 64 sources or targets");
    t.label_if(s.len() > 256 || e.len() > 256, "more than 256 sources or targets");
    t.label_if(
        s.iter().any(|x| e.iter().any(|y| x.0 == y.0)),
        "a node is both source and target",
    );
    t.label_if(
        s.iter().chain(e).any(|x| x.1 == usize::MAX),
        "with WEIGHT_MAX entries",
    );
    let repeated = |l: &Ends| {
        let mut v: Vec<usize> = l.iter().map(|x| x.0).collect();
        v.sort_unstable();
        v.dedup();
        v.len() < l.len()
    };
    t.label_if(repeated(s) || repeated(e), "repeated nodes");
}

pub struct C06;
impl Property for C06 {
    type C = Multi;
    const ID: &'static str = "C06";
    const SCALE: u64 = 5;
    const RULE: &'static str = "random graphs prepared in any way, with lists of 1 to 300 weighted sources and targets: repeated nodes with different weights, nodes that are both source and target, zero weights, weights that outweigh the whole graph, entries of weight WEIGHT_MAX; the answer is compared with the minimum over all the pairs (Dijkstra's algorithm from all sources in 128 bit), and its nodes must be a genuine path from an offered source to an offered target. Non-trivial: at least two usable sources or targets and an answer of at least two nodes";
    fn strata(tier: Tier) -> Vec<Stratum<Multi>> {
        strata(tier, 1)
    }
    fn check(case: &Multi, t: &mut Tally) -> Result<(), String> {
        let m = case.g.model();
        if m.n == 0 {
            return Ok(());
        }
        let fg = case.prep.build(&case.g.input())?;
        let mut calc = fast_paths::create_calculator(&fg);
        for (i, (s, e)) in case.queries.iter().enumerate() {
            let (s, e) = (modulo(s, m.n), modulo(e, m.n));
            // an entry with WEIGHT_MAX is no source/target at all
            let usable = |l: &Ends| -> Ends {
                l.iter().filter(|x| x.1 != usize::MAX).cloned().collect()
            };
            let (us, ue) = (usable(&s), usable(&e));
            let expected = multi_expected(&m, &us, &ue);
            let got = if i == 0 {
                fast_paths::calc_path_multiple_sources_and_targets(&fg, s.clone(), e.clone())
            } else {
                calc.calc_path_multiple_sources_and_targets(&fg, s.clone(), e.clone())
            };
            check_answer(
                &|| format!("from {} to {}", brief(&s), brief(&e)),
                &m,
                expected,
                &got,
                &us,
                &ue,
            )?;
            label(t, &s, &e);
            t.count("queries", 1);
            t.label_if(got.is_none(), "no answer");
            if let Some(p) = got {
                t.nontrivial_if((us.len() > 1 || ue.len() > 1) && p.get_nodes().len() > 1);
                t.label_if(p.get_nodes().len() == 1, "answer of one node");
            }
        }
        Ok(())
    }
}

fn brief(e: &Ends) -> String {
    if e.len() <= 12 {
        format!("{:?}", e)
    } else {
        format!("{:?}.. ({} entries)", &e[..12], e.len())
    }
}

pub struct C07;
impl Property for C07 {
    type C = Multi;
    const ID: &'static str = "C07";
    const SCALE: u64 = 8;
    const RULE: &'static str = "metamorphic: the queries of C06, asked again with the lists reversed, rotated, with repeated entries, with additional entries of weight WEIGHT_MAX, with dominated entries (same node, larger weight), reduced to the source and the target of the answer, split into single sources and single targets; weight and existence of the answer must not change (the split ones must have the same minimum), single sources and targets must agree with calc_path plus their weights, and the free functions with a calculator. Non-trivial: the answer has at least two nodes";
    fn strata(tier: Tier) -> Vec<Stratum<Multi>> {
        strata(tier, 4)
    }
    fn check(case: &Multi, t: &mut Tally) -> Result<(), String> {
        let m = case.g.model();
        if m.n == 0 {
            return Ok(());
        }
        let fg = case.prep.build(&case.g.input())?;
        let mut calc = fast_paths::create_calculator(&fg);
        for (s, e) in &case.queries {
            let (s, e) = (modulo(s, m.n), modulo(e, m.n));
            relations(&fg, &mut calc, m.n, &s, &e, t)?;
        }
        Ok(())
    }
}

fn weight(p: &Option<ShortestPath>) -> Option<usize> {
    p.as_ref().map(|p| p.get_weight())
}

fn relations(
    fg: &FastGraph,
    calc: &mut PathCalculator,
    n: usize,
    s: &Ends,
    e: &Ends,
    t: &mut Tally,
) -> Result<(), String> {
    let base = calc.calc_path_multiple_sources_and_targets(fg, s.clone(), e.clone());
    let expect = weight(&base);
    let mut same = |what: &str, s2: Ends, e2: Ends| -> Result<(), String> {
        let got = weight(&calc.calc_path_multiple_sources_and_targets(fg, s2.clone(), e2.clone()));
        if got != expect {
            return Err(format!(
                "from {} to {} the weight is {:?}, but {:?} {} (from {} to {})",
                brief(s),
                brief(e),
                expect,
                got,
                what,
                brief(&s2),
                brief(&e2)
            ));
        }
        Ok(())
    };
    let rev = |l: &Ends| -> Ends { l.iter().rev().cloned().collect() };
    let rot = |l: &Ends| -> Ends {
        let mut l = l.clone();
        let k = l.len() / 2;
        l.rotate_left(k);
        l
    };
    let sorted = |l: &Ends| -> Ends {
        let mut l = l.clone();
        l.sort_by_key(|x| (x.1, x.0));
        l
    };
    let twice = |l: &Ends| -> Ends { l.iter().chain(l).cloned().collect() };
    let with_max = |l: &Ends| -> Ends {
        let mut l = l.clone();
        for v in 0..n.min(3) {
            let at = (v * 7) % (l.len() + 1);
            l.insert(at, ((v * 5) % n, usize::MAX));
        }
        l
    };
    let dominated = |l: &Ends| -> Ends {
        l.iter()
            .flat_map(|x| [(x.0, x.1.saturating_add(3)), *x, (x.0, x.1.saturating_add(1))])
            .collect()
    };
    same("when asked again", s.clone(), e.clone())?;
    same("with the sources reversed", rev(s), e.clone())?;
    same("with the targets reversed", s.clone(), rev(e))?;
    same("with both rotated", rot(s), rot(e))?;
    same("with both sorted by weight", sorted(s), sorted(e))?;
    same("with every entry twice", twice(s), twice(e))?;
    same("with additional sources of weight WEIGHT_MAX", with_max(s), e.clone())?;
    same("with additional targets of weight WEIGHT_MAX", s.clone(), with_max(e))?;
    same("with dominated entries", dominated(s), dominated(e))?;
    if let Some(p) = &base {
        let (a, b) = (p.get_nodes()[0], p.get_nodes()[p.get_nodes().len() - 1]);
        let only = |l: &Ends, v: usize| -> Ends { l.iter().filter(|x| x.0 == v).cloned().collect() };
        let (s2, e2) = (only(s, a), only(e, b));
        if s2.is_empty() || e2.is_empty() {
            return Err(format!(
                "from {} to {}: the path {} does not lead from a source to a target",
                brief(s),
                brief(e),
                short(p.get_nodes())
            ));
        }
        same("with the ends of the answer only", s2, e2)?;
        t.nontrivial_if(p.get_nodes().len() > 1);
    }
    // the minimum over single sources, and over single targets
    if s.len() <= 12 && e.len() <= 12 {
        let mut best: Option<usize> = None;
        for x in s {
            let w = weight(&calc.calc_path_multiple_sources_and_targets(fg, vec![*x], e.clone()));
            best = [best, w].into_iter().flatten().min();
        }
        if best != expect {
            return Err(format!(
                "from {} to {}: weight {:?}, but the minimum over the sources is {:?}",
                brief(s),
                brief(e),
                expect,
                best
            ));
        }
        best = None;
        for x in e {
            let w = weight(&calc.calc_path_multiple_sources_and_targets(fg, s.clone(), vec![*x]));
            best = [best, w].into_iter().flatten().min();
        }
        if best != expect {
            return Err(format!(
                "from {} to {}: weight {:?}, but the minimum over the targets is {:?}",
                brief(s),
                brief(e),
                expect,
                best
            ));
        }
        t.label("split into single sources and targets");
    }
    // the free function
    let free = weight(&fast_paths::calc_path_multiple_sources_and_targets(fg, s.clone(), e.clone()));
    if free != expect {
        return Err(format!(
            "from {} to {}: weight {:?}, but {:?} without a calculator",
            brief(s),
            brief(e),
            expect,
            free
        ));
    }
    // the weights of a single source and a single target are added to that of the path
    let last = |l: &Ends| l[l.len() - 1];
    let absent = |x: (usize, usize)| (x.0, usize::MAX);
    for (x, y) in [
        (s[0], e[0]),
        (last(s), last(e)),
        (absent(s[0]), e[0]),
        (s[0], absent(e[0])),
    ] {
        let sum = weight(&calc.calc_path(fg, x.0, y.0))
            .map(|w| w as u128 + x.1 as u128 + y.1 as u128)
            .filter(|w| *w < usize::MAX as u128)
            .map(|w| w as usize);
        let with = weight(&calc.calc_path_multiple_sources_and_targets(fg, vec![x], vec![y]));
        let free = weight(&fast_paths::calc_path_multiple_sources_and_targets(fg, vec![x], vec![y]));
        if with != sum || free != sum {
            return Err(format!(
                "from {:?} to {:?}: weight {:?}, without a calculator {:?}, but {:?} is the weight of the path with both added",
                x, y, with, free, sum
            ));
        }
    }
    // single nodes
    let (a, b) = (s[0].0, e[0].0);
    let single = calc.calc_path(fg, a, b);
    let multi = calc.calc_path_multiple_sources_and_targets(fg, vec![(a, 0)], vec![(b, 0)]);
    let free = fast_paths::calc_path(fg, a, b);
    let free_multi = fast_paths::calc_path_multiple_sources_and_targets(fg, vec![(a, 0)], vec![(b, 0)]);
    let w = weight(&single);
    if weight(&multi) != w || weight(&free) != w || weight(&free_multi) != w {
        return Err(format!(
            "{} -> {}: calc_path {:?}, as lists {:?}, free functions {:?} and {:?}",
            a,
            b,
            w,
            weight(&multi),
            weight(&free),
            weight(&free_multi)
        ));
    }
    Ok(())
}
