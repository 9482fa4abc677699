//! C26: memory is used in proportion to the data, and released.

use fast_paths::{FastGraph, InputGraph};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen::{self, W};
use crate::memory::{live, measure};
use crate::model::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Q {
    Path(usize, usize),
    Multi(Vec<(usize, usize)>, Vec<(usize, usize)>),
    /// refused
    Bad(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Space {
    pub g: G,
    pub prep: Prep,
    pub queries: Vec<Q>,
    /// also the queries between all pairs of nodes
    pub all: bool,
    /// also through files
    pub files: bool,
    /// so many rounds of thawing, adding edges again and freezing
    pub thaw: usize,
}

impl Case for Space {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let mut v = vec![];
        if self.files {
            v.push(Space {
                files: false,
                ..self.clone()
            });
        }
        if self.thaw > 0 {
            v.push(Space {
                thaw: self.thaw / 2,
                ..self.clone()
            });
        }
        if self.all {
            v.push(Space {
                all: false,
                ..self.clone()
            });
        }
        let q = shrink_list(&self.queries, 0).into_iter().map(move |queries| Space {
            queries,
            ..self.clone()
        });
        let p = self.prep.shrinks().into_iter().map(move |prep| Space {
            prep,
            ..self.clone()
        });
        let g = self.g.shrinks().map(move |g| Space { g, ..self.clone() });
        Box::new(v.into_iter().chain(p).chain(q).chain(g))
    }
}

/// so many bytes per node, per edge, and altogether
const INPUT: (usize, usize, usize) = (0, 200, 2000);
const GRAPH: (usize, usize, usize) = (150, 300, 8000);
const PREPARING: (usize, usize, usize) = (1000, 700, 40_000);
const CALCULATOR: (usize, usize, usize) = (400, 0, 4000);
const ANSWERING: (usize, usize, usize) = (200, 100, 10_000);

fn within(what: &str, used: isize, n: usize, e: usize, b: (usize, usize, usize)) -> Result<(), String> {
    let bound = b.0 * n + b.1 * e + b.2;
    if used > bound as isize {
        return Err(format!(
            "{} takes {} bytes, which is too much for {} nodes and {} edges (bound {})",
            what, used, n, e, bound
        ));
    }
    Ok(())
}

fn answer(fg: &FastGraph, calc: &mut fast_paths::PathCalculator, case: &Space) -> usize {
    let n = fg.get_num_nodes();
    let mut found = 0;
    for q in &case.queries {
        match q {
            Q::Path(s, t) => {
                found += calc.calc_path(fg, s % n, t % n).is_some() as usize;
            }
            Q::Multi(s, t) => {
                let m = |l: &Vec<(usize, usize)>| l.iter().map(|x| (x.0 % n, x.1)).collect();
                found += calc.calc_path_multiple_sources_and_targets(fg, m(s), m(t)).is_some() as usize;
            }
            Q::Bad(k) => {
                let _ = guard(|| calc.calc_path(fg, n + k, 0));
            }
        }
    }
    if case.all {
        for s in 0..n {
            for t in 0..n {
                found += calc.calc_path(fg, s, t).is_some() as usize;
            }
        }
    }
    found
}

/// Everything that can be done with the graph.
fn everything(case: &Space, path: &str) -> Result<(), String> {
    let input = case.g.input();
    let fg = case.prep.build(&input)?;
    let o = fast_paths::get_node_ordering(&fg);
    let other = fast_paths::prepare_with_order(&input, &o)?;
    // refused orders
    if !o.is_empty() {
        let _ = fast_paths::prepare_with_order(&input, &o[1..]);
        let mut p = o.clone();
        p[0] = p[p.len() - 1];
        let _ = fast_paths::prepare_with_order(&input, &p);
    }
    for fg in [&fg, &other] {
        let mut calc = fast_paths::create_calculator(fg);
        let few = Space {
            all: false,
            ..case.clone()
        };
        answer(fg, &mut calc, &few);
        if let Some(q) = fast_paths::calc_path(fg, 0, fg.get_num_nodes() - 1) {
            let _ = q.clone() == q;
        }
    }
    let b = bytes(&fg);
    let back: FastGraph = bincode::deserialize(&b).map_err(|e| e.to_string())?;
    let _ = bincode::deserialize::<FastGraph>(&b[..b.len() / 2]);
    let j = serde_json::to_string(&input).map_err(|e| e.to_string())?;
    let mut again: InputGraph = serde_json::from_str(&j).map_err(|e| e.to_string())?;
    let _ = guard(|| again.add_edge(0, 1, 1));
    again.thaw();
    again.add_edge(0, 1, 1);
    let _ = guard(|| again.get_edges().len());
    again.freeze();
    drop(back);
    if case.files {
        input.to_file(path).map_err(|e| e.to_string())?;
        guard(|| InputGraph::from_file(path))?;
        input.to_dimacs_file(path).map_err(|e| e.to_string())?;
        guard(|| InputGraph::from_dimacs_file(path))?;
        std::fs::write(path, "p sp 3 2\na 1 2 3\na 1 9 3\n").unwrap();
        if guard(|| InputGraph::from_dimacs_file(path)).is_ok() {
            return Err("an invalid file was accepted".into());
        }
    }
    Ok(())
}

fn open_files(path: &str) -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| {
        d.filter_map(|e| std::fs::read_link(e.ok()?.path()).ok())
            .filter(|p| p.to_str().map_or(false, |p| p.starts_with(path)))
            .count()
    })
}

fn queries(r: &mut R, n: usize, count: usize) -> Vec<Q> {
    (0..count)
        .map(|_| match r.below(20) {
            0 => Q::Bad(r.pick(&[0, 1, 100, usize::MAX - n])),
            1..=4 => Q::Multi(gen::endpoints(r, n, 6, false), gen::endpoints(r, n, 6, false)),
            _ => Q::Path(r.below(n), r.below(n)),
        })
        .collect()
}

pub struct C26;
impl Property for C26 {
    type C = Space;
    const ID: &'static str = "C26";
    const SCALE: u64 = 2;
    const RULE: &'static str = "random graphs prepared in any way, with all pairs of queries and further ones (several sources and targets, refused ones), and graphs with repeated thawing, adding and freezing; a counting allocator measures what the thread of the test has allocated. Bounds linear in nodes and edges (several times of what is needed) for the input graph, the prepared graph, the peak while preparing, a calculator before, while and after answering (never depending on the number of queries); repeating the same queries with a calculator, or everything that can be done with a graph (also refused operations), must not grow the memory by a single byte; and no file stays open. Non-trivial: at least 1000 queries were answered, or there were at least 50 rounds, or files";
    const ASSUMPTIONS: &'static [&'static str] = &["the library allocates by means of Rust's global allocator on the thread of the caller"];
    fn strata(tier: Tier) -> Vec<Stratum<Space>> {
        vec![
            random("all pairs", tier.cases(250, 5_000), |r| {
                let w = gen::weights(r);
                let n = r.range(100, 220);
                let g = if r.chance(70) { sparse_graph(r, n, w) } else { gen::graph(r, 60, 120) };
                let m = g.model();
                let prep = any_prep(r, &m);
                Space {
                    queries: queries(r, m.n, 300),
                    prep,
                    g,
                    all: true,
                    files: false,
                    thaw: 0,
                }
            }),
            random("everything", tier.cases(2500, 50_000), |r| {
                let g = gen::graph(r, 2, 40);
                let m = g.model();
                let prep = any_prep(r, &m);
                Space {
                    queries: queries(r, m.n, 20),
                    prep,
                    g,
                    all: false,
                    files: r.chance(30),
                    thaw: 0,
                }
            }),
            random("rounds", tier.cases(1000, 20_000), |r| Space {
                g: gen::graph(r, 2, 40),
                prep: Prep::Default,
                queries: vec![],
                all: false,
                files: false,
                thaw: r.range(50, 200),
            }),
            random("large", tier.cases(40, 800), |r| {
                let n = r.range(1500, 6000);
                let g = sparse_graph(r, n, W::Hundred);
                let m = g.model();
                Space {
                    queries: queries(r, m.n, 1500),
                    prep: Prep::Default,
                    g,
                    all: false,
                    files: false,
                    thaw: 0,
                }
            }),
        ]
    }

    fn check(case: &Space, t: &mut Tally) -> Result<(), String> {
        if case.g.edges().1.is_empty() {
            return Ok(());
        }
        let adds: usize = case.g.adds.iter().map(|a| 1 + a.3 as usize).sum();
        if case.thaw > 0 {
            let mut input = case.g.input();
            let n = input.get_num_nodes();
            let adds = 2 * adds;
            let start = live();
            for k in 0..case.thaw {
                input.thaw();
                for (i, a) in case.g.adds.iter().enumerate() {
                    // the edges that there are, and sometimes more expensive ones
                    let w = a.2 + (i + k) % 2;
                    if a.3 {
                        input.add_edge_bidir(a.0, a.1, w);
                    } else {
                        input.add_edge(a.0, a.1, w);
                    }
                }
                input.freeze();
                within("a graph that was thawed repeatedly", live() - start, n, adds, INPUT)?;
            }
            t.nontrivial_if(case.thaw >= 50);
            t.count("rounds", case.thaw);
            return Ok(());
        }
        let start = live();
        let (used, peak, input) = measure(|| case.g.input());
        let n = input.get_num_nodes();
        within("the input graph", used, n, adds, INPUT)?;
        within("freezing the input graph", peak, n, adds, INPUT)?;
        let (used, peak, fg) = measure(|| case.prep.build(&input));
        let fg = fg?;
        let e = fg.get_num_in_edges() + fg.get_num_out_edges();
        within("the prepared graph", used, n, e, GRAPH)?;
        within("preparing the graph", peak, n, e + adds, PREPARING)?;
        let (used, peak, mut calc) = measure(|| fast_paths::create_calculator(&fg));
        within("the calculator", used, n, e, CALCULATOR)?;
        within("creating the calculator", peak, n, e, CALCULATOR)?;
        let lists: usize = case
            .queries
            .iter()
            .map(|q| match q {
                Q::Multi(s, t) => s.len() + t.len(),
                _ => 2,
            })
            .max()
            .unwrap_or(2);
        let (grown, peak, found) = measure(|| answer(&fg, &mut calc, case));
        within("answering queries", peak, n, e + lists, ANSWERING)?;
        within("the calculator after queries", grown, n, e + lists, ANSWERING)?;
        // the same queries again
        for _ in 0..2 {
            let (more, _, again) = measure(|| answer(&fg, &mut calc, case));
            if more > 0 {
                return Err(format!("the same queries again grew the calculator by {} bytes", more));
            }
            if again != found {
                return Err("the same queries again had other answers".into());
            }
        }
        drop(calc);
        drop(fg);
        drop(input);
        let left = live() - start;
        if left > 0 {
            return Err(format!("{} bytes were not released", left));
        }
        t.count("queries", case.queries.len() + if case.all { n * n } else { 0 });
        t.nontrivial_if(case.queries.len() >= 1000 || case.all && n * n >= 1000);
        // whatever it is, nothing of it stays
        if n <= 60 {
            let path = scratch_file("handles");
            let path = path.to_str().unwrap();
            everything(case, path)?;
            everything(case, path)?;
            let before = live();
            for _ in 0..3 {
                everything(case, path)?;
            }
            if live() > before {
                return Err(format!("using the graph three more times has left {} bytes in use", live() - before));
            }
            if case.files {
                let open = open_files(path);
                if open > 0 {
                    return Err(format!("{} files are still open", open));
                }
                t.label("files");
            }
            t.nontrivial_if(case.files);
            t.label("everything repeatedly");
        }
        Ok(())
    }
}
