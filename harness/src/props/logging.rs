//! C27: logging changes nothing, and nothing is printed.

use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Mutex, Once};

use fast_paths::{deserialize_32, serialize_32, FastGraph, InputGraph, PathCalculator};
use log::LevelFilter;
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen;
use crate::model::*;
use crate::props::files::{arcs, edges_of, mutated, calls};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Logged {
    pub g: G,
    pub prep: Prep,
    pub again: G,
    /// the content of a file, and whether it is read as DIMACS
    pub file: Vec<u8>,
    pub dimacs: bool,
    pub order: Vec<usize>,
    pub queries: Vec<(usize, usize)>,
}

impl Case for Logged {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let mut v = vec![];
        if !self.file.is_empty() {
            v.push(Logged {
                file: vec![],
                ..self.clone()
            });
        }
        if !self.again.adds.is_empty() {
            v.push(Logged {
                again: G { adds: vec![] },
                ..self.clone()
            });
        }
        let q = shrink_list(&self.queries, 0).into_iter().map(move |queries| Logged {
            queries,
            ..self.clone()
        });
        let p = self.prep.shrinks().into_iter().map(move |prep| Logged {
            prep,
            ..self.clone()
        });
        let g = self.g.shrinks().map(move |g| Logged { g, ..self.clone() });
        Box::new(v.into_iter().chain(p).chain(q).chain(g))
    }
}

thread_local! {
    static SEEN: RefCell<String> = const { RefCell::new(String::new()) };
    static RECORDS: Cell<usize> = const { Cell::new(0) };
}

/// Formats whatever it gets, as a logger of an application would do.
struct Recorder;

impl log::Log for Recorder {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            s.clear();
            let _ = write!(s, "{} {} {}", r.level(), r.target(), r.args());
        });
        RECORDS.with(|n| n.set(n.get() + 1));
    }
    fn flush(&self) {}
}

static RECORDER: Recorder = Recorder;
static INSTALL: Once = Once::new();
/// the level is one for the whole process
static ALONE: Mutex<()> = Mutex::new(());

const LEVELS: [LevelFilter; 5] = [
    LevelFilter::Trace,
    LevelFilter::Debug,
    LevelFilter::Info,
    LevelFilter::Warn,
    LevelFilter::Error,
];

/// Everything that can be observed.
#[derive(PartialEq, Debug, Default)]
struct Seen {
    returned: Vec<String>,
    graphs: Vec<(usize, Vec<(usize, usize, usize)>)>,
    prepared: Vec<Vec<u8>>,
    orders: Vec<Vec<usize>>,
    paths: Vec<Option<(usize, Vec<usize>)>>,
}

impl Seen {
    fn difference(&self, other: &Seen) -> Option<&'static str> {
        [
            (self.returned != other.returned, "what calls returned"),
            (self.graphs != other.graphs, "the input graph"),
            (self.orders != other.orders, "the node ordering"),
            (self.prepared != other.prepared, "the prepared graph"),
            (self.paths != other.paths, "the answers"),
        ]
        .iter()
        .find(|x| x.0)
        .map(|x| x.1)
    }
}

/// The rest of the interface, in few words.
fn others(fg: &FastGraph, input: &InputGraph, queries: &[(usize, usize)]) -> String {
    let n = fg.get_num_nodes();
    let mut words = format!("{} {} ", fg.get_num_out_edges(), fg.get_num_in_edges());
    words += &serde_json::to_string(input).unwrap();
    let twin = fg.clone();
    let mut narrow = vec![];
    let mut s = bincode::Serializer::new(&mut narrow, bincode::options());
    if let Ok(Ok(())) = guard(|| serialize_32(fg, &mut s).map_err(|e| e.to_string())) {
        let mut d = bincode::Deserializer::from_slice(&narrow, bincode::options());
        let back: Result<FastGraph, _> = deserialize_32(&mut d);
        let _ = write!(words, " {:?} {:?}", narrow, back.ok().map(|f| bytes(&f)));
    }
    let mut calc = PathCalculator::new(n);
    for w in queries.chunks(3).take(4) {
        // one beyond the end is refused
        let ends: Vec<_> = w.iter().map(|q| (q.1 % (n + (q.0 % 9 == 0) as usize).max(1), q.1 % 7)).collect();
        let starts: Vec<_> = w.iter().map(|q| (q.0 % n.max(1), q.0 % 5)).collect();
        for k in 0..4 {
            let (s, e) = (starts.clone(), ends.clone());
            let p = guard(|| match k {
                0 => calc.calc_path_multiple_sources_and_targets(&twin, s, e),
                1 => fast_paths::calc_path_multiple_sources_and_targets(fg, s, e),
                2 => fast_paths::calc_path(fg, s[0].0, e[0].0),
                _ => calc.calc_path(&twin, s[0].0, e[0].0),
            });
            let p = p.map(|p| p.map(|p| (p.get_weight(), p.get_nodes().clone())));
            let _ = write!(words, " {:?}", p.ok());
        }
    }
    words
}

fn run(case: &Logged, path: &str) -> Seen {
    let mut seen = Seen::default();
    let add = |input: &mut InputGraph, g: &G, seen: &mut Seen| {
        for a in &g.adds {
            let r = guard(|| {
                if a.3 {
                    input.add_edge_bidir(a.0, a.1, a.2)
                } else {
                    input.add_edge(a.0, a.1, a.2)
                }
            });
            seen.returned.push(format!("{:?}", r.ok()));
        }
    };
    let mut input = InputGraph::new();
    add(&mut input, &case.g, &mut seen);
    seen.returned.push(format!("{:?}", guard(|| input.get_edges().len()).ok()));
    for round in 0..2 {
        input.freeze();
        // not allowed
        seen.returned.push(format!("{:?}", guard(|| input.add_edge(0, 1, 1)).ok()));
        seen.graphs.push((input.get_num_nodes(), edges_of(&input)));
        let fg = guard(|| case.prep.build(&input));
        if let Ok(Ok(fg)) = &fg {
            seen.prepared.push(bytes(fg));
            seen.orders.push(fast_paths::get_node_ordering(fg));
            seen.returned.push(others(fg, &input, &case.queries));
            let mut calc = fast_paths::create_calculator(fg);
            let n = fg.get_num_nodes();
            for (s, t) in &case.queries {
                let p = guard(|| calc.calc_path(fg, s % (n + 1), t % (n + 1)));
                match p {
                    Ok(p) => seen.paths.push(p.map(|p| (p.get_weight(), p.get_nodes().clone()))),
                    Err(_) => seen.returned.push("refused query".into()),
                }
            }
        } else {
            seen.returned.push("not prepared".into());
        }
        let r = guard(|| fast_paths::prepare_with_order(&input, &case.order).map(|f| bytes(&f)));
        seen.returned.push(match r {
            Ok(Ok(b)) => {
                seen.prepared.push(b);
                "prepared with the order".into()
            }
            Ok(Err(e)) => e,
            Err(_) => "refused order".into(),
        });
        if round == 0 {
            // freezing twice is not allowed, thawing twice is
            seen.returned.push(format!("{:?}", guard(|| input.freeze()).is_err()));
            for _ in 0..1 + case.again.adds.len() % 2 {
                input.thaw();
            }
            seen.returned.push(format!("{:?}", guard(|| input.get_num_edges()).ok()));
            add(&mut input, &case.again, &mut seen);
        }
    }
    if !case.file.is_empty() {
        std::fs::write(path, &case.file).unwrap();
        let r = guard(|| {
            if case.dimacs {
                InputGraph::from_dimacs_file(path)
            } else {
                InputGraph::from_file(path)
            }
        });
        match r {
            Ok(g) => seen.graphs.push((g.get_num_nodes(), edges_of(&g))),
            Err(_) => seen.returned.push("refused file".into()),
        }
        let r = guard(|| {
            if case.dimacs {
                input.to_dimacs_file(path).is_ok()
            } else {
                input.to_file(path).is_ok()
            }
        });
        seen.returned.push(format!("{:?} {:?}", r.ok(), std::fs::read(path).ok()));
    }
    seen
}

pub struct C27;
impl Property for C27 {
    type C = Logged;
    const ID: &'static str = "C27";
    const RULE: &'static str = "random input histories (loops, zero weights, duplicates, calls that are not allowed), preparations in any way (also with refused orders), queries (also refused ones), files (also malformed ones) and writing files, run with logging off and at each of the five levels with a logger that formats every record: all returned values, edges, orderings, serialized graphs and paths must be identical; meanwhile nothing may be written to the standard output and error streams (a stand-in for the system call watches). Non-trivial: records were formatted, and there were answers";
    const ASSUMPTIONS: &'static [&'static str] = &["the logger uses the interface of the log crate"];
    fn strata(tier: Tier) -> Vec<Stratum<Logged>> {
        fn case(r: &mut R, g: G) -> Logged {
            let m = g.model();
            let prep = if m.n <= 60 { any_prep(r, &m) } else { calm_prep(r, &g) };
            let again = if r.chance(60) { gen::graph(r, 2, 8) } else { G { adds: vec![] } };
            let dimacs = r.chance(50);
            let file = if r.chance(60) {
                let len = r.below(8);
                let lines = arcs(r, 6, len);
                let mut b = mutated(r, &lines, dimacs);
                if dimacs {
                    b.splice(0..0, format!("p sp 6 {}\n", len).bytes());
                }
                b
            } else {
                vec![]
            };
            let mut order = match &prep {
                Prep::Order(o, _) if m.n > 60 => o.clone(),
                _ if m.n > 60 => vec![],
                _ => gen::order(r, &m),
            };
            if r.chance(40) && !order.is_empty() {
                let at = r.below(order.len());
                match r.below(3) {
                    0 => order[at] = r.pick(&[0, m.n, usize::MAX]),
                    1 => {
                        order.remove(at);
                    }
                    _ => order.push(r.below(m.n + 1)),
                }
            }
            let queries = (0..r.below(30)).map(|_| (r.below(1000), r.below(1000))).collect();
            Logged {
                g,
                prep,
                again,
                file,
                dimacs,
                order,
                queries,
            }
        }
        vec![
            random("up to 12 nodes", tier.cases(6_000, 500_000), |r| {
                let g = gen::graph(r, 2, 12);
                case(r, g)
            }),
            random("up to 60 nodes", tier.cases(300, 40_000), |r| {
                let g = gen::graph(r, 10, 60);
                case(r, g)
            }),
            random("hundreds of nodes", tier.cases(16, 600), |r| {
                let w = gen::weights(r);
                let n = r.range(100, 1000);
                let g = sparse_graph(r, n, w);
                case(r, g)
            }),
        ]
    }
    fn check(case: &Logged, t: &mut Tally) -> Result<(), String> {
        INSTALL.call_once(|| log::set_logger(&RECORDER).expect("there is a logger already"));
        let path = scratch_file("logged");
        let path = path.to_str().unwrap();
        let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        let at = |level: LevelFilter| {
            RECORDS.with(|n| n.set(0));
            log::set_max_level(level);
            calls::watch(true);
            let seen = guard(|| run(case, path));
            // what has been buffered
            let _ = std::io::stdout().flush();
            let printed = calls::watch(false);
            log::set_max_level(LevelFilter::Off);
            if printed > 0 {
                return Err(format!("{} bytes were printed (log level {})", printed, level));
            }
            seen.map(|s| (s, RECORDS.with(|n| n.get())))
        };
        let (quiet, none) = at(LevelFilter::Off)?;
        assert_eq!(none, 0);
        for level in LEVELS {
            let (seen, records) = at(level)?;
            if let Some(what) = quiet.difference(&seen) {
                return Err(format!("with the log level {}, {} differ from those without logging", level, what));
            }
            t.count("records", records);
            t.nontrivial_if(records > 0 && !quiet.paths.is_empty());
        }
        t.label_if(!case.file.is_empty(), "files");
        Ok(())
    }
}
