//! C10, C11, C12: deterministic preparation, serialization.

use std::io::Write;
use std::process::{Command, Stdio};

use fast_paths::{FastGraph, FastGraph32};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen;
use crate::model::*;

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch {
    pub graphs: Vec<(G, Prep)>,
    /// used to shuffle the insertions
    pub salt: u64,
    /// also prepare them in another process
    pub process: bool,
}

impl Case for Batch {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let less = shrink_list(&self.graphs, 1)
            .into_iter()
            .map(move |graphs| Batch {
                graphs,
                ..self.clone()
            });
        let here = std::iter::once_with(move || Batch {
            process: false,
            ..self.clone()
        })
        .filter(move |_| self.process);
        let smaller = (0..self.graphs.len()).flat_map(move |i| {
            let with = move |x: (G, Prep)| {
                let mut c = self.clone();
                c.graphs[i] = x;
                c
            };
            let p = self.graphs[i]
                .1
                .shrinks()
                .into_iter()
                .map(move |p| with((self.graphs[i].0.clone(), p)));
            let g = self.graphs[i]
                .0
                .shrinks()
                .map(move |g| with((g, self.graphs[i].1.clone())));
            p.chain(g)
        });
        Box::new(less.chain(here).chain(smaller))
    }
}

fn digest(b: &[u8]) -> String {
    // FNV-1a, twice
    let mut h = [0xcbf29ce484222325u64, 0x9e3779b97f4a7c15];
    for x in b {
        h[0] = (h[0] ^ *x as u64).wrapping_mul(0x100000001b3);
        h[1] = (h[1] ^ *x as u64).wrapping_mul(0x100000001b5).rotate_left(7);
    }
    format!("{:016x}{:016x}-{}", h[0], h[1], b.len())
}

/// In the other process: digests of the prepared graphs.
pub fn digests() -> i32 {
    let batch: Batch = match serde_json::from_reader(std::io::stdin().lock()) {
        Ok(b) => b,
        Err(_) => return 2,
    };
    for (g, p) in &batch.graphs {
        match guard(|| p.build(&g.input()).map(|fg| digest(&bytes(&fg)))) {
            Ok(Ok(d)) => println!("{}", d),
            Ok(Err(e)) | Err(e) => println!("failed {}", e.replace('\n', " ")),
        }
    }
    0
}

fn elsewhere(batch: &Batch) -> Result<Vec<String>, String> {
    let mut child = ends_with_parent(Command::new(std::env::current_exe().unwrap()).arg("digests"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a child process");
    let mut stdin = child.stdin.take().unwrap();
    let _ = stdin.write_all(serde_json::to_string(batch).unwrap().as_bytes());
    drop(stdin);
    let out = child.wait_with_output().expect("waiting failed");
    let lines: Vec<String> = String::from_utf8_lossy(&out.stdout)
        .lines()
        .map(|l| l.to_string())
        .collect();
    if lines.len() != batch.graphs.len() {
        return Err(format!(
            "the other process ended early ({}): {} of {} graphs",
            out.status,
            lines.len(),
            batch.graphs.len()
        ));
    }
    Ok(lines)
}

/// The same graph, put together in another way.
fn rearranged(g: &G, salt: u64) -> G {
    let mut rng = rng_from([salt, 1, 2, 3]);
    let mut r = R(&mut rng);
    let mut adds = vec![];
    for &(a, b, w, bi) in &g.adds {
        if bi {
            match r.below(4) {
                0 => {
                    adds.push((a, b, w, false));
                    adds.push((b, a, w, false));
                }
                1 => adds.push((b, a, w, true)),
                _ => adds.push((a, b, w, true)),
            }
        } else {
            adds.push((a, b, w, false));
        }
        // parallel edges that are not cheaper
        if w > 0 && r.chance(10) {
            adds.push((a, b, w.saturating_add(r.below(3)), false));
        }
    }
    r.shuffle(&mut adds);
    G { adds }
}

pub struct C10;
impl Property for C10 {
    type C = Batch;
    const ID: &'static str = "C10";
    const SCALE: u64 = 4;
    const RULE: &'static str = "batches of random graphs with random ways of preparing them; each is prepared twice in the same thread, in another thread, from insertions in another order (bidirectional edges split or turned, parallel edges added that are not cheaper), and in another process; the serialized results must be identical byte by byte, and fresh calculators must find the same nodes for the same queries. Non-trivial: a graph with a shortcut";
    fn strata(tier: Tier) -> Vec<Stratum<Batch>> {
        fn one(r: &mut R, g: G) -> Batch {
            let prep = any_prep(r, &g.model());
            Batch {
                graphs: vec![(g, prep)],
                salt: r.u64(),
                process: false,
            }
        }
        vec![
            random("up to 12 nodes", tier.cases(60_000, 2_000_000), |r| {
                let g = gen::graph(r, 2, 12);
                one(r, g)
            }),
            random("up to 60 nodes", tier.cases(10_000, 300_000), |r| {
                let g = gen::graph(r, 10, 60);
                one(r, g)
            }),
            random("thousands of nodes", tier.cases(24, 800), |r| {
                let w = gen::weights(r);
                let n = r.range(800, 3000);
                let g = sparse_graph(r, n, w);
                Batch {
                    graphs: vec![(g, Prep::Default)],
                    salt: r.u64(),
                    process: false,
                }
            }),
            random("another process", tier.cases(400, 8_000), |r| {
                let k = r.range(5, 30);
                let mut graphs: Vec<(G, Prep)> = (0..k)
                    .map(|_| {
                        let g = gen::graph(r, 4, 40);
                        let p = any_prep(r, &g.model());
                        (g, p)
                    })
                    .collect();
                if r.chance(10) {
                    let w = gen::weights(r);
                    let g = sparse_graph(r, 1000, w);
                    graphs.push((g, Prep::Default));
                }
                Batch {
                    graphs,
                    salt: r.u64(),
                    process: true,
                }
            }),
        ]
    }
    fn check(case: &Batch, t: &mut Tally) -> Result<(), String> {
        let mut here = vec![];
        for (i, (g, p)) in case.graphs.iter().enumerate() {
            let input = g.input();
            let fg = p.build(&input)?;
            let b = bytes(&fg);
            let differ = |what: &str| Err(format!("graph {}: {} yields another result", i, what));
            if bytes(&p.build(&input)?) != b {
                return differ("preparing it again");
            }
            let again = rearranged(g, case.salt);
            if bytes(&p.build(&again.input())?) != b {
                return differ("another order of the insertions");
            }
            if g.adds.len() < 40 || case.salt % 4 == 0 {
                let other = std::thread::scope(|s| {
                    s.spawn(|| guard(|| p.build(&input).map(|fg| bytes(&fg))))
                        .join()
                        .unwrap()
                });
                if other != Ok(Ok(b.clone())) {
                    return differ("preparing it in another thread");
                }
            }
            // fresh calculators do the same
            let n = fg.get_num_nodes();
            if n > 0 {
                for j in 0..5usize {
                    let (a, c) = ((case.salt as usize / 3 + j * 7) % n, (case.salt as usize / 5 + j * 11) % n);
                    let x = fast_paths::calc_path(&fg, a, c).map(|p| p.get_nodes().clone());
                    let y = fast_paths::calc_path(&fg, a, c).map(|p| p.get_nodes().clone());
                    if x != y {
                        return Err(format!(
                            "graph {}: {} -> {}: first {:?}, then {:?}",
                            i, a, c, x, y
                        ));
                    }
                }
            }
            let shortcuts = fg.get_num_out_edges() + fg.get_num_in_edges() > g.model().edges.len();
            t.nontrivial_if(shortcuts);
            here.push(digest(&b));
        }
        if case.process {
            let there = elsewhere(case)?;
            for (i, (a, b)) in here.iter().zip(&there).enumerate() {
                if a != b {
                    return Err(format!(
                        "graph {}: preparing it in another process yields another result ({} and {})",
                        i, a, b
                    ));
                }
            }
            t.count("graphs prepared in another process", there.len());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C11, C12

/// Everything that can be seen of a prepared graph without asking for paths.
fn stats(fg: &FastGraph) -> (usize, usize, usize, Vec<usize>, Vec<(usize, usize, usize, usize)>) {
    let n = fg.get_num_nodes();
    (
        n,
        fg.get_num_out_edges(),
        fg.get_num_in_edges(),
        fast_paths::get_node_ordering(fg),
        (0..n)
            .map(|v| {
                (
                    fg.begin_out_edges(v),
                    fg.end_out_edges(v),
                    fg.begin_in_edges(v),
                    fg.end_in_edges(v),
                )
            })
            .collect(),
    )
}

fn same(what: &str, a: &FastGraph, b: &FastGraph, queries: &Queries) -> Result<(), String> {
    if stats(a) != stats(b) {
        return Err(format!("{}: number of nodes or edges, or node order, differ", what));
    }
    let mut ca = fast_paths::create_calculator(a);
    let mut cb = fast_paths::create_calculator(b);
    for (s, ts) in queries.resolve(a.get_num_nodes()) {
        for t in ts {
            let x = ca.calc_path(a, s, t);
            let y = guard(|| cb.calc_path(b, s, t))
                .map_err(|e| format!("{}: {} -> {}: {}", what, s, t, e))?;
            let f = |p: &Option<fast_paths::ShortestPath>| {
                p.as_ref().map(|p| (p.get_weight(), p.get_nodes().clone()))
            };
            if f(&x) != f(&y) {
                return Err(format!(
                    "{}: {} -> {}: {:?} before, {:?} afterwards",
                    what,
                    s,
                    t,
                    x.map(|p| p.get_weight()),
                    y.map(|p| p.get_weight())
                ));
            }
        }
    }
    if bytes(a) != bytes(b) {
        return Err(format!("{}: the serialized forms differ", what));
    }
    Ok(())
}

fn serial_case(r: &mut R, g: G, queries: Queries) -> Routing {
    let prep = any_prep(r, &g.model());
    Routing { g, prep, queries }
}

/// multiplies or replaces weights
fn reweight(r: &mut R, mut g: G, ws: &[usize]) -> G {
    for a in g.adds.iter_mut() {
        if a.2 != 0 {
            a.2 = r.pick(ws);
        }
    }
    g
}

pub struct C11;
impl Property for C11 {
    type C = Routing;
    const ID: &'static str = "C11";
    const SCALE: u64 = 2;
    const RULE: &'static str = "random graphs prepared in any way, with weights up to usize::MAX, written and read with bincode and JSON (and one after the other), and cloned; number of nodes and edges, edge ranges, node order and all answers (weights and nodes) must be the same, and writing again must yield the same bytes; also with variable length integers, in big endian, and as a JSON value; data that was cut off or lacks a field must be refused, or yield the same graph. Non-trivial: there is a shortcut";
    fn strata(tier: Tier) -> Vec<Stratum<Routing>> {
        vec![
            random("up to 12 nodes", tier.cases(60_000, 2_000_000), |r| {
                let g = gen::graph(r, 2, 12);
                serial_case(r, g, Queries::All)
            }),
            random("up to 60 nodes", tier.cases(6_000, 200_000), |r| {
                let g = gen::graph(r, 10, 60);
                serial_case(r, g, Queries::All)
            }),
            random("extreme weights", tier.cases(20_000, 500_000), |r| {
                let g = gen::graph(r, 2, 14);
                let g = reweight(
                    r,
                    g,
                    &[
                        1,
                        127,
                        128,
                        250,
                        251,
                        255,
                        256,
                        65_535,
                        65_536,
                        u32::MAX as usize - 1,
                        u32::MAX as usize,
                        u32::MAX as usize + 1,
                        1 << 53,
                        (1 << 53) + 1,
                        1 << 63,
                        usize::MAX - 1,
                        usize::MAX,
                    ],
                );
                serial_case(r, g, Queries::All)
            }),
            random("thousands of nodes", tier.cases(24, 600), |r| {
                let w = gen::weights(r);
                let n = r.range(1000, 5000);
                let g = sparse_graph(r, n, w);
                let queries = random_queries(r, n, 150);
                Routing {
                    g,
                    prep: Prep::Default,
                    queries,
                }
            }),
            random("more than 65536 nodes", tier.cases(8, 40), |r| {
                let w = gen::weights(r);
                let n = r.range(66_000, 75_000);
                let g = sparse_graph(r, n, w);
                let queries = random_queries(r, n, 60);
                Routing {
                    g,
                    prep: Prep::Default,
                    queries,
                }
            }),
        ]
    }
    fn check(case: &Routing, t: &mut Tally) -> Result<(), String> {
        let fg = case.prep.build(&case.g.input())?;
        let b = bytes(&fg);
        let from_bincode: FastGraph =
            bincode::deserialize(&b).map_err(|e| format!("bincode: {}", e))?;
        same("bincode", &fg, &from_bincode, &case.queries)?;
        let json = serde_json::to_string(&fg).map_err(|e| format!("JSON: {}", e))?;
        let from_json: FastGraph =
            serde_json::from_str(&json).map_err(|e| format!("JSON: {}", e))?;
        same("JSON", &fg, &from_json, &case.queries)?;
        let json2 = serde_json::to_string(&from_bincode).map_err(|e| format!("JSON: {}", e))?;
        if json2 != json {
            return Err("JSON after bincode differs".into());
        }
        let copy = fg.clone();
        same("clone", &fg, &copy, &case.queries)?;
        // further formats
        use bincode::Options;
        let o = bincode::options().with_big_endian();
        let varint = o.serialize(&fg).map_err(|e| format!("bincode (varint): {}", e))?;
        let back: FastGraph = o.deserialize(&varint).map_err(|e| format!("bincode (varint): {}", e))?;
        same("bincode (varint)", &fg, &back, &Queries::List(vec![(0, 1)]))?;
        if fg.get_num_nodes() < 5000 {
            let v = serde_json::to_value(&fg).map_err(|e| format!("JSON value: {}", e))?;
            let back: FastGraph = serde_json::from_value(v).map_err(|e| format!("JSON value: {}", e))?;
            same("JSON value", &fg, &back, &Queries::List(vec![(0, 1)]))?;
        }
        if case.g.adds.len() % 4 == 0 {
            incomplete("bincode", &fg, &b, &|d| bincode::deserialize(d).ok(), t)?;
            incomplete("JSON", &fg, json.as_bytes(), &|d| serde_json::from_slice(d).ok(), t)?;
        }
        label(t, &fg, case);
        Ok(())
    }
}

/// Data that has been cut off or lacks a field must be refused, or yield the same graph.
fn incomplete(
    what: &str,
    fg: &FastGraph,
    data: &[u8],
    read: &dyn Fn(&[u8]) -> Option<FastGraph>,
    t: &mut Tally,
) -> Result<(), String> {
    let mut pieces: Vec<(String, Vec<u8>)> = vec![];
    if data.len() <= 20_000 {
        let step = (data.len() / 60).max(1);
        for k in (0..data.len()).step_by(step).chain(data.len().saturating_sub(12)..data.len()) {
            pieces.push((format!("the first {} of {} bytes", k, data.len()), data[..k].to_vec()));
        }
    }
    if let Ok(serde_json::Value::Object(o)) = serde_json::from_slice::<serde_json::Value>(data) {
        for k in o.keys() {
            let mut x = o.clone();
            x.remove(k);
            pieces.push((format!("the data without {}", k), serde_json::to_vec(&x).unwrap()));
            // the first element of a list has fields, too
            if let Some(serde_json::Value::Object(e)) = o[k].get(0) {
                for f in e.keys() {
                    let mut x = o.clone();
                    x[k][0].as_object_mut().unwrap().remove(f);
                    pieces.push((format!("the data without {} of {}", f, k), serde_json::to_vec(&x).unwrap()));
                }
            }
        }
    }
    t.count("incomplete data", pieces.len());
    for (name, p) in pieces {
        let g = match guard(|| read(&p)) {
            Ok(Some(g)) => g,
            _ => continue,
        };
        if guard(|| bytes(&g)).ok() != Some(bytes(fg)) {
            return Err(format!("{}: {} were read as another graph", what, name));
        }
    }
    Ok(())
}

fn label(t: &mut Tally, fg: &FastGraph, case: &Routing) {
    let m = case.g.model();
    t.nontrivial_if(fg.get_num_out_edges() + fg.get_num_in_edges() > m.edges.len());
    t.label_if(
        fg.get_num_out_edges() > 65_536,
        "more than 65536 out edges",
    );
    t.label_if(m.n > 65_536, "more than 65536 nodes");
    t.label_if(
        m.edges.values().any(|w| *w > 1 << 53),
        "weights that a double cannot hold",
    );
}

const U32: usize = u32::MAX as usize;

pub struct C12;
impl Property for C12 {
    type C = Routing;
    const ID: &'static str = "C12";
    const SCALE: u64 = 3;
    const RULE: &'static str = "random graphs prepared in any way, with weights up to, around (2^32-2, 2^32-1, 2^32, halves and thirds of it, so that shortcuts cross the limit) and far beyond the 32 bit limit, written with serialize_32 and read with deserialize_32 (bincode, JSON, FastGraph32 itself); either this is refused loudly, or all the answers and the 64 bit serialized form are the same as before, and all the integers written are at most 2^32-1; if the weights of all the edges add up to less than 2^32-1 it must not be refused; data that was cut off or lacks a field must be refused, or yield the same graph. Non-trivial: there is a shortcut";
    fn strata(tier: Tier) -> Vec<Stratum<Routing>> {
        vec![
            random("up to 12 nodes", tier.cases(50_000, 1_500_000), |r| {
                let g = gen::graph(r, 2, 12);
                serial_case(r, g, Queries::All)
            }),
            random("around the limit", tier.cases(80_000, 2_000_000), |r| {
                let g = gen::graph(r, 2, 10);
                let near = [U32 - 2, U32 - 1, U32, U32 + 1, U32 + 2];
                let halves = [U32 / 2 - 1, U32 / 2, U32 / 2 + 1, 1, 2];
                let thirds = [U32 / 3 - 1, U32 / 3, U32 / 3 + 1, U32 / 6, 1];
                let far = [1 << 33, 1 << 40, (1 << 40) + U32, usize::MAX, usize::MAX - 1, 3];
                let mixed = [U32 - 1, 1, 2, U32 - 2, U32 / 2];
                let ws = match r.below(6) {
                    0 => near,
                    1 | 2 => halves,
                    3 => thirds,
                    4 => mixed,
                    _ => [far[r.below(6)], far[r.below(6)], 1, 2, U32],
                };
                let g = reweight(r, g, &ws);
                serial_case(r, g, Queries::All)
            }),
            random("a single large weight", tier.cases(40_000, 1_000_000), |r| {
                let mut g = {
                    let n = r.range(2, 10);
                    gen::graph_w(r, n, gen::W::Hundred)
                };
                let i = r.below(g.adds.len());
                g.adds[i].2 = r.pick(&[U32 - 200, U32 - 20, U32 - 2, U32 - 1, U32, U32 + 1, 1 << 32, usize::MAX]);
                serial_case(r, g, Queries::All)
            }),
            random("thousands of nodes", tier.cases(24, 600), |r| {
                let w = r.pick(&[gen::W::Unit, gen::W::Hundred, gen::W::Skew, gen::W::Large]);
                let n = r.range(1000, 5000);
                let g = sparse_graph(r, n, w);
                let queries = random_queries(r, n, 150);
                Routing {
                    g,
                    prep: Prep::Default,
                    queries,
                }
            }),
            random("more than 65536 nodes", tier.cases(8, 40), |r| {
                let n = r.range(66_000, 75_000);
                let g = sparse_graph(r, n, gen::W::Hundred);
                let queries = random_queries(r, n, 60);
                Routing {
                    g,
                    prep: Prep::Default,
                    queries,
                }
            }),
        ]
    }
    fn check(case: &Routing, t: &mut Tally) -> Result<(), String> {
        let fg = case.prep.build(&case.g.input())?;
        let sum: u128 = case.g.adds.iter().map(|a| a.2 as u128 * 2).sum();
        let must = sum < U32 as u128;
        let refused = |what: &str, e: String| -> Result<(), String> {
            if must {
                Err(format!("{}: refused, but all the values are small: {}", what, e))
            } else {
                Ok(())
            }
        };
        let json = guard(|| {
            let mut out = vec![];
            fast_paths::serialize_32(&fg, &mut serde_json::Serializer::new(&mut out))
                .map(|_| out)
                .map_err(|e| e.to_string())
        })
        .and_then(|r| r);
        let bin = guard(|| {
            let mut out = vec![];
            fast_paths::serialize_32(
                &fg,
                &mut bincode::Serializer::new(&mut out, bincode::options()),
            )
            .map(|_| out)
            .map_err(|e| e.to_string())
        })
        .and_then(|r| r);
        let direct = guard(|| FastGraph32::new(&fg));
        if json.is_ok() != bin.is_ok() || json.is_ok() != direct.is_ok() {
            return Err("refused in one format, but accepted in another one".into());
        }
        match json {
            Err(e) => {
                refused("JSON", e)?;
                t.label("refused");
            }
            Ok(out) => {
                let v: serde_json::Value = serde_json::from_slice(&out).map_err(|e| e.to_string())?;
                if let Some(x) = exceeds(&v) {
                    return Err(format!("{} was written, which does not fit into 32 bit", x));
                }
                let back = fast_paths::deserialize_32(&mut serde_json::Deserializer::from_slice(&out))
                    .map_err(|e| format!("JSON: {}", e))?;
                same("JSON, 32 bit", &fg, &back, &case.queries)?;
                if case.g.adds.len() % 4 == 0 {
                    let read = |d: &[u8]| fast_paths::deserialize_32(&mut serde_json::Deserializer::from_slice(d)).ok();
                    incomplete("JSON, 32 bit", &fg, &out, &read, t)?;
                }
                t.label("accepted");
                t.label_if(!must, "accepted, though the sum of the weights is beyond 32 bit");
            }
        }
        if let Ok(out) = bin {
            let mut d = bincode::Deserializer::from_slice(&out, bincode::options());
            let back = fast_paths::deserialize_32(&mut d).map_err(|e| format!("bincode: {}", e))?;
            same("bincode, 32 bit", &fg, &back, &case.queries)?;
            if case.g.adds.len() % 4 == 0 {
                let read = |d: &[u8]| {
                    fast_paths::deserialize_32(&mut bincode::Deserializer::from_slice(d, bincode::options())).ok()
                };
                incomplete("bincode, 32 bit", &fg, &out, &read, t)?;
            }
        }
        if let Ok(g32) = direct {
            // the fixed size representation takes half of the space
            let (small, large) = (
                bincode::serialized_size(&g32).map_err(|e| e.to_string())?,
                bincode::serialized_size(&fg).map_err(|e| e.to_string())?,
            );
            if small > large / 2 + 64 {
                return Err(format!(
                    "the 32 bit representation takes {} bytes, the 64 bit one {}",
                    small, large
                ));
            }
            let back = g32.convert_to_usize();
            same("FastGraph32", &fg, &back, &Queries::List(vec![(0, 1)]))?;
        }
        label(t, &fg, case);
        Ok(())
    }
}

/// An integer that does not fit into 32 bit.
fn exceeds(v: &serde_json::Value) -> Option<String> {
    match v {
        serde_json::Value::Number(n) => match n.as_u64() {
            Some(x) if x <= u32::MAX as u64 => None,
            _ => Some(n.to_string()),
        },
        serde_json::Value::Array(a) => a.iter().find_map(exceeds),
        serde_json::Value::Object(o) => o.values().find_map(exceeds),
        _ => None,
    }
}
