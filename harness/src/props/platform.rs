//! C22: the library on a 32 bit platform (wasm32-unknown-unknown, run by node).

use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};

use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen;
use crate::model::*;
use crate::props::multi::{modulo, Ends};

#[path = "../../../wasm/src/proto.rs"]
mod proto;
use proto::*;

const U32: usize = u32::MAX as usize;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Platform {
    pub g: G,
    pub prep: Prep,
    /// prepared on the 32 bit platform, or here and transferred
    pub there: bool,
    pub again: bool,
    pub queries: Queries,
    pub multi: Vec<(Ends, Ends)>,
}

impl Case for Platform {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let a = if self.again {
            vec![Platform {
                again: false,
                ..self.clone()
            }]
        } else {
            vec![]
        };
        let m = shrink_list(&self.multi, 0)
            .into_iter()
            .map(move |multi| Platform {
                multi,
                ..self.clone()
            });
        let p = self.prep.shrinks().into_iter().map(move |prep| Platform {
            prep,
            ..self.clone()
        });
        let g = self.g.shrinks().map(move |g| Platform { g, ..self.clone() });
        Box::new(a.into_iter().chain(m).chain(p).chain(g))
    }
}

/// node, which runs the module.
struct Server {
    child: Child,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

fn module() -> PathBuf {
    verif_dir().join("target/wasm/wasm32-unknown-unknown/release/fpwasm.wasm")
}

/// The machinery failed, which says nothing about the property.
fn broken(what: &str) -> ! {
    eprintln!("error: the 32 bit platform cannot be used: {}", what);
    std::process::exit(2)
}

fn ask(r: &Request) -> Result<Response, String> {
    let content = bincode::serialize(r).unwrap();
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            if !module().exists() {
                broken("the module has not been built");
            }
            match ends_with_parent(&mut Command::new("node"))
                .arg("--stack-size=900")
                .arg(verif_dir().join("wasm/server.js"))
                .arg(module())
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
            {
                Ok(child) => *s = Some(Server { child }),
                Err(e) => broken(&format!("cannot start node: {}", e)),
            }
        }
        let child = &mut s.as_mut().unwrap().child;
        let io = (|| -> std::io::Result<(u8, Vec<u8>)> {
            let stdin = child.stdin.as_mut().unwrap();
            stdin.write_all(&(content.len() as u32).to_le_bytes())?;
            stdin.write_all(&content)?;
            stdin.flush()?;
            let stdout = child.stdout.as_mut().unwrap();
            let mut head = [0u8; 5];
            stdout.read_exact(&mut head)?;
            let len = u32::from_le_bytes([head[1], head[2], head[3], head[4]]) as usize;
            let mut b = vec![0u8; len];
            stdout.read_exact(&mut b)?;
            Ok((head[0], b))
        })();
        match io {
            Err(e) => broken(&format!("node ended: {}", e)),
            Ok((0, b)) => match bincode::deserialize(&b) {
                Ok(r) => Ok(r),
                Err(e) => broken(&format!("unreadable response: {}", e)),
            },
            Ok((_, b)) => Err(String::from_utf8_lossy(&b).into_owned()),
        }
    })
}

fn narrow(w: usize) -> u32 {
    w.min(U32) as u32
}

fn check_one(
    what: &dyn Fn() -> String,
    m: &Model,
    expected: u128,
    got: &Option<Answer>,
    sources: &[(usize, usize)],
    targets: &[(usize, usize)],
) -> Result<(), String> {
    let a = match got {
        None if expected < U32 as u128 => {
            return Err(format!("{}: no path found, but there is one of weight {}", what(), expected))
        }
        None => return Ok(()),
        Some(a) => a,
    };
    let nodes: Vec<usize> = a.nodes.iter().map(|v| *v as usize).collect();
    let fail = |e: String| {
        Err(format!(
            "{}: {} (weight {}, nodes {})",
            what(),
            e,
            a.weight,
            short(&nodes)
        ))
    };
    if expected >= U32 as u128 {
        return fail("there is no path whose weight can be represented".into());
    }
    if a.weight as u128 != expected {
        return fail(format!("the shortest path has weight {}", expected));
    }
    let sum = match walk_weight(m, &nodes) {
        Ok(s) => s,
        Err(e) => return fail(e),
    };
    let (first, last) = (nodes[0], nodes[nodes.len() - 1]);
    if (a.source as usize, a.target as usize) != (first, last) {
        return fail(format!("source {} and target {}", a.source, a.target));
    }
    let s = sources.iter().filter(|s| s.0 == first).map(|s| s.1).min();
    let t = targets.iter().filter(|t| t.0 == last).map(|t| t.1).min();
    match (s, t) {
        (Some(s), Some(t)) if sum + s as u128 + t as u128 == expected => Ok(()),
        (Some(_), Some(_)) => fail(format!("the nodes add up to weight {}", sum)),
        _ => fail("does not connect the given nodes".into()),
    }
}

pub struct C22;
impl Property for C22 {
    type C = Platform;
    const ID: &'static str = "C22";
    const SCALE: u64 = 3;
    const RULE: &'static str = "random graphs on a build of the library for wasm32-unknown-unknown, run by node: prepared on the 64 bit host in any way and transferred with serialize_32, or prepared there in any way, optionally written and read again there (64 and 32 bit format); weights up to 2^32-1, also around it and its halves and thirds; all pairs and lists of weighted sources and targets are compared with the reference in 128 bit: an answer exists exactly if the optimum is below 2^32-1, has that weight, and its nodes are a genuine path. Non-trivial: there is a shortcut, and some path has at least two hops";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "wasm32 stands for all the 32 bit platforms",
        "rustc, its standard library and node run WebAssembly correctly",
    ];
    fn strata(tier: Tier) -> Vec<Stratum<Platform>> {
        fn case(r: &mut R, mut g: G, limit: usize) -> Platform {
            for a in g.adds.iter_mut() {
                a.2 = a.2.min(limit);
            }
            let m = g.model();
            let prep = any_prep(r, &m);
            let multi = (0..r.range(0, 4))
                .map(|_| {
                    let e = |r: &mut R| -> Ends {
                        gen::endpoints(r, m.n, 5, true)
                            .into_iter()
                            .map(|x| (x.0, x.1.min(U32)))
                            .collect()
                    };
                    (e(r), e(r))
                })
                .collect();
            Platform {
                g,
                prep,
                there: r.chance(50),
                again: r.chance(30),
                queries: Queries::All,
                multi,
            }
        }
        vec![
            random("up to 10 nodes", tier.cases(60_000, 1_500_000), |r| {
                let g = gen::graph(r, 2, 10);
                case(r, g, U32 - 1)
            }),
            random("up to 50 nodes", tier.cases(8_000, 200_000), |r| {
                let g = gen::graph(r, 10, 50);
                case(r, g, U32 - 1)
            }),
            random("around the limit", tier.cases(60_000, 1_500_000), |r| {
                let mut g = gen::graph(r, 2, 10);
                let ws = match r.below(5) {
                    0 => [U32 / 2 - 1, U32 / 2, U32 / 2 + 1, 1, 2],
                    1 => [U32 / 3 - 1, U32 / 3, U32 / 3 + 1, U32 / 6, 1],
                    2 => [U32 - 1, U32 - 2, 1, 2, 3],
                    3 => [1 << 31, (1 << 31) - 1, (1 << 31) + 1, 1 << 30, 1],
                    // the largest weight stands for "no connection" there
                    _ => [U32, U32 - 1, 1, 2, U32 - 2],
                };
                for a in g.adds.iter_mut() {
                    if a.2 != 0 {
                        a.2 = r.pick(&ws);
                    }
                }
                case(r, g, U32)
            }),
            random("hundreds of nodes", tier.cases(160, 4_000), |r| {
                let w = r.pick(&[gen::W::Unit, gen::W::Hundred, gen::W::Skew, gen::W::Large]);
                let n = r.range(100, 1000);
                let g = sparse_graph(r, n, w);
                let mut c = case(r, g, U32 - 1);
                c.prep = Prep::Default;
                c.queries = random_queries(r, n, 400);
                c
            }),
            random("more than 65536 nodes", tier.cases(8, 40), |r| {
                let n = r.range(66_000, 70_000);
                let g = sparse_graph(r, n, gen::W::Hundred);
                let mut c = case(r, g, U32 - 1);
                c.prep = Prep::Default;
                c.queries = random_queries(r, n, 60);
                c
            }),
        ]
    }
    fn check(case: &Platform, t: &mut Tally) -> Result<(), String> {
        let m = case.g.model();
        if m.n == 0 {
            return Ok(());
        }
        let origin = if case.there {
            let how = match &case.prep {
                Prep::Default => How::Default,
                Prep::Params(p) => How::Params(
                    p.depth,
                    p.quotient,
                    narrow(p.initial),
                    narrow(p.neighbor),
                    narrow(p.contraction),
                ),
                Prep::Order(o, l) => How::Order(
                    as_order(o, m.n).into_iter().map(|v| v as u32).collect(),
                    l.map(narrow),
                ),
            };
            let adds = case
                .g
                .adds
                .iter()
                .map(|a| (a.0 as u32, a.1 as u32, narrow(a.2), a.3))
                .collect();
            Origin::Here(adds, how)
        } else {
            let fg = guard(|| case.prep.build(&case.g.input()))??;
            let written = guard(|| {
                let mut out = vec![];
                fast_paths::serialize_32(
                    &fg,
                    &mut bincode::Serializer::new(
                        &mut out,
                        bincode::config::Options::with_fixint_encoding(bincode::options()),
                    ),
                )
                .map(|_| out)
                .map_err(|e| e.to_string())
            })
            .and_then(|r| r);
            match written {
                Ok(b) => Origin::Written(b),
                Err(e) => {
                    let sum: u128 = case.g.adds.iter().map(|a| a.2 as u128 * 2).sum();
                    if sum < U32 as u128 {
                        return Err(format!("refused, but all the values are small: {}", e));
                    }
                    t.label("refused by serialize_32");
                    return Ok(());
                }
            }
        };
        let queries = case.queries.resolve(m.n);
        let pairs: Vec<(u32, u32)> = queries
            .iter()
            .flat_map(|(s, ts)| ts.iter().map(move |v| (*s as u32, *v as u32)))
            .collect();
        let lists: Vec<(Ends, Ends)> = case
            .multi
            .iter()
            .map(|(s, e)| (modulo(s, m.n), modulo(e, m.n)))
            .collect();
        let small = |l: &Ends| -> Vec<(u32, u32)> {
            l.iter().map(|x| (x.0 as u32, narrow(x.1))).collect()
        };
        let request = Request {
            origin,
            again: case.again,
            pairs,
            lists: lists.iter().map(|(s, e)| (small(s), small(e))).collect(),
        };
        let r = ask(&request).map_err(|e| format!("trapped: {}", e))?;
        if r.nodes as usize != m.n {
            return Err(format!("{} nodes instead of {}", r.nodes, m.n));
        }
        if let (Prep::Order(o, _), order) = (&case.prep, &r.order) {
            let o: Vec<u32> = as_order(o, m.n).into_iter().map(|v| v as u32).collect();
            if &o != order {
                return Err(format!("prepared with order {:?}, but reports {:?}", o, order));
            }
        }
        let mut answers = r.pairs.iter();
        let mut hops = 0;
        for (s, ts) in &queries {
            let d = m.dist_from(*s);
            for v in ts {
                let got = answers.next().ok_or("answers are missing")?;
                check_one(&|| format!("{} -> {}", s, v), &m, d[*v], got, &[(*s, 0)], &[(*v, 0)])?;
                hops = hops.max(got.as_ref().map_or(0, |a| a.nodes.len() - 1));
                t.label_if(d[*v] != INF && d[*v] >= U32 as u128, "pairs whose distance is beyond 32 bit");
            }
        }
        for ((s, e), got) in lists.iter().zip(&r.lists) {
            let usable = |l: &Ends| -> Ends { l.iter().filter(|x| x.1 < U32).cloned().collect() };
            let (us, ue) = (usable(s), usable(e));
            let expected = multi_expected(&m, &us, &ue);
            check_one(&|| format!("from {:?} to {:?}", s, e), &m, expected, got, &us, &ue)?;
        }
        t.label(if case.there { "prepared there" } else { "transferred" });
        t.label_if(case.again, "written and read there");
        t.label_if(m.n > 65_536, "more than 65536 nodes");
        t.nontrivial_if(hops > 1 && (r.out_edges + r.in_edges) as usize > m.edges.len());
        Ok(())
    }
}
