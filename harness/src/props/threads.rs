//! C19: sharing a prepared graph between threads.

use std::marker::PhantomData;
use std::sync::Barrier;

use fast_paths::{FastGraph, InputGraph, PathCalculator};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen;
use crate::model::*;
use crate::props::multi::{modulo, Ends};

// whether a type can be shared, decided at run time: a change that takes away Sync must not keep
// the other checks from compiling
struct Probe<T>(PhantomData<T>);
trait No {
    fn is_sync(&self) -> bool {
        false
    }
    fn is_send(&self) -> bool {
        false
    }
}
impl<T> No for Probe<T> {}
struct SyncProbe<T>(PhantomData<T>);
impl<T: Sync> SyncProbe<T> {
    fn is_sync(&self) -> bool {
        true
    }
}
impl<T> No for SyncProbe<T> {}
struct SendProbe<T>(PhantomData<T>);
impl<T: Send> SendProbe<T> {
    fn is_send(&self) -> bool {
        true
    }
}
impl<T> No for SendProbe<T> {}

/// Only used after it has been found that the contents may be shared.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    Path(usize, usize),
    Multi(Ends, Ends),
    /// prepare this graph meanwhile, and check it
    Prepare(G, Prep),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shared {
    pub g: G,
    pub prep: Prep,
    /// for each thread
    pub jobs: Vec<Vec<Job>>,
    pub repeat: usize,
    /// calculators are handed on to the next thread in between
    pub hand_over: bool,
}

impl Case for Shared {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let fewer = shrink_list(&self.jobs, 1).into_iter().map(move |jobs| Shared {
            jobs,
            ..self.clone()
        });
        let less = (0..self.jobs.len()).flat_map(move |i| {
            shrink_list(&self.jobs[i], 0).into_iter().map(move |l| {
                let mut c = self.clone();
                c.jobs[i] = l;
                c
            })
        });
        let g = self.g.shrinks().map(move |g| Shared { g, ..self.clone() });
        Box::new(fewer.chain(less).chain(g))
    }
}

fn work(
    jobs: &[Job],
    repeat: usize,
    m: &Model,
    fg: &FastGraph,
    calc: &mut PathCalculator,
) -> Result<(), String> {
    let n = m.n;
    // the references are computed before, so that the threads really meet in the code under test
    for round in 0..repeat {
        for (i, j) in jobs.iter().enumerate() {
            let at = |e: String| format!("job {} in round {}: {}", i, round, e);
            match j {
                Job::Path(a, b) => {
                    let (a, b) = (a % n, b % n);
                    let got = calc.calc_path(fg, a, b);
                    if round == 0 || i % 7 == round % 7 {
                        check_p2p("", m, m.dist_from(a)[b], &got, a, b).map_err(at)?;
                    }
                }
                Job::Multi(s, e) => {
                    let (s, e) = (modulo(s, n), modulo(e, n));
                    let got = calc.calc_path_multiple_sources_and_targets(fg, s.clone(), e.clone());
                    check_answer(
                        &|| format!("from {:?} to {:?}", s, e),
                        m,
                        multi_expected(m, &s, &e),
                        &got,
                        &s,
                        &e,
                    )
                    .map_err(at)?;
                }
                Job::Prepare(g, p) => {
                    let m2 = g.model();
                    let fg2 = p.build(&g.input()).map_err(at)?;
                    let mut c = fast_paths::create_calculator(&fg2);
                    for s in 0..m2.n {
                        let d = m2.dist_from(s);
                        for t in 0..m2.n {
                            let got = c.calc_path(&fg2, s, t);
                            check_p2p("in a graph prepared meanwhile: ", &m2, d[t], &got, s, t)
                                .map_err(at)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub struct C19;
impl Property for C19 {
    type C = Shared;
    const ID: &'static str = "C19";
    const SCALE: u64 = 5;
    const RULE: &'static str = "a prepared graph shared by 2 to 8 threads that start at a barrier; each has a calculator of its own (optionally handed on to the next thread in between) and asks random point to point and multiple source/target queries again and again, while some prepare other graphs; all the answers are compared with the reference, and FastGraph, InputGraph and PathCalculator must be Send and Sync. The schedules are those of the operating system. Non-trivial: at least two threads with at least one query each";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "thread schedules are sampled, not enumerated: a race that needs one particular interleaving can be missed",
    ];
    fn strata(tier: Tier) -> Vec<Stratum<Shared>> {
        fn shared(r: &mut R, g: G, prep: Prep, jobs: usize, repeat: usize) -> Shared {
            let n = g.model().n;
            let jobs = (0..r.range(2, 8))
                .map(|_| {
                    (0..r.range(1, jobs))
                        .map(|_| match r.below(20) {
                            0 => {
                                let g = gen::graph(r, 2, 10);
                                let p = any_prep(r, &g.model());
                                Job::Prepare(g, p)
                            }
                            1..=5 => Job::Multi(
                                gen::endpoints(r, n, 4, false),
                                gen::endpoints(r, n, 4, false),
                            ),
                            _ => Job::Path(r.below(n), r.below(n)),
                        })
                        .collect()
                })
                .collect();
            Shared {
                g,
                prep,
                jobs,
                repeat,
                hand_over: r.chance(50),
            }
        }
        vec![
            random("up to 40 nodes", tier.cases(6000, 150_000), |r| {
                let g = gen::graph(r, 4, 40);
                let p = any_prep(r, &g.model());
                shared(r, g, p, 30, 6)
            }),
            random("thousands of nodes", tier.cases(40, 1000), |r| {
                let w = gen::weights(r);
                let n = r.range(500, 3000);
                let g = sparse_graph(r, n, w);
                shared(r, g, Prep::Default, 40, 4)
            }),
        ]
    }
    fn check(case: &Shared, t: &mut Tally) -> Result<(), String> {
        let sync = [
            ("FastGraph", SyncProbe::<FastGraph>(PhantomData).is_sync()),
            ("InputGraph", SyncProbe::<InputGraph>(PhantomData).is_sync()),
        ];
        let send = [
            ("FastGraph", SendProbe::<FastGraph>(PhantomData).is_send()),
            ("InputGraph", SendProbe::<InputGraph>(PhantomData).is_send()),
            ("PathCalculator", SendProbe::<PathCalculator>(PhantomData).is_send()),
        ];
        if let Some(x) = sync.iter().find(|x| !x.1) {
            return Err(format!("{} cannot be shared between threads (not Sync)", x.0));
        }
        if let Some(x) = send.iter().find(|x| !x.1) {
            return Err(format!("{} cannot be passed to another thread (not Send)", x.0));
        }
        let m = case.g.model();
        if m.n == 0 {
            return Ok(());
        }
        let fg = Force(case.prep.build(&case.g.input())?);
        let k = case.jobs.len();
        let mut calcs: Vec<Force<PathCalculator>> = (0..k)
            .map(|_| Force(fast_paths::create_calculator(fg.get())))
            .collect();
        let rounds = if case.hand_over { 2 } else { 1 };
        for round in 0..rounds {
            let barrier = Barrier::new(k);
            let results: Vec<Result<(), String>> = std::thread::scope(|s| {
                let handles: Vec<_> = case
                    .jobs
                    .iter()
                    .zip(calcs.iter_mut())
                    .map(|(jobs, calc)| {
                        let (fg, m, barrier) = (&fg, &m, &barrier);
                        s.spawn(move || {
                            barrier.wait();
                            guard(|| work(jobs, case.repeat, m, fg.get(), calc.get_mut()))
                                .and_then(|r| r)
                        })
                    })
                    .collect();
                handles.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (i, r) in results.into_iter().enumerate() {
                r.map_err(|e| format!("thread {} of {}, round {}: {}", i, k, round, e))?;
            }
            calcs.rotate_left(1);
        }
        t.nontrivial_if(case.jobs.iter().filter(|j| !j.is_empty()).count() >= 2);
        t.count("threads", k * rounds);
        t.count("jobs", case.jobs.iter().map(|j| j.len()).sum::<usize>() * case.repeat * rounds);
        Ok(())
    }
}
