//! C31: reading and writing a file touches nothing else.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

use fast_paths::InputGraph;
use serde::{Deserialize, Serialize};

use crate::common::shrink_list;
use crate::driver::*;
use crate::gen;
use crate::model::*;

/// Names that are used for several purposes by programs that write files.
const NAMES: &[&str] = &[
    "g", "g.gr", "g.txt", "g.tmp", "g.gr.tmp", ".g", ".g.gr", "g~", "g.gr~", "g.bak", "g.gr.bak", "G", "a b", "\u{e9}.gr", "g.1",
    "g.gr.1", "tmp", "-", "g.gr.part", "g.new", "g.gr.new", "g.old", "g.lock", "g.gr.lock", "g.swp", ".g.swp", "#g#", "g.gr.gz",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Target {
    pub g: G,
    pub dimacs: bool,
    pub name: usize,
    /// 0: absolute, 1: just the name, 2: relative to the working directory
    pub style: u8,
    /// there is a file of that name already
    pub existing: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Beside {
    pub targets: Vec<Target>,
    /// names of other files in the directory
    pub others: Vec<usize>,
    /// the graphs are written and read by threads at the same time
    pub parallel: bool,
    pub rounds: usize,
}

impl Case for Beside {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let mut v = vec![];
        for targets in shrink_list(&self.targets, 1) {
            v.push(Beside {
                targets,
                ..self.clone()
            });
        }
        for others in shrink_list(&self.others, 0) {
            v.push(Beside { others, ..self.clone() });
        }
        if self.parallel {
            v.push(Beside {
                parallel: false,
                ..self.clone()
            });
        }
        if self.rounds > 1 {
            v.push(Beside {
                rounds: 1,
                ..self.clone()
            });
        }
        let g = (0..self.targets.len()).flat_map(move |i| {
            self.targets[i].g.shrinks().map(move |g| {
                let mut c = self.clone();
                c.targets[i].g = g;
                c
            })
        });
        Box::new(v.into_iter().chain(g))
    }
}

/// Everything in a directory.
fn listing(d: &Path) -> Result<BTreeMap<String, Option<Vec<u8>>>, String> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(d).map_err(|e| e.to_string())? {
        let e = e.map_err(|e| e.to_string())?;
        let name = e.file_name().to_string_lossy().into_owned();
        let content = if e.path().is_file() {
            Some(std::fs::read(e.path()).map_err(|e| e.to_string())?)
        } else {
            None
        };
        m.insert(name, content);
    }
    Ok(m)
}

fn same(a: &InputGraph, b: &InputGraph, dimacs: bool) -> bool {
    let e = |g: &InputGraph| g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect::<Vec<_>>();
    e(a) == e(b) && (!dimacs || a.get_num_nodes() == b.get_num_nodes())
}

/// A working directory for this thread (and those that it starts), if the system permits it, and a
/// directory for temporary files for all of them.
fn surroundings() -> (PathBuf, bool, PathBuf) {
    use std::sync::OnceLock;
    static TMP: OnceLock<PathBuf> = OnceLock::new();
    static NEXT: AtomicU64 = AtomicU64::new(0);
    thread_local! {
        static MINE: (PathBuf, bool) = {
            let d = scratch().join(format!("beside-{}", NEXT.fetch_add(1, Ordering::Relaxed)));
            std::fs::create_dir_all(&d).expect("cannot create a directory");
            let own = unsafe { libc::unshare(libc::CLONE_FS) } == 0;
            (d, own)
        };
    }
    let tmp = TMP
        .get_or_init(|| {
            let d = scratch().join("tmp");
            std::fs::create_dir_all(&d).expect("cannot create a directory");
            std::env::set_var("TMPDIR", &d);
            d
        })
        .clone();
    let (d, own) = MINE.with(|m| m.clone());
    (d, own, tmp)
}

fn write(t: &Target, g: &InputGraph, path: &str) -> Result<(), String> {
    let r = if t.dimacs {
        g.to_dimacs_file(path)
    } else {
        g.to_file(path)
    };
    r.map_err(|e| format!("writing {}: {}", path, e))
}

fn read(t: &Target, path: &str) -> Result<InputGraph, String> {
    guard(|| {
        if t.dimacs {
            InputGraph::from_dimacs_file(path)
        } else {
            InputGraph::from_file(path)
        }
    })
    .map_err(|e| format!("reading {}: {}", path, e))
}

fn check(c: &Beside, t: &mut Tally) -> Result<(), String> {
    let (home, own, tmp) = surroundings();
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let dir_name = format!("d{}", NEXT.fetch_add(1, Ordering::Relaxed));
    let dir = home.join(&dir_name);
    std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
    if own {
        std::env::set_current_dir(&dir).map_err(|e| e.to_string())?;
    }
    let result = guard(|| run(c, t, &home, &dir_name, &dir, own, &tmp)).and_then(|r| r);
    if own {
        std::env::set_current_dir(&home).map_err(|e| e.to_string())?;
    }
    std::fs::remove_dir_all(&dir).map_err(|e| e.to_string())?;
    let left = listing(&home)?;
    if result.is_ok() && !left.is_empty() {
        return Err(format!("files in the parent directory: {:?}", left.keys().collect::<Vec<_>>()));
    }
    for k in left.keys() {
        let _ = std::fs::remove_file(home.join(k));
    }
    result
}

fn run(c: &Beside, t: &mut Tally, home: &Path, dir_name: &str, dir: &Path, own: bool, tmp: &Path) -> Result<(), String> {
    let name = |i: usize| NAMES[i % NAMES.len()];
    let mut used = BTreeSet::new();
    let targets: Vec<&Target> = c.targets.iter().filter(|t| used.insert(name(t.name))).collect();
    let others: Vec<&str> = c.others.iter().map(|i| name(*i)).filter(|n| used.insert(n)).collect();
    let graphs: Vec<InputGraph> = targets.iter().map(|t| t.g.input()).collect();
    let paths: Vec<String> = targets
        .iter()
        .map(|t| match t.style {
            1 if own => name(t.name).to_string(),
            2 if own => format!("../{}/{}", dir_name, name(t.name)),
            _ => dir.join(name(t.name)).to_str().unwrap().to_string(),
        })
        .collect();
    // what is there before
    for (i, o) in others.iter().enumerate() {
        let content = if i % 3 == 2 {
            // can only be refused
            "p sp 1 1\na 1 x 1\n".to_string()
        } else {
            format!("a 0 {} 7\n", i + 1).repeat(i * 40 + 1)
        };
        std::fs::write(dir.join(o), content).map_err(|e| e.to_string())?;
    }
    std::fs::create_dir(dir.join("directory")).map_err(|e| e.to_string())?;
    for t in targets.iter().filter(|t| t.existing) {
        std::fs::write(dir.join(name(t.name)), "a 5 6 7\n".repeat(300)).map_err(|e| e.to_string())?;
    }
    let before = listing(dir)?;
    // write and read
    let one = |i: usize| -> Result<(), String> {
        for _ in 0..c.rounds {
            write(targets[i], &graphs[i], &paths[i])?;
            if !same(&graphs[i], &read(targets[i], &paths[i])?, targets[i].dimacs) {
                return Err(format!("{} does not have the edges that were written", name(targets[i].name)));
            }
        }
        Ok(())
    };
    let all = |shift: usize| -> Result<(), String> {
        for i in (0..targets.len()).map(|i| (i + shift) % targets.len()) {
            if !same(&graphs[i], &read(targets[i], &paths[i])?, targets[i].dimacs) {
                return Err(format!("{} does not have the edges that were written", name(targets[i].name)));
            }
        }
        Ok(())
    };
    if c.parallel {
        let barrier = Barrier::new(targets.len());
        let results: Vec<Result<(), String>> = std::thread::scope(|s| {
            let handles: Vec<_> = (0..targets.len())
                .map(|i| {
                    let (one, all, barrier) = (&one, &all, &barrier);
                    s.spawn(move || {
                        barrier.wait();
                        let r = one(i);
                        barrier.wait();
                        r.and_then(|_| all(i))
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".to_string()))).collect()
        });
        results.into_iter().collect::<Result<Vec<_>, _>>()?;
    } else {
        for i in 0..targets.len() {
            one(i)?;
        }
        all(0)?;
    }
    let written = listing(dir)?;
    // operations that fail or have nothing to do with files
    let g = &graphs[0];
    for bad in [dir.join("directory"), dir.join("missing").join("g")] {
        let p = bad.to_str().unwrap();
        for dimacs in [false, true] {
            let t = Target {
                dimacs,
                ..targets[0].clone()
            };
            if write(&t, g, p).is_ok() {
                return Err(format!("writing {} succeeded", p));
            }
            if read(&t, p).is_ok() {
                return Err(format!("reading {} succeeded", p));
            }
        }
    }
    for o in others.iter().skip(2).step_by(3) {
        if read(targets[0], dir.join(o).to_str().unwrap()).is_ok() {
            return Err(format!("reading {} succeeded, but there is an invalid line", o));
        }
    }
    let fg = guard(|| fast_paths::prepare(g))?;
    if fg.get_num_nodes() > 0 {
        guard(|| fast_paths::calc_path(&fg, 0, fg.get_num_nodes() - 1))?;
    }
    let after = listing(dir)?;
    for (n, content) in &after {
        let target = targets.iter().any(|t| name(t.name) == n);
        match before.get(n) {
            None if !target => return Err(format!("there is a new file {}", n)),
            Some(old) if !target && old != content => return Err(format!("{} has changed", n)),
            _ => {}
        }
        if written.get(n) != Some(content) {
            return Err(format!("{} has changed without being written", n));
        }
    }
    if let Some(n) = before.keys().chain(written.keys()).find(|n| !after.contains_key(*n)) {
        return Err(format!("{} has disappeared", n));
    }
    for (i, t) in targets.iter().enumerate() {
        if !same(&graphs[i], &read(t, &paths[i])?, t.dimacs) {
            return Err(format!("{} does not have the edges that were written", name(t.name)));
        }
    }
    for d in [tmp, home] {
        let left: Vec<_> = listing(d)?.into_keys().filter(|k| k != dir_name).collect();
        if !left.is_empty() {
            return Err(format!("there are files in {}: {:?}", d.display(), left));
        }
    }
    t.nontrivial_if(!others.is_empty() && targets.len() > 1);
    t.label_if(c.parallel && targets.len() > 1, "several threads");
    t.label_if(own && c.targets.iter().any(|t| t.style > 0), "relative names");
    t.label_if(c.targets.iter().any(|t| t.existing), "existing files");
    Ok(())
}

pub struct C31;
impl Property for C31 {
    type C = Beside;
    const ID: &'static str = "C31";
    const SCALE: u64 = 6;
    const RULE: &'static str = "one to four graphs that are written to files of different, but similar names (g, g.gr, g.tmp, g~, .g ...) in one directory and read again, one after the other or by several threads at the same time, with absolute and relative names, among other files of such names; refused writing and reading, preparing and querying. Each file must always have the edges written to it, all other files and the directories (also the working directory and the one for temporary files) must be as before. Non-trivial: several graphs and at least one other file";
    fn strata(tier: Tier) -> Vec<Stratum<Beside>> {
        fn case(r: &mut R, lo: usize, hi: usize, parallel: usize) -> Beside {
            let names = r.perm(NAMES.len());
            let k = r.range(1, 4);
            let targets = (0..k)
                .map(|i| Target {
                    g: gen::graph(r, lo, hi),
                    dimacs: r.chance(40),
                    name: names[i],
                    style: r.below(3) as u8,
                    existing: r.chance(40),
                })
                .collect();
            let o = r.below(NAMES.len() - k + 1);
            Beside {
                targets,
                others: names[k..k + o].to_vec(),
                parallel: r.chance(parallel),
                rounds: r.range(1, 3),
            }
        }
        vec![
            random("small graphs", tier.cases(6_000, 120_000), |r| case(r, 2, 12, 40)),
            random("larger graphs", tier.cases(800, 16_000), |r| case(r, 20, 150, 80)),
        ]
    }
    fn check(case: &Beside, t: &mut Tally) -> Result<(), String> {
        if case.targets.is_empty() {
            return Ok(());
        }
        check(case, t)
    }
}
