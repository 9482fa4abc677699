//! C25: whatever goes wrong while a file is read is reported.

use fast_paths::InputGraph;
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen::{self, W};
use crate::model::*;
use crate::props::files::{calls, edges_of, judge, judged, Act, Allowed};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Trouble {
    /// the read call of this number behaves in this way (and all that follow, if set)
    Nth(u32, Act, bool),
    /// every read call in turn
    EveryNth(Act, bool),
    /// there is no such file
    Missing,
    /// the directory does not exist
    NoDirectory,
    Directory,
    /// the file ends after this many bytes
    Cut(usize),
    /// wherever it could end
    EveryCut,
    /// these bytes, which are no UTF-8, are inserted at (or, if set, replace) every place
    NoText(Vec<u8>, bool),
    NoTextAt(Vec<u8>, bool, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase {
    pub g: G,
    pub dimacs: bool,
    /// a comment of this length in front of every so many lines
    pub comments: (usize, usize),
    pub troubles: Vec<Trouble>,
}

impl Case for ReadCase {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let f = shrink_list(&self.troubles, 1).into_iter().map(move |troubles| ReadCase {
            troubles,
            ..self.clone()
        });
        let c = (self.comments.1 > 0).then(|| ReadCase {
            comments: (0, 0),
            ..self.clone()
        });
        // to a single call
        let nth = match self.troubles.as_slice() {
            [Trouble::EveryNth(act, p)] => (0..40)
                .map(|k| ReadCase {
                    troubles: vec![Trouble::Nth(k, *act, *p)],
                    ..self.clone()
                })
                .collect(),
            [Trouble::NoText(bytes, over)] => (0..100)
                .map(|k| ReadCase {
                    troubles: vec![Trouble::NoTextAt(bytes.clone(), *over, k)],
                    ..self.clone()
                })
                .collect(),
            _ => vec![],
        };
        let g = self.g.shrinks().map(move |g| ReadCase { g, ..self.clone() });
        Box::new(f.chain(c).chain(g).chain(nth))
    }
}

pub struct C25;
impl Property for C25 {
    type C = ReadCase;
    const ID: &'static str = "C25";
    const SCALE: u64 = 2;
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "files of both formats (up to 200 KB, with and without comments) read while every single read call in turn fails with an error number (once, or from then on), delivers a part of the data before the next one fails, is interrupted, or delivers only a part; and files that are missing, in a missing directory, a directory, cut off at any byte, or spoilt at any byte so that they are no UTF-8. If a call failed, the file must be refused, or the graph must be the whole one; if calls were only interrupted or shortened, the graph must be the whole one; what is missing must be refused; a file that has been cut off must be judged like any other file of that content; a file that is no UTF-8 must be refused, wherever the bytes are. Non-trivial: a call failed after data had been delivered, or calls were interrupted or shortened, or the cut removed at least a byte, or what is no text does not come first";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "failing reads are stood in for by a replacement of the system call wrappers read, readv and pread64",
    ];
    fn strata(tier: Tier) -> Vec<Stratum<ReadCase>> {
        fn troubles(r: &mut R, count: usize) -> Vec<Trouble> {
            (0..count)
                .map(|_| {
                    let act = match r.below(10) {
                        0..=2 => Act::Errno(r.pick(&[libc::EIO, libc::EIO, libc::ENOMEM, libc::ESTALE, libc::EBADF, libc::EISDIR])),
                        3 => Act::Errno(libc::EINTR),
                        // what non-blocking files would answer
                        4 => Act::Errno(r.pick(&[libc::EAGAIN, libc::ETIMEDOUT, libc::ECONNRESET, libc::EPERM, libc::EINVAL])),
                        5 | 6 => Act::Short(r.pick(&[1usize, 2, 7, 100, 4096, 8191])),
                        _ => Act::Partly(
                            r.pick(&[1usize, 5, 10, 100, 1000, 4096, 8000, 8191]),
                            r.pick(&[libc::EIO, libc::EIO, libc::ENOMEM, libc::ESTALE]),
                        ),
                    };
                    Trouble::EveryNth(act, r.chance(40))
                })
                .collect()
        }
        vec![
            random("small files", tier.cases(3000, 60_000), |r| ReadCase {
                g: gen::graph(r, 2, 14),
                dimacs: r.chance(50),
                comments: (r.below(4), r.below(30)),
                troubles: {
                    let mut t = troubles(r, 3);
                    t.push(r.pick(&[Trouble::Missing, Trouble::Directory, Trouble::NoDirectory]));
                    t
                },
            }),
            random("large files", tier.cases(250, 5_000), |r| {
                let w = r.pick(&[W::Few, W::Large, W::Huge]);
                let n = r.pick(&[300usize, 800, 3000, 6000]);
                ReadCase {
                    g: sparse_graph(r, n, w),
                    dimacs: r.chance(50),
                    comments: if r.chance(40) { (r.range(1, 500), r.pick(&[3, 100, 9000])) } else { (0, 0) },
                    troubles: troubles(r, 3),
                }
            }),
            random("cut off", tier.cases(600, 12_000), |r| ReadCase {
                g: gen::graph(r, 2, 14),
                dimacs: r.chance(50),
                comments: (r.below(4), r.below(30)),
                troubles: vec![Trouble::EveryCut],
            }),
            random("no text", tier.cases(600, 12_000), |r| ReadCase {
                g: gen::graph(r, 2, 14),
                dimacs: r.chance(50),
                comments: (r.below(4), r.below(30)),
                troubles: vec![Trouble::NoText(
                    r.pick(&[
                        &b"\xff"[..],
                        &b"\x80"[..],
                        &b"\xc3"[..],
                        &b"\xc0\xaf"[..],
                        &b"\xed\xa0\x80"[..],
                        &b"\xf5\x80\x80\x80"[..],
                        &b"\n\xe9t\xe9\n"[..],
                        &b"\nc \xfc\n"[..],
                    ])
                    .to_vec(),
                    r.chance(30),
                )],
            }),
        ]
    }

    fn check(case: &ReadCase, t: &mut Tally) -> Result<(), String> {
        let (n, edges) = case.g.edges();
        let base = case.dimacs as usize;
        let mut file = String::new();
        if case.dimacs {
            file += &format!("p sp {} {}\n", n, edges.len());
        }
        for (i, (e, w)) in edges.iter().enumerate() {
            if case.comments.1 > 0 && i % (case.comments.0 + 1) == 0 {
                file += &format!("c {}\n", "x".repeat(case.comments.1));
            }
            file += &format!("a {} {} {}\n", e.0 + base, e.1 + base, w);
        }
        let path = scratch_file("unreadable");
        let read = |name: &str| {
            guard(|| {
                if case.dimacs {
                    InputGraph::from_dimacs_file(name)
                } else {
                    InputGraph::from_file(name)
                }
            })
        };
        std::fs::write(&path, &file).unwrap();
        let name = path.to_str().unwrap();
        let whole = Allowed::Graph(n, edges.clone());
        let damaged = Allowed::GraphOrRefusal(n, edges.clone());
        let refused = |what: &str, name: &str| match read(name) {
            Err(_) => Ok(()),
            Ok(g) => Err(format!("{} was read as a graph with the edges {:?}", what, edges_of(&g))),
        };
        for f in &case.troubles {
            let (mut at, act, persistent, all) = match f {
                Trouble::Nth(k, act, p) => (*k, *act, *p, false),
                Trouble::EveryNth(act, p) => (0, *act, *p, true),
                Trouble::Missing => {
                    refused("a file that does not exist", scratch().join("no-such-file").to_str().unwrap())?;
                    t.label("missing");
                    continue;
                }
                Trouble::NoDirectory => {
                    refused("a file that does not exist", scratch().join("no/such/file").to_str().unwrap())?;
                    t.label("missing");
                    continue;
                }
                Trouble::Directory => {
                    refused("a directory", scratch().to_str().unwrap())?;
                    t.label("a directory");
                    continue;
                }
                Trouble::NoText(bytes, over) | Trouble::NoTextAt(bytes, over, _) => {
                    let places = match f {
                        Trouble::NoTextAt(_, _, k) => (*k).min(file.len())..(*k).min(file.len()) + 1,
                        _ => 0..file.len() + 1,
                    };
                    for k in places {
                        let mut b = file.as_bytes()[..k].to_vec();
                        b.extend_from_slice(bytes);
                        b.extend_from_slice(&file.as_bytes()[(k + *over as usize).min(file.len())..]);
                        if std::str::from_utf8(&b).is_ok() {
                            continue;
                        }
                        std::fs::write(&path, &b).unwrap();
                        refused(&format!("a file that is no text (bytes {:x?} at {} of {})", bytes, k, file.len()), name)?;
                        t.count("files that are no text", 1);
                        t.nontrivial_if(k > 0);
                    }
                    std::fs::write(&path, &file).unwrap();
                    continue;
                }
                Trouble::Cut(_) | Trouble::EveryCut => {
                    let cuts = match f {
                        Trouble::Cut(k) => (*k).min(file.len())..(*k).min(file.len()) + 1,
                        _ => 0..file.len(),
                    };
                    for k in cuts {
                        let b = &file.as_bytes()[..k];
                        std::fs::write(&path, b).unwrap();
                        judged(&judge(b, case.dimacs), read(name))
                            .map_err(|e| format!("only the first {} of {} bytes: {}", k, file.len(), e))?;
                        t.count("cut files", 1);
                        t.nontrivial_if(k < file.len());
                    }
                    std::fs::write(&path, &file).unwrap();
                    continue;
                }
            };
            loop {
                calls::set(calls::Plan::new(true, at, act, persistent));
                let got = read(name);
                let p = calls::take().unwrap();
                let ok = got.is_ok();
                let allowed = if p.failed > 0 { &damaged } else { &whole };
                judged(allowed, got).map_err(|e| {
                    format!(
                        "while read call {}{} {:?} ({} calls, {} failed): {}",
                        at,
                        if persistent { " and those after it" } else { "" },
                        act,
                        p.calls,
                        p.failed,
                        e
                    )
                })?;
                t.count("attempts", 1);
                t.label_if(p.failed > 0, "failing read calls");
                t.label_if(p.failed > 0 && ok, "failing read calls that did not matter");
                t.label_if(p.interrupted > 0, "interrupted read calls");
                t.label_if(p.shortened > 0, "shortened read calls");
                t.nontrivial_if(p.failed > 0 && p.calls > 1 || p.interrupted > 0 || p.shortened > 0);
                at += 1;
                if !all || at >= p.calls || at > 100 {
                    break;
                }
            }
        }
        Ok(())
    }
}
