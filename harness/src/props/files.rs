//! C13, C14, C15: text files.

use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use fast_paths::InputGraph;
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::driver::*;
use crate::gen::{self, W};
use crate::model::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Line {
    /// from, to, weight, and how it is written
    Arc(usize, usize, usize, u8),
    /// only DIMACS: nodes, arcs
    Header(usize, usize),
    /// anything else, verbatim
    Other(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FileCase {
    /// write the graph (over what is there already) and read it
    RoundTrip {
        g: G,
        /// an existing file, of this many bytes, is replaced
        existing: usize,
        /// DIMACS: nodes without edges at the end
        isolated: usize,
    },
    /// read these lines
    Read {
        lines: Vec<Line>,
        crlf: bool,
        last_newline: bool,
        /// whether the file has to be refused
        bad: bool,
    },
    /// read a file of any content
    Bytes(Vec<u8>),
}

impl Case for FileCase {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        match self {
            FileCase::RoundTrip {
                g,
                existing,
                isolated,
            } => {
                let mut v = vec![];
                if *existing > 0 {
                    v.push(FileCase::RoundTrip {
                        g: g.clone(),
                        existing: 0,
                        isolated: *isolated,
                    });
                }
                if *isolated > 0 {
                    v.push(FileCase::RoundTrip {
                        g: g.clone(),
                        existing: *existing,
                        isolated: isolated - 1,
                    });
                }
                Box::new(v.into_iter().chain(g.shrinks().map(move |g| {
                    FileCase::RoundTrip {
                        g,
                        existing: *existing,
                        isolated: *isolated,
                    }
                })))
            }
            // what is expected depends on the lines, so only harmless simplifications
            FileCase::Read {
                lines,
                crlf,
                last_newline,
                bad,
            } => {
                let mut v = vec![];
                for i in 0..lines.len().min(200) {
                    let removable = match &lines[i] {
                        Line::Other(_) => !*bad,
                        _ => false,
                    };
                    if removable {
                        let mut l = lines.clone();
                        l.remove(i);
                        v.push(FileCase::Read {
                            lines: l,
                            crlf: *crlf,
                            last_newline: *last_newline,
                            bad: *bad,
                        });
                    }
                }
                if *crlf {
                    v.push(FileCase::Read {
                        lines: lines.clone(),
                        crlf: false,
                        last_newline: *last_newline,
                        bad: *bad,
                    });
                }
                Box::new(v.into_iter())
            }
            FileCase::Bytes(b) => {
                let lines: Vec<&[u8]> = b.split_inclusive(|c| *c == b'\n').collect();
                let less: Vec<_> = shrink_list(&lines, 0).iter().map(|l| l.concat()).collect();
                let bytes = if b.len() < 300 { shrink_list(b, 0) } else { vec![] };
                Box::new(less.into_iter().chain(bytes).map(FileCase::Bytes))
            }
        }
    }
}

/// What a file may be read as.
#[derive(Debug, PartialEq)]
pub enum Allowed {
    /// exactly this graph
    Graph(usize, Edges),
    /// it can be refused, but if it is not, it has to be this graph
    GraphOrRefusal(usize, Edges),
    Refusal,
    /// not specified
    Anything,
}

/// The reference for files of any content. Independent of the code under test.
pub fn judge(bytes: &[u8], dimacs: bool) -> Allowed {
    // a CR belongs to the end of a line only before LF
    let lines = bytes.split_inclusive(|c| *c == b'\n').map(|l| match l.strip_suffix(b"\n") {
        Some(l) => l.strip_suffix(b"\r").unwrap_or(l),
        None => l,
    });
    let mut adds = vec![];
    let mut header: Option<(usize, usize)> = None;
    let mut may_refuse = false;
    // Err(true): refuse, Err(false): not specified
    let numbers = |l: &[u8], count: usize| -> Result<Vec<usize>, bool> {
        let s = std::str::from_utf8(l).map_err(|_| true)?;
        if s.contains(['+', '\r', '\0']) || s.chars().any(|c| c.is_whitespace() && c != ' ' && c != '\t') {
            return Err(false);
        }
        let mut v = vec![];
        for f in s.split([' ', '\t']).filter(|f| !f.is_empty()) {
            if !f.bytes().all(|c| c.is_ascii_digit()) {
                return Err(true);
            }
            v.push(f.parse::<usize>().map_err(|_| true)?);
        }
        if v.len() == count {
            Ok(v)
        } else {
            Err(true)
        }
    };
    for l in lines {
        let refused = |e: bool| if e { Allowed::Refusal } else { Allowed::Anything };
        if l.starts_with(b"a ") {
            let v = match numbers(&l[2..], 3) {
                Ok(v) => v,
                Err(e) => return refused(e),
            };
            if dimacs {
                match header {
                    None => return Allowed::Refusal,
                    Some((n, arcs)) => {
                        if v[..2].iter().any(|x| *x == 0 || *x > n) || adds.len() == arcs {
                            return Allowed::Refusal;
                        }
                    }
                }
                adds.push((v[0] - 1, v[1] - 1, v[2], false));
            } else {
                // the number of nodes could not be represented
                if (v[0] == usize::MAX || v[1] == usize::MAX) && v[0] != v[1] && v[2] > 0 {
                    return Allowed::Refusal;
                }
                adds.push((v[0], v[1], v[2], false));
            }
        } else if !dimacs || l.is_empty() || l[0] == b'c' {
            // ignored; text that is no valid UTF-8 may be refused nevertheless
            may_refuse |= std::str::from_utf8(l).is_err();
        } else if l.starts_with(b"p sp ") {
            if header.is_some() {
                return Allowed::Refusal;
            }
            header = match numbers(&l[5..], 2) {
                Ok(v) => Some((v[0], v[1])),
                Err(e) => return refused(e),
            };
        } else if l.iter().all(|c| c.is_ascii_whitespace()) || l[0].is_ascii_whitespace() || l[0] >= 128 {
            return Allowed::Anything;
        } else if l.starts_with(b"p ") && l.get(2).is_some_and(|c| c.is_ascii_alphabetic()) && !l.starts_with(b"p sp") {
            // another kind of problem
            return Allowed::Refusal;
        } else if l.starts_with(b"p") || l.starts_with(b"a") {
            // other separators, perhaps
            return match l.get(1) {
                Some(c) if c.is_ascii_alphanumeric() => Allowed::Refusal,
                _ => Allowed::Anything,
            };
        } else {
            return Allowed::Refusal;
        }
    }
    let (ids, edges) = G { adds: adds.clone() }.edges();
    let n = match (dimacs, header) {
        (false, _) => ids,
        // nothing but comments
        (true, None) => return Allowed::Anything,
        (true, Some((n, arcs))) => {
            if arcs != adds.len() {
                return Allowed::Refusal;
            }
            n
        }
    };
    if may_refuse {
        Allowed::GraphOrRefusal(n, edges)
    } else {
        Allowed::Graph(n, edges)
    }
}

/// A file that is nearly valid, or still is.
pub fn mutated(r: &mut R, lines: &[Line], dimacs: bool) -> Vec<u8> {
    let mut b = text(lines, r.chance(15), r.chance(80), dimacs as usize).into_bytes();
    const BYTES: [&[u8]; 30] = [
        b"0", b"1", b"2", b"9", b" ", b"\n", b"-", b"+", b".", b"a", b"c", b"p", b"x", b"\t", b"\r", b"\r\n", b"\xff", b"\xe4",
        b"\xc3", b"\xc3\xa4", b"\0", b"a ", b"\na ", b"\nc ", b" 1", b"\n\n", b",", b"e", b"18446744073709551615", b"\xef\xbb\xbf",
    ];
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let at = r.below(b.len());
        match r.below(9) {
            0 | 1 => {
                b.remove(at);
            }
            2 | 3 => {
                let x = r.pick(&BYTES);
                b.splice(at..at, x.iter().cloned());
            }
            4 => {
                let x = r.pick(&BYTES);
                b.splice(at..at + 1, x.iter().cloned());
            }
            5 => b.truncate(at),
            k => {
                // whole lines
                let mut l: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
                let i = r.below(l.len());
                let j = r.below(l.len());
                match k {
                    6 => {
                        l.remove(i);
                    }
                    7 => l.swap(i, j),
                    _ => {
                        let x = l[i].clone();
                        l.insert(j, x);
                    }
                }
                b = l.concat();
            }
        }
    }
    b
}

/// The result of reading must be what the file allows.
pub fn judged(allowed: &Allowed, got: Result<InputGraph, String>) -> Result<(), String> {
    match (allowed, got) {
        (Allowed::Anything, _) => Ok(()),
        (Allowed::Refusal | Allowed::GraphOrRefusal(..), Err(_)) => Ok(()),
        (Allowed::Graph(..), Err(e)) => Err(format!("a valid file was refused: {}", e)),
        (Allowed::Refusal, Ok(g)) => Err(format!(
            "an invalid file was accepted: {} nodes, edges {:?}",
            g.get_num_nodes(),
            edges_of(&g).iter().take(20).collect::<Vec<_>>()
        )),
        (Allowed::Graph(n, edges) | Allowed::GraphOrRefusal(n, edges), Ok(g)) => compare("reading", &g, *n, edges),
    }
}

pub fn text(lines: &[Line], crlf: bool, last_newline: bool, base: usize) -> String {
    let mut s = String::new();
    let end = if crlf { "\r\n" } else { "\n" };
    for (i, l) in lines.iter().enumerate() {
        match l {
            Line::Arc(a, b, w, style) => {
                let (a, b) = (a + base, b + base);
                s += &match style % 6 {
                    0 => format!("a  {} {} {}", a, b, w),
                    1 => format!("a {}   {} {} ", a, b, w),
                    2 => format!("a {}\t{}\t{}", a, b, w),
                    3 => format!("a {} {} 00{}", a, b, w),
                    _ => format!("a {} {} {}", a, b, w),
                }
            }
            Line::Header(n, m) => s += &format!("p sp {} {}", n, m),
            Line::Other(o) => s += o,
        }
        if i + 1 < lines.len() || last_newline {
            s += end;
        }
    }
    s
}

pub type Edges = BTreeMap<(usize, usize), usize>;

pub fn edges_of(g: &InputGraph) -> Vec<(usize, usize, usize)> {
    g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect()
}

pub fn compare(what: &str, g: &InputGraph, n: usize, edges: &Edges) -> Result<(), String> {
    if g.get_num_nodes() != n {
        return Err(format!("{}: {} nodes instead of {}", what, g.get_num_nodes(), n));
    }
    let got = edges_of(g);
    let expected: Vec<_> = edges.iter().map(|(e, w)| (e.0, e.1, *w)).collect();
    if got != expected || g.get_num_edges() != expected.len() {
        return Err(format!(
            "{}: {} edges instead of {}, first difference {:?}",
            what,
            got.len(),
            expected.len(),
            got.iter().zip(&expected).find(|(a, b)| a != b)
        ));
    }
    Ok(())
}

/// What the lines mean, read independently of the code under test.
fn meaning(lines: &[Line]) -> (usize, Edges) {
    let g = G {
        adds: lines
            .iter()
            .filter_map(|l| match l {
                Line::Arc(a, b, w, _) => Some((*a, *b, *w, false)),
                _ => None,
            })
            .collect(),
    };
    let (ids, edges) = g.edges();
    let n = lines
        .iter()
        .find_map(|l| match l {
            Line::Header(n, _) => Some(*n),
            _ => None,
        })
        .unwrap_or(ids);
    (n, edges)
}

fn check_file(case: &FileCase, dimacs: bool, t: &mut Tally) -> Result<(), String> {
    let path = scratch_file("graph");
    let name = path.to_str().unwrap();
    let base = dimacs as usize;
    let read = |name: &str| {
        guard(|| {
            if dimacs {
                InputGraph::from_dimacs_file(name)
            } else {
                InputGraph::from_file(name)
            }
        })
    };
    match case {
        FileCase::RoundTrip {
            g,
            existing,
            isolated,
        } => {
            let (mut n, edges) = g.edges();
            let mut input = g.input();
            if dimacs && *isolated > 0 {
                // nodes without edges can only come from a DIMACS file
                n += isolated;
                let mut s = format!("p sp {} {}\n", n, edges.len());
                for (e, w) in &edges {
                    s += &format!("a {} {} {}\n", e.0 + 1, e.1 + 1, w);
                }
                std::fs::write(&path, s).unwrap();
                input = read(name).map_err(|e| format!("a valid file was refused: {}", e))?;
                compare("reading", &input, n, &edges)?;
                t.label("nodes without edges at the end");
            }
            if *existing > 0 {
                std::fs::write(&path, "a 1 2 3\n".repeat(existing / 8 + 1)).unwrap();
                t.label("an existing file was replaced");
            } else {
                let _ = std::fs::remove_file(&path);
            }
            let r = guard(|| {
                if dimacs {
                    input.to_dimacs_file(name)
                } else {
                    input.to_file(name)
                }
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return Err(format!("writing failed: {}", e)),
                Err(e) => return Err(format!("writing failed: {}", e)),
            }
            // the file itself, read without the code under test
            let s = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
            let mut arcs: Vec<(usize, usize, usize)> = vec![];
            let mut header = None;
            for (i, l) in s.lines().enumerate() {
                let f: Vec<&str> = l.split(' ').collect();
                let num = |k: usize| -> Result<usize, String> {
                    f.get(k)
                        .and_then(|x| x.parse().ok())
                        .ok_or(format!("line {} of the file: {:?}", i + 1, l))
                };
                match f[0] {
                    "a" if f.len() == 4 => arcs.push((num(1)?, num(2)?, num(3)?)),
                    "p" if dimacs && i == 0 && f.len() == 4 && f[1] == "sp" => {
                        header = Some((num(2)?, num(3)?))
                    }
                    _ => return Err(format!("line {} of the file: {:?}", i + 1, l)),
                }
            }
            if dimacs && header != Some((n, edges.len())) {
                return Err(format!(
                    "the header states {:?} instead of {:?}",
                    header,
                    (n, edges.len())
                ));
            }
            arcs.sort_unstable();
            let expected: Vec<_> = edges
                .iter()
                .map(|(e, w)| (e.0 + base, e.1 + base, *w))
                .collect();
            if arcs != expected {
                return Err(format!(
                    "the file has {} arcs instead of {}, first difference {:?}",
                    arcs.len(),
                    expected.len(),
                    arcs.iter().zip(&expected).find(|(a, b)| a != b)
                ));
            }
            let back = read(name).map_err(|e| format!("the written file was refused: {}", e))?;
            compare("after reading it again", &back, n, &edges)?;
            if !dimacs {
                t.label("text");
            }
            t.label_if(s.len() > 8192, "file of more than 8 KiB");
            t.label_if(s.len() > 65536, "file of more than 64 KiB");
            t.nontrivial_if(edges.len() > 1);
        }
        FileCase::Bytes(b) => {
            std::fs::write(&path, b).unwrap();
            let allowed = judge(b, dimacs);
            judged(&allowed, read(name))?;
            match &allowed {
                Allowed::Graph(_, e) => {
                    t.label("changed, but valid");
                    t.nontrivial_if(e.len() > 1);
                }
                Allowed::GraphOrRefusal(..) => t.label("changed, may be refused"),
                Allowed::Refusal => {
                    t.label("changed, refused");
                    t.nontrivial_if(b.contains(&b'\n'));
                }
                Allowed::Anything => t.label("changed, not specified"),
            }
        }
        FileCase::Read {
            lines,
            crlf,
            last_newline,
            bad,
        } => {
            let file = text(lines, *crlf, *last_newline, base);
            // two ways of deciding what is right have to agree
            match judge(file.as_bytes(), dimacs) {
                Allowed::Graph(n, e) if !bad => assert_eq!((n, e), meaning(lines)),
                Allowed::Refusal if *bad => {}
                a => panic!("{:?} for a file that is {}", a, if *bad { "invalid" } else { "valid" }),
            }
            std::fs::write(&path, file).unwrap();
            let r = read(name);
            match (bad, r) {
                (true, Err(_)) => {
                    t.label("refused");
                    t.nontrivial_if(lines.len() > 1);
                }
                (true, Ok(g)) => {
                    return Err(format!(
                        "an invalid file was accepted: {} nodes, edges {:?}",
                        g.get_num_nodes(),
                        edges_of(&g).iter().take(20).collect::<Vec<_>>()
                    ))
                }
                (false, Err(e)) => return Err(format!("a valid file was refused: {}", e)),
                (false, Ok(g)) => {
                    let (n, edges) = meaning(lines);
                    compare("reading", &g, n, &edges)?;
                    t.label("read");
                    t.label_if(*crlf, "CR LF");
                    t.label_if(!*last_newline, "no newline at the end");
                    t.nontrivial_if(edges.len() > 1);
                    // and it can be used
                    if n <= 40 && n > 0 && dimacs {
                        let fg = guard(|| fast_paths::prepare(&g))?;
                        let m = Model::new(n, edges);
                        let mut calc = fast_paths::create_calculator(&fg);
                        for s in 0..n {
                            let d = m.dist_from(s);
                            for t in 0..n {
                                let got = guard(|| calc.calc_path(&fg, s, t))?;
                                check_p2p("from the file: ", &m, d[t], &got, s, t)?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn any_weight(r: &mut R) -> usize {
    match r.below(6) {
        0 => r.pick(&[
            0usize,
            9,
            10,
            99,
            100,
            255,
            256,
            65_535,
            65_536,
            (1 << 32) - 1,
            1 << 32,
            1 << 53,
            (1 << 53) + 1,
            i64::MAX as usize,
            1 << 63,
            usize::MAX - 1,
            usize::MAX,
        ]),
        1 => r.u64() as usize >> r.below(64),
        _ => r.range(1, 200),
    }
}

fn round_trip(r: &mut R, lo: usize, hi: usize) -> FileCase {
    let mut g = gen::graph(r, lo, hi);
    if r.chance(40) {
        for a in g.adds.iter_mut() {
            a.2 = any_weight(r);
        }
    }
    FileCase::RoundTrip {
        g,
        existing: if r.chance(40) { r.range(1, 30_000) } else { 0 },
        isolated: if r.chance(30) { r.range(1, 5) } else { 0 },
    }
}

fn large_round_trip(r: &mut R) -> FileCase {
    let w = r.pick(&[W::Few, W::Large, W::Huge]);
    let n = r.range(500, 12_000);
    FileCase::RoundTrip {
        g: sparse_graph(r, n, w),
        existing: if r.chance(40) { 2_000_000 } else { 0 },
        isolated: if r.chance(30) { r.range(1, 500) } else { 0 },
    }
}

/// Files of 1 to 25 MB.
fn huge_round_trip(r: &mut R) -> FileCase {
    let n = r.pick(&[30_000usize, 60_000, 60_000, 120_000, 400_000]);
    let w = r.pick(&[W::Large, W::Huge]);
    FileCase::RoundTrip {
        g: sparse_graph(r, n, w),
        existing: if r.chance(40) { 25_000_000 } else { 0 },
        isolated: 0,
    }
}

pub fn arcs(r: &mut R, n: usize, len: usize) -> Vec<Line> {
    (0..len)
        .map(|_| {
            let (a, b) = (r.below(n), r.below(n));
            let w = any_weight(r);
            let style = r.below(6) as u8;
            Line::Arc(a, b, w, style)
        })
        .collect()
}

/// An arc line that is wrong in some way.
fn bad_arc(r: &mut R, base: usize, n: usize) -> String {
    let (a, b) = (r.below(n) + base, r.below(n) + base);
    r.pick(&[
        format!("a {} {}", a, b),
        format!("a {}", a),
        "a ".to_string(),
        format!("a {} {} 3 4", a, b),
        format!("a {} {} 3 x", a, b),
        format!("a {} {} -3", a, b),
        format!("a -{} {} 3", a + 1, b),
        format!("a {} -{} 3", a, b + 1),
        format!("a {} {} 1.5", a, b),
        format!("a {} {} 1e3", a, b),
        format!("a {} {} 0x10", a, b),
        format!("a {} {} 3,5", a, b),
        format!("a {} {} abc", a, b),
        format!("a x {} 3", b),
        format!("a {} y 3", a),
        format!("a {} {} 18446744073709551616", a, b),
        format!("a {} {} 99999999999999999999999", a, b),
        format!("a 18446744073709551617 {} 3", b),
    ])
}

/// Adds comments that exceed the size of buffers.
fn long_lines(r: &mut R, lines: &mut Vec<Line>, from: usize) {
    for _ in 0..r.range(1, 4) {
        let at = from + r.below(lines.len() + 1 - from);
        let len = r.pick(&[1000usize, 4095, 8190, 8191, 8192, 8193, 16_384, 65_536, 100_000]) + r.below(3);
        let filler = r.pick(&["x", "a 1 2 3 ", "\u{e4}", "\u{1f6e3}"]);
        let mut s = "c ".to_string();
        while s.len() < len {
            s += filler;
        }
        lines.insert(at, Line::Other(s));
    }
}

pub struct C13;
impl Property for C13 {
    type C = FileCase;
    const ID: &'static str = "C13";
    const SCALE: u64 = 8;
    const RULE: &'static str = "random graphs written with to_file (also over existing, longer files), the file parsed independently and read again with from_file; random files with arc lines in various layouts (spaces, tabs, leading zeros, CR LF, missing last newline), weights up to usize::MAX, ids up to 2^40, loops, zero weights, parallel arcs and lines to be ignored; and files with a malformed arc line (missing, additional, negative, fractional, non-numeric or too large numbers), which must be refused; files with lines of up to 100 KB; and files of which single bytes or lines were changed, removed, inserted or cut off (also into invalid UTF-8), judged by an independent parser. Non-trivial: at least two edges, or a refused file of several lines";
    fn strata(tier: Tier) -> Vec<Stratum<FileCase>> {
        fn ignored(r: &mut R) -> Line {
            Line::Other(r.pick(&[
                "".to_string(),
                "c a comment".to_string(),
                "c a 1 2 3".to_string(),
                "p sp 3 5".to_string(),
                "# a 0 1 2".to_string(),
                "b 0 1 2".to_string(),
                "0 1 2".to_string(),
                "edge 0 1 2".to_string(),
                " a 0 1 2".to_string(),
                "A 0 1 2".to_string(),
                "aa 0 1 2".to_string(),
                "some text \u{e4}\u{f6}\u{fc} \u{1f6e3}".to_string(),
            ]))
        }
        vec![
            random("round trip", tier.cases(30_000, 600_000), |r| {
                let mut c = round_trip(r, 2, 60);
                if let FileCase::RoundTrip { isolated, .. } = &mut c {
                    *isolated = 0;
                }
                c
            }),
            random("very large round trip", tier.cases(3, 60), huge_round_trip),
            random("large round trip", tier.cases(60, 1500), |r| {
                let mut c = large_round_trip(r);
                if let FileCase::RoundTrip { isolated, .. } = &mut c {
                    *isolated = 0;
                }
                c
            }),
            random("read", tier.cases(40_000, 800_000), |r| {
                let n = r.pick(&[2usize, 3, 5, 20, 1000, 1 << 33]);
                let len = r.below(30);
                let mut lines = arcs(r, n, len);
                if r.chance(60) {
                    for _ in 0..r.range(1, 6) {
                        let at = r.below(lines.len() + 1);
                        let l = ignored(r);
                        lines.insert(at, l);
                    }
                }
                FileCase::Read {
                    lines,
                    crlf: r.chance(20),
                    last_newline: r.chance(80),
                    bad: false,
                }
            }),
            random("changed", tier.cases(60_000, 1_500_000), |r| {
                let n = r.pick(&[2usize, 3, 5, 20, 1000]);
                let len = r.below(8);
                let mut lines = arcs(r, n, len);
                for _ in 0..r.below(3) {
                    let at = r.below(lines.len() + 1);
                    let l = ignored(r);
                    lines.insert(at, l);
                }
                FileCase::Bytes(mutated(r, &lines, false))
            }),
            random("long lines", tier.cases(300, 8_000), |r| {
                let len = r.below(3000);
                let mut lines = arcs(r, 500, len);
                long_lines(r, &mut lines, 0);
                FileCase::Read {
                    lines,
                    crlf: r.chance(20),
                    last_newline: r.chance(80),
                    bad: false,
                }
            }),
            random("invalid", tier.cases(20_000, 400_000), |r| {
                let len = r.below(8);
                let mut lines = arcs(r, 10, len);
                let at = r.below(lines.len() + 1);
                let bad = bad_arc(r, 0, 10);
                lines.insert(at, Line::Other(bad));
                FileCase::Read {
                    lines,
                    crlf: false,
                    last_newline: r.chance(80),
                    bad: true,
                }
            }),
        ]
    }
    fn check(case: &FileCase, t: &mut Tally) -> Result<(), String> {
        check_file(case, false, t)
    }
}

pub struct C14;
impl Property for C14 {
    type C = FileCase;
    const ID: &'static str = "C14";
    const SCALE: u64 = 6;
    const RULE: &'static str = "random graphs (also with nodes without edges at the end) written with to_dimacs_file, the file parsed independently and read again with from_dimacs_file; random valid DIMACS files (comments, empty lines, several layouts, loops, zero weights, parallel arcs), which must yield the stated number of nodes and be usable for routing; and files with a single defect in header, arc count, node ids, arc lines or unknown lines, which must be refused; files with comments of up to 100 KB; and files of which single bytes or lines were changed, removed, inserted or cut off (also into invalid UTF-8), judged by an independent parser. Non-trivial: at least two edges, or a refused file of several lines";
    fn strata(tier: Tier) -> Vec<Stratum<FileCase>> {
        fn comment(r: &mut R) -> Line {
            Line::Other(r.pick(&[
                "".to_string(),
                "c".to_string(),
                "c a comment".to_string(),
                "c a 1 2 3".to_string(),
                "c p sp 3 5".to_string(),
                "c \u{e4}\u{f6}\u{fc}".to_string(),
            ]))
        }
        fn valid(r: &mut R) -> (Vec<Line>, usize, usize) {
            let used = r.pick(&[2usize, 3, 5, 12, 30]);
            let n = used + if r.chance(40) { r.range(1, 6) } else { 0 };
            let len = r.below(25);
            let mut lines = vec![Line::Header(n, len)];
            lines.extend(arcs(r, used, len));
            (lines, n, len)
        }
        fn with_comments(r: &mut R, lines: &mut Vec<Line>) {
            if r.chance(60) {
                for _ in 0..r.range(1, 6) {
                    let at = r.below(lines.len() + 1);
                    let l = comment(r);
                    lines.insert(at, l);
                }
            }
        }
        vec![
            random("round trip", tier.cases(30_000, 600_000), |r| {
                round_trip(r, 2, 60)
            }),
            random("large round trip", tier.cases(60, 1500), large_round_trip),
            random("very large round trip", tier.cases(4, 60), huge_round_trip),
            random("read", tier.cases(40_000, 800_000), |r| {
                let (mut lines, _, _) = valid(r);
                with_comments(r, &mut lines);
                FileCase::Read {
                    lines,
                    crlf: r.chance(20),
                    last_newline: r.chance(80),
                    bad: false,
                }
            }),
            random("changed", tier.cases(60_000, 1_500_000), |r| {
                let (mut lines, _, _) = valid(r);
                with_comments(r, &mut lines);
                FileCase::Bytes(mutated(r, &lines, true))
            }),
            random("long lines", tier.cases(300, 8_000), |r| {
                let len = r.below(3000);
                let mut lines = vec![Line::Header(500 + r.below(9), len)];
                lines.extend(arcs(r, 500, len));
                long_lines(r, &mut lines, 0);
                FileCase::Read {
                    lines,
                    crlf: r.chance(20),
                    last_newline: r.chance(80),
                    bad: false,
                }
            }),
            random("invalid", tier.cases(60_000, 1_000_000), |r| {
                let (mut lines, n, len) = valid(r);
                let other = |s: String| Line::Other(s);
                let anywhere = |r: &mut R, lines: &Vec<Line>| 1 + r.below(lines.len());
                match r.below(12) {
                    // no header
                    0 if len > 0 => {
                        lines.remove(0);
                    }
                    // header too late
                    1 if len > 0 => {
                        let h = lines.remove(0);
                        let at = 1 + r.below(lines.len());
                        lines.insert(at, h);
                    }
                    // twice
                    2 => {
                        let at = anywhere(r, &lines);
                        lines.insert(at, Line::Header(n, len));
                    }
                    // too few arcs
                    3 | 4 => lines[0] = Line::Header(n, len + r.range(1, 3)),
                    // too many
                    5 if len > 0 => lines[0] = Line::Header(n, len - r.range(1, len)),
                    // id 0, or too large
                    6 | 7 => {
                        lines[0] = Line::Header(n, len + 1);
                        let v = 1 + r.below(n);
                        let z = r.pick(&[0, n + 1, n + 2, 10 * n, usize::MAX]);
                        let at = anywhere(r, &lines);
                        let w = r.range(1, 9);
                        let l = match r.below(3) {
                            0 => format!("a {} {} {}", v, z, w),
                            1 => format!("a {} {} {}", z, v, w),
                            _ => format!("a {} {} {}", z, z, w),
                        };
                        lines.insert(at, other(l));
                    }
                    8 => {
                        lines[0] = other(r.pick(&[
                            format!("p sp {}", n),
                            "p sp ".to_string(),
                            format!("p sp {} {} 1", n, len),
                            format!("p sp {} x", n),
                            format!("p sp x {}", len),
                            format!("p sp -{} {}", n, len),
                            format!("p sp {}.0 {}", n, len),
                            format!("p sp {} 99999999999999999999999", n),
                            format!("p max {} {}", n, len),
                            format!("p xx {} {}", n, len),
                            format!("p SP {} {}", n, len),
                            format!("p edge {} {}", n, len),
                            format!("p aux sp p2p {}", len),
                        ]));
                    }
                    9 => {
                        let at = r.below(lines.len() + 1);
                        let l = r.pick(&["p max 4 5", "p aux sp", "x 1 2 3", "1 2 3", "e 1 2 3", "edge 1 2 3", "A 1 2 3", "#"]);
                        lines.insert(at, other(l.to_string()));
                    }
                    _ => {
                        lines[0] = Line::Header(n, len + 1);
                        let at = anywhere(r, &lines);
                        let b = bad_arc(r, 1, n);
                        lines.insert(at, other(b));
                    }
                }
                FileCase::Read {
                    lines,
                    crlf: false,
                    last_newline: r.chance(80),
                    bad: true,
                }
            }),
        ]
    }
    fn check(case: &FileCase, t: &mut Tally) -> Result<(), String> {
        check_file(case, true, t)
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// The file system takes this many bytes (per mille of the size of the file).
    Limit(u32),
    /// as above, in bytes
    Bytes(u64),
    /// so many bytes less than needed
    Missing(u64),
    /// every number of bytes, from 0 to the size of the file
    Every,
    /// /dev/full
    Full,
    NoDirectory,
    IsDirectory,
    /// the write call of this number behaves in this way (and all that follow, if set)
    Nth(u32, Act, bool),
    /// every write call in turn behaves in this way
    EveryNth(Act, bool),
}

/// What a single call of write(2) does.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// fails with this error number
    Errno(i32),
    /// takes at most so many bytes
    Short(usize),
    /// takes at most so many bytes, and the next call fails with this error number
    Partly(usize, i32),
}

/// Stands in for write(2), read(2) and their relatives in this program: calls of a thread with a plan
/// follow this plan, all the others are passed on.
pub mod calls {
    use super::Act;
    use std::cell::{Cell, RefCell};

    pub struct Plan {
        /// whether this is about read, rather than write
        pub reads: bool,
        /// the first call that this applies to
        pub at: u32,
        pub act: Act,
        pub persistent: bool,
        pub calls: u32,
        /// how many calls have failed, apart from interrupted ones
        pub failed: u32,
        pub interrupted: u32,
        pub shortened: u32,
    }

    impl Plan {
        pub fn new(reads: bool, at: u32, act: Act, persistent: bool) -> Plan {
            Plan {
                reads,
                at,
                act,
                persistent,
                calls: 0,
                failed: 0,
                interrupted: 0,
                shortened: 0,
            }
        }
    }

    thread_local! {
        static ACTIVE: Cell<bool> = const { Cell::new(false) };
        static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
    }

    pub fn set(plan: Plan) {
        PLAN.with(|p| *p.borrow_mut() = Some(plan));
        ACTIVE.with(|a| a.set(true));
    }

    pub fn take() -> Option<Plan> {
        ACTIVE.with(|a| a.set(false));
        PLAN.with(|p| p.borrow_mut().take())
    }

    /// What the next call shall do: Err is an error number, Ok the number of bytes to pass on.
    fn next(len: usize, reads: bool) -> Result<usize, i32> {
        if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            return Ok(len);
        }
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let p = match p.as_mut() {
                Some(p) if p.reads == reads => p,
                _ => return Ok(len),
            };
            let k = p.calls;
            p.calls += 1;
            if let Act::Partly(n, e) = p.act {
                if k == p.at || p.persistent && k > p.at && (k - p.at) % 2 == 0 {
                    p.shortened += (n < len) as u32;
                    return Ok(n.min(len));
                }
                if k == p.at + 1 || p.persistent && k > p.at {
                    p.failed += 1;
                    return Err(e);
                }
                return Ok(len);
            }
            // an interruption that never ends would be no fault, but a hang
            let forever = p.persistent && p.act != Act::Errno(libc::EINTR);
            if k == p.at || forever && k > p.at || p.persistent && k > p.at && k % 2 == p.at % 2 {
                match p.act {
                    Act::Errno(e) => {
                        if e == libc::EINTR {
                            p.interrupted += 1;
                        } else {
                            p.failed += 1;
                        }
                        return Err(e);
                    }
                    // takes nothing, which is no success either
                    Act::Short(0) => {
                        p.failed += (len > 0) as u32;
                        return Ok(0);
                    }
                    Act::Short(n) => {
                        p.shortened += (n < len) as u32;
                        return Ok(n.min(len));
                    }
                    Act::Partly(..) => unreachable!(),
                }
            }
            Ok(len)
        })
    }

    unsafe fn fail(e: i32) -> isize {
        *libc::__errno_location() = e;
        -1
    }

    thread_local! {
        static WATCHING: Cell<bool> = const { Cell::new(false) };
        static PRINTED: Cell<usize> = const { Cell::new(0) };
    }

    /// Whether what this thread prints is counted, and swallowed. Returns how much it was.
    pub fn watch(on: bool) -> usize {
        WATCHING.with(|w| w.set(on));
        PRINTED.with(|p| p.replace(0))
    }

    fn swallowed(fd: i32, len: usize) -> bool {
        let watching = (fd == 1 || fd == 2) && WATCHING.try_with(|w| w.get()).unwrap_or(false);
        if watching {
            PRINTED.with(|p| p.set(p.get() + len));
        }
        watching
    }

    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, len: usize) -> isize {
        if swallowed(fd, len) {
            return len as isize;
        }
        match next(len, false) {
            Err(e) => fail(e),
            Ok(n) => libc::syscall(libc::SYS_write, fd, buf, n) as isize,
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, len: usize, at: i64) -> isize {
        match next(len, false) {
            Err(e) => fail(e),
            Ok(n) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, at) as isize,
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, len: usize) -> isize {
        match next(len, true) {
            Err(e) => fail(e),
            Ok(n) => libc::syscall(libc::SYS_read, fd, buf, n) as isize,
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn pread64(fd: i32, buf: *mut libc::c_void, len: usize, at: i64) -> isize {
        match next(len, true) {
            Err(e) => fail(e),
            Ok(n) => libc::syscall(libc::SYS_pread64, fd, buf, n, at) as isize,
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn readv(fd: i32, v: *const libc::iovec, count: i32) -> isize {
        let len: usize = (0..count.max(0) as usize).map(|i| (*v.add(i)).iov_len).sum();
        match next(len, true) {
            Err(e) => fail(e),
            Ok(n) if n == len => libc::syscall(libc::SYS_readv, fd, v, count) as isize,
            Ok(n) => {
                let first = (0..count as usize).map(|i| *v.add(i)).find(|i| i.iov_len > 0).unwrap();
                libc::syscall(libc::SYS_read, fd, first.iov_base, first.iov_len.min(n)) as isize
            }
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, count: i32) -> isize {
        // as the first part only, if it cannot be all
        let len: usize = (0..count.max(0) as usize).map(|i| (*v.add(i)).iov_len).sum();
        if swallowed(fd, len) {
            return len as isize;
        }
        match next(len, false) {
            Err(e) => fail(e),
            Ok(n) if n == len => libc::syscall(libc::SYS_writev, fd, v, count) as isize,
            Ok(n) => {
                let first = (0..count as usize).map(|i| *v.add(i)).find(|i| i.iov_len > 0).unwrap();
                libc::syscall(libc::SYS_write, fd, first.iov_base, first.iov_len.min(n)) as isize
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    pub g: G,
    pub dimacs: bool,
    pub faults: Vec<Fault>,
}

impl Case for FaultCase {
    fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
        let f = shrink_list(&self.faults, 1)
            .into_iter()
            .map(move |faults| FaultCase {
                faults,
                ..self.clone()
            });
        let g = self.g.shrinks().map(move |g| FaultCase {
            g,
            ..self.clone()
        });
        Box::new(f.chain(g))
    }
}

#[derive(Serialize, Deserialize)]
struct Job {
    g: G,
    dimacs: bool,
    attempts: Vec<Attempt>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Attempt {
    path: String,
    /// of the size of the file
    limit: Option<u64>,
    plan: Option<(u32, Act, bool)>,
}

/// what has been returned, and the size of the file afterwards
#[derive(Serialize, Deserialize, Debug)]
struct Outcome {
    result: String,
    size: Option<u64>,
    /// calls of write, failed ones, interrupted and shortened ones (if there was a plan)
    calls: u32,
    failed: u32,
    disturbed: u32,
}

/// The other process: writes files with limited file sizes (RLIMIT_FSIZE, which is per process).
pub fn writer() -> i32 {
    install_panic_hook();
    unsafe {
        // writing fails with EFBIG then
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let set = |soft: Option<u64>| unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = soft.map(|s| s as libc::rlim_t).unwrap_or(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_FSIZE, &l) == 0
    };
    let stdin = std::io::stdin().lock();
    for line in stdin.lines() {
        let job: Job = match line.ok().and_then(|l| serde_json::from_str(&l).ok()) {
            Some(j) => j,
            None => return 2,
        };
        let g = job.g.input();
        let mut out = vec![];
        for Attempt { path, limit, plan } in &job.attempts {
            if let Some(l) = limit {
                if !set(Some(*l)) {
                    return 2;
                }
            }
            if let Some((at, act, persistent)) = plan {
                calls::set(calls::Plan::new(false, *at, *act, *persistent));
            }
            let r = guard(|| {
                if job.dimacs {
                    g.to_dimacs_file(path)
                } else {
                    g.to_file(path)
                }
            });
            let plan = calls::take();
            if !set(None) {
                return 2;
            }
            out.push(Outcome {
                calls: plan.as_ref().map_or(0, |p| p.calls),
                failed: plan.as_ref().map_or(0, |p| p.failed),
                disturbed: plan.as_ref().map_or(0, |p| p.interrupted + p.shortened),
                result: match r {
                    Ok(Ok(())) => "ok".to_string(),
                    Ok(Err(e)) => format!("error: {}", e),
                    Err(e) => format!("panic: {}", e),
                },
                size: std::fs::metadata(path)
                    .ok()
                    .filter(|m| m.is_file())
                    .map(|m| m.len()),
            });
        }
        println!("{}", serde_json::to_string(&out).unwrap());
        let _ = std::io::stdout().flush();
    }
    0
}

struct Writer {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Writer {
    fn start() -> Writer {
        let mut child = ends_with_parent(Command::new(std::env::current_exe().unwrap()).arg("writer"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a child process");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Writer {
            child,
            stdin,
            stdout,
        }
    }
    fn run(&mut self, job: &Job) -> Option<Vec<Outcome>> {
        let mut s = serde_json::to_string(job).unwrap();
        s.push('\n');
        self.stdin.write_all(s.as_bytes()).ok()?;
        self.stdin.flush().ok()?;
        let mut line = String::new();
        self.stdout.read_line(&mut line).ok()?;
        serde_json::from_str(&line).ok()
    }
}

impl Drop for Writer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WRITER: std::cell::RefCell<Option<Writer>> = const { std::cell::RefCell::new(None) };
}

fn in_writer(job: &Job) -> Result<Vec<Outcome>, String> {
    WRITER.with(|w| {
        let mut w = w.borrow_mut();
        let r = w.get_or_insert_with(Writer::start).run(job);
        if r.is_none() {
            *w = None;
        }
        r.ok_or("the writing process has ended".to_string())
    })
}

pub struct C15;
impl Property for C15 {
    type C = FaultCase;
    const ID: &'static str = "C15";
    const SCALE: u64 = 8;
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "random graphs written with to_file and to_dimacs_file, while the file cannot grow beyond a given number of bytes (file size limit of the process, so that write fails with EFBIG): every number of bytes from 0 to the full size for small files, sampled ones and those around the buffer sizes for large ones; every single write call in turn failing with ENOSPC or EIO (once or from then on), being interrupted, taking only a part or nothing, or taking a part before the next call fails; also to /dev/full, to a directory, and into a directory that does not exist. The call must return Ok only if the file is complete, and an error only if something failed. Non-trivial: a write that failed after at least one byte had been accepted";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a failing write is stood in for by the file size limit of the process, by /dev/full, and by a stand-in for the system call wrappers write, writev and pwrite64",
    ];
    fn strata(tier: Tier) -> Vec<Stratum<FaultCase>> {
        vec![
            random("every byte", tier.cases(600, 12_000), |r| {
                let g = gen::graph(r, 2, 12);
                FaultCase {
                    g,
                    dimacs: r.chance(50),
                    faults: vec![Fault::Every],
                }
            }),
            random("sampled", tier.cases(600, 12_000), |r| {
                let w = r.pick(&[W::Few, W::Large, W::Huge]);
                let n = r.pick(&[50usize, 300, 800, 3000, 8000]);
                let g = sparse_graph(r, n, w);
                let faults = (0..12)
                    .map(|_| match r.below(8) {
                        0 => Fault::Bytes(r.pick(&[0u64, 1, 4095, 4096, 8191, 8192, 8193, 16384, 65536])),
                        1..=3 => Fault::Missing(r.pick(&[0u64, 1, 2, 5, 100, 1000, 8191, 8192, 8193])),
                        4 => Fault::Full,
                        _ => Fault::Limit(r.below(1001) as u32),
                    })
                    .collect();
                FaultCase {
                    g,
                    dimacs: r.chance(50),
                    faults,
                }
            }),
            random("large files", tier.cases(4, 60), |r| {
                let w = r.pick(&[W::Few, W::Large, W::Huge]);
                let n = r.pick(&[20_000usize, 40_000, 40_000, 120_000]);
                let g = sparse_graph(r, n, w);
                FaultCase {
                    g,
                    dimacs: r.chance(50),
                    faults: vec![
                        Fault::Missing(r.pick(&[1u64, 1, 2, 30])),
                        Fault::Missing(r.pick(&[100u64, 1000, 8193, 70_000])),
                        Fault::Limit(r.below(1001) as u32),
                        Fault::Full,
                    ],
                }
            }),
            random("every write call", tier.cases(90, 1_500), |r| {
                let w = r.pick(&[W::Few, W::Large, W::Huge]);
                let n = r.pick(&[5usize, 300, 800, 3000, 8000]);
                let g = sparse_graph(r, n, w);
                let faults = (0..3)
                    .map(|_| {
                        let act = match r.below(10) {
                            9 => Act::Short(0),
                            0 | 1 => Act::Errno(libc::ENOSPC),
                            2 | 3 => Act::Errno(libc::EIO),
                            4 => Act::Errno(libc::EINTR),
                            5..=7 => Act::Partly(
                                r.pick(&[1usize, 10, 100, 1000, 4096, 8000, 8191]),
                                r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]),
                            ),
                            _ => Act::Short(r.pick(&[1usize, 2, 100, 4096, 8191])),
                        };
                        Fault::EveryNth(act, act == Act::Short(4096) || r.chance(30) && !matches!(act, Act::Short(1..)))
                    })
                    .collect();
                FaultCase {
                    g,
                    dimacs: r.chance(50),
                    faults,
                }
            }),
            random("other places", tier.cases(400, 8_000), |r| {
                let g = gen::graph(r, 2, 40);
                FaultCase {
                    g,
                    dimacs: r.chance(50),
                    faults: vec![Fault::Full, Fault::NoDirectory, Fault::IsDirectory, Fault::Missing(1)],
                }
            }),
        ]
    }
    fn check(case: &FaultCase, t: &mut Tally) -> Result<(), String> {
        let m = case.g.model();
        let base = case.dimacs as usize;
        // the lines that a complete file has
        let mut expected: Vec<String> = m
            .edges
            .iter()
            .map(|(e, w)| format!("a {} {} {}", e.0 + base, e.1 + base, w))
            .collect();
        if case.dimacs {
            expected.push(format!("p sp {} {}", m.n, m.edges.len()));
        }
        expected.sort_unstable();
        let size: u64 = expected.iter().map(|l| l.len() as u64 + 1).sum();
        let path = scratch_file("limited");
        let name = path.to_str().unwrap().to_string();
        // by way of a link, so that the device is safe whatever is done to the file
        let full = scratch_file("full");
        let dir = scratch_file("directory");
        let prepared = || {
            let _ = std::fs::remove_file(&full);
            let _ = std::fs::create_dir(&dir);
            std::os::unix::fs::symlink("/dev/full", &full).unwrap();
        };
        let mut attempts: Vec<Attempt> = vec![];
        let mut limited = |path: &str, limit| {
            attempts.push(Attempt {
                path: path.to_string(),
                limit,
                plan: None,
            })
        };
        for f in &case.faults {
            match f {
                Fault::Limit(p) => limited(&name, Some(size * *p as u64 / 1000)),
                Fault::Bytes(b) => limited(&name, Some(*b)),
                Fault::Missing(b) => limited(&name, Some(size.saturating_sub(*b))),
                Fault::Every => (0..=size).for_each(|l| limited(&name, Some(l))),
                Fault::Full if Path::new("/dev/full").exists() => limited(full.to_str().unwrap(), None),
                Fault::Full => {}
                Fault::NoDirectory => limited(scratch().join("no/such/file").to_str().unwrap(), None),
                Fault::IsDirectory => limited(dir.to_str().unwrap(), None),
                Fault::Nth(..) | Fault::EveryNth(..) => {}
            }
        }
        let run = |a: &Attempt| {
            let _ = std::fs::remove_file(&path);
            prepared();
            let job = Job {
                g: case.g.clone(),
                dimacs: case.dimacs,
                attempts: vec![a.clone()],
            };
            in_writer(&job).map(|mut o| o.remove(0))
        };
        let complete = |path: &Path| -> Result<bool, String> {
            let s = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
            let mut got: Vec<&str> = s.lines().collect();
            got.sort_unstable();
            Ok(got == expected && s.len() as u64 == size)
        };
        for f in &case.faults {
            // every write call in turn, until there are no more of them
            let (mut at, act, persistent, all) = match f {
                Fault::Nth(k, act, p) => (*k, *act, *p, false),
                Fault::EveryNth(act, p) => (0, *act, *p, true),
                _ => continue,
            };
            loop {
                let o = run(&Attempt {
                    path: name.clone(),
                    limit: None,
                    plan: Some((at, act, persistent)),
                })?;
                let place = || {
                    format!(
                        "while write call {}{} {:?} ({} calls, {} failed)",
                        at,
                        if persistent { " and those after it" } else { "" },
                        act,
                        o.calls,
                        o.failed
                    )
                };
                if o.result == "ok" {
                    if !complete(&path)? {
                        return Err(format!("writing {} returned Ok, but the file is not complete", place()));
                    }
                } else if o.failed == 0 {
                    return Err(format!("writing {} did not succeed: {}", place(), o.result));
                }
                t.count("attempts", 1);
                t.label_if(o.failed > 0, "failing write calls");
                t.label_if(o.disturbed > 0, "interrupted or shortened write calls");
                t.nontrivial_if(o.failed > 0 && o.size.unwrap_or(0) > 0 || o.disturbed > 0);
                at += 1;
                if !all || at >= o.calls || at > 200 {
                    break;
                }
            }
        }
        for a in attempts {
            let limit = a.limit;
            let regular = a.path == name;
            let o = run(&a)?;
            let fits = regular && limit.map_or(true, |l| l >= size)
                || Path::new(&a.path) == full && (size == 0 || full.is_file() && complete(&full)?);
            let place = || match limit {
                Some(l) => format!("with {} of {} bytes available", l, size),
                None => format!("to {}", a.path),
            };
            if o.result == "ok" {
                if !fits {
                    return Err(format!("writing {} returned Ok", place()));
                }
                if regular && !complete(&path)? {
                    return Err(format!("writing {} returned Ok, but the file is not complete", place()));
                }
            } else if fits {
                return Err(format!("writing {} failed: {}", place(), o.result));
            }
            t.count("attempts", 1);
            t.label_if(!fits, "attempts that cannot succeed");
            t.label_if(limit.map_or(false, |l| l < size && size - l < 8192), "failure only in the last buffer");
            t.nontrivial_if(!fits && o.size.unwrap_or(0) > 0);
        }
        Ok(())
    }
}
