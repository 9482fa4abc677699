//! The library under test on a 32 bit platform: prepares or reads a graph and answers queries.

mod proto;

use fast_paths::{FastGraph, InputGraph, Params, ParamsWithOrder, ShortestPath};
use proto::*;
use serde::{Deserialize, Serialize};

#[link(wasm_import_module = "env")]
extern "C" {
    fn report(ptr: *const u8, len: usize);
}

#[derive(Serialize, Deserialize)]
struct As32 {
    #[serde(
        serialize_with = "fast_paths::serialize_32",
        deserialize_with = "fast_paths::deserialize_32"
    )]
    graph: FastGraph,
}

#[no_mangle]
pub extern "C" fn give(len: usize) -> *mut u8 {
    Box::leak(vec![0u8; len].into_boxed_slice()).as_mut_ptr()
}

/// Takes the buffer; the result begins with its length in four bytes. To be given back with `take`.
#[no_mangle]
pub unsafe extern "C" fn run(ptr: *mut u8, len: usize) -> *mut u8 {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        unsafe { report(s.as_ptr(), s.len()) };
    }));
    let request = Box::from_raw(std::ptr::slice_from_raw_parts_mut(ptr, len));
    let request: Request = bincode::deserialize(&request).expect("request");
    let response = bincode::serialize(&handle(request)).expect("response");
    let mut out = (response.len() as u32).to_le_bytes().to_vec();
    out.extend(response);
    Box::leak(out.into_boxed_slice()).as_mut_ptr()
}

#[no_mangle]
pub unsafe extern "C" fn take(ptr: *mut u8, len: usize) {
    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(ptr, len)));
}

fn answer(p: Option<ShortestPath>) -> Option<Answer> {
    p.map(|p| Answer {
        source: p.get_source() as u32,
        target: p.get_target() as u32,
        weight: p.get_weight() as u32,
        nodes: p.get_nodes().iter().map(|v| *v as u32).collect(),
    })
}

fn list(l: &[(u32, u32)]) -> Vec<(usize, usize)> {
    l.iter().map(|(v, w)| (*v as usize, *w as usize)).collect()
}

fn handle(r: Request) -> Response {
    let mut graph = match r.origin {
        Origin::Written(b) => {
            let g: As32 = bincode::deserialize(&b).expect("reading the graph");
            g.graph
        }
        Origin::Here(adds, how) => {
            let mut g = InputGraph::new();
            for (a, b, w, bidir) in adds {
                if bidir {
                    g.add_edge_bidir(a as usize, b as usize, w as usize);
                } else {
                    g.add_edge(a as usize, b as usize, w as usize);
                }
            }
            g.freeze();
            match how {
                How::Default => fast_paths::prepare(&g),
                How::Params(d, q, a, b, c) => {
                    let mut p = Params::new(d, a as usize, b as usize, c as usize);
                    p.edge_quotient_factor = q;
                    fast_paths::prepare_with_params(&g, &p)
                }
                How::Order(o, limit) => {
                    let o: Vec<usize> = o.iter().map(|v| *v as usize).collect();
                    match limit {
                        None => fast_paths::prepare_with_order(&g, &o),
                        Some(l) => fast_paths::prepare_with_order_with_params(
                            &g,
                            &o,
                            &ParamsWithOrder::new(l as usize),
                        ),
                    }
                    .expect("preparing with this order")
                }
            }
        }
    };
    if r.again {
        let b = bincode::serialize(&graph).expect("writing");
        graph = bincode::deserialize(&b).expect("reading");
        let b = bincode::serialize(&As32 { graph }).expect("writing in 32 bit");
        let g: As32 = bincode::deserialize(&b).expect("reading in 32 bit");
        graph = g.graph;
    }
    let mut calc = fast_paths::create_calculator(&graph);
    Response {
        nodes: graph.get_num_nodes() as u32,
        out_edges: graph.get_num_out_edges() as u32,
        in_edges: graph.get_num_in_edges() as u32,
        order: fast_paths::get_node_ordering(&graph).iter().map(|v| *v as u32).collect(),
        pairs: r
            .pairs
            .iter()
            .map(|(s, t)| answer(calc.calc_path(&graph, *s as usize, *t as usize)))
            .collect(),
        lists: r
            .lists
            .iter()
            .map(|(s, t)| {
                answer(calc.calc_path_multiple_sources_and_targets(&graph, list(s), list(t)))
            })
            .collect(),
    }
}
