//! C29: equivalent ways of doing the same have the same result.

use fast_paths::{FastGraph, FastGraphBuilder, Params, ParamsWithOrder, PathCalculator, ShortestPath};

use crate::common::*;
use crate::driver::*;
use crate::gen;
use crate::model::*;

fn answer(p: Option<ShortestPath>) -> Option<(usize, usize, usize, Vec<usize>)> {
    p.map(|p| (p.get_source(), p.get_target(), p.get_weight(), p.get_nodes().clone()))
}

fn identical(what: &str, a: &FastGraph, b: &FastGraph) -> Result<(), String> {
    if bytes(a) == bytes(b) {
        return Ok(());
    }
    let (x, y) = (a.get_node_ordering(), b.get_node_ordering());
    let difference = if x != y {
        let at = (0..x.len().min(y.len())).find(|i| x[*i] != y[*i]);
        format!("the orderings differ at {:?}", at)
    } else {
        format!(
            "{} and {} out edges, {} and {} in edges",
            a.get_num_out_edges(),
            b.get_num_out_edges(),
            a.get_num_in_edges(),
            b.get_num_in_edges()
        )
    };
    Err(format!("{} yields another graph: {}", what, difference))
}

pub struct C29;
impl Property for C29 {
    type C = Routing;
    const ID: &'static str = "C29";
    const SCALE: u64 = 2;
    const RULE: &'static str = "metamorphic: random graphs prepared in any way; preparing again with the ordering that the prepared graph reports and the same limit for the witness searches, with the default parameters spelled out, and through the builder must yield the identical bytes, and the parameters must have the values given; all the forms of asking for a path between two nodes (kept or new calculator, made in either way, free functions, lists with one entry) must yield the same nodes. Non-trivial: there is a shortcut, and an answer with several edges";
    fn strata(tier: Tier) -> Vec<Stratum<Routing>> {
        fn case(r: &mut R, g: G, all: bool) -> Routing {
            let m = g.model();
            let prep = if m.n <= 60 { any_prep(r, &m) } else { calm_prep(r, &g) };
            let queries = if all { Queries::All } else { random_queries(r, m.n.max(1), 60) };
            Routing { g, prep, queries }
        }
        vec![
            random("up to 12 nodes", tier.cases(60_000, 3_000_000), |r| {
                let g = gen::graph(r, 2, 12);
                case(r, g, true)
            }),
            random("up to 60 nodes", tier.cases(6_000, 300_000), |r| {
                let g = gen::graph(r, 10, 60);
                case(r, g, false)
            }),
            random("hundreds of nodes", tier.cases(200, 6_000), |r| {
                let w = gen::weights(r);
                let n = r.range(100, 1000);
                let g = sparse_graph(r, n, w);
                case(r, g, false)
            }),
        ]
    }
    fn check(case: &Routing, t: &mut Tally) -> Result<(), String> {
        let input = case.g.input();
        let fg = case.prep.build(&input)?;
        let (d, o) = (Params::default(), ParamsWithOrder::default());
        // the limit for the witness searches
        let limit = match &case.prep {
            Prep::Default => d.max_settled_nodes_contraction,
            Prep::Params(p) => p.contraction,
            Prep::Order(_, None) => o.max_settled_nodes_contraction_with_order,
            Prep::Order(_, Some(l)) => *l,
        };
        let order = fast_paths::get_node_ordering(&fg);
        if order != fg.get_node_ordering() {
            return Err("there are two different orderings".into());
        }
        let p = ParamsWithOrder::new(limit);
        if p.max_settled_nodes_contraction_with_order != limit {
            return Err("ParamsWithOrder::new has not kept the value".into());
        }
        let again = fast_paths::prepare_with_order_with_params(&input, &order, &p)?;
        identical("preparing with the ordering and limit of the prepared graph", &fg, &again)?;
        let again = FastGraphBuilder::build_with_order_with_params(&input, &order, &p)?;
        identical("FastGraphBuilder::build_with_order_with_params", &fg, &again)?;
        match &case.prep {
            Prep::Default => {
                let again = fast_paths::prepare_with_params(&input, &d);
                identical("prepare_with_params with the default parameters", &fg, &again)?;
                let mut p = Params::new(
                    d.hierarchy_depth_factor,
                    d.max_settled_nodes_initial_relevance,
                    d.max_settled_nodes_neighbor_relevance,
                    d.max_settled_nodes_contraction,
                );
                p.edge_quotient_factor = d.edge_quotient_factor;
                let again = fast_paths::prepare_with_params(&input, &p);
                identical("spelling out the default parameters", &fg, &again)?;
                identical("FastGraphBuilder::build", &fg, &FastGraphBuilder::build(&input))?;
            }
            Prep::Params(p) => {
                let q = Params::new(p.depth, p.initial, p.neighbor, p.contraction);
                if q.hierarchy_depth_factor.to_bits() != p.depth.to_bits()
                    || q.max_settled_nodes_initial_relevance != p.initial
                    || q.max_settled_nodes_neighbor_relevance != p.neighbor
                    || q.max_settled_nodes_contraction != p.contraction
                {
                    return Err("Params::new has not kept the values".into());
                }
                let again = FastGraphBuilder::build_with_params(&input, &p.params());
                identical("FastGraphBuilder::build_with_params", &fg, &again)?;
            }
            Prep::Order(o, None) => {
                let o = as_order(o, input.get_num_nodes());
                let p = ParamsWithOrder::default();
                let again = fast_paths::prepare_with_order_with_params(&input, &o, &p)?;
                identical("prepare_with_order_with_params with the default parameters", &fg, &again)?;
                let again = FastGraphBuilder::build_with_order(&input, &o)?;
                identical("FastGraphBuilder::build_with_order", &fg, &again)?;
            }
            Prep::Order(_, Some(_)) => {}
        }
        let shortcuts = fg.get_num_out_edges() + fg.get_num_in_edges() > input.get_num_edges();
        let mut kept = fast_paths::create_calculator(&fg);
        let mut same = PathCalculator::new(fg.get_num_nodes());
        let mut several = false;
        for (s, targets) in case.queries.resolve(fg.get_num_nodes()) {
            for e in targets {
                let a = answer(kept.calc_path(&fg, s, e));
                let (x, y) = (vec![(s, 0)], vec![(e, 0)]);
                let others = [
                    ("a calculator made by PathCalculator::new", answer(same.calc_path(&fg, s, e))),
                    ("calc_path", answer(fast_paths::calc_path(&fg, s, e))),
                    (
                        "a list with one entry",
                        answer(kept.calc_path_multiple_sources_and_targets(&fg, x.clone(), y.clone())),
                    ),
                    (
                        "calc_path_multiple_sources_and_targets",
                        answer(fast_paths::calc_path_multiple_sources_and_targets(&fg, x, y)),
                    ),
                ];
                for (what, b) in others {
                    if a != b {
                        return Err(format!("{} -> {}: {:?}, but {:?} with {}", s, e, a, b, what));
                    }
                }
                several |= a.is_some_and(|a| a.3.len() > 2);
            }
        }
        t.label(case.prep.label());
        t.nontrivial_if(shortcuts && several);
        Ok(())
    }
}
