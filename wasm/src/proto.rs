//! What the harness and the WebAssembly module say to each other (bincode).

use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum How {
    Default,
    /// depth factor, quotient factor, the three limits
    Params(f32, f32, u32, u32, u32),
    Order(Vec<u32>, Option<u32>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Origin {
    /// written with serialize_32 on another platform
    Written(Vec<u8>),
    /// calls of add_edge or add_edge_bidir, and how to prepare
    Here(Vec<(u32, u32, u32, bool)>, How),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Request {
    pub origin: Origin,
    /// write and read the graph before using it
    pub again: bool,
    pub pairs: Vec<(u32, u32)>,
    pub lists: Vec<(Vec<(u32, u32)>, Vec<(u32, u32)>)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Answer {
    pub source: u32,
    pub target: u32,
    pub weight: u32,
    pub nodes: Vec<u32>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Response {
    pub nodes: u32,
    pub out_edges: u32,
    pub in_edges: u32,
    pub order: Vec<u32>,
    pub pairs: Vec<Option<Answer>>,
    pub lists: Vec<Option<Answer>>,
}
