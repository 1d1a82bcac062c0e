#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
mod chain;
mod pools;
mod store;
mod util;
mod w;
use chain::Fault;
use serde_json::{json, Value};
use w::*;
