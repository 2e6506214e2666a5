#![allow(dead_code)]
extern crate alloc;
#[path = "../../mc/src/bm.rs"]
pub mod bm;
#[path = "../../mc/src/refm.rs"]
mod refm;
