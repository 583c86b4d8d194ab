//! C27: attributes that must not compile. Only ever checked, never run.
#![allow(unused)]
mod generated {
    use super::*;
    include!(concat!(env!("VERIF_DIR"), "/target/c27/badcases.rs"));
}
fn main() {}
