//! The modules of keramics-compression that exist: the crate itself does not build because a module is missing.
#![allow(dead_code)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));
