HELP = '''#![allow(dead_code, unused_imports)]
use crate::proof_of_storage::{common::*, depend::*, merkle_tree::*, postorage::*, prover::*, verifier::*};
use rug::{Integer, integer::Order};
fn dir() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("vp_demo_{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap(); d
}
fn par(blocks: usize, units: usize, rounds: usize, mode_l: usize, cnt_l: usize, mode_s: usize, cnt_s: usize) -> PosPara {
    PosPara { data_l: 63 * units * blocks, unit_l: 63, block_l: 63 * units, big_block_l: 63 * units * blocks, unit_pl: 64, block_pl: 64 * units, big_block_pl: 64 * units * blocks,
        seal_rounds: rounds, vde_rounds: 1, vde_mode: "sloth".to_string(), mode_l, mode_s, cnt_l, cnt_s, leaves_to_prove_count: 1 }
}
fn data(n: usize, seed: u64) -> Vec<u8> {
    let mut s = seed * 2 + 1; let mut v = vec![];
    for _ in 0..n { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push((s >> 56) as u8); }
    v
}
'''
