// Entry points handed to the verifier. Added (as a module of the scratch copy of the crate, never in
// /repo) on every run; each one only names a function of the crate at the types the crate uses.
#![allow(dead_code, unused)]
use rug::Integer;
use num_bigint::BigInt;
use rs_merkle::{MerkleTree, MerkleProof, algorithms::Sha256};
use crate::proof_of_storage::{common, depend, merkle_tree, postorage::{self, PosPara}, prover, verifier};
use crate::vde::{rug_sloth, rug_vde};

pub fn vp_root_to_units(x: &Vec<u8>, l: usize) -> Vec<Vec<u8>> { common::to_units(x, l) }
pub fn vp_root_com_units(x: &Vec<Vec<u8>>) -> Vec<u8> { common::com_units(x) }
pub fn vp_root_vecu8_xor(a: &Vec<u8>, b: &Vec<u8>) -> Vec<u8> { common::vecu8_xor(a, b) }
pub fn vp_root_modadd(a: &Vec<u8>, b: &Vec<u8>, p: &Integer) -> Vec<u8> { common::modadd(a, b, p) }
pub fn vp_root_modsub(a: &Vec<u8>, b: &Vec<u8>, p: &Integer) -> Vec<u8> { common::modsub(a, b, p) }
pub fn vp_root_copy_and_pad(o: &str, n: &str, d: usize, u: usize) { prover::copy_and_pad(o, n, d, u) }
pub fn vp_root_copy_and_compress(o: &str, n: &str, d: usize, u: usize, pl: usize) { prover::copy_and_compress(o, n, d, u, pl) }
pub fn vp_root_long_depend(i: usize, c: usize, m: usize) -> Vec<usize> { depend::long_depend(i, c, m) }
pub fn vp_root_long_mode_random(n: usize, d: &Vec<u8>, i: usize, c: usize) -> Vec<usize> { depend::long_mode_random(n, d, i, c) }
pub fn vp_root_short_depend(n: usize, i: usize, c: usize, m: usize) -> Vec<usize> { depend::short_depend(n, i, c, m) }
pub fn vp_root_short_depend_random(n: usize, d: &Vec<u8>, i: usize, c: usize) -> Vec<usize> { depend::short_depend_random(n, d, i, c) }
pub fn vp_root_create_long_depend(n: usize, c: usize, m: usize) -> Vec<Vec<usize>> { prover::create_long_depend(n, c, m) }
pub fn vp_root_create_short_depend(n: usize, c: usize, m: usize) -> Vec<Vec<usize>> { prover::create_short_depend(n, c, m) }
pub fn vp_root_legendre(x: Integer, p: &Integer) -> Integer { rug_sloth::legendre(x, p) }
pub fn vp_root_single_sloth(x: &Integer, p: &Integer) -> Integer { rug_sloth::single_sloth(x, p) }
pub fn vp_root_single_sloth_inv(x: &Integer, p: &Integer) -> Integer { rug_sloth::single_sloth_inv(x, p) }
pub fn vp_root_sloth(x: &Integer, p: &Integer, t: usize) -> Integer { rug_sloth::sloth(x, p, t) }
pub fn vp_root_sloth_inv(x: &Integer, p: &Integer, t: usize) -> Integer { rug_sloth::sloth_inv(x, p, t) }
pub fn vp_root_vde(x: &Vec<u8>, p: &Integer, t: usize, mode: &String, l: usize) -> Vec<u8> { rug_vde::vde(x, p, t, mode, l) }
pub fn vp_root_vde_inv(x: &Vec<u8>, p: &Integer, t: usize, mode: &String, l: usize) -> Vec<u8> { rug_vde::vde_inv(x, p, t, mode, l) }
pub fn vp_root_seal(p: &PosPara, path: &str, k: &Integer, iv: &Vec<u8>) -> (Vec<Vec<u8>>, f32, f32, f32, f32, f32, f32) { prover::seal(p, path, k, iv) }
pub fn vp_root_unseal(p: &PosPara, path: &str, k: &Integer, iv: &Vec<u8>) -> (f32, f32, f32, f32, f32, f32) { prover::unseal(p, path, k, iv) }
pub fn vp_root_single_unseal_prepare(path: &str, b: usize, p: &PosPara) -> (Vec<Vec<u8>>, Vec<u8>, Vec<Vec<Vec<u8>>>) { verifier::single_unseal_prepare(path, b, p) }
pub fn vp_root_batch_unseal_prepare(path: &str, b: usize, e: usize, p: &PosPara) -> (Vec<usize>, Vec<Vec<Vec<u8>>>, Vec<Vec<u8>>, Vec<Vec<Vec<Vec<u8>>>>) { verifier::batch_unseal_prepare(path, b, e, p) }
pub fn vp_root_batch_unseal(p: &PosPara, bi: &Vec<usize>, b: &mut Vec<Vec<Vec<u8>>>, ids: &Vec<Vec<u8>>, d: &Vec<Vec<Vec<Vec<u8>>>>, k: &Integer, iv: &Vec<u8>) -> Vec<Vec<Vec<u8>>> { verifier::batch_unseal(p, bi, b, ids, d, k, iv) }
pub fn vp_root_create_challenges(n: usize, r: (usize, usize)) -> Vec<usize> { verifier::create_challenges(n, r) }
pub fn vp_root_batch_verify(path: &str, i: usize, b: &Vec<Vec<u8>>, bl: usize, ul: usize) { verifier::batch_verify(path, i, b, bl, ul) }
pub fn vp_root_merkle_from_file(path: &str, d: usize, l: usize) -> (Vec<[u8; 32]>, MerkleTree<Sha256>, [u8; 32]) { merkle_tree::generate_merkle_tree_from_file(path, d, l) }
pub fn vp_root_merkle_from_data(v: &Vec<Vec<u8>>) -> (Vec<[u8; 32]>, MerkleTree<Sha256>, [u8; 32]) { merkle_tree::generate_merkle_tree_from_data(v) }
pub fn vp_root_merkle_proof(i: &[usize], t: &MerkleTree<Sha256>) -> MerkleProof<Sha256> { merkle_tree::generate_merkle_proof(i, t) }
pub fn vp_root_merkle_verify(p: MerkleProof<Sha256>, r: [u8; 32], i: &[usize], l: &Vec<[u8; 32]>) { merkle_tree::verify_merkle_proof(p, r, i, l) }
pub fn vp_root_prepare_params(l: usize) -> (Integer, Vec<u8>) { postorage::prepare_params(l) }
pub fn vp_root_blake3_hash(x: &Vec<u8>) -> Vec<u8> { common::blake3_hash(x) }
pub fn vp_root_big_legendre(x: BigInt, p: &BigInt) -> BigInt { crate::vde::sloth::legendre(x, p) }
pub fn vp_root_big_single_sloth(x: &BigInt, p: &BigInt) -> BigInt { crate::vde::sloth::single_sloth(x, p) }
pub fn vp_root_big_single_sloth_inv(x: &BigInt, p: &BigInt) -> BigInt { crate::vde::sloth::single_sloth_inv(x, p) }
pub fn vp_root_big_sloth(x: &BigInt, p: &BigInt, t: usize) -> BigInt { crate::vde::sloth::sloth(x, p, t) }
pub fn vp_root_big_sloth_inv(x: &BigInt, p: &BigInt, t: usize) -> BigInt { crate::vde::sloth::sloth_inv(x, p, t) }
pub fn vp_root_unseal_and_verify(p: &PosPara, o: &str, bi: &Vec<usize>, b: &Vec<Vec<Vec<u8>>>, ids: &Vec<Vec<u8>>, d: &Vec<Vec<Vec<Vec<u8>>>>, k: &Integer, iv: &Vec<u8>) { verifier::batch_unseal_and_verify(p, o, bi, b, ids, d, k, iv) }
pub fn vp_root_merkle_tree_proof(o: &str, u: &str, d: usize, b: usize, n: usize) { postorage::merkle_tree_proof(o, u, d, b, n) }
pub fn vp_root_batch_unseal_parallel(p: &PosPara, bi: &Vec<usize>, b: &Vec<Vec<Vec<u8>>>, ids: &Vec<Vec<u8>>, d: &Vec<Vec<Vec<Vec<u8>>>>, k: &Integer, iv: &Vec<u8>, n: usize) -> Vec<Vec<Vec<u8>>> { verifier::batch_unseal_parallel(p, bi, b, ids, d, k, iv, n) }
pub fn vp_root_save_data(path: &str, k: &Integer, iv: &Vec<u8>) { postorage::save_data(path, k, iv) }
pub fn vp_root_load_data(path: &str) -> (Integer, Vec<u8>) { postorage::load_data(path) }
pub fn vp_root_seal_and_unseal(p: &PosPara, o: &str, s: &str, u: &str, pd: &str, rf: &mut std::fs::File, save: bool, un: bool, sf: &mut std::fs::File) { postorage::seal_and_unseal(p, o, s, u, pd, rf, save, un, sf) }
pub fn vp_root_gen_posdata(l: usize) -> PosPara { common::gen_posdata(l) }
pub fn vp_root_create_random_file(path: &str, n: usize) -> std::io::Result<()> { verifier::create_random_file(path, n) }
