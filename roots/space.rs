// Entry points handed to the verifier. Added (as a module of the scratch copy of the crate, never in
// /repo) on every run; each one only names a function of the crate at the types the crate uses.
#![allow(dead_code, unused)]
use ark_bls12_381::{Fr, Bls12_381};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError};
use ark_groth16::{Proof, PreparedVerifyingKey, ProvingKey};
use crate::circuit::*;

pub fn vp_root_bytes_to_bits(x: &Vec<u8>) -> Vec<bool> { crate::proof_of_space::convert::bytes_to_bits(x) }
pub fn vp_root_bits_to_bytes(x: &Vec<bool>) -> Vec<u8> { crate::proof_of_space::convert::bits_to_bytes(x) }
pub fn vp_root_bits_to_usize(x: &Vec<bool>) -> usize { crate::proof_of_space::convert::bits_to_usize(x) }
pub fn vp_root_usize_to_bits(x: usize, n: usize) -> Vec<bool> { crate::proof_of_space::convert::usize_to_bits(x, n) }
pub fn vp_root_mimc3_df(xl: Fr, xr: Fr, c: &Vec<Fr>) -> Fr { crate::mimc::mimc_df::mimc3_df::<Fr>(xl, xr, c) }
pub fn vp_root_mimc5_df(xl: Fr, xr: Fr, c: &Vec<Fr>) -> Fr { crate::mimc::mimc_df::mimc5_df::<Fr>(xl, xr, c) }
pub fn vp_root_mimc7_hash(x: Fr, k: Fr, c: &Vec<Fr>) -> Fr { crate::mimc::mimc_hash::mimc7_hash::<Fr>(x, k, c) }
pub fn vp_root_mimc5_hash(x: Fr, k: Fr, c: &Vec<Fr>) -> Fr { crate::mimc::mimc_hash::mimc5_hash::<Fr>(x, k, c) }
pub fn vp_root_multi_mimc7_hash(x: &Vec<Fr>, k: Fr, c: &Vec<Fr>) -> Fr { crate::mimc::mimc_hash::multi_mimc7_hash::<Fr>(x, k, c) }
pub fn vp_root_multi_mimc5_hash(x: &Vec<Fr>, k: Fr, c: &Vec<Fr>) -> Fr { crate::mimc::mimc_hash::multi_mimc5_hash::<Fr>(x, k, c) }
pub fn vp_root_prepare_space(p: &str, n: usize) -> std::io::Result<()> { crate::proof_of_space::prover::prepare_space(p, n) }
pub fn vp_root_mark_space(p: &str, key: Fr, m: Fr, c: &Vec<Fr>, n: usize) -> (f32, f32) { crate::proof_of_space::prover::mark_space(p, key, m, c, n) }
pub fn vp_root_response_1(p: &str, ch: &Vec<usize>, key: Fr, c: &Vec<Fr>, n: usize) -> (Vec<Fr>, Vec<usize>, Fr) { crate::proof_of_space::prover::response_1(p, ch, key, c, n) }
pub fn vp_root_response_2(params: ProvingKey<Bls12_381>, key: Fr, x: &Vec<Fr>, m: Fr, dc: &Vec<Fr>, ch: &Vec<usize>, idx: &Vec<usize>, h: Fr, hc: &Vec<Fr>) -> (PreparedVerifyingKey<Bls12_381>, Proof<Bls12_381>) { crate::proof_of_space::prover::response_2(params, key, x, m, dc, ch, idx, h, hc) }
pub fn vp_root_construct_circuit(dc: &Vec<Fr>, hc: &Vec<Fr>) -> ProvingKey<Bls12_381> { crate::proof_of_space::prover::construct_circuit(dc, hc) }
pub fn vp_root_create_challenges(n: usize, end: usize) -> Vec<usize> { crate::proof_of_space::verifier::create_challenges(n, end) }
pub fn vp_root_verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key: Fr, m: Fr, ch: &Vec<usize>, idx: &Vec<usize>, h: Fr) { crate::proof_of_space::verifier::verify(pvk, proof, key, m, ch, idx, h) }
pub fn vp_root_c_mimc3_df(d: mimc3_df_circuit::MiMC3DFDemo<'_, Fr>, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> { d.generate_constraints(cs) }
pub fn vp_root_c_mimc5_df(d: mimc5_df_circuit::MiMC5DFDemo<'_, Fr>, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> { d.generate_constraints(cs) }
pub fn vp_root_c_mimc5_hash(d: mimc5_hash_circuit::MiMC5HashDemo<'_, Fr>, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> { d.generate_constraints(cs) }
pub fn vp_root_c_mimc7_hash(d: mimc7_hash_circuit::MiMC7HashDemo<'_, Fr>, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> { d.generate_constraints(cs) }
pub fn vp_root_c_equal(d: equal_circuit::EqualDemo<'_, Fr>, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> { d.generate_constraints(cs) }
pub fn vp_root_c_pow(d: pow_circuit::PowDemo<'_, Fr>, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> { d.generate_constraints(cs) }
pub fn vp_root_c_pospace(d: pospace_circuit::PospaceDemo<'_>, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> { d.generate_constraints(cs) }

// constants of the crate the contracts refer to
pub fn vp_root_const_challenge_count() -> usize { crate::proof_of_space::pospace::CHALLENGE_COUNT }
pub fn vp_root_const_response_count() -> usize { crate::proof_of_space::pospace::RESPONSE_COUNT }
pub fn vp_root_const_n() -> usize { crate::proof_of_space::pospace::N }
