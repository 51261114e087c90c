CIRC='''use crate::circuit::pospace_circuit::PospaceDemo;
use crate::mimc::{mimc_df::*, mimc_hash::*};
use crate::proof_of_space::pospace::N;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, OptimizationGoal};
fn consts(k: usize, s: u64) -> Vec<Fr> { (0..k as u64).map(|i| Fr::from(i * i * s + 13 * s + 5)).collect() }
fn low(y: Fr) -> Fr { let b: BigInteger256 = y.into(); let b = b.to_bits_le(); let mut v = 0u64; for j in 0..N { if b[j] { v |= 1 << j; } } Fr::from(v) }
struct Inst { key: Fr, m: Fr, dc: Vec<Fr>, hc: Vec<Fr>, xs: Vec<Fr>, ys: Vec<Fr>, h: Fr }
fn honest(xs: Vec<Fr>, s: u64) -> Inst {
    let (key, m) = (Fr::from(1234567 * s + 3), Fr::from(88 * s + 1));
    let (dc, hc) = (consts(MIMC5_DF_ROUNDS, s), consts(MIMC5_HASH_ROUNDS, s + 100));
    let ys = xs.iter().map(|x| low(mimc5_df(*x + key, m, &dc))).collect();
    let h = multi_mimc5_hash(&xs, key, &hc);
    Inst { key, m, dc, hc, xs, ys, h }
}
fn build(i: &Inst) -> ConstraintSystemRef<Fr> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    let x: Vec<_> = i.xs.iter().map(|v| Some(*v)).collect(); let yn: Vec<_> = i.ys.iter().map(|v| Some(*v)).collect();
    PospaceDemo { key: Some(i.key), x: &x, m: Some(i.m), df_constants: &i.dc, yn: &yn, x_hash: Some(i.h), hash_constants: &i.hc }.generate_constraints(cs.clone()).unwrap();
    cs
}
'''
