ID='pow-public-before-last-bit'; PROPERTY='C13'
NEEDS='an exponent with its top bit (bit 19) set'
BREAKS='the public output is taken before the last exponent bit is multiplied in'
EDITS=[('proof_of_space/src/circuit/pow_circuit.rs','if i == INPUT_SIZE - 1 {','if i + 2 == INPUT_SIZE {')]
DEMO='''use crate::circuit::pow_circuit::{PowDemo, INPUT_SIZE};
use ark_bls12_381::Fr; use ark_ff::Field;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
#[test] fn demo() {
    for x in [0u64, 1, 2, 77, 1 << 18, 1 << 19, (1 << 20) - 1, 600000] { for g in [2u64, 3, 12345] {
        let g = Fr::from(g);
        let bits: Vec<Option<u8>> = (0..INPUT_SIZE).map(|i| Some(((x >> i) & 1) as u8)).collect();
        let cs = ConstraintSystem::<Fr>::new_ref();
        PowDemo { g: Some(g), x_bits: &bits }.generate_constraints(cs.clone()).unwrap();
        assert!(cs.is_satisfied().unwrap());
        let b = cs.borrow().unwrap();
        assert_eq!(b.instance_assignment, vec![Fr::from(1u64), g.pow([x])]);
    } }
}
'''
