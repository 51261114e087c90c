ID='hash-skips-zero-block'; PROPERTY='C07'
NEEDS='a list of hashed preimages that contains 0'
BREAKS='multi_mimc5_hash ignores zero elements, so lists that differ only in zeros collide'
EDITS=[('proof_of_space/src/mimc/mimc_hash.rs','''        let h = mimc5_hash(x_inputs[i], r, constants);''','''        if x_inputs[i].is_zero() {
            continue;
        }
        let h = mimc5_hash(x_inputs[i], r, constants);''')]
DEMO='''use crate::mimc::mimc_hash::*;
use ark_bls12_381::Fr;
use ark_ff::Field;
#[test] fn demo() {
    let c: Vec<Fr> = (0..MIMC5_HASH_ROUNDS as u64).map(|i| Fr::from(i * i + 11)).collect();
    for xs in [vec![1u64, 2, 3], vec![0], vec![5, 0], vec![0, 5], vec![0, 0, 9], vec![]] {
        let v: Vec<Fr> = xs.iter().map(|x| Fr::from(*x)).collect();
        let key = Fr::from(77u64);
        let mut r = key;
        for x in &v {
            let mut h = *x + r;
            h = h.pow(&[5u64]);
            for i in 1..MIMC5_HASH_ROUNDS { h = (h + r + c[i]).pow(&[5u64]); }
            h += r;
            r = r + x + h;
        }
        assert_eq!(multi_mimc5_hash(&v, key, &c), r, "{:?}", xs);
    }
}
'''
