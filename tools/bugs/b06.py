ID='df-extra-constants'; PROPERTY='C06'
NEEDS='a constants slice with more entries than rounds'
BREAKS='mimc5_df silently accepts a constants list of the wrong length instead of refusing it'
EDITS=[('proof_of_space/src/mimc/mimc_df.rs','assert_eq!(constants.len(), MIMC5_DF_ROUNDS);','assert!(constants.len() >= MIMC5_DF_ROUNDS);')]
DEMO='''use crate::mimc::mimc_df::*;
use ark_bls12_381::Fr;
#[test] fn demo() {
    for k in [MIMC5_DF_ROUNDS - 1, MIMC5_DF_ROUNDS, MIMC5_DF_ROUNDS + 1, MIMC5_DF_ROUNDS + 5] {
        let c: Vec<Fr> = (0..k as u64).map(|i| Fr::from(i * 7 + 1)).collect();
        let r = std::panic::catch_unwind(|| mimc5_df(Fr::from(3u64), Fr::from(4u64), &c));
        assert_eq!(r.is_ok(), k == MIMC5_DF_ROUNDS);
    }
}
'''
