exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='storage-challenges-32-bits'; PROPERTY='C21'
NEEDS='a range of more than 2^32 indices'
BREAKS='challenges are drawn with 32 bits: indices beyond the first 2^32 of the range can never be challenged'
EDITS=[('proof_of_storage/src/proof_of_storage/verifier.rs','let num = rng.gen_range(range.0 .. range.1);','let num = range.0 + (rng.gen_range(0 .. range.1 - range.0) as u32) as usize;')]
DEMO=HELP+'''
#[test] fn demo() {
    for (lo, hi) in [(0usize, 10usize), (5, 9), (0, 1 << 40), (7, 1 << 50)] {
        let v = create_challenges(4, (lo, hi));
        assert!(v.len() == 4 && v.windows(2).all(|w| w[0] < w[1]) && v.iter().all(|x| *x >= lo && *x < hi));
    }
    let v = create_challenges(200, (0, 1 << 40));
    assert!(v.iter().any(|x| *x >= 1 << 36), "no challenge beyond 2^36 in 200 draws below 2^40");
}
'''
