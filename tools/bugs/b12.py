ID='challenges-32-bits'; PROPERTY='C12'
NEEDS='a slot index width above 32'
BREAKS='challenges are drawn as 32-bit words, so for wider spaces the upper indices are never challenged'
EDITS=[('proof_of_space/src/proof_of_space/verifier.rs','''        let challenge: Vec<bool> = (0..end)
        .map(|_| { 
            let idx = rng.gen_range(0..2);
            CHOICE[idx]
         }).collect();''','''        // one draw gives all the bits of a challenge
        let word: u32 = rng.gen();
        let challenge: Vec<bool> = (0..end)
        .map(|i| { 
            let idx = ((word as u64 >> i) & 1) as usize;
            CHOICE[idx]
         }).collect();''')]
DEMO='''use crate::proof_of_space::verifier::create_challenges;
#[test] fn demo() {
    for w in [1usize, 5, 20, 32, 33, 40, 63] {
        let c = create_challenges(400, w);
        assert_eq!(c.len(), 400);
        assert!(c.iter().all(|x| *x < 1usize << w));
        for j in 0..w { assert!(c.iter().any(|x| (x >> j) & 1 == 1), "bit {} of width {} never set", j, w); assert!(c.iter().any(|x| (x >> j) & 1 == 0)); }
    }
}
'''
