ID='usize-top-bit'; PROPERTY='C02'
NEEDS='a number whose bit n-1 is set (the upper half of the n-bit range), n >= 2'
BREAKS='usize_to_bits stops one bit early, so the top bit of the stored preimage is lost'
EDITS=[('proof_of_space/src/proof_of_space/convert.rs','if i >= n {','if i + 1 >= n {')]
DEMO='''use crate::proof_of_space::convert::*;
#[test] fn demo() {
    for n in 1..14usize { for x in 0..(1usize << n) {
        let b = usize_to_bits(x, n);
        assert_eq!(b.len(), n);
        assert_eq!(bits_to_usize(&b), x);
    } }
}
'''
