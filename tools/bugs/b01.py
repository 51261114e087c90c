ID='bytes-drop-zero-tail'; PROPERTY='C01'
NEEDS='a bit string whose length is not a multiple of 8 and whose last partial byte is all zero'
BREAKS='bits_to_bytes omits the last byte when its bits are all false, so the byte string is too short and positions are lost'
EDITS=[('proof_of_space/src/proof_of_space/convert.rs','if j != 0 {\n        res.push(tmp);','if tmp != 0 {\n        res.push(tmp);')]
DEMO='''use crate::proof_of_space::convert::*;
#[test] fn demo() {
    for len in 0..40usize { for p in 0..64u64 {
        let x: Vec<bool> = (0..len).map(|i| (p.wrapping_mul(0x9E3779B97F4A7C15) >> (i % 61)) & 1 == 1 && p > 0).collect();
        let b = bits_to_bytes(&x);
        assert_eq!(b.len(), (len + 7) / 8);
        let back = bytes_to_bits(&b);
        for i in 0..back.len() { assert_eq!(back[i], i < len && x[i]); }
    } }
}
'''
