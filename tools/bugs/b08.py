exec(open('/verif/tools/bugs/common_circ.py').read())
ID='circuit-254-bits'; PROPERTY='C08'
NEEDS='a delay-function output y >= 2^254 (about 45% of outputs)'
BREAKS='the circuit decomposes y into 254 bits, so honest proofs fail whenever y needs bit 254'
EDITS=[('proof_of_space/src/circuit/pospace_circuit.rs','const Y_SIZE: usize = 256;','const Y_SIZE: usize = 254;')]
DEMO=CIRC+'''
#[test] fn demo() {
    for s in 1..12u64 {
        let i = honest((0..3).map(|k| Fr::from(k * 5 + s)).collect(), s);
        assert!(build(&i).is_satisfied().unwrap(), "honest witness rejected, seed {}", s);
    }
}
'''
