exec(open('/verif/tools/bugs/common_circ.py').read())
ID='circuit-yn-unlinked'; PROPERTY='C09'
NEEDS='a prover that claims a challenge value that is not the low N bits of the delay-function output'
BREAKS='the claimed challenge is no longer tied to the delay-function output: the low-bits constraint compares yn with itself'
EDITS=[('proof_of_space/src/circuit/pospace_circuit.rs','''                                        lc!() + yn,
                                        lc!() + Variable::One,
                                        lc!() + y
''','''                                        lc!() + yn,
                                        lc!() + Variable::One,
                                        lc!() + yyn
''')]
DEMO=CIRC+'''
#[test] fn demo() {
    for s in 1..5u64 {
        let mut i = honest((0..3).map(|k| Fr::from(k * 5 + s)).collect(), s);
        assert!(build(&i).is_satisfied().unwrap());
        i.ys[(s % 3) as usize] = Fr::from(s * 1000 + 17);
        assert!(!build(&i).is_satisfied().unwrap(), "wrong challenge accepted");
    }
}
'''
