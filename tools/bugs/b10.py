exec(open('/verif/tools/bugs/common_circ.py').read())
ID='circuit-shape-depends-on-x'; PROPERTY='C10'
NEEDS='an answered preimage equal to 0'
BREAKS='for x = 0 the circuit allocates no xl variable, so the constraint system differs from the one the parameters were made for and the proof fails'
EDITS=[('proof_of_space/src/circuit/pospace_circuit.rs','''            let mut xl = cs.new_witness_variable(|| xl_val.ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce_constraint(
                lc!() + key + x,
                lc!() + Variable::One,
                lc!() + xl,
            )?;
''','''            let mut xl;
            if x_val == Some(Fr::zero()) {
                // key + 0 is the key itself
                xl = key;
            }
            else {
                xl = cs.new_witness_variable(|| xl_val.ok_or(SynthesisError::AssignmentMissing))?;
                cs.enforce_constraint(
                    lc!() + key + x,
                    lc!() + Variable::One,
                    lc!() + xl,
                )?;
            }
''')]
DEMO=CIRC+'''
#[test] fn demo() {
    let a = build(&honest(vec![Fr::from(1u64), Fr::from(2u64)], 3));
    for xs in [vec![7u64, 9], vec![0, 4], vec![4, 0], vec![0, 0]] {
        let b = build(&honest(xs.iter().map(|x| Fr::from(*x)).collect(), 3));
        assert_eq!(a.num_constraints(), b.num_constraints());
        assert_eq!(a.num_witness_variables(), b.num_witness_variables());
        assert_eq!(a.num_instance_variables(), b.num_instance_variables());
        a.finalize(); b.finalize();
        let (ma, mb) = (a.to_matrices().unwrap(), b.to_matrices().unwrap());
        assert!(ma.a == mb.a && ma.b == mb.b && ma.c == mb.c);
    }
}
'''
