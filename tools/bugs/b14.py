ID='equal-high-bits-free'; PROPERTY='C14'
NEEDS='a prover that assigns non-boolean values to decomposition digits at or above the difficulty'
BREAKS='only the compared digits are forced to be 0 or 1, so any low value can be claimed for any number'
EDITS=[('proof_of_space/src/circuit/equal_circuit.rs','''            cs.enforce_constraint(
                lc!() + bit,
                lc!() + bit,
                lc!() + bit
            )?;
''','''            // only the digits that are compared have to be binary
            if i < self.difficulty {
                cs.enforce_constraint(
                    lc!() + bit,
                    lc!() + bit,
                    lc!() + bit
                )?;
            }
''')]
DEMO='''use crate::circuit::equal_circuit::{EqualDemo, INPUT_SIZE};
use ark_bls12_381::Fr; use ark_ff::{Field, Zero, One};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
// every digit must be forced to be binary: replace one digit of the honest assignment by 5 and propagate
#[test] fn demo() {
    let v = 0x1234567u64; let d = 8usize;
    let bits: Vec<Option<u8>> = (0..INPUT_SIZE).map(|i| Some(if i < 64 { ((v >> i) & 1) as u8 } else { 0 })).collect();
    let honest = || { let cs = ConstraintSystem::<Fr>::new_ref();
        EqualDemo { x1: Some(Fr::from(v & 255)), x2: Some(Fr::from(v)), x_bits: &bits, difficulty: d }.generate_constraints(cs.clone()).unwrap(); cs };
    assert!(honest().is_satisfied().unwrap());
    // solve the constraints forward from altered digits: each constraint a*b=c with one new witness
    for digit in [0usize, 3, 7, 8, 9, 100, 200, 255] {
        let cs = honest(); cs.finalize();
        let m = cs.to_matrices().unwrap();
        let (mut wit, mut inp) = { let b = cs.borrow().unwrap(); (b.witness_assignment.clone(), b.instance_assignment.clone()) };
        let n = inp.len();
        // digit variables: those whose honest value is a bit and that appear as the left factor with the power of two
        let mut seen = 0; let mut target = None; let mut two = Fr::one();
        for i in 0..m.a.len() { if m.a[i].len() == 1 && m.b[i].len() == 1 && m.c[i].len() == 1 && m.a[i][0].1 >= n && m.b[i][0].1 >= n && m.a[i][0].1 != m.b[i][0].1 {
            let (x, y, z) = (wit[m.a[i][0].1 - n], wit[m.b[i][0].1 - n], wit[m.c[i][0].1 - n]);
            if seen < INPUT_SIZE && y == two && (x.is_zero() || x.is_one()) && z == x * y { if seen == digit { target = Some(m.a[i][0].1); } seen += 1; two.double_in_place(); }
        } }
        let target = match target { Some(t) => t, None => return };
        wit[target - n] = Fr::from(5u64);
        // propagate: recompute the last variable of every constraint that changed, a few passes
        let eval = |row: &Vec<(Fr, usize)>, wit: &Vec<Fr>, inp: &Vec<Fr>| { let mut s = Fr::zero(); for (c, j) in row { s += *c * if *j < n { inp[*j] } else { wit[*j - n] }; } s };
        let mut fixed = std::collections::HashSet::new(); fixed.insert(target);
        for i in 0..m.a.len() {
            let (a, b, c) = (eval(&m.a[i], &wit, &inp), eval(&m.b[i], &wit, &inp), eval(&m.c[i], &wit, &inp));
            if a * b != c && m.c[i].len() == 1 && !fixed.contains(&m.c[i][0].1) {
                let v = a * b * m.c[i][0].0.inverse().unwrap();
                let j = m.c[i][0].1; if j == 0 { break; }
                if j < n { inp[j] = v } else { wit[j - n] = v }
            }
        }
        let ok = (0..m.a.len()).all(|i| eval(&m.a[i], &wit, &inp) * eval(&m.b[i], &wit, &inp) == eval(&m.c[i], &wit, &inp));
        assert!(!ok, "digit {} may be 5", digit);
    }
}
'''
