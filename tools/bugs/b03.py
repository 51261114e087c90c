ID='mark-clobber-neighbour'; PROPERTY='C03'
NEEDS='a slot that ends inside a byte it did not start in, whose next slot was already marked'
BREAKS='mark_space zeroes the rest of the following byte instead of re-reading it, wiping bits of the neighbouring slot'
EDITS=[('proof_of_space/src/proof_of_space/prover.rs','''                file.read(&mut buf).unwrap(); 
                file_cost += start.elapsed().as_secs_f32();
                buf_bits = bytes_to_bits(&buf);''','''                if i + 1 == n {
                    buf = vec![0u8];
                }
                else {
                    file.read(&mut buf).unwrap();
                }
                file_cost += start.elapsed().as_secs_f32();
                buf_bits = bytes_to_bits(&buf);''')]
MARK_DEMO='''use crate::proof_of_space::prover::*;
use crate::mimc::mimc_df::mimc5_df;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256};
fn bit(f: &[u8], i: usize) -> bool { (f[i / 8] >> (i % 8)) & 1 == 1 }
#[test] fn demo() {
    let dir = std::env::temp_dir().join(format!("vp_demo_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("space"); let p = p.to_str().unwrap();
    let mut bad = String::new();
    for n in 2..=9usize { for seed in 0..6u64 {
        let key = Fr::from(1000 + 77 * seed); let m = Fr::from(5 + seed);
        let c: Vec<Fr> = (0..10u64).map(|i| Fr::from(i * i * 31 + 7 + seed)).collect();
        prepare_space(p, n).unwrap();
        mark_space(p, key, m, &c, n);
        let f = std::fs::read(p).unwrap();
        let mut want: Vec<Option<usize>> = vec![None; 1 << n];
        for x in 0..1usize << n {
            let y: BigInteger256 = mimc5_df(Fr::from(x as u64) + key, m, &c).into();
            let yb = y.to_bits_le();
            let mut i = 0; for j in 0..n { if yb[j] { i |= 1 << j; } }
            want[i] = Some(x);
        }
        for y in 0..1usize << n {
            let o = (n + 1) * y;
            let mut v = 0; for j in 0..n { if bit(&f, o + j) { v |= 1 << j; } }
            let got = if bit(&f, o + n) { Some(v) } else { None };
            if got != want[y] || (got.is_none() && v != 0) { bad = format!("n {} seed {} slot {}: {:?} expected {:?}", n, seed, y, got, want[y]); }
        }
    } }
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
DEMO=MARK_DEMO
