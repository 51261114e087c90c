ID='response-skips-zero'; PROPERTY='C04'
NEEDS='a challenge whose stored preimage is x = 0'
BREAKS='response_1 treats preimage 0 as missing and leaves the challenge unanswered'
EDITS=[('proof_of_space/src/proof_of_space/prover.rs','''            x_response.push(x);
            idx_response.push(i);
            count += 1;''','''            if x_usize > 0 {
                x_response.push(x);
                idx_response.push(i);
                count += 1;
            }''')]
DEMO='''use crate::proof_of_space::prover::*;
use crate::proof_of_space::pospace::RESPONSE_COUNT;
use ark_bls12_381::Fr;
#[test] fn demo() {
    let dir = std::env::temp_dir().join(format!("vp_demo_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("space"); let p = p.to_str().unwrap().to_string();
    let hc: Vec<Fr> = (0..10u64).map(|i| Fr::from(i + 3)).collect();
    let mut bad = String::new();
    for n in 3..=7usize { for seed in 0..20usize {
        // slot y holds a pseudo random x, or nothing
        let slots: Vec<Option<usize>> = (0..1usize << n).map(|y| { let r = (y * 40503 + seed * 9973 + 17) >> 3; if r % 5 == 0 { None } else { Some((r / 5) % (1 << n)) } }).collect();
        let mut f = vec![0u8; ((n + 1) * (1 << n) + 7) / 8];
        for y in 0..1usize << n { if let Some(x) = slots[y] { for j in 0..=n { if j == n || (x >> j) & 1 == 1 { let o = (n + 1) * y + j; f[o / 8] |= 1 << (o % 8); } } } }
        std::fs::write(&p, &f).unwrap();
        let ch: Vec<usize> = (0..90usize).map(|i| (i * 37 + seed * 5) % (1 << n)).collect();
        let (xs, ids, _) = response_1(&p, &ch, Fr::from(9u64), &hc, n);
        let mut wx = vec![]; let mut wi = vec![];
        for i in 0..ch.len() { if wx.len() == RESPONSE_COUNT { break; } if let Some(x) = slots[ch[i]] { wx.push(Fr::from(x as u64)); wi.push(i); } }
        if xs != wx || ids != wi { bad = format!("n {} seed {}: {:?} expected {:?}", n, seed, ids, wi); }
        if std::fs::read(&p).unwrap() != f { bad = "file changed".to_string(); }
    } }
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
