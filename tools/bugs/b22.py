exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='verify-skips-last-byte'; PROPERTY='C22'
NEEDS='an unsealed block that differs from the original in the last byte of a unit only'
BREAKS='batch_verify does not compare the last byte of a unit'
EDITS=[('proof_of_storage/src/proof_of_storage/verifier.rs','        while k_ori < origin_block[j].len() {','        while k_ori < origin_block[j].len() - 1 {',1)]
DEMO=HELP+'''
#[test] fn demo() {
    let d = dir(); let f = d.join("f"); let f = f.to_str().unwrap();
    let v = data(63 * 4, 9);
    std::fs::write(f, &v).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = String::new();
    for b in 0..2 { for u in 0..2 { for j in 0..64 {
        let mut bl: Vec<Vec<u8>> = (0..2).map(|w| { let mut x = v[(b * 2 + w) * 63..(b * 2 + w + 1) * 63].to_vec(); x.push(0); x }).collect();
        if j < 63 { bl[u][j] ^= 4; }
        let r = std::panic::catch_unwind(|| batch_verify(f, b, &bl, 126, 63)).is_ok();
        if r != (j == 63) { bad = format!("block {} unit {} byte {}: accepted {}", b, u, j, r); }
    } } }
    let _ = std::panic::take_hook();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
