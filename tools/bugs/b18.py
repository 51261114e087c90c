exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='parallel-block-number'; PROPERTY='C18'
NEEDS='parallel unsealing of a range that does not start at block 0'
BREAKS='the parallel workers take the position in the batch for the block number, so the first block of a later range is unsealed with the iv'
EDITS=[('proof_of_storage/src/proof_of_storage/verifier.rs','let idx2 = blocks_idx_copy.read().unwrap()[i];','let idx2 = blocks_idx_copy.read().unwrap()[i] - blocks_idx_copy.read().unwrap()[0];')]
DEMO=HELP+'''
#[test] fn demo() {
    let d = dir(); let f = d.join("f"); let f = f.to_str().unwrap();
    let (k, iv) = prepare_params(64);
    let p = par(4, 2, 2, 1, 2, 0, 2);
    let mut v = data(64 * 8, 3); for i in 0..8 { v[i * 64 + 63] = 0; }
    std::fs::write(f, &v).unwrap(); seal(&p, f, &k, &iv);
    let mut bad = String::new();
    for b in 0..4 { for e in b + 1..5 {
        let (ix, bl, ids, dep) = batch_unseal_prepare(f, b * 128, e * 128, &p);
        let u = batch_unseal_parallel(&p, &ix, &bl, &ids, &dep, &k, &iv, 3);
        if u.concat().concat() != v[b * 128..e * 128].to_vec() { bad = format!("blocks {}..{}", b, e); }
    } }
    std::fs::remove_dir_all(&d).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
