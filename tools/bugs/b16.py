exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='unseal-count-off-at-ten'; PROPERTY='C16'
NEEDS='random long dependencies with automatic count (mode 0, count 0) and at least ten blocks'
BREAKS='unseal computes the number of long dependencies of block 9, 19, ... one too high, so these blocks are not restored'
EDITS=[('proof_of_storage/src/proof_of_storage/prover.rs','long_mode_random(block_cnt, &before_block_id, idx2, idx2 / 10 + 1)','long_mode_random(block_cnt, &before_block_id, idx2, (idx2 + 1) / 10 + 1)')]
DEMO=HELP+'''
#[test] fn demo() {
    let d = dir(); let f = d.join("f"); let f = f.to_str().unwrap();
    let mut bad = String::new();
    for blocks in [1usize, 9, 10, 21] {
        for (ml, cl) in [(0usize, 0usize), (0, 2), (1, 2)] {
            let p = par(blocks, 2, 2, ml, cl, 0, 2);
            let mut v = data(64 * 2 * blocks, blocks as u64); for i in 0..2 * blocks { v[i * 64 + 63] = 0; }
            std::fs::write(f, &v).unwrap();
            let (k, iv) = prepare_params(64);
            seal(&p, f, &k, &iv); unseal(&p, f, &k, &iv);
            if std::fs::read(f).unwrap() != v { bad = format!("{} blocks mode {} count {}", blocks, ml, cl); }
        }
    }
    std::fs::remove_dir_all(&d).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
