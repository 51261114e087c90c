exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='seal-id-only-without-deps'; PROPERTY='C17'
NEEDS='a block that has long dependencies; sealing and unsealing are changed alike, so every round trip still works'
BREAKS='the id of the previous block is only mixed in when the block has no long dependencies: the chaining of blocks is lost'
V='proof_of_storage/src/proof_of_storage/'
EDITS=[(V+'prover.rs','                    else {\n                        depend_data.append(&mut blocks_id[idx2 - 1].clone());','                    else if depend_blocks.is_empty() {\n                        depend_data.append(&mut blocks_id[idx2 - 1].clone());'),
 (V+'prover.rs','                    else {\n                        depend_data.append(&mut before_block_id.clone());','                    else if depend_blocks.is_empty() {\n                        depend_data.append(&mut before_block_id.clone());'),
 (V+'verifier.rs','                    else {\n                        depend_data.append(&mut before_block_ids[i].clone());','                    else if depend_blocks[i].is_empty() {\n                        depend_data.append(&mut before_block_ids[i].clone());',0),
 (V+'verifier.rs','                    else {\n                        depend_data.append(&mut before_block_ids[i].clone());','                    else if depend_blocks[i].is_empty() {\n                        depend_data.append(&mut before_block_ids[i].clone());',0)]
DEMO=HELP+'''
// the first unit of block 2 must depend on block 1 even though its only long dependency (rule -2) is block 0
#[test] fn demo() {
    let d = dir(); let f = d.join("f"); let f = f.to_str().unwrap();
    let (k, iv) = prepare_params(64);
    let p = par(3, 2, 1, 2, 1, 1, 1);
    let run = |v: &Vec<u8>| { std::fs::write(f, v).unwrap(); seal(&p, f, &k, &iv); std::fs::read(f).unwrap() };
    let mut v = data(64 * 6, 3); for i in 0..6 { v[i * 64 + 63] = 0; }
    let a = run(&v);
    v[128 + 5] ^= 1;
    let b = run(&v);
    std::fs::remove_dir_all(&d).unwrap();
    assert!(a[..128] == b[..128]);
    assert!(a[128..256] != b[128..256]);
    assert!(a[256..320] != b[256..320], "block 2 does not depend on block 1");
}
'''
