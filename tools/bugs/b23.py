exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='merkle-single-leaf-unchecked'; PROPERTY='C23'
NEEDS='a file that consists of a single leaf'
BREAKS='for a tree of one leaf the proof is not checked against the root, so any file is accepted'
EDITS=[('proof_of_storage/src/proof_of_storage/merkle_tree.rs','    assert!(proof.verify(merkle_root, &indices_to_prove, leaves_to_prove.as_slice(), leaves.len()));','    let depth = (leaves.len() - 1) / leaves.len().max(1);\n    assert!((leaves.len() == 1 && depth == 0) || proof.verify(merkle_root, &indices_to_prove, leaves_to_prove.as_slice(), leaves.len()));')]
DEMO=HELP+'''
#[test] fn demo() {
    let d = dir(); let (a, b) = (d.join("a"), d.join("b")); let (a, b) = (a.to_str().unwrap(), b.to_str().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = String::new();
    for n in [1usize, 2, 3, 5] {
        let v = data(10 * n, 1); let mut w = v.clone();
        std::fs::write(a, &v).unwrap(); std::fs::write(b, &w).unwrap();
        if std::panic::catch_unwind(|| merkle_tree_proof(a, b, 10 * n, 10, 1)).is_err() { bad = format!("{} leaves: equal files rejected", n); }
        w[0] ^= 1; std::fs::write(b, &w).unwrap();
        if std::panic::catch_unwind(|| merkle_tree_proof(a, b, 10 * n, 10, 1)).is_ok() { bad = format!("{} leaves: different files accepted", n); }
    }
    let _ = std::panic::take_hook();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
