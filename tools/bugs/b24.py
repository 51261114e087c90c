exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='save-appends'; PROPERTY='C24'
NEEDS='public data saved a second time to the same file'
BREAKS='the second save is appended behind the first, so loading returns the key and iv of the first seal'
EDITS=[('proof_of_storage/src/proof_of_storage/postorage.rs','    .write(true)\n    .create(true) \n    .open(path)','    .append(true)\n    .create(true) \n    .open(path)')]
DEMO=HELP+'''
#[test] fn demo() {
    let d = dir(); let f = d.join("f"); let f = f.to_str().unwrap();
    let mut bad = String::new();
    for (k, n) in [(77u64, 128usize), (5, 0), (1 << 60, 300), (9, 3)] {
        let (k, iv) = (Integer::from(k), data(n, k));
        save_data(f, &k, &iv);
        if load_data(f) != (k.clone(), iv) { bad = format!("key {}", k); }
    }
    std::fs::remove_dir_all(&d).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
