exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='compress-keeps-old'; PROPERTY='C20'
NEEDS='the target already holds a longer file from an earlier run'
BREAKS='copy_and_compress no longer truncates, so the tail of an older, longer result stays behind the restored data'
EDITS=[('proof_of_storage/src/proof_of_storage/prover.rs','    .truncate(true)\n','',1)]
DEMO=HELP+'''
#[test] fn demo() {
    let d = dir(); let (a, b, c) = (d.join("a"), d.join("b"), d.join("c"));
    let (a, b, c) = (a.to_str().unwrap(), b.to_str().unwrap(), c.to_str().unwrap());
    let mut bad = String::new();
    for n in [20usize, 3, 1, 7, 0] {
        let v = data(63 * n, n as u64);
        std::fs::write(a, &v).unwrap();
        copy_and_pad(a, b, 63 * n, 63);
        copy_and_compress(b, c, 63 * n, 63, 64);
        if std::fs::read(c).unwrap() != v { bad = format!("{} units", n); }
    }
    std::fs::remove_dir_all(&d).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
