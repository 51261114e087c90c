ID='prepare-keeps-old'; PROPERTY='C05'
NEEDS='the path already holds a longer file from an earlier run'
BREAKS='prepare_space no longer truncates, so the space is longer than declared and keeps stale bytes'
EDITS=[('proof_of_space/src/proof_of_space/prover.rs','    .truncate(true)\n','')]
DEMO='''use crate::proof_of_space::prover::*;
#[test] fn demo() {
    let dir = std::env::temp_dir().join(format!("vp_demo_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("space"); let p = p.to_str().unwrap().to_string();
    let mut bad = String::new();
    for n in [7usize, 3, 5, 1, 8] {
        for pre in [0usize, 1, 5000] {
            if pre > 0 { std::fs::write(&p, vec![0xffu8; pre]).unwrap(); }
            prepare_space(&p, n).unwrap();
            let f = std::fs::read(&p).unwrap();
            if f.len() != ((n + 1) * (1 << n) + 7) / 8 || f.iter().any(|b| *b != 0) { bad = format!("n {} pre {}", n, pre); }
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(bad.is_empty(), "{}", bad);
}
'''
