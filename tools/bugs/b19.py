exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='short-random-self'; PROPERTY='C19'
NEEDS='more random short dependencies than one hash provides (count of at least 16), and a later hash that names the unit itself'
BREAKS='from the second hash on a unit may depend on itself, so it cannot be unsealed'
EDITS=[('proof_of_storage/src/proof_of_storage/depend.rs','''                let depend_idx = data_idx % num;
                if depend_idx != index {
                    short_index.push(depend_idx);
                    c += 1;
                }''','''                let depend_idx = data_idx % num;
                if depend_idx < num {
                    short_index.push(depend_idx);
                    c += 1;
                }''')]
DEMO=HELP+'''
#[test] fn demo() {
    for num in [3usize, 8, 40, 200] { for i in 0..num { for c in [1usize, 10, 17, 40] { for s in 0..4u64 {
        let r = short_depend_random(num, &data(20, s), i, c);
        assert!(r.len() <= c && r.iter().all(|x| *x < num && *x != i), "num {} index {} count {}: {:?}", num, i, c, r);
    } } } }
}
'''
