exec(open('/verif/tools/bugs/common_sto.py').read())
CRATE='proof_of_storage'; ID='vde-pads-one-byte'; PROPERTY='C15'
NEEDS='a unit whose delay encoding has two or more zero top bytes (about one in 65536)'
BREAKS='the encoding pads at most one byte, so the encoded unit is shorter than a unit and does not decode to the padded unit'
EDITS=[('proof_of_storage/src/vde/rug_vde.rs','    if y_bytes.len() < l {\n        y_bytes.append(&mut vec![0u8; l - y_bytes.len()]);\n    }','    if y_bytes.len() < l {\n        y_bytes.push(0u8);\n    }')]
DEMO=HELP+'''
use crate::vde::rug_vde::*;
#[test] fn demo() {
    let (p, _) = prepare_params(64);
    let m = "sloth".to_string();
    for e in [2u32, 3, 5, 9, 100, 255, 256, 1 << 20] {
        for t in [1usize, 2, 3] {
            let mut y = Integer::from(e).to_digits::<u8>(Order::Lsf); y.resize(64, 0);
            let x = vde_inv(&y, &p, t, &m, 64);
            let z = vde(&x, &p, t, &m, 64);
            assert_eq!(z.len(), 64, "value {} rounds {}", e, t);
            assert_eq!(vde_inv(&z, &p, t, &m, 64), x);
        }
    }
}
'''
