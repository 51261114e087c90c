// Native replay harness: runs one function of the crate per input line and prints the result.
// Added as a module of a scratch copy of the crate, never in /repo.
#![allow(dead_code, unused)]
use std::io::{BufRead, Write};
use rug::Integer;
use num_bigint::BigInt;
use crate::proof_of_storage::{common, depend, merkle_tree, postorage::{self, PosPara}, prover, verifier};
use crate::vde::{rug_sloth, rug_vde, sloth};

fn hexb(s: &str) -> Vec<u8> { if s == "-" { vec![] } else { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() } }
fn shx(v: &[u8]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(|b| format!("{:02x}", b)).collect() } }
fn hexs(s: &str) -> Vec<Vec<u8>> { if s == "=" { vec![] } else { s.split(',').map(hexb).collect() } }
fn shxs(v: &[Vec<u8>]) -> String { if v.is_empty() { "=".into() } else { v.iter().map(|b| shx(b)).collect::<Vec<_>>().join(",") } }
fn us(s: &str) -> Vec<usize> { if s == "-" { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() } }
fn shu(v: &[usize]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") } }
fn shus(v: &[Vec<usize>]) -> String { if v.is_empty() { "=".into() } else { v.iter().map(|b| shu(b)).collect::<Vec<_>>().join(";") } }
fn u(s: &str) -> usize { s.parse().unwrap() }
fn int(s: &str) -> Integer { Integer::from_str_radix(s, 16).unwrap() }
fn big(s: &str) -> BigInt { BigInt::parse_bytes(s.as_bytes(), 16).unwrap() }
fn para(s: &str) -> PosPara {
    let v: Vec<&str> = s.split(',').collect();
    PosPara { data_l: u(v[0]), unit_l: u(v[1]), block_l: u(v[2]), big_block_l: u(v[2]), unit_pl: u(v[3]), block_pl: u(v[4]), big_block_pl: u(v[4]), seal_rounds: u(v[5]), vde_rounds: u(v[6]), vde_mode: v[7].to_string(), mode_l: u(v[8]), cnt_l: u(v[9]), mode_s: u(v[10]), cnt_s: u(v[11]), leaves_to_prove_count: 1 }
}
// prepare sealed blocks begin..end and unseal them (par = 0: in this thread)
fn batch(a: &[&str]) -> String {
    let p = para(a[0]); let (k, iv) = (int(a[4]), hexb(a[5]));
    let (bi, mut b, ids, d) = verifier::batch_unseal_prepare(a[1], u(a[2]), u(a[3]), &p);
    let par = u(a[6]);
    let r = if par == 0 { verifier::batch_unseal(&p, &bi, &mut b, &ids, &d, &k, &iv) } else { verifier::batch_unseal_parallel(&p, &bi, &b, &ids, &d, &k, &iv, par) };
    format!("{} {}", shu(&bi), r.iter().map(|x| shx(&x.concat())).collect::<Vec<_>>().join(","))
}
// the same for single blocks, each prepared on its own
fn singles(a: &[&str]) -> String {
    let p = para(a[0]); let (k, iv) = (int(a[3]), hexb(a[4])); let par = u(a[5]);
    let bi = us(a[2]); let (mut b, mut ids, mut d) = (vec![], vec![], vec![]);
    for &i in &bi { let (x, y, z) = verifier::single_unseal_prepare(a[1], i, &p); b.push(x); ids.push(y); d.push(z); }
    let r = if par == 0 { verifier::batch_unseal(&p, &bi, &mut b, &ids, &d, &k, &iv) } else { verifier::batch_unseal_parallel(&p, &bi, &b, &ids, &d, &k, &iv, par) };
    format!("{} {}", shu(&bi), r.iter().map(|x| shx(&x.concat())).collect::<Vec<_>>().join(","))
}
fn and_verify(a: &[&str]) -> String {
    let p = para(a[0]); let (k, iv) = (int(a[5]), hexb(a[6]));
    let (bi, b, ids, d) = verifier::batch_unseal_prepare(a[1], u(a[3]), u(a[4]), &p);
    verifier::batch_unseal_and_verify(&p, a[2], &bi, &b, &ids, &d, &k, &iv);
    "done".into()
}
fn merkle(a: &[&str]) -> String {
    let (l, t, r) = merkle_tree::generate_merkle_tree_from_file(a[0], u(a[1]), u(a[2]));
    format!("{} {}", shxs(&l.iter().map(|x| x.to_vec()).collect::<Vec<_>>()), shx(&r))
}
// proof made from the file a[0] at indices a[4], checked against the root of the file a[1], leaves taken from a[1] if a[5] is given; a[5] = 2: root of the file a[0]
fn merkle_prove(a: &[&str]) -> String {
    let (l, t, r0) = merkle_tree::generate_merkle_tree_from_file(a[0], u(a[2]), u(a[3]));
    let (l2, _, mut r) = merkle_tree::generate_merkle_tree_from_file(a[1], u(a[2]), u(a[3]));
    let ix = us(a[4]);
    let p = merkle_tree::generate_merkle_proof(&ix, &t);
    if a.len() > 5 && a[5] == "2" { r = r0; }
    merkle_tree::verify_merkle_proof(p, r, &ix, if a.len() > 5 { &l2 } else { &l });
    "accepted".into()
}
fn merkle_data(a: &[&str]) -> String {
    let (l, t, r) = merkle_tree::generate_merkle_tree_from_data(&hexs(a[0]));
    format!("{} {}", shxs(&l.iter().map(|x| x.to_vec()).collect::<Vec<_>>()), shx(&r))
}
fn saveload(a: &[&str]) -> String {
    postorage::save_data(a[0], &int(a[1]), &hexb(a[2]));
    if a.len() > 3 { postorage::save_data(a[0], &int(a[3]), &hexb(a[4])); }
    let (k, iv) = postorage::load_data(a[0]);
    format!("{} {}", k.to_string_radix(16), shx(&iv))
}

// the whole pipeline on the files a[1..], then the public data it saved
fn pipe(a: &[&str]) -> String {
    let open = |p: &str| std::fs::OpenOptions::new().read(true).append(true).create(true).open(p).unwrap();
    let (mut l, mut t) = (open(a[5]), open(a[6]));
    postorage::seal_and_unseal(&para(a[0]), a[1], a[2], a[3], a[4], &mut l, a[7] == "1", a[8] == "1", &mut t);
    let (k, iv) = postorage::load_data(a[4]);
    format!("{} {}", k.to_string_radix(16), shx(&iv))
}
fn run(cmd: &str, a: &[&str]) -> String {
    match cmd {
        "sloth_rug" => { let (x, p, t) = (int(a[0]), int(a[1]), u(a[2])); let y = rug_sloth::sloth(&x, &p, t); let z = rug_sloth::sloth_inv(&y, &p, t); format!("{} {} {}", rug_sloth::legendre(x, &p), y.to_string_radix(16), z.to_string_radix(16)) }
        "sloth_big" => { let (x, p, t) = (big(a[0]), big(a[1]), u(a[2])); let y = sloth::sloth(&x, &p, t); let z = sloth::sloth_inv(&y, &p, t); format!("{} {} {}", sloth::legendre(x, &p), y.to_str_radix(16), z.to_str_radix(16)) }
        "vde" => { let (x, p, t, m, l) = (hexb(a[0]), int(a[1]), u(a[2]), a[3].to_string(), u(a[4])); let y = rug_vde::vde(&x, &p, t, &m, l); let z = rug_vde::vde_inv(&y, &p, t, &m, l); format!("{} {}", shx(&y), shx(&z)) }
        "params" => { let (k, iv) = postorage::prepare_params(u(a[0])); format!("{} {}", k.to_string_radix(16), shx(&iv)) }
        "blake3" => shx(blake3::hash(&hexb(a[0])).as_bytes()),
        "modadd" => shx(&common::modadd(&hexb(a[0]), &hexb(a[1]), &int(a[2]))),
        "modsub" => shx(&common::modsub(&hexb(a[0]), &hexb(a[1]), &int(a[2]))),
        "to_units" => shxs(&common::to_units(&hexb(a[0]), u(a[1]))),
        "com_units" => shx(&common::com_units(&hexs(a[0]))),
        "xor" => shx(&common::vecu8_xor(&hexb(a[0]), &hexb(a[1]))),
        "pad" => { prover::copy_and_pad(a[0], a[1], u(a[2]), u(a[3])); "done".into() }
        "compress" => { prover::copy_and_compress(a[0], a[1], u(a[2]), u(a[3]), u(a[4])); "done".into() }
        "long_depend" => shu(&depend::long_depend(u(a[0]), u(a[1]), u(a[2]))),
        "short_depend" => shu(&depend::short_depend(u(a[0]), u(a[1]), u(a[2]), u(a[3]))),
        "long_random" => shu(&depend::long_mode_random(u(a[0]), &hexb(a[1]), u(a[2]), u(a[3]))),
        "short_random" => shu(&depend::short_depend_random(u(a[0]), &hexb(a[1]), u(a[2]), u(a[3]))),
        "create_long" => shus(&prover::create_long_depend(u(a[0]), u(a[1]), u(a[2]))),
        "create_short" => shus(&prover::create_short_depend(u(a[0]), u(a[1]), u(a[2]))),
        "challenges" => shu(&verifier::create_challenges(u(a[0]), (u(a[1]), u(a[2])))),
        "seal" => shxs(&prover::seal(&para(a[0]), a[1], &int(a[2]), &hexb(a[3])).0),
        "unseal" => { prover::unseal(&para(a[0]), a[1], &int(a[2]), &hexb(a[3])); "done".into() }
        "batch" => batch(a),
        "singles" => singles(a),
        "and_verify" => and_verify(a),
        "batch_verify" => { verifier::batch_verify(a[0], u(a[1]), &hexs(a[2]), u(a[3]), u(a[4])); "accepted".into() }
        "merkle" => merkle(a),
        "merkle_prove" => merkle_prove(a),
        "merkle_data" => merkle_data(a),
        "merkle_whole" => { postorage::merkle_tree_proof(a[0], a[1], u(a[2]), u(a[3]), u(a[4])); "accepted".into() }
        "saveload" => saveload(a),
        "preset" => { let p = common::gen_posdata(u(a[0])); [p.data_l, p.unit_l, p.block_l, p.big_block_l, p.unit_pl, p.block_pl, p.big_block_pl, p.seal_rounds, p.vde_rounds, p.mode_l, p.cnt_l, p.mode_s, p.cnt_s, p.leaves_to_prove_count].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
        "randfile" => { verifier::create_random_file(a[0], u(a[1])).unwrap(); "done".into() }
        "pipe" => pipe(a),
        _ => "unknown-command".into(),
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => return };
        let parts: Vec<&str> = line.split(' ').filter(|s| !s.is_empty()).collect();
        if parts.is_empty() { continue; }
        let r = std::panic::catch_unwind(|| run(parts[0], &parts[1..]));
        let s = match r {
            Ok(s) => format!("ok {}", s),
            Err(e) => { let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() }; format!("panic {}", m.replace('\n', " ")) }
        };
        println!("\n@@ {}", s);
        std::io::stdout().flush().unwrap();
    }
}
