// Native replay harness: runs one function of the crate per input line and prints the result.
// Added as a module of a scratch copy of the crate, never in /repo.
#![allow(dead_code, unused)]
use std::io::{BufRead, Write};
use ark_bls12_381::{Fr, Bls12_381};
use ark_ff::{Field, PrimeField, BigInteger, One, Zero};
use ark_relations::{lc, r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, SynthesisError, Variable, SynthesisMode, OptimizationGoal}};
use ark_groth16::*;
use crate::circuit::*;
use crate::proof_of_space::{convert, prover, verifier, pospace};
use crate::mimc::{mimc_df, mimc_hash};

fn fr(s: &str) -> Fr {
    let mut b = vec![]; let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s.to_string() };
    for i in 0..s.len() / 2 { b.push(u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()); }
    Fr::from_be_bytes_mod_order(&b)
}
fn frs(s: &str) -> Vec<Fr> { if s == "-" { vec![] } else { s.split(',').map(fr).collect() } }
fn ofr(s: &str) -> Option<Fr> { if s == "none" { None } else { Some(fr(s)) } }
fn ofrs(s: &str) -> Vec<Option<Fr>> { if s == "-" { vec![] } else { s.split(',').map(ofr).collect() } }
fn obits(s: &str) -> Vec<Option<u8>> { s.chars().map(|c| match c { '0' => Some(0), '1' => Some(1), _ => None }).collect() }
fn us(s: &str) -> Vec<usize> { if s == "-" { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() } }
fn bits(s: &str) -> Vec<bool> { if s == "-" { vec![] } else { s.chars().map(|c| c == '1').collect() } }
fn hexb(s: &str) -> Vec<u8> { if s == "-" { vec![] } else { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() } }
fn shb(v: &[bool]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(|b| if *b { '1' } else { '0' }).collect() } }
fn shx(v: &[u8]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(|b| format!("{:02x}", b)).collect() } }
fn shf(x: &Fr) -> String { shx(&x.into_repr().to_bytes_be()) }
fn shfs(v: &[Fr]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(shf).collect::<Vec<_>>().join(",") } }
fn shu(v: &[usize]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") } }

// kv arguments of circuits: name=value
fn kv<'a>(a: &[&'a str], k: &str) -> &'a str { for s in a { if s.starts_with(k) && s.as_bytes().get(k.len()) == Some(&b'=') { return &s[k.len() + 1..]; } } panic!("missing argument {}", k) }
fn kvo<'a>(a: &[&'a str], k: &str) -> Option<&'a str> { for s in a { if s.starts_with(k) && s.as_bytes().get(k.len()) == Some(&b'=') { return Some(&s[k.len() + 1..]); } } None }

fn synth<C: ConstraintSynthesizer<Fr>>(c: C, a: &[&str]) -> String {
    let cs = ConstraintSystem::<Fr>::new_ref();
    if kvo(a, "mode") == Some("setup") { cs.set_mode(SynthesisMode::Setup); }
    if let Err(e) = c.generate_constraints(cs.clone()) { return format!("synth-error {:?}", e); }
    let (ni, nw, nc) = (cs.num_instance_variables(), cs.num_witness_variables(), cs.num_constraints());
    if kvo(a, "mode") == Some("setup") {
        let m = cs.to_matrices().unwrap();
        return format!("shape {} {} {} {}", ni, nw, nc, dig(&m.a, &m.b, &m.c));
    }
    if let Some(i) = kvo(a, "instance") { cs.borrow_mut().unwrap().instance_assignment = std::iter::once(Fr::one()).chain(frs(i)).collect(); }
    if let Some(w) = kvo(a, "witness") { cs.borrow_mut().unwrap().witness_assignment = frs(w); }
    if let Some(f) = kvo(a, "force") {
        // i<idx>:<hex> or w<idx>:<hex>
        for p in f.split(',') { let (n, v) = p.split_once(':').unwrap(); let k: usize = n[1..].parse().unwrap(); let mut b = cs.borrow_mut().unwrap();
            if n.starts_with('i') { b.instance_assignment[k] = fr(v) } else { b.witness_assignment[k] = fr(v) } }
    }
    let sat = cs.is_satisfied().unwrap();
    let m = cs.to_matrices().unwrap();
    let inst = cs.borrow().unwrap().instance_assignment.clone();
    format!("{} {} {} {} {} {}", if sat { "sat" } else { "unsat" }, ni, nw, nc, dig(&m.a, &m.b, &m.c), shfs(&inst[1..]))
}
fn dig(a: &Vec<Vec<(Fr, usize)>>, b: &Vec<Vec<(Fr, usize)>>, c: &Vec<Vec<(Fr, usize)>>) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for m in [a, b, c] { for r in m { r.len().hash(&mut h); for (f, i) in r { shf(f).hash(&mut h); i.hash(&mut h); } } }
    format!("{:016x}", h.finish())
}
// a circuit whose public inputs are exactly the given values (used to obtain valid and invalid proofs cheaply)
struct Pub(Vec<Option<Fr>>);
impl ConstraintSynthesizer<Fr> for Pub {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        for v in self.0 {
            let i = cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
            let w = cs.new_witness_variable(|| v.map(|x| x.square()).ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce_constraint(lc!() + i, lc!() + i, lc!() + w)?;
        }
        Ok(())
    }
}
// proof for `proved`, then the crate's verifier asked about (key, m, challenges, idx, hash); panics when it rejects
fn verify_case(a: &[&str]) -> String {
    let mut rng = rand::thread_rng();
    let proved = frs(a[0]);
    let params = generate_random_parameters::<Bls12_381, _, _>(Pub(vec![None; proved.len()]), &mut rng).unwrap();
    let pvk = prepare_verifying_key(&params.vk);
    let mut proof = create_random_proof(Pub(proved.iter().map(|x| Some(*x)).collect()), &params, &mut rng).unwrap();
    if a.len() > 6 && a[6] == "swap" { std::mem::swap(&mut proof.a, &mut proof.c); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { verifier::verify(pvk, proof, fr(a[1]), fr(a[2]), &us(a[3]), &us(a[4]), fr(a[5])) }));
    if r.is_ok() { "accepted".into() } else { "rejected".into() }
}
// response_2 on a K-preimage parameter set, then plain Groth16 verification against the expected public inputs
fn response2_case(a: &[&str]) -> String {
    let mut rng = rand::thread_rng();
    let (key, x, m, dc, ch, idx, h, hc, expect) = (fr(a[0]), frs(a[1]), fr(a[2]), frs(a[3]), us(a[4]), us(a[5]), fr(a[6]), frs(a[7]), frs(a[8]));
    let none = vec![None; x.len()];
    let c = pospace_circuit::PospaceDemo { key: None, x: &none, m: None, df_constants: &dc, yn: &none, x_hash: None, hash_constants: &hc };
    let params = generate_random_parameters::<Bls12_381, _, _>(c, &mut rng).unwrap();
    let vk = params.vk.clone();
    let (pvk, proof) = prover::response_2(params, key, &x, m, &dc, &ch, &idx, h, &hc);
    let ours = prepare_verifying_key(&vk);
    let p1 = verify_proof(&ours, &proof, &expect).unwrap_or(false);
    let p2 = verify_proof(&pvk, &proof, &expect).unwrap_or(false);
    format!("{} {}", p1, p2)
}
fn pospace_demo(a: &[&str]) -> String {
    let (x, dc, yn, hc) = (ofrs(kv(a, "x")), frs(kv(a, "df_constants")), ofrs(kv(a, "yn")), frs(kv(a, "hash_constants")));
    synth(pospace_circuit::PospaceDemo { key: ofr(kv(a, "key")), x: &x, m: ofr(kv(a, "m")), df_constants: &dc, yn: &yn, x_hash: ofr(kv(a, "x_hash")), hash_constants: &hc }, a)
}
fn equal_demo(a: &[&str]) -> String {
    let b = obits(kv(a, "x_bits"));
    synth(equal_circuit::EqualDemo::<Fr> { x1: ofr(kv(a, "x1")), x2: ofr(kv(a, "x2")), x_bits: &b, difficulty: kv(a, "difficulty").parse().unwrap() }, a)
}
fn pow_demo(a: &[&str]) -> String {
    let b = obits(kv(a, "x_bits"));
    synth(pow_circuit::PowDemo::<Fr> { g: ofr(kv(a, "g")), x_bits: &b }, a)
}
fn h5_demo(a: &[&str]) -> String { let (x, c) = (ofrs(kv(a, "x_inputs")), frs(kv(a, "constants"))); synth(mimc5_hash_circuit::vp_new::<Fr>(&x, ofr(kv(a, "key")), &c), a) }
fn h7_demo(a: &[&str]) -> String { let (x, c) = (ofrs(kv(a, "x_inputs")), frs(kv(a, "constants"))); synth(mimc7_hash_circuit::vp_new::<Fr>(&x, ofr(kv(a, "key")), &c), a) }
fn d3_demo(a: &[&str]) -> String { let c = frs(kv(a, "constants")); synth(mimc3_df_circuit::vp_new::<Fr>(ofr(kv(a, "xl")), ofr(kv(a, "xr")), &c), a) }
fn d5_demo(a: &[&str]) -> String { let c = frs(kv(a, "constants")); synth(mimc5_df_circuit::vp_new::<Fr>(ofr(kv(a, "xl")), ofr(kv(a, "xr")), &c), a) }
fn resp1(a: &[&str]) -> String { let r = prover::response_1(a[0], &us(a[1]), fr(a[2]), &frs(a[3]), a[4].parse().unwrap()); format!("{} {} {}", shfs(&r.0), shu(&r.1), shf(&r.2)) }

fn run(cmd: &str, a: &[&str]) -> String {
    match cmd {
        "ping" => "pong".into(),
        "consts" => format!("{} {} {}", pospace::N, pospace::CHALLENGE_COUNT, pospace::RESPONSE_COUNT),
        "bytes_to_bits" => shb(&convert::bytes_to_bits(&hexb(a[0]))),
        "bits_to_bytes" => shx(&convert::bits_to_bytes(&bits(a[0]))),
        "bits_to_usize" => convert::bits_to_usize(&bits(a[0])).to_string(),
        "usize_to_bits" => shb(&convert::usize_to_bits(a[0].parse().unwrap(), a[1].parse().unwrap())),
        "mimc3_df" => shf(&mimc_df::mimc3_df::<Fr>(fr(a[0]), fr(a[1]), &frs(a[2]))),
        "mimc5_df" => shf(&mimc_df::mimc5_df::<Fr>(fr(a[0]), fr(a[1]), &frs(a[2]))),
        "mimc5_hash" => shf(&mimc_hash::mimc5_hash::<Fr>(fr(a[0]), fr(a[1]), &frs(a[2]))),
        "mimc7_hash" => shf(&mimc_hash::mimc7_hash::<Fr>(fr(a[0]), fr(a[1]), &frs(a[2]))),
        "multi_mimc5_hash" => shf(&mimc_hash::multi_mimc5_hash::<Fr>(&frs(a[0]), fr(a[1]), &frs(a[2]))),
        "multi_mimc7_hash" => shf(&mimc_hash::multi_mimc7_hash::<Fr>(&frs(a[0]), fr(a[1]), &frs(a[2]))),
        "prepare_space" => { prover::prepare_space(a[0], a[1].parse().unwrap()).unwrap(); "done".into() }
        "mark_space" => { prover::mark_space(a[0], fr(a[1]), fr(a[2]), &frs(a[3]), a[4].parse().unwrap()); "done".into() }
        "response_1" => resp1(a),
        "create_challenges" => shu(&verifier::create_challenges(a[0].parse().unwrap(), a[1].parse().unwrap())),
        "verify" => verify_case(a),
        "response_2" => response2_case(a),
        "c_pospace" => pospace_demo(a),
        "c_equal" => equal_demo(a),
        "c_pow" => pow_demo(a),
        "c_mimc5_hash" => h5_demo(a),
        "c_mimc7_hash" => h7_demo(a),
        "c_mimc3_df" => d3_demo(a),
        "c_mimc5_df" => d5_demo(a),
        _ => "unknown-command".into(),
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => return };
        let parts: Vec<&str> = line.split(' ').filter(|s| !s.is_empty()).collect();
        if parts.is_empty() { continue; }
        let r = std::panic::catch_unwind(|| run(parts[0], &parts[1..]));
        let s = match r {
            Ok(s) => format!("ok {}", s),
            Err(e) => { let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() }; format!("panic {}", m.replace('\n', " ")) }
        };
        println!("\n@@ {}", s);
        std::io::stdout().flush().unwrap();
    }
}
