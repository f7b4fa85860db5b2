#![allow(unused_imports, dead_code, unused_variables)]
mod common;
use common::*;

use fawkes_crypto::helpers::groth16::{*, prover::*, verifier::*};
use pairing::Engine;

/// public y, z; secret a, b: a*b = y, a is 0 or 1 unless z says otherwise: (a-1)*a*z = 0 (as two products)
pub struct C<F: Field> { pub v: Option<[Num<F>; 4]> }
impl<F: Field> Default for C<F> { fn default() -> Self { C { v: None } } }
impl<F: Field> Circuit for C<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let s: Vec<CNum<CS>> = (0..4).map(|i| CNum::alloc(cs, self.v.as_ref().map(|v| &v[i]))).collect();
        s[0].inputize();
        s[1].inputize();
        (&s[2] * &s[3]).assert_eq(&s[0]);
        let t = &s[2] * (&s[2] - Num::one());
        (&t * &s[1]).assert_zero();
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> { self.v.as_ref().map(|v| vec![v[0], v[1]]) }
}
pub fn c<F: Field>(y: u64, z: u64, a: u64, b: u64) -> C<F> { C { v: Some([num!(y), num!(z), num!(a), num!(b)]) } }
pub fn inputs<F: Field>(c: &C<F>) -> Vec<F> { c.get_inputs().unwrap().iter().map(|x| x.0).collect() }

mod sol;
use sol::{Program, Vm};
use num::BigUint;
use pairing::{bn256, CurveAffine, CurveProjective};
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;

fn word(b: &[u8], i: usize) -> BigUint {
    let mut w = [0u8; 32];
    for k in 0..32 { w[k] = b.get(32 * i + k).cloned().unwrap_or(0); }
    BigUint::from_bytes_be(&w)
}
fn g1(b: &[u8], i: usize) -> Option<bn256::G1Affine> {
    let d: G1PointData<Fq> = serde_json::from_str(&format!("[\"{}\",\"{}\"]", word(b, i), word(b, i + 1))).ok()?;
    guard(|| d.into())
}
fn g2(b: &[u8], i: usize) -> Option<bn256::G2Affine> {
    let d: G2PointData<Fq> = serde_json::from_str(&format!("[[\"{}\",\"{}\"],[\"{}\",\"{}\"]]", word(b, i), word(b, i + 1), word(b, i + 2), word(b, i + 3))).ok()?;
    guard(|| d.into())
}
fn nums(j: &serde_json::Value, out: &mut Vec<BigUint>) {
    match j {
        serde_json::Value::String(s) => out.push(s.parse().unwrap()),
        serde_json::Value::Array(a) => a.iter().for_each(|e| nums(e, out)),
        serde_json::Value::Object(m) => ["a", "b", "c"].iter().for_each(|k| nums(&m[*k], out)),
        _ => panic!(),
    }
}
fn out_g1(p: bn256::G1Affine) -> Vec<u8> {
    let mut v = vec![];
    nums(&serde_json::to_value(&G1PointData::from(p)).unwrap(), &mut v);
    let mut o = vec![0u8; 64];
    for i in 0..2 { let b = v[i].to_bytes_be(); o[32 * i + 32 - b.len()..32 * i + 32].copy_from_slice(&b); }
    o
}
fn pre(to: u64, inp: &[u8], _gas: &BigUint) -> Option<Vec<u8>> {
    match to {
        6 => { let mut a = g1(inp, 0)?.into_projective(); a.add_assign(&g1(inp, 2)?.into_projective()); Some(out_g1(a.into_affine())) }
        7 => Some(out_g1(g1(inp, 0)?.mul(Num::<Fr>::from(word(inp, 2)).0.into_repr()).into_affine())),
        8 => {
            let mut v = vec![];
            for i in 0..inp.len() / 192 { v.push((g1(inp, 6 * i)?.prepare(), g2(inp, 6 * i + 2)?.prepare())); }
            let r: Vec<_> = v.iter().map(|(a, b)| (a, b)).collect();
            let ok = Bn256::final_exponentiation(&Bn256::miller_loop(r.iter())).unwrap() == AbstractField::one();
            let mut o = vec![0u8; 32]; o[31] = ok as u8; Some(o)
        }
        _ => None,
    }
}
/// true if the contract returns true
fn contract(vk: &TruncatedVerifyingKey<Bn256>, p: &[BigUint], inp: &[BigUint]) -> bool {
    let src = generate_sol_data(&vk.into_data());
    let prog = match Program::parse(&src) { Ok(p) => p, Err(_) => return false };
    match Vm::new(&prog, pre).call_arrays("Verifier", "verifyProof", &[p.to_vec(), inp.to_vec()]) { Ok(b) => b, Err(_) => false }
}
fn proof_words(p: &Proof<Bn256>) -> Vec<BigUint> { let mut v = vec![]; nums(&serde_json::to_value(&p.into_data()).unwrap(), &mut v); v }

#[derive(Default)]
struct Wide(bool);
impl Circuit for Wide {
    type F = Fr;
    fn synthesize<CS: ConstraintSystem<F = Fr>>(&self, cs: &CS) {
        for i in 0..260u64 {
            let v: N = num!(i);
            CNum::alloc(cs, if self.0 { Some(&v) } else { None }).inputize();
        }
    }
    fn get_inputs(&self) -> Option<Vec<N>> { None }
}

fn main() {
    let k = generate_keys::<Bn256, Wide>();
    let vk = truncate_verifying_key(&k.vk);
    let p = prove(&Wide(true), &k);
    let inp: Vec<Fr> = (0..260u64).map(|i| Num::from(i).0).collect();
    check(verify(&vk, &p, &inp).unwrap(), "native");
    let w = proof_words(&p);
    let inp: Vec<BigUint> = (0..260u64).map(BigUint::from).collect();
    check(contract(&vk, &w, &inp), "the contract does not accept a valid proof with 260 inputs");
    println!("ok");
}
