//! C22: the generated Solidity verifier, executed, against the native verifier.

use crate::engine::{guard, Prop, Sub};
use crate::ensure;
use crate::groth::*;
use crate::refmath::*;
use crate::sol::{Program, Stop, Vm};
use crate::tape::{CaseResult, Ctx};
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;
use fawkes_crypto::helpers::groth16::prover::ProofData;
use fawkes_crypto::helpers::groth16::verifier::{verify, TruncatedVerifyingKey};
use num::bigint::BigUint;
use num::{One, Zero};
use pairing::bn256::{Bn256, Fq, Fr};
use pairing::ff::{Field, PrimeField};
use pairing::{CurveAffine, CurveProjective, Engine};
use serde_json::Value;
use std::sync::OnceLock;

type FrZ = Z<Fr>;

fn word(b: &[u8], i: usize) -> BigUint {
    let mut w = [0u8; 32];
    for k in 0..32 {
        w[k] = b.get(32 * i + k).copied().unwrap_or(0);
    }
    BigUint::from_bytes_be(&w)
}
fn g1_in(b: &[u8], i: usize) -> Option<<Bn256 as Engine>::G1Affine> {
    let p = [word(b, i), word(b, i + 1)];
    if p[0].is_zero() && p[1].is_zero() {
        return Some(CurveAffine::zero());
    }
    if !g1_valid::<Bn>(&p) {
        return None;
    }
    g1_of::<Bn>(&p)
}
/// imaginary parts come first
fn g2_in(b: &[u8], i: usize) -> Option<<Bn256 as Engine>::G2Affine> {
    let p = [word(b, i + 1), word(b, i), word(b, i + 3), word(b, i + 2)];
    if p.iter().all(|c| c.is_zero()) {
        return Some(CurveAffine::zero());
    }
    if !g2_valid::<Bn>(&p) {
        return None;
    }
    g2_of::<Bn>(&p)
}
fn g1_out(p: &<Bn256 as Engine>::G1Affine) -> Vec<u8> {
    match g1_xy::<Bn>(p) {
        None => vec![0; 64],
        Some(c) => [coord_be::<Bn>(&c[0]), coord_be::<Bn>(&c[1])].concat(),
    }
}
/// EIP-196/197/1108
pub fn precompile(to: u64, inp: &[u8], gas: &BigUint) -> Option<Vec<u8>> {
    let cost: u64 = match to {
        4 => 15 + 3 * ((inp.len() as u64 + 31) / 32),
        6 => 150,
        7 => 6000,
        8 => 45000 + 34000 * (inp.len() as u64 / 192),
        _ => return None,
    };
    if *gas < BigUint::from(cost) {
        return None;
    }
    match to {
        4 => Some(inp.to_vec()),
        6 => {
            let mut a = g1_in(inp, 0)?.into_projective();
            a.add_assign(&g1_in(inp, 2)?.into_projective());
            Some(g1_out(&a.into_affine()))
        }
        7 => {
            let a = g1_in(inp, 0)?;
            let k = word(inp, 2) % big(BN_R);
            Some(g1_out(&a.mul(Z::<Fr>::from_big(&k).0.into_repr()).into_affine()))
        }
        _ => {
            if inp.len() % 192 != 0 {
                return None;
            }
            let mut v = vec![];
            for i in 0..inp.len() / 192 {
                v.push((g1_in(inp, 6 * i)?.prepare(), g2_in(inp, 6 * i + 2)?.prepare()));
            }
            let refs: Vec<_> = v.iter().map(|(a, b)| (a, b)).collect();
            let ok = Bn256::final_exponentiation(&Bn256::miller_loop(refs.iter())).unwrap() == <Bn256 as Engine>::Fqk::one();
            let mut out = vec![0u8; 32];
            out[31] = ok as u8;
            Some(out)
        }
    }
}

fn run(src: &str, p: &[BigUint], inp: &[BigUint]) -> Result<bool, Stop> {
    let prog = Program::parse(src)?;
    Vm::new(&prog, precompile).call_arrays("Verifier", "verifyProof", &[p.to_vec(), inp.to_vec()])
}

/// what the contract decides, if it can be interpreted
pub fn decide(src: &str, d: &ProofData<Fq>, inp: &[BigUint]) -> Option<bool> {
    match run(src, &data_words(d), inp) {
        Ok(b) => Some(b),
        Err(Stop::Unsupported(_)) => None,
        Err(_) => Some(false),
    }
}

/// exponents k such that both parts of the x (or y) coordinate of k*G2 are short
fn short_g2() -> &'static Vec<FrZ> {
    static S: OnceLock<Vec<FrZ>> = OnceLock::new();
    S.get_or_init(|| {
        let lim = BigUint::one() << 248;
        let g = <Bn256 as Engine>::G2Affine::one();
        let mut p = g.into_projective();
        let mut out = vec![];
        let mut k = 1u64;
        while out.len() < 6 && k < 60000 {
            let batch: Vec<_> = (0..512)
                .map(|_| {
                    let c = p;
                    p.add_assign_mixed(&g);
                    c
                })
                .collect();
            let mut b = batch.clone();
            CurveProjective::batch_normalization(&mut b);
            for q in b {
                let c = g2_xy::<Bn>(&q.into_affine()).unwrap();
                if c[0] < lim && c[1] < lim || c[2] < lim && c[3] < lim {
                    out.push(Z::u(k));
                }
                k += 1;
            }
        }
        out
    })
}

fn data_words(d: &ProofData<Fq>) -> Vec<BigUint> {
    let v = serde_json::to_value(d).unwrap();
    let g = |s: &Value| big(s.as_str().unwrap());
    vec![g(&v["a"][0]), g(&v["a"][1]), g(&v["b"][0][0]), g(&v["b"][0][1]), g(&v["b"][1][0]), g(&v["b"][1][1]), g(&v["c"][0]), g(&v["c"][1])]
}
/// the native decision on raw words
fn native(key: &TruncatedVerifyingKey<Bn256>, w: &[BigUint], inp: &[BigUint]) -> bool {
    let (q, r) = (big(BN_Q), big(BN_R));
    if w.iter().any(|x| *x >= q) || inp.iter().any(|x| *x >= r) {
        return false;
    }
    let s = |i: usize| Value::String(w[i].to_str_radix(10));
    let j = serde_json::json!({"a": [s(0), s(1)], "b": [[s(2), s(3)], [s(4), s(5)]], "c": [s(6), s(7)]});
    let d: ProofData<Fq> = match serde_json::from_value(j) {
        Ok(d) => d,
        Err(_) => return false,
    };
    let ins: Vec<Fr> = inp.iter().map(|x| Z::<Fr>::from_big(x).0).collect();
    match guard(|| verify(key, &Bn::pfrom(&d), &ins)) {
        Ok(Ok(b)) => b,
        _ => false,
    }
}

/// whether the contract of one fixed key runs at all here
fn probe() -> &'static Result<(), String> {
    static P: OnceLock<Result<(), String>> = OnceLock::new();
    P.get_or_init(|| {
        let words: Vec<u64> = (0..64u64).map(|i| (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect();
        let mut ctx = Ctx::new(&words, false, false);
        let td = Trapdoor::<Bn>::gen(&mut ctx, 3);
        let key = td.key();
        let inp: Vec<FrZ> = (5..8).map(Z::u).collect();
        let e = td.accept(Z::u(11), Z::u(13), &inp);
        let w = data_words(&proof_of::<Bn>(&e).into_data());
        let src = generate_sol_data(&key.into_data());
        match run(&src, &w, &inp.iter().map(|x| x.big()).collect::<Vec<_>>()) {
            Err(Stop::Unsupported(s)) => Err(s),
            _ => Ok(()),
        }
    })
}

fn c22_contract(ctx: &mut Ctx) -> CaseResult {
    let n = match ctx.below(40) {
        0..=29 => ctx.range(1, 4),
        30..=35 => ctx.range(5, 13),
        36..=38 => ctx.range(14, 40),
        _ => *ctx.pick(&[99, 100, 101, 127, 128, 255, 256, 257, 300]),
    };
    let mut td = Trapdoor::<Bn>::gen(ctx, n);
    if ctx.chance(1, 5) {
        let s = short_g2();
        if !s.is_empty() {
            let k = *ctx.pick(s);
            match ctx.below(3) {
                0 => td.be = k,
                1 => td.ga = k,
                _ => td.de = k,
            }
            ctx.label("short coordinates");
        }
    }
    if ctx.chance(1, 8) {
        let i = ctx.below(n as u64 + 1) as usize;
        td.ic[i] = match ctx.below(3) {
            0 => Z::zero(),
            1 => Z::one(),
            _ => td.ic[(i + 1) % (n + 1)],
        };
        ctx.label("special ic");
    }
    let key = td.key();
    let mut inp: Vec<FrZ> = if n > 20 {
        let mut g = ctx.rng();
        (0..n).map(|_| rnd_z(&mut g)).collect()
    } else {
        (0..n).map(|_| gen_z(ctx)).collect()
    };
    if ctx.chance(1, 10) && !td.ic[n].is_zero() {
        let mut s = td.ic[0];
        for (x, k) in inp.iter().zip(&td.ic[1..]).take(n - 1) {
            s = s + *x * *k;
        }
        inp[n - 1] = (Z::zero() - s).div(td.ic[n]);
        ctx.label("input combination at infinity");
    }
    let a = if ctx.chance(1, 12) { Z::zero() } else { gen_z(ctx) };
    let b = if ctx.chance(1, 12) { Z::zero() } else { gen_z(ctx) };
    let mut e = td.accept(a, b, &inp);
    if ctx.chance(1, 12) && !a.is_zero() {
        let b2 = (a * b - e[2] * td.de).div(a);
        e = td.accept(a, b2, &inp);
        ctx.label("c at infinity");
    }
    let data = key.into_data();
    let src = generate_sol_data(&data);
    ensure!(generate_sol_data(&data) == src, "the generated contract depends on something else than the key");
    let mut w = data_words(&proof_of::<Bn>(&e).into_data());
    let mut raw: Vec<BigUint> = inp.iter().map(|x| x.big()).collect();
    let (q, r) = (big(BN_Q), big(BN_R));
    let top = BigUint::one() << 256;
    let i = ctx.below(8) as usize;
    let k = ctx.below(n as u64) as usize;
    let what = match ctx.below(16) {
        0..=4 => "as proved",
        5 => {
            e[i % 3] = gen_z(ctx);
            w = data_words(&proof_of::<Bn>(&e).into_data());
            "component replaced"
        }
        6 => {
            if let Some((v, _)) = tweak_inputs::<Bn>(ctx, &inp) {
                raw = v.iter().map(|x| x.big()).collect();
            }
            "inputs altered"
        }
        7 | 8 => {
            let m = BigUint::from(1 + ctx.below(5)) * &q + &w[i];
            if m < top {
                w[i] = m;
            }
            "coordinate + k*q"
        }
        9 | 10 => {
            let m = BigUint::from(1 + ctx.below(5)) * &r + &raw[k];
            if m < top {
                raw[k] = m;
            }
            "input + k*r"
        }
        11 => {
            w[i] = match ctx.below(5) {
                0 => BigUint::zero(),
                1 => q.clone(),
                2 => &top - 1u32,
                3 => (&w[i] + 1u32) % &q,
                _ => (&q - &w[i]) % &q,
            };
            "coordinate altered"
        }
        12 => {
            raw[k] = match ctx.below(4) {
                0 => r.clone(),
                1 => &r - 1u32,
                2 => &top - 1u32,
                _ => BigUint::zero(),
            };
            "input at a bound"
        }
        13 => {
            match ctx.below(4) {
                0 => w.swap(0, 1),
                1 => {
                    w.swap(2, 3);
                    w.swap(4, 5);
                }
                2 => {
                    w.swap(2, 4);
                    w.swap(3, 5);
                }
                _ => {
                    w.swap(0, 6);
                    w.swap(1, 7);
                }
            }
            "coordinates swapped"
        }
        14 => {
            let p = any_point4::<Bn>(ctx);
            w[2] = p[1].clone();
            w[3] = p[0].clone();
            w[4] = p[3].clone();
            w[5] = p[2].clone();
            "b of any order"
        }
        _ => {
            // the same statement with both A and B negated
            w[1] = (&q - &w[1]) % &q;
            w[4] = (&q - &w[4]) % &q;
            w[5] = (&q - &w[5]) % &q;
            "A and B negated"
        }
    };
    ctx.label(what);
    ctx.label(format!("inputs {}", if n > 13 { ">13".to_string() } else { n.to_string() }));
    ctx.note(|| format!("{} inputs, {}: proof {:?} inputs {:?} vk {}", n, what, w.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>(), raw.iter().take(6).map(|x| x.to_str_radix(10)).collect::<Vec<_>>(), serde_json::to_string(&data).unwrap()));
    let want = native(&key, &w, &raw);
    if what == "as proved" {
        ensure!(want, "the native verifier rejects a proof that satisfies the verification equation");
    }
    ctx.nontrivial();
    match run(&src, &w, &raw) {
        Ok(got) => {
            ctx.label(if got { "contract true" } else { "contract false" });
            ensure!(got == want, "with {} the contract returns {} but the native verifier {}", what, got, if want { "accepts" } else { "does not accept" });
        }
        Err(Stop::Revert(m)) => {
            ctx.label("contract reverts");
            ensure!(!want, "with {} the contract reverts ({}) but the native verifier accepts", what, m);
        }
        Err(Stop::Bad(m)) => return Err(format!("the generated contract is not valid: {}", m)),
        Err(Stop::Unsupported(m)) => match probe() {
            Err(_) => ctx.label(format!("not decided: the contract uses {}", m)),
            Ok(()) => return Err(format!("the contract for this key is not well formed, unlike that of another key: {}", m)),
        },
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        subs: vec![Sub {
            name: "contract",
            rule: "key with known discrete logarithms, proof and inputs accepted or altered; the generated contract is interpreted. All non-trivial",
            f: c22_contract,
            tape: 160,
            quick: 6000,
            thorough: 40000,
            shrink: 200,
        }],
        assumptions: vec![
            "the interpreter implements the Solidity subset the contract uses (0.6 semantics: wrapping arithmetic, memory references, array literal typing)",
            "precompiles follow EIP-196/197 with EIP-1108 gas",
            "keys have at least one public input (Solidity has no arrays of length zero)",
        ],
    }]
}
