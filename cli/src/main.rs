//! Command line programs a user of the library would build: its four binding macros over three
//! small circuits.
//!   line: x*s = y, s*t = z                                  public x, y, z; secret s, t
//!   mix:  v0*k = v1, v2 = b ? k : v0, w0 = bits0 ? v0 : bits1 ? v1 : v2, w1 = k^2
//!                                                            public v[3], b, (w0, w1); secret k, bits[2]
//!   tree: root of a Merkle proof of depth 3                  public root; secret leaf and proof
#![allow(unused_imports, unused_mut, dead_code, non_local_definitions)]

use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::{c_poseidon_merkle_proof_root, CMerkleProof};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon_merkle_proof_root, MerkleProof, PoseidonParams};
use fawkes_crypto_derive::Signal;
use lazy_static::lazy_static;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use typenum::{U2, U3};

#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct LinePub<F: Field> {
    pub x: Num<F>,
    pub y: Num<F>,
    pub z: Num<F>,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct LineSec<F: Field> {
    pub s: Num<F>,
    pub t: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "LinePub<CS::F>"]
pub struct CLinePub<'a, CS: ConstraintSystem> {
    pub x: CNum<'a, CS>,
    pub y: CNum<'a, CS>,
    pub z: CNum<'a, CS>,
}
#[derive(Clone, Signal)]
#[Value = "LineSec<CS::F>"]
pub struct CLineSec<'a, CS: ConstraintSystem> {
    pub s: CNum<'a, CS>,
    pub t: CNum<'a, CS>,
}
pub fn line<'a, CS: ConstraintSystem>(p: &CLinePub<'a, CS>, s: &CLineSec<'a, CS>, _: &()) {
    (&p.x * &s.s).assert_eq(&p.y);
    (&s.s * &s.t).assert_eq(&p.z);
}
pub fn line_data<F: Field>() -> (LinePub<F>, LineSec<F>) {
    let (x, s, t) = (Num::from(5), Num::from(7), Num::from(11));
    (LinePub { x, y: x * s, z: s * t }, LineSec { s, t })
}

#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Pair<F: Field> {
    pub first: Num<F>,
    pub second: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "Pair<CS::F>"]
pub struct CPair<'a, CS: ConstraintSystem> {
    pub first: CNum<'a, CS>,
    pub second: CNum<'a, CS>,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct MixPub<F: Field> {
    pub v: SizedVec<Num<F>, U3>,
    pub b: bool,
    pub w: Pair<F>,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct MixSec<F: Field> {
    pub k: Num<F>,
    pub bits: SizedVec<bool, U2>,
}
#[derive(Clone, Signal)]
#[Value = "MixPub<CS::F>"]
pub struct CMixPub<'a, CS: ConstraintSystem> {
    pub v: SizedVec<CNum<'a, CS>, U3>,
    pub b: CBool<'a, CS>,
    pub w: CPair<'a, CS>,
}
#[derive(Clone, Signal)]
#[Value = "MixSec<CS::F>"]
pub struct CMixSec<'a, CS: ConstraintSystem> {
    pub k: CNum<'a, CS>,
    pub bits: SizedVec<CBool<'a, CS>, U2>,
}
pub fn mix<'a, CS: ConstraintSystem>(p: &CMixPub<'a, CS>, s: &CMixSec<'a, CS>, _: &()) {
    (&p.v[0] * &s.k).assert_eq(&p.v[1]);
    s.k.switch(&p.b, &p.v[0]).assert_eq(&p.v[2]);
    p.v[0].switch(&s.bits[0], &p.v[1].switch(&s.bits[1], &p.v[2])).assert_eq(&p.w.first);
    (&s.k * &s.k).assert_eq(&p.w.second);
}
pub fn mix_data<F: Field>() -> (MixPub<F>, MixSec<F>) {
    let (a, k) = (Num::from(3), Num::from(13));
    (MixPub { v: SizedVec(vec![a, a * k, k], PhantomData), b: true, w: Pair { first: a, second: k * k } }, MixSec { k, bits: SizedVec(vec![true, true], PhantomData) })
}

#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct TreeSec<F: Field> {
    pub leaf: Num<F>,
    pub proof: MerkleProof<F, U3>,
}
#[derive(Clone, Signal)]
#[Value = "TreeSec<CS::F>"]
pub struct CTreeSec<'a, CS: ConstraintSystem> {
    pub leaf: CNum<'a, CS>,
    pub proof: CMerkleProof<'a, CS, U3>,
}
pub fn tree<'a, CS: ConstraintSystem>(p: &CNum<'a, CS>, s: &CTreeSec<'a, CS>, params: &PoseidonParams<CS::F>) {
    c_poseidon_merkle_proof_root(&s.leaf, &s.proof, params).assert_eq(p);
}
fn tree_data_with<F: Field>(params: &PoseidonParams<F>) -> (Num<F>, TreeSec<F>) {
    let leaf = Num::from(17);
    let proof = MerkleProof { sibling: SizedVec((20..23).map(|i: u64| Num::from(i)).collect(), PhantomData), path: SizedVec(vec![true, false, true], PhantomData) };
    (poseidon_merkle_proof_root(leaf, &proof, params), TreeSec { leaf, proof })
}

macro_rules! programs {
    ($bindings:ident, $name:ident, $fr:ty) => {
        mod $name {
            use super::*;
            type F = $fr;
            lazy_static! {
                static ref PARAMS: PoseidonParams<F> = PoseidonParams::new(3, 8, 53);
            }
            static NONE: () = ();
            fn tree_data() -> (Num<F>, TreeSec<F>) {
                tree_data_with(&*PARAMS)
            }
            fawkes_crypto::$bindings!(line_cli, LinePub<F>, CLinePub, LineSec<F>, CLineSec, NONE, line, line_data);
            fawkes_crypto::$bindings!(mix_cli, MixPub<F>, CMixPub, MixSec<F>, CMixSec, NONE, mix, mix_data);
            fawkes_crypto::$bindings!(tree_cli, Num<F>, CNum, TreeSec<F>, CTreeSec, PARAMS, tree, tree_data);
            pub fn run(circuit: &str) {
                match circuit {
                    "line" => line_cli::cli_main(),
                    "mix" => mix_cli::cli_main(),
                    "tree" => tree_cli::cli_main(),
                    _ => std::process::exit(65),
                }
            }
        }
    };
}
programs!(groth16_ethereum_bindings, ethereum, pairing::bn256::Fr);
programs!(groth16_waves_bindings, waves, pairing::bls12_381::Fr);
programs!(groth16_waves_bindings_bn256, waves_bn256, pairing::bn256::Fr);
programs!(groth16_near_bindings, near, pairing::bn256::Fr);

fn main() {
    let which = std::env::args().nth(1).unwrap_or_default();
    let mut it = which.splitn(2, '/');
    let (b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
    match b {
        "ethereum" => ethereum::run(c),
        "waves" => waves::run(c),
        "waves_bn256" => waves_bn256::run(c),
        "near" => near::run(c),
        _ => std::process::exit(65),
    }
}
