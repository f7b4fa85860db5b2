//! Proof system helpers shared by C19-C23 and C25, and the checks C19, C20, C21, C25.

use crate::engine::{guard, Prop, Sub};
use crate::progs::*;
use crate::reccs::*;
use crate::refmath::*;
use crate::tape::{CaseResult, Ctx};
use crate::ensure;
use bellman::{LinearCombination, SynthesisError, Variable};
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Parameters, Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::helpers::groth16::{Assignment, Groth16CS};
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use num::Zero;
use pairing::ff::{Field as _, PrimeField, SqrtField};
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine};
use serde_json::Value;
use std::io::{self, Read, Write};
use std::marker::PhantomData;
use std::rc::Rc;

// ------------------------------------------------------------------ engines

pub type G1<E> = <E as Engine>::G1Affine;
pub type G2<E> = <E as Engine>::G2Affine;

pub trait Eng: Curve {
    type E: Engine<Fr = Self::Fr>;
    type Q: Field;
    const QS: &'static str;
    /// bytes of one base field coordinate
    const W: usize;
    /// true if the whole curve G1 lives on has prime order
    const G1_COFACTOR_ONE: bool;
    fn pinto(p: &Proof<Self::E>) -> ProofData<Self::Q>;
    fn pfrom(p: &ProofData<Self::Q>) -> Proof<Self::E>;
    fn pread<R: Read>(r: R) -> io::Result<Proof<Self::E>>;
    fn pwrite<W: Write>(p: &Proof<Self::E>, w: W) -> io::Result<()>;
    fn kinto(k: &TruncatedVerifyingKey<Self::E>) -> TruncatedVerifyingKeyData<Self::Q>;
    fn kfrom(k: &TruncatedVerifyingKeyData<Self::Q>) -> TruncatedVerifyingKey<Self::E>;
    /// a point of the curve over the base field, of any order, from a seed x
    fn any_g1(x: &BigUint, flip: bool) -> Option<[BigUint; 2]>;
    /// a point of the twist, of any order: (x.c0, x.c1, y.c0, y.c1)
    fn any_g2(x0: &BigUint, x1: &BigUint, flip: bool) -> Option<[BigUint; 4]>;
    fn g1_on_curve(p: &[BigUint; 2]) -> bool;
    fn g2_on_curve(p: &[BigUint; 4]) -> bool;
}

macro_rules! eng {
    ($c:ident, $m:ident, $e:ident, $q:expr, $w:expr, $cof:expr, $b:expr, $b2:expr) => {
        impl Eng for $c {
            type E = pairing::$m::$e;
            type Q = pairing::$m::Fq;
            const QS: &'static str = $q;
            const W: usize = $w;
            const G1_COFACTOR_ONE: bool = $cof;
            fn pinto(p: &Proof<Self::E>) -> ProofData<Self::Q> {
                p.into_data()
            }
            fn pfrom(p: &ProofData<Self::Q>) -> Proof<Self::E> {
                Proof::<pairing::$m::$e>::from_data(p)
            }
            fn pread<R: Read>(r: R) -> io::Result<Proof<Self::E>> {
                Proof::<pairing::$m::$e>::read(r)
            }
            fn pwrite<W: Write>(p: &Proof<Self::E>, w: W) -> io::Result<()> {
                p.write(w)
            }
            fn kinto(k: &TruncatedVerifyingKey<Self::E>) -> TruncatedVerifyingKeyData<Self::Q> {
                k.into_data()
            }
            fn kfrom(k: &TruncatedVerifyingKeyData<Self::Q>) -> TruncatedVerifyingKey<Self::E> {
                TruncatedVerifyingKey::<pairing::$m::$e>::from_data(k)
            }
            fn any_g1(x: &BigUint, flip: bool) -> Option<[BigUint; 2]> {
                let x = Z::<Self::Q>::from_big(x);
                let y = (x * x * x + Z::u($b)).sqrt()?;
                let y = if flip { Z::zero() - y } else { y };
                Some([x.big(), y.big()])
            }
            fn any_g2(x0: &BigUint, x1: &BigUint, flip: bool) -> Option<[BigUint; 4]> {
                let x = pairing::$m::Fq2 { c0: Z::<Self::Q>::from_big(x0).0, c1: Z::<Self::Q>::from_big(x1).0 };
                let mut r = x;
                r.square();
                r.mul_assign(&x);
                let b2: fn() -> pairing::$m::Fq2 = $b2;
                r.add_assign(&b2());
                let mut y = r.sqrt()?;
                if flip {
                    y.negate();
                }
                Some([Z(x.c0).big(), Z(x.c1).big(), Z(y.c0).big(), Z(y.c1).big()])
            }
            fn g1_on_curve(p: &[BigUint; 2]) -> bool {
                let (x, y) = (Z::<Self::Q>::from_big(&p[0]), Z::<Self::Q>::from_big(&p[1]));
                y * y == x * x * x + Z::u($b)
            }
            fn g2_on_curve(p: &[BigUint; 4]) -> bool {
                let f = |i: usize| Z::<Self::Q>::from_big(&p[i]).0;
                let x = pairing::$m::Fq2 { c0: f(0), c1: f(1) };
                let mut y = pairing::$m::Fq2 { c0: f(2), c1: f(3) };
                y.square();
                let mut r = x;
                r.square();
                r.mul_assign(&x);
                let b2: fn() -> pairing::$m::Fq2 = $b2;
                r.add_assign(&b2());
                r == y
            }
        }
    };
}
// y^2 = x^3 + 3 with twist coefficient 3/(9+u); y^2 = x^3 + 4 with 4(1+u)
eng!(Bn, bn256, Bn256, BN_Q, 32, true, 3, || {
    let mut t = pairing::bn256::Fq2 { c0: Z::u(9).0, c1: Z::one().0 }.inverse().unwrap();
    t.mul_assign(&pairing::bn256::Fq2 { c0: Z::u(3).0, c1: Z::zero().0 });
    t
});
eng!(Bls, bls12_381, Bls12, BLS_Q, 48, false, 4, || pairing::bls12_381::Fq2 { c0: Z::u(4).0, c1: Z::u(4).0 });

#[macro_export]
macro_rules! on_engine {
    ($ctx:expr, $f:ident $(, $a:expr)*) => {
        if $ctx.bool() {
            $ctx.label("bls12_381");
            $f::<crate::refmath::Bls>($ctx $(, $a)*)
        } else {
            $ctx.label("bn256");
            $f::<crate::refmath::Bn>($ctx $(, $a)*)
        }
    };
}

fn be(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}
pub fn coord_be<T: Eng>(x: &BigUint) -> Vec<u8> {
    let b = if x.is_zero() { vec![] } else { x.to_bytes_be() };
    let mut v = vec![0u8; T::W - b.len()];
    v.extend(b);
    v
}
fn coord_le<T: Eng>(x: &BigUint) -> Vec<u8> {
    let mut v = coord_be::<T>(x);
    v.reverse();
    v
}
/// (x, y); None for the point at infinity. Reads the library-independent uncompressed encoding.
pub fn g1_xy<T: Eng>(p: &G1<T::E>) -> Option<[BigUint; 2]> {
    if p.is_zero() {
        return None;
    }
    let u = p.into_uncompressed();
    let b = u.as_ref();
    Some([be(&b[..T::W]), be(&b[T::W..])])
}
/// (x.c0, x.c1, y.c0, y.c1)
pub fn g2_xy<T: Eng>(p: &G2<T::E>) -> Option<[BigUint; 4]> {
    if p.is_zero() {
        return None;
    }
    let u = p.into_uncompressed();
    let b = u.as_ref();
    let c: Vec<BigUint> = b.chunks(T::W).map(be).collect();
    Some([c[1].clone(), c[0].clone(), c[3].clone(), c[2].clone()])
}
pub fn g1_of<T: Eng>(p: &[BigUint; 2]) -> Option<G1<T::E>> {
    let mut u = <G1<T::E> as CurveAffine>::Uncompressed::empty();
    let v = [coord_be::<T>(&p[0]), coord_be::<T>(&p[1])].concat();
    u.as_mut().copy_from_slice(&v);
    u.into_affine_unchecked().ok()
}
pub fn g2_of<T: Eng>(p: &[BigUint; 4]) -> Option<G2<T::E>> {
    let mut u = <G2<T::E> as CurveAffine>::Uncompressed::empty();
    let v = [coord_be::<T>(&p[1]), coord_be::<T>(&p[0]), coord_be::<T>(&p[3]), coord_be::<T>(&p[2])].concat();
    u.as_mut().copy_from_slice(&v);
    u.into_affine_unchecked().ok()
}
/// valid means: canonical coordinates, on the curve, in the prime-order subgroup
pub fn g1_valid<T: Eng>(p: &[BigUint; 2]) -> bool {
    let q = big(T::QS);
    p.iter().all(|c| *c < q) && T::g1_on_curve(p) && (T::G1_COFACTOR_ONE || g1_of::<T>(p).map(|a| a.mul(T::Fr::char()).is_zero()) == Some(true))
}
pub fn g2_valid<T: Eng>(p: &[BigUint; 4]) -> bool {
    let q = big(T::QS);
    p.iter().all(|c| *c < q) && T::g2_on_curve(p) && g2_of::<T>(p).map(|a| a.mul(T::Fr::char()).is_zero()) == Some(true)
}

pub fn g1_mul<T: Eng>(k: Z<T::Fr>) -> G1<T::E> {
    G1::<T::E>::one().mul(k.0.into_repr()).into_affine()
}
pub fn g2_mul<T: Eng>(k: Z<T::Fr>) -> G2<T::E> {
    G2::<T::E>::one().mul(k.0.into_repr()).into_affine()
}

/// A key whose discrete logarithms are known, so that accepted proofs exist for any inputs.
pub struct Trapdoor<T: Eng> {
    pub al: Z<T::Fr>,
    pub be: Z<T::Fr>,
    pub ga: Z<T::Fr>,
    pub de: Z<T::Fr>,
    pub ic: Vec<Z<T::Fr>>,
}
pub fn nonzero<F: Field>(ctx: &mut Ctx) -> Z<F> {
    let v = gen_z(ctx);
    if v.is_zero() {
        Z::one()
    } else {
        v
    }
}
impl<T: Eng> Trapdoor<T> {
    pub fn gen(ctx: &mut Ctx, n: usize) -> Self {
        let (al, be, ga, de) = (nonzero(ctx), nonzero(ctx), nonzero(ctx), nonzero(ctx));
        let mut r = ctx.rng();
        let mut ic = vec![];
        for _ in 0..=n {
            let mut v = rnd_z(&mut r);
            while Z::<T::Fr>::is_zero(&v) {
                v = rnd_z(&mut r);
            }
            ic.push(v);
        }
        let mut t = Trapdoor { al, be, ga, de, ic };
        if ctx.chance(1, 6) {
            // repeated and opposite elements, elements of tiny exponent
            ctx.label("related key elements");
            for _ in 0..ctx.range(1, 3) {
                let (i, j) = (ctx.below(n as u64 + 1) as usize, if ctx.bool() { 0 } else { ctx.below(n as u64 + 1) as usize });
                match ctx.below(7) {
                    0 | 1 => t.ic[i] = t.ic[j],
                    2 => t.ic[i] = -t.ic[j],
                    3 => t.ic[i] = t.al,
                    4 => t.ic[i] = Z::u(1 + ctx.below(3)),
                    5 => t.ga = t.be,
                    _ => t.de = if ctx.bool() { t.ga } else { t.be },
                }
            }
        }
        t
    }
    pub fn key(&self) -> TruncatedVerifyingKey<T::E> {
        TruncatedVerifyingKey {
            alpha_g1: g1_mul::<T>(self.al),
            beta_g2: g2_mul::<T>(self.be),
            gamma_g2: g2_mul::<T>(self.ga),
            delta_g2: g2_mul::<T>(self.de),
            ic: self.ic.iter().map(|x| g1_mul::<T>(*x)).collect(),
        }
    }
    /// exponents (a, b, c) of an accepted proof
    pub fn accept(&self, a: Z<T::Fr>, b: Z<T::Fr>, inp: &[Z<T::Fr>]) -> [Z<T::Fr>; 3] {
        let mut s = self.ic[0];
        for (x, k) in inp.iter().zip(&self.ic[1..]) {
            s = s + *x * *k;
        }
        let c = (a * b - self.al * self.be - s * self.ga).div(self.de);
        [a, b, c]
    }
    /// the verification equation in the exponent: the reference verdict
    pub fn verdict(&self, e: &[Z<T::Fr>; 3], inp: &[Z<T::Fr>]) -> bool {
        let mut s = self.ic[0];
        for (x, k) in inp.iter().zip(&self.ic[1..]) {
            s = s + *x * *k;
        }
        e[0] * e[1] == self.al * self.be + s * self.ga + e[2] * self.de
    }
}
pub fn proof_of<T: Eng>(e: &[Z<T::Fr>; 3]) -> Proof<T::E> {
    Proof(bellman::groth16::Proof { a: g1_mul::<T>(e[0]), b: g2_mul::<T>(e[1]), c: g1_mul::<T>(e[2]) })
}
pub fn proof_eq<T: Eng>(x: &Proof<T::E>, y: &Proof<T::E>) -> bool {
    x.0.a == y.0.a && x.0.b == y.0.b && x.0.c == y.0.c
}
pub fn key_eq<E: Engine>(x: &TruncatedVerifyingKey<E>, y: &TruncatedVerifyingKey<E>) -> bool {
    x.alpha_g1 == y.alpha_g1 && x.beta_g2 == y.beta_g2 && x.gamma_g2 == y.gamma_g2 && x.delta_g2 == y.delta_g2 && x.ic == y.ic
}

// ------------------------------------------------------------------ C19

/// the plan, then x * y = z with z public: an unsatisfying witness is one field away
pub struct Tied<C: Curve> {
    plan: PlanCircuit<C>,
    tri: Option<[Z<C::Fr>; 3]>,
}
impl<C: Curve> Default for Tied<C> {
    fn default() -> Self {
        Tied { plan: PlanCircuit::default(), tri: None }
    }
}
impl<C: Curve> Circuit for Tied<C> {
    type F = C::Fr;
    fn synthesize<CS: ConstraintSystem<F = Self::F>>(&self, cs: &CS) {
        self.plan.synthesize(cs);
        let v = |i: usize| self.tri.map(|t| t[i].n());
        let x = CNum::alloc(cs, v(0).as_ref());
        let y = CNum::alloc(cs, v(1).as_ref());
        let z = CNum::alloc(cs, v(2).as_ref());
        z.inputize();
        cs.enforce(&x, &y, &z);
    }
    fn get_inputs(&self) -> Option<Vec<Num<Self::F>>> {
        let mut p = self.plan.get_inputs()?;
        p.push(self.tri?[2].n());
        Some(p)
    }
}

pub fn ins<T: Eng>(v: &[Z<T::Fr>]) -> Vec<T::Fr> {
    v.iter().map(|x| x.0).collect()
}
pub fn tweak_inputs<T: Eng>(ctx: &mut Ctx, v: &[Z<T::Fr>]) -> Option<(Vec<Z<T::Fr>>, &'static str)> {
    if v.is_empty() {
        return None;
    }
    let i = ctx.below(v.len() as u64) as usize;
    let j = ctx.below(v.len() as u64) as usize;
    let mut w = v.to_vec();
    let what = match ctx.below(6) {
        0 => {
            w[i] = w[i] + Z::one();
            "input+1"
        }
        1 => {
            w.swap(i, j);
            "inputs swapped"
        }
        2 => {
            w[i] = Z::zero() - w[i];
            "input negated"
        }
        3 => {
            w[i] = gen_z(ctx);
            "input replaced"
        }
        4 => {
            w.rotate_left(1);
            "inputs rotated"
        }
        _ => {
            let b = ctx.below(250);
            w[i] = w[i] + Z::u(2).pow_big(&BigUint::from(b));
            "input+2^k"
        }
    };
    if w.as_slice() == v {
        None
    } else {
        Some((w, what))
    }
}
fn tweak_proof<T: Eng>(ctx: &mut Ctx, p: &Proof<T::E>, other: &Proof<T::E>) -> (Proof<T::E>, String) {
    let mut q = p.0.clone();
    let comp = ctx.below(3);
    let how = ctx.below(5);
    fn t<A: CurveAffine>(a: A, o: A, how: u64) -> A {
        match how {
            0 => {
                let mut x = a;
                x.negate();
                x
            }
            1 => {
                let mut x = a.into_projective();
                x.add_assign_mixed(&A::one());
                x.into_affine()
            }
            2 => A::zero(),
            3 => o,
            _ => {
                let mut x = a.into_projective();
                x.double();
                x.into_affine()
            }
        }
    }
    match comp {
        0 => q.a = t(q.a, other.0.a, how),
        1 => q.b = t(q.b, other.0.b, how),
        _ => q.c = t(q.c, other.0.c, how),
    }
    let w = ["a", "b", "c"][comp as usize];
    let h = ["negated", "+G", "infinity", "from another proof", "doubled"][how as usize];
    (Proof(q), format!("{} {}", w, h))
}

fn end_to_end<T: Eng>(ctx: &mut Ctx) -> CaseResult {
    let n = if ctx.chance(1, 5) { 12 } else { 6 };
    let plan = Rc::new(Plan::<T>::gen_with(ctx, n, false));
    ctx.note(|| plan.show());
    install(&plan);
    let tri = |ctx: &mut Ctx| {
        let (x, y) = (gen_z::<T::Fr>(ctx), gen_z(ctx));
        [x, y, x * y]
    };
    let t1 = tri(ctx);
    let c1 = Tied::<T> { plan: PlanCircuit { plan: plan.clone(), w: Some(plan.witness.clone()), c: PhantomData }, tri: Some(t1) };
    let params: Parameters<T::E> = generate_keys::<T::E, Tied<T>>();
    let key = truncate_verifying_key(&params.vk);

    // the key speaks about this circuit
    let rec = RecCS::<T::Fr>::new(Style::Split);
    c1.synthesize(&rec);
    rec.ok()?;
    let npub = plan.npublic() + 1;
    ensure!(key.ic.len() == npub + 1, "{}: key has {} input points for {} public inputs", T::NAME, key.ic.len(), npub);
    let naux = rec.r.borrow().kinds.iter().filter(|k| **k == Kind::Aux).count();
    ensure!(params.l.len() == naux, "{}: key has {} auxiliary points for {} auxiliary variables", T::NAME, params.l.len(), naux);

    let (mut want, _) = plan.eval(&plan.witness);
    want.push(t1[2]);
    let reported: Vec<Z<T::Fr>> = c1.get_inputs().ok_or("no inputs reported")?.into_iter().map(z).collect();
    ensure!(reported == want, "{}: reported public inputs differ from the computed ones", T::NAME);
    let p1 = prove(&c1, &params);
    let r = verify(&key, &p1, &ins::<T>(&want)).map_err(|e| format!("{}: verify failed: {:?}", T::NAME, e))?;
    ensure!(r, "{}: a proof from a satisfying witness is rejected for its public inputs", T::NAME);
    if want.len() > 1 {
        ctx.nontrivial();
    }
    ctx.label(format!("public inputs {}", if want.len() > 5 { ">5".into() } else { want.len().to_string() }));

    // the same circuit with another witness
    let w2 = plan.rewitness(ctx);
    let t2 = tri(ctx);
    let c2 = Tied::<T> { plan: PlanCircuit { plan: plan.clone(), w: Some(w2.clone()), c: PhantomData }, tri: Some(t2) };
    let (mut want2, _) = plan.eval(&w2);
    want2.push(t2[2]);
    let p2 = prove(&c2, &params);
    let r2 = verify(&key, &p2, &ins::<T>(&want2)).map_err(|e| format!("{:?}", e))?;
    ensure!(r2, "{}: a proof from a second satisfying witness is rejected", T::NAME);
    if want != want2 {
        let x = verify(&key, &p1, &ins::<T>(&want2)).map_err(|e| format!("{:?}", e))?;
        ensure!(!x, "{}: a proof verifies for the public inputs of another statement", T::NAME);
        ctx.label("cross statement");
    }
    // other inputs
    for _ in 0..2 {
        if let Some((w, what)) = tweak_inputs::<T>(ctx, &want) {
            ctx.label(what);
            let x = verify(&key, &p1, &ins::<T>(&w)).map_err(|e| format!("{:?}", e))?;
            ensure!(!x, "{}: proof verifies with {}", T::NAME, what);
        }
    }
    // one altered component
    for _ in 0..2 {
        let (q, what) = tweak_proof::<T>(ctx, &p1, &p2);
        if proof_eq::<T>(&q, &p1) {
            continue;
        }
        ctx.label(what.clone());
        let x = verify(&key, &q, &ins::<T>(&want)).map_err(|e| format!("{:?}", e))?;
        ensure!(!x, "{}: proof with {} verifies", T::NAME, what);
    }
    // wrong number of inputs
    let mut more = ins::<T>(&want);
    more.push(gen_z::<T::Fr>(ctx).0);
    ensure!(verify(&key, &p1, &more).is_err(), "{}: one public input too many is not an error", T::NAME);
    ensure!(verify(&key, &p1, &ins::<T>(&want[..want.len() - 1])).is_err(), "{}: one public input too few is not an error", T::NAME);
    ensure!(verify(&key, &p1, &[]).is_err(), "{}: no public inputs is not an error", T::NAME);

    // an unsatisfying witness
    match ctx.below(3) {
        0 => {
            let mut bad = t1;
            let i = ctx.below(3) as usize;
            bad[i] = bad[i] + nonzero(ctx);
            if bad[0] * bad[1] != bad[2] {
                ctx.label("product broken");
                let c3 = Tied::<T> { plan: PlanCircuit { plan: plan.clone(), w: Some(plan.witness.clone()), c: PhantomData }, tri: Some(bad) };
                if let Ok(p3) = guard(|| prove(&c3, &params)) {
                    let mut pi = want.clone();
                    *pi.last_mut().unwrap() = bad[2];
                    let x = verify(&key, &p3, &ins::<T>(&pi)).map_err(|e| format!("{:?}", e))?;
                    ensure!(!x, "{}: a proof of a false product verifies", T::NAME);
                }
            }
        }
        1 => {
            // a boolean that is not one, wherever it is read
            let mut at = 0;
            let mut slots = vec![];
            for (p, m) in &plan.ins {
                if *p == P::Bit && *m != W::Const {
                    slots.push(at);
                }
                at += if *p == P::Pt { 2 } else { 1 };
            }
            if !slots.is_empty() {
                let k = *ctx.pick(&slots);
                let mut w = plan.witness.clone();
                w[k] = Z::u(2) + gen_z(ctx);
                if w[k] != Z::zero() && w[k] != Z::one() {
                    let rec = RecCS::<T::Fr>::new(Style::Split);
                    let syn = guard(|| plan.synth_tied(&rec, Some(&w)));
                    if let Ok(publics) = syn {
                        if !rec.r.borrow().unsat.is_empty() && publics.iter().all(|p| p.is_some()) {
                            ctx.label("boolean broken");
                            let mut pi: Vec<Z<T::Fr>> = publics.into_iter().map(|p| z(p.unwrap())).collect();
                            pi.push(t1[2]);
                            let c3 = Tied::<T> { plan: PlanCircuit { plan: plan.clone(), w: Some(w), c: PhantomData }, tri: Some(t1) };
                            if let Ok(p3) = guard(|| prove(&c3, &params)) {
                                let x = verify(&key, &p3, &ins::<T>(&pi)).map_err(|e| format!("{:?}", e))?;
                                ensure!(!x, "{}: a proof from an unsatisfying witness verifies", T::NAME);
                            }
                        }
                    }
                }
            }
        }
        _ => {
            // no witness at all must not yield a proof
            ctx.label("missing witness");
            let c3 = Tied::<T> { plan: PlanCircuit { plan: plan.clone(), w: None, c: PhantomData }, tri: Some(t1) };
            let any_alloc = plan.ins.iter().any(|(_, m)| *m != W::Const);
            if any_alloc {
                if let Ok(p3) = guard(|| prove(&c3, &params)) {
                    let x = verify(&key, &p3, &ins::<T>(&want)).map_err(|e| format!("{:?}", e))?;
                    ensure!(!x, "{}: a proof made without a witness verifies", T::NAME);
                    return Err(format!("{}: proving without a witness did not fail", T::NAME));
                }
            }
        }
    }
    // another key of the same circuit, and keys differing in one element
    let params2: Parameters<T::E> = generate_keys::<T::E, Tied<T>>();
    let key2 = truncate_verifying_key(&params2.vk);
    let x = verify(&key2, &p1, &ins::<T>(&want)).map_err(|e| format!("{:?}", e))?;
    ensure!(!x, "{}: a proof verifies under another key of the same circuit", T::NAME);
    let mut k = key.clone();
    let which = ctx.below(6);
    match which {
        0 => k.alpha_g1 = key2.alpha_g1,
        1 => k.beta_g2 = key2.beta_g2,
        2 => k.gamma_g2 = key2.gamma_g2,
        3 => k.delta_g2 = key2.delta_g2,
        4 => k.ic[0] = key2.ic[0],
        _ => {
            let i = ctx.below(want.len() as u64) as usize;
            if !want[i].is_zero() {
                k.ic[i + 1] = key2.ic[i + 1];
            } else {
                k.ic[0] = key2.ic[0];
            }
        }
    }
    let x = verify(&k, &p1, &ins::<T>(&want)).map_err(|e| format!("{:?}", e))?;
    ensure!(!x, "{}: a proof verifies under a key with element {} replaced", T::NAME, which);
    Ok(())
}
fn c19_end_to_end(ctx: &mut Ctx) -> CaseResult {
    on_engine!(ctx, end_to_end)
}

/// verify() against the verification equation evaluated in the exponent and against bellman
fn equation<T: Eng>(ctx: &mut Ctx) -> CaseResult {
    let n = match ctx.below(8) {
        0 => 0,
        1 if ctx.chance(1, 10) => match ctx.below(4) {
            0 => ctx.range(250, 300),
            _ => ctx.range(21, 140),
        },
        1 => ctx.range(8, 20),
        _ => ctx.range(1, 5),
    };
    let td = Trapdoor::<T>::gen(ctx, n);
    let key = td.key();
    let mut inp: Vec<Z<T::Fr>> = (0..n).map(|_| gen_z(ctx)).collect();
    if n > 0 && ctx.chance(1, 10) {
        // the input combination is the point at infinity
        let mut s = td.ic[0];
        for (x, k) in inp.iter().zip(&td.ic[1..]).take(n - 1) {
            s = s + *x * *k;
        }
        inp[n - 1] = (Z::zero() - s).div(td.ic[n]);
        ctx.label("input combination at infinity");
    }
    // proof elements may repeat key elements
    let a = match ctx.below(12) {
        0 => Z::zero(),
        1 => td.al,
        2 => -td.al,
        _ => gen_z(ctx),
    };
    let b = match ctx.below(12) {
        0 => Z::zero(),
        1 => td.be,
        2 => td.de,
        _ => gen_z(ctx),
    };
    let mut e = td.accept(a, b, &inp);
    if ctx.chance(1, 12) && !a.is_zero() {
        // choose b so that c is the point at infinity
        let b2 = (a * b - e[2] * td.de).div(a);
        e = td.accept(a, b2, &inp);
        ctx.label("c at infinity");
    }
    ctx.note(|| format!("{} {} inputs {:?} exponents {:?}", T::NAME, n, inp.iter().map(|x| x.dec()).collect::<Vec<_>>(), e.iter().map(|x| x.dec()).collect::<Vec<_>>()));
    let mut given = inp.clone();
    match ctx.below(4) {
        0 => {
            ctx.label("accepted");
        }
        1 => {
            let i = ctx.below(3) as usize;
            e[i] = gen_z(ctx);
        }
        2 => {
            if let Some((w, _)) = tweak_inputs::<T>(ctx, &inp) {
                given = w;
            }
        }
        _ => {
            // both A and B negated, or A and B rescaled: still the same statement
            let k = nonzero(ctx);
            e = [e[0] * k, e[1].div(k), e[2]];
            ctx.label("rescaled");
        }
    }
    let want = td.verdict(&e, &given);
    let p = proof_of::<T>(&e);
    let got = verify(&key, &p, &ins::<T>(&given)).map_err(|x| format!("{}: verify failed: {:?}", T::NAME, x))?;
    ensure!(got == want, "{}: verify says {} although the verification equation {}", T::NAME, got, if want { "holds" } else { "does not hold" });
    ctx.label(if want { "true" } else { "false" });
    if n > 0 {
        ctx.nontrivial();
    }
    // the backend's own verifier agrees
    let vk = bellman::groth16::VerifyingKey::<T::E> {
        alpha_g1: key.alpha_g1,
        beta_g1: g1_mul::<T>(td.be),
        beta_g2: key.beta_g2,
        gamma_g2: key.gamma_g2,
        delta_g1: g1_mul::<T>(td.de),
        delta_g2: key.delta_g2,
        ic: key.ic.clone(),
    };
    let pvk = bellman::groth16::prepare_verifying_key(&vk);
    let bel = bellman::groth16::verify_proof(&pvk, &p.0, &ins::<T>(&given)).map_err(|x| format!("{:?}", x))?;
    ensure!(bel == got, "{}: verify says {} but the backend's verifier says {}", T::NAME, got, bel);
    let tr = truncate_verifying_key(&vk);
    ensure!(key_eq(&tr, &key), "{}: truncating a verifying key changed an element", T::NAME);
    let m = ctx.range(0, n + 3);
    if m != n {
        let v: Vec<T::Fr> = (0..m).map(|i| given.get(i).copied().unwrap_or_else(Z::zero).0).collect();
        ensure!(verify(&key, &p, &v).is_err(), "{}: {} public inputs for a key with {} is not an error", T::NAME, m, n);
    }
    Ok(())
}
fn c19_equation(ctx: &mut Ctx) -> CaseResult {
    on_engine!(ctx, equation)
}

// ------------------------------------------------------------------ C20

struct Back<E: Engine> {
    kinds: Vec<Kind>,
    vals: Vec<Option<E::Fr>>,
    nin: usize,
    naux: usize,
    cons: Vec<[Vec<(bellman::Index, E::Fr)>; 3]>,
    other_errors: usize,
}
impl<E: Engine> Back<E> {
    fn new() -> Self {
        Back { kinds: vec![Kind::One], vals: vec![Some(E::Fr::one())], nin: 1, naux: 0, cons: vec![], other_errors: 0 }
    }
    fn put<F: FnOnce() -> Result<E::Fr, SynthesisError>>(&mut self, f: F) {
        let v = match f() {
            Ok(v) => Some(v),
            Err(SynthesisError::AssignmentMissing) => None,
            Err(_) => {
                self.other_errors += 1;
                None
            }
        };
        self.vals.push(v);
    }
}
impl<E: Engine> bellman::ConstraintSystem<E> for Back<E> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let _: String = annotation().into();
        self.put(f);
        self.kinds.push(Kind::Aux);
        self.naux += 1;
        Ok(Variable::new_unchecked(bellman::Index::Aux(self.naux - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let _: String = annotation().into();
        self.put(f);
        self.kinds.push(Kind::Input);
        self.nin += 1;
        Ok(Variable::new_unchecked(bellman::Index::Input(self.nin - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
    {
        let _: String = annotation().into();
        fn g<E: Engine>(l: LinearCombination<E>) -> Vec<(bellman::Index, E::Fr)> {
            l.as_ref().iter().map(|(v, c)| (v.get_unchecked(), *c)).collect()
        }
        self.cons.push([g::<E>(a(LinearCombination::zero())), g::<E>(b(LinearCombination::zero())), g::<E>(c(LinearCombination::zero()))]);
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        let _: String = name_fn().into();
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}

fn compare_backend<T: Eng>(b: &Back<T::E>, r: &Rec<T::Fr>) -> CaseResult {
    ensure!(b.other_errors == 0, "{}: {} assignments reported with another error than a missing value", T::NAME, b.other_errors);
    ensure!(b.kinds.len() == r.kinds.len(), "{}: backend got {} variables, circuit made {}", T::NAME, b.kinds.len(), r.kinds.len());
    for i in 0..b.kinds.len() {
        ensure!(b.kinds[i] == r.kinds[i], "{}: variable {} reaches the backend as {:?} instead of {:?}", T::NAME, i, b.kinds[i], r.kinds[i]);
        let (x, y) = (b.vals[i].map(Z), r.vals[i]);
        ensure!(x == y, "{}: variable {} reaches the backend with value {:?} instead of {:?}", T::NAME, i, x.map(|v| v.dec()), y.map(|v| v.dec()));
    }
    ensure!(b.cons.len() == r.cons.len(), "{}: backend got {} constraints, circuit emitted {}", T::NAME, b.cons.len(), r.cons.len());
    let (mut ni, mut na) = (vec![], vec![]);
    for (i, k) in r.kinds.iter().enumerate() {
        if *k == Kind::Aux {
            na.push(i)
        } else {
            ni.push(i)
        }
    }
    for (i, (x, y)) in b.cons.iter().zip(&r.cons).enumerate() {
        for (side, (bl, rl)) in ["a", "b", "c"].iter().zip(x.iter().zip(vec![&y.a, &y.b, &y.c])) {
            let mut got: Lc<T::Fr> = vec![];
            for (v, c) in bl {
                let id = match v {
                    bellman::Index::Input(k) => ni.get(*k),
                    bellman::Index::Aux(k) => na.get(*k),
                };
                match id {
                    Some(id) => got.push((*id, Z(*c))),
                    None => return Err(format!("{}: constraint {} mentions a variable the backend does not know", T::NAME, i)),
                }
            }
            ensure!(norm(&got) == norm(rl), "{}: side {} of constraint {} reaches the backend altered", T::NAME, side, i);
        }
    }
    Ok(())
}

fn plan_backend<T: Eng>(ctx: &mut Ctx) -> CaseResult {
    let plan = Plan::<T>::gen(ctx, 14);
    ctx.note(|| plan.show());
    let with = ctx.chance(3, 4);
    ctx.label(if with { "with values" } else { "without values" });
    let w = if with { Some(plan.witness.clone()) } else { None };
    let gcs = Groth16CS::<T::E, Back<T::E>>::new(Back::new());
    let pg = plan.synth(&gcs, w.as_deref());
    let rec = RecCS::<T::Fr>::new(Style::Split);
    let pr = plan.synth(&rec, w.as_deref());
    ensure!(pg == pr, "{}: signals carry other values over the proving backend", T::NAME);
    let b = gcs.bcs.borrow();
    compare_backend::<T>(&b, &rec.r.borrow())?;
    let pubs: Vec<Option<Z<T::Fr>>> = b.kinds.iter().zip(&b.vals).filter(|(k, _)| **k == Kind::Input).map(|(_, v)| v.map(Z)).collect();
    let want: Vec<Option<Z<T::Fr>>> = if with { plan.eval(&plan.witness).0.into_iter().map(Some).collect() } else { vec![None; plan.npublic()] };
    if with {
        ensure!(pubs == want, "{}: the backend's public inputs are not the values made public, in order", T::NAME);
    } else {
        // constants made public keep their value
        ensure!(pubs.len() == want.len(), "{}: {} public inputs instead of {}", T::NAME, pubs.len(), want.len());
    }
    if b.cons.len() > 3 && pubs.len() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}
fn c20_plans(ctx: &mut Ctx) -> CaseResult {
    on_engine!(ctx, plan_backend)
}

/// raw calls: each allocation with or without its value, arbitrary linear combinations
fn raw<CS: ConstraintSystem>(cs: &CS, ops: &[(u64, Option<Z<CS::F>>, Vec<(usize, Z<CS::F>)>, Vec<(usize, Z<CS::F>)>, Vec<(usize, Z<CS::F>)>)]) -> Vec<Index> {
    let mut idx = vec![];
    let mut sig: Vec<CNum<CS>> = vec![CNum::from_const(cs, &Num::from(1))];
    for (k, v, a, b, c) in ops {
        let v = v.map(|x| x.n());
        match k {
            0 => {
                let i = cs.alloc(v);
                idx.push(i);
                sig.push(CNum::from_var(cs, v, i));
            }
            1 => {
                let i = cs.alloc_input(v);
                idx.push(i);
                sig.push(CNum::from_var(cs, v, i));
            }
            _ => {
                let lin = |l: &[(usize, Z<CS::F>)]| {
                    let mut s: CNum<CS> = CNum::from_const(cs, &Num::from(0));
                    for (i, k) in l {
                        s = s + &sig[*i % sig.len()] * k.n();
                    }
                    s
                };
                cs.enforce(&lin(a), &lin(b), &lin(c));
            }
        }
    }
    idx
}
fn gen_small<F: Field>(r: &mut crate::tape::SplitMix) -> Z<F> {
    let k = Z::u(r.below(3));
    if r.below(2) == 0 {
        k
    } else {
        -k
    }
}
fn key64<F: Field>(z: &Z<F>) -> u64 {
    z.0.into_repr().as_ref()[0]
}
fn raw_backend<T: Eng>(ctx: &mut Ctx) -> CaseResult {
    let n = ctx.range(1, 30);
    let mut ops = vec![];
    // now and then a long circuit: enough variables for linear combinations of hundreds of terms
    let long = ctx.chance(1, 20);
    let mut span = 500;
    if long {
        ctx.label("long circuit");
        let m = if ctx.chance(1, 60) { ctx.range(65_000, 140_000) } else { ctx.range(31, 400) };
        span = 500.max(m as u64 + 40);
        let mut rr = ctx.rng();
        for _ in 0..m {
            let v = if rr.below(8) == 0 { None } else { Some(rnd_z::<T::Fr>(&mut rr)) };
            ops.push((rr.below(2), v, vec![], vec![], vec![]));
        }
    }
    for _ in 0..n {
        let k = ctx.below(3);
        let v = if ctx.chance(1, 4) { None } else { Some(gen_z::<T::Fr>(ctx)) };
        let mut l = |ctx: &mut Ctx| -> Vec<(usize, Z<T::Fr>)> {
            if k < 2 {
                return vec![];
            }
            if ctx.chance(1, if long { 3 } else { 25 }) {
                let n = ctx.range(6, if long { 500 } else { 300 });
                let mut rr = ctx.rng();
                return (0..n).map(|_| (rr.below(span) as usize, if rr.below(4) == 0 { gen_small(&mut rr) } else { rnd_z(&mut rr) })).collect();
            }
            (0..ctx.below(5)).map(|_| (ctx.below(32) as usize, gen_z(ctx))).collect()
        };
        let (a, b, c) = (l(ctx), l(ctx), l(ctx));
        ops.push((k, v, a, b, c));
    }
    ctx.note(|| format!("{} {} calls: {}", T::NAME, ops.len(), ops.iter().take(2000).map(|o| ["alloc", "alloc_input", "enforce"][o.0 as usize].to_string() + if o.1.is_none() && o.0 < 2 { "(none)" } else { "" }).collect::<Vec<_>>().join(" ")));
    let gcs = Groth16CS::<T::E, Back<T::E>>::new(Back::new());
    let ig = raw(&gcs, &ops);
    let rec = RecCS::<T::Fr>::new(Style::Split);
    let ir = raw(&rec, &ops);
    for (i, (x, y)) in ig.iter().zip(&ir).enumerate() {
        ensure!(x == y, "{}: allocation {} got index {:?} instead of {:?}", T::NAME, i, x, y);
    }
    compare_backend::<T>(&gcs.bcs.borrow(), &rec.r.borrow())?;
    // how the value of an assignment is handed over
    for v in ops.iter().filter(|o| o.0 < 2).map(|o| o.1).take(8) {
        let n: Option<Num<T::Fr>> = v.map(|z| z.n());
        let (g, t): (Option<T::Fr>, Option<T::Fr>) = (n.get().ok().copied(), n.grab().ok());
        ensure!(g == v.map(|z| z.0) && t == v.map(|z| z.0), "{}: the assignment {:?} is taken as {:?}, {:?}", T::NAME, v.map(|z| z.dec()), g, t);
        let w: Option<u64> = v.map(|z| key64(&z));
        let (g, t) = (Assignment::<u64>::get(&w).ok().copied(), Assignment::<u64>::grab(w).ok());
        ensure!(g == w && t == w, "{}: the assignment {:?} is taken as {:?}, {:?}", T::NAME, w, g, t);
        if v.is_none() {
            let e = [Assignment::<T::Fr>::get(&n).err().map(|e| e.to_string()), Assignment::<T::Fr>::grab(n).err().map(|e| e.to_string())];
            let want = Some(bellman::SynthesisError::AssignmentMissing.to_string());
            ensure!(e.iter().all(|x| *x == want), "{}: a missing assignment is reported as {:?}", T::NAME, e);
        }
    }
    let missing = ops.iter().filter(|o| o.0 < 2 && o.1.is_none()).count();
    if missing > 0 {
        ctx.label("missing values");
    }
    if ops.iter().any(|o| o.0 == 2) && ir.len() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}
fn c20_raw(ctx: &mut Ctx) -> CaseResult {
    on_engine!(ctx, raw_backend)
}

// ------------------------------------------------------------------ C21

/// a reader handing out at most `n` bytes at a time, failing at `fail` if set
struct Trickle<'a> {
    d: &'a [u8],
    n: usize,
    fail: Option<usize>,
    at: usize,
}
impl<'a> Read for Trickle<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.fail.map(|f| self.at >= f).unwrap_or(false) {
            return Err(io::Error::new(io::ErrorKind::Other, "device failed"));
        }
        let mut k = self.n.min(buf.len()).min(self.d.len() - self.at);
        if let Some(f) = self.fail {
            k = k.min(f - self.at);
        }
        buf[..k].copy_from_slice(&self.d[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
struct Drip {
    d: Vec<u8>,
    n: usize,
    fail: Option<usize>,
}
impl Write for Drip {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut k = self.n.min(buf.len());
        if let Some(f) = self.fail {
            if self.d.len() >= f {
                return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
            }
            k = k.min(f - self.d.len());
        }
        self.d.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn js(x: &BigUint) -> Value {
    Value::String(x.to_str_radix(10))
}
pub fn z2() -> [BigUint; 2] {
    [BigUint::zero(), BigUint::zero()]
}
pub fn z4() -> [BigUint; 4] {
    [BigUint::zero(), BigUint::zero(), BigUint::zero(), BigUint::zero()]
}
pub fn g1_json(p: &[BigUint; 2]) -> Value {
    Value::Array(vec![js(&p[0]), js(&p[1])])
}
/// imaginary part first, as the Ethereum precompile takes it
pub fn g2_json(p: &[BigUint; 4]) -> Value {
    Value::Array(vec![Value::Array(vec![js(&p[1]), js(&p[0])]), Value::Array(vec![js(&p[3]), js(&p[2])])])
}
fn g1_borsh<T: Eng>(p: &[BigUint; 2]) -> Vec<u8> {
    [coord_le::<T>(&p[0]), coord_le::<T>(&p[1])].concat()
}
/// real part first
fn g2_borsh<T: Eng>(p: &[BigUint; 4]) -> Vec<u8> {
    p.iter().flat_map(|c| coord_le::<T>(c)).collect()
}
/// coordinates of every point of a proof or a key, G1 and G2 kept apart
#[derive(Clone, PartialEq)]
struct Coords {
    key: bool,
    g1: Vec<[BigUint; 2]>,
    g2: Vec<[BigUint; 4]>,
}
impl Coords {
    fn proof<T: Eng>(p: &Proof<T::E>) -> Self {
        Coords {
            key: false,
            g1: vec![g1_xy::<T>(&p.0.a).unwrap_or_else(z2), g1_xy::<T>(&p.0.c).unwrap_or_else(z2)],
            g2: vec![g2_xy::<T>(&p.0.b).unwrap_or_else(z4)],
        }
    }
    fn of_key<T: Eng>(k: &TruncatedVerifyingKey<T::E>) -> Self {
        let mut g1 = vec![g1_xy::<T>(&k.alpha_g1).unwrap_or_else(z2)];
        g1.extend(k.ic.iter().map(|p| g1_xy::<T>(p).unwrap_or_else(z2)));
        Coords { key: true, g1, g2: vec![&k.beta_g2, &k.gamma_g2, &k.delta_g2].into_iter().map(|p| g2_xy::<T>(p).unwrap_or_else(z4)).collect() }
    }
    fn json(&self) -> Value {
        let mut m = serde_json::Map::new();
        if self.key {
            m.insert("alpha_g1".into(), g1_json(&self.g1[0]));
            for (n, p) in ["beta_g2", "gamma_g2", "delta_g2"].iter().zip(&self.g2) {
                m.insert(n.to_string(), g2_json(p));
            }
            m.insert("ic".into(), Value::Array(self.g1[1..].iter().map(g1_json).collect()));
        } else {
            m.insert("a".into(), g1_json(&self.g1[0]));
            m.insert("b".into(), g2_json(&self.g2[0]));
            m.insert("c".into(), g1_json(&self.g1[1]));
        }
        Value::Object(m)
    }
    fn borsh<T: Eng>(&self) -> Vec<u8> {
        let mut v = g1_borsh::<T>(&self.g1[0]);
        for p in &self.g2 {
            v.extend(g2_borsh::<T>(p));
        }
        if self.key {
            v.extend_from_slice(&((self.g1.len() - 1) as u32).to_le_bytes());
        }
        for p in &self.g1[1..] {
            v.extend(g1_borsh::<T>(p));
        }
        v
    }
    fn canonical<T: Eng>(&self) -> bool {
        let q = big(T::QS);
        self.g1.iter().flat_map(|p| p.iter()).chain(self.g2.iter().flat_map(|p| p.iter())).all(|c| *c < q)
    }
    /// every point is the point at infinity (0,0) or a valid one
    fn valid<T: Eng>(&self) -> bool {
        self.g1.iter().all(|p| *p == z2() || g1_valid::<T>(p)) && self.g2.iter().all(|p| *p == z4() || g2_valid::<T>(p))
    }
}

fn gen_exp<T: Eng>(ctx: &mut Ctx, inf: bool) -> Z<T::Fr> {
    if inf && ctx.chance(1, 8) {
        return Z::zero();
    }
    nonzero(ctx)
}
enum Obj<T: Eng> {
    P(Proof<T::E>),
    K(TruncatedVerifyingKey<T::E>),
}
impl<T: Eng> Obj<T> {
    fn gen(ctx: &mut Ctx, inf: bool) -> Self {
        if ctx.bool() {
            let n = match ctx.below(30) {
                0 => ctx.range(6, 20),
                1 => *ctx.pick(&[31usize, 32, 33, 63, 64, 65, 100, 129, 200, 254, 255, 256, 257, 300]),
                _ => ctx.range(0, 5),
            };
            let k = TruncatedVerifyingKey {
                alpha_g1: g1_mul::<T>(gen_exp::<T>(ctx, inf)),
                beta_g2: g2_mul::<T>(gen_exp::<T>(ctx, inf)),
                gamma_g2: g2_mul::<T>(gen_exp::<T>(ctx, inf)),
                delta_g2: g2_mul::<T>(gen_exp::<T>(ctx, inf)),
                ic: (0..n).map(|_| g1_mul::<T>(gen_exp::<T>(ctx, inf))).collect(),
            };
            ctx.label("key");
            Obj::K(k)
        } else {
            ctx.label("proof");
            let e = [gen_exp::<T>(ctx, inf), gen_exp::<T>(ctx, inf), gen_exp::<T>(ctx, inf)];
            Obj::P(proof_of::<T>(&e))
        }
    }
    fn is_key(&self) -> bool {
        matches!(self, Obj::K(_))
    }
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Obj::P(a), Obj::P(b)) => proof_eq::<T>(a, b),
            (Obj::K(a), Obj::K(b)) => key_eq(a, b),
            _ => false,
        }
    }
    fn coords(&self) -> Coords {
        match self {
            Obj::P(p) => Coords::proof::<T>(p),
            Obj::K(k) => Coords::of_key::<T>(k),
        }
    }
    fn data(&self) -> Dat<T> {
        match self {
            Obj::P(p) => Dat::P(T::pinto(p)),
            Obj::K(k) => Dat::K(T::kinto(k)),
        }
    }
    fn write<W: Write>(&self, w: W) -> io::Result<()> {
        match self {
            Obj::P(p) => T::pwrite(p, w),
            Obj::K(k) => k.write(w),
        }
    }
    fn read<R: Read>(key: bool, r: R) -> io::Result<Self> {
        Ok(if key { Obj::K(TruncatedVerifyingKey::<T::E>::read(r)?) } else { Obj::P(T::pread(r)?) })
    }
    /// the compressed stream, from the curve library
    fn stream(&self) -> Vec<u8> {
        let mut v = vec![];
        match self {
            Obj::P(p) => {
                v.extend_from_slice(p.0.a.into_compressed().as_ref());
                v.extend_from_slice(p.0.b.into_compressed().as_ref());
                v.extend_from_slice(p.0.c.into_compressed().as_ref());
            }
            Obj::K(k) => {
                v.extend_from_slice(k.alpha_g1.into_compressed().as_ref());
                for p in &[k.beta_g2, k.gamma_g2, k.delta_g2] {
                    v.extend_from_slice(p.into_compressed().as_ref());
                }
                for p in &k.ic {
                    v.extend_from_slice(p.into_compressed().as_ref());
                }
            }
        }
        v
    }
}
enum Dat<T: Eng> {
    P(ProofData<T::Q>),
    K(TruncatedVerifyingKeyData<T::Q>),
}
impl<T: Eng> Dat<T> {
    fn json(&self) -> Result<String, String> {
        match self {
            Dat::P(p) => serde_json::to_string(p),
            Dat::K(p) => serde_json::to_string(p),
        }
        .map_err(|e| e.to_string())
    }
    fn from_json(key: bool, s: &str) -> Result<Self, String> {
        if key {
            serde_json::from_str(s).map(Dat::K).map_err(|e| e.to_string())
        } else {
            serde_json::from_str(s).map(Dat::P).map_err(|e| e.to_string())
        }
    }
    fn borsh(&self) -> Result<Vec<u8>, String> {
        match self {
            Dat::P(p) => p.try_to_vec(),
            Dat::K(p) => p.try_to_vec(),
        }
        .map_err(|e| e.to_string())
    }
    fn from_borsh(key: bool, s: &[u8]) -> Result<Self, String> {
        if key {
            TruncatedVerifyingKeyData::try_from_slice(s).map(Dat::K).map_err(|e| e.to_string())
        } else {
            ProofData::try_from_slice(s).map(Dat::P).map_err(|e| e.to_string())
        }
    }
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Dat::P(a), Dat::P(b)) => a == b,
            (Dat::K(a), Dat::K(b)) => a == b,
            _ => false,
        }
    }
    /// refuses by panicking
    fn obj(&self) -> Result<Obj<T>, String> {
        guard(|| match self {
            Dat::P(p) => Obj::P(T::pfrom(p)),
            Dat::K(k) => Obj::K(T::kfrom(k)),
        })
    }
}

fn roundtrip<T: Eng>(ctx: &mut Ctx) -> CaseResult {
    let o = Obj::<T>::gen(ctx, true);
    let key = o.is_key();
    let c = o.coords();
    ctx.note(|| format!("{} {}", T::NAME, c.json()));
    ctx.nontrivial();
    let what = if key { "key" } else { "proof" };
    let d = o.data();
    let back = d.obj().map_err(|e| format!("{}: data form of a valid {} is refused: {}", T::NAME, what, e))?;
    ensure!(back.eq(&o), "{}: {} changed through its data form", T::NAME, what);
    // JSON
    let j = d.json()?;
    let jv: Value = serde_json::from_str(&j).map_err(|e| e.to_string())?;
    ensure!(jv == c.json(), "{}: JSON of the {} is {} instead of {}", T::NAME, what, jv, c.json());
    let d2 = Dat::<T>::from_json(key, &j)?;
    ensure!(d2.eq(&d), "{}: {} changed through JSON", T::NAME, what);
    // binary
    let b = d.borsh()?;
    ensure!(b == c.borsh::<T>(), "{}: binary form of the {} is not x, y (real part first), little endian", T::NAME, what);
    let d3 = Dat::<T>::from_borsh(key, &b)?;
    ensure!(d3.eq(&d), "{}: {} changed through its binary form", T::NAME, what);
    // stream
    let s = o.stream();
    let step = ctx.range(1, 70);
    let mut w = Drip { d: vec![], n: step, fail: None };
    o.write(&mut w).map_err(|e| format!("{}: writing a {}: {}", T::NAME, what, e))?;
    ensure!(w.d == s, "{}: stream of the {} is not the concatenation of its compressed points", T::NAME, what);
    let inf = c.g1.contains(&z2()) || c.g2.contains(&z4());
    let r = Obj::<T>::read(key, Trickle { d: &s, n: ctx.range(1, 70), fail: None, at: 0 });
    match r {
        Ok(x) => {
            ensure!(!inf, "{}: stream of a {} with a point at infinity is accepted", T::NAME, what);
            ensure!(x.eq(&o), "{}: {} changed through its stream", T::NAME, what);
        }
        Err(e) => {
            ensure!(inf, "{}: stream of a valid {} is refused: {}", T::NAME, what, e);
            ctx.label("infinity refused");
        }
    }
    // a device that fails part way is reported
    if !s.is_empty() {
        let f = ctx.below(s.len() as u64) as usize;
        let mut w = Drip { d: vec![], n: step, fail: Some(f) };
        ensure!(o.write(&mut w).is_err(), "{}: writing a {} to a device that fails after {} bytes reports success", T::NAME, what, f);
        let r = Obj::<T>::read(key, Trickle { d: &s, n: 7, fail: Some(f), at: 0 });
        ensure!(r.is_err(), "{}: reading a {} from a device that fails after {} bytes reports success", T::NAME, what, f);
    }
    Ok(())
}
fn c21_roundtrip(ctx: &mut Ctx) -> CaseResult {
    on_engine!(ctx, roundtrip)
}

fn any_point2<T: Eng>(ctx: &mut Ctx) -> [BigUint; 2] {
    let q = big(T::QS);
    let mut x = gen_below(ctx, &q);
    loop {
        if let Some(p) = T::any_g1(&x, ctx.bool()) {
            return p;
        }
        x = (x + 1u32) % &q;
    }
}
pub fn any_point4<T: Eng>(ctx: &mut Ctx) -> [BigUint; 4] {
    let q = big(T::QS);
    let mut x = gen_below(ctx, &q);
    let x1 = gen_below(ctx, &q);
    loop {
        if let Some(p) = T::any_g2(&x, &x1, ctx.bool()) {
            return p;
        }
        x = (x + 1u32) % &q;
    }
}

/// coordinates altered: accepted exactly when every point is still valid, and then unchanged
fn bad_points<T: Eng>(ctx: &mut Ctx) -> CaseResult {
    let o = Obj::<T>::gen(ctx, false);
    let key = o.is_key();
    let mut c = o.coords();
    let q = big(T::QS);
    let on_g2 = ctx.bool();
    let how = ctx.below(10);
    // (u^2 x, u^3 y): off the curve, but of the prime order on the isomorphic curve it lies on
    let u = if ctx.bool() { BigUint::from(2 + ctx.below(30)) } else { gen_below(ctx, &q) };
    let (u2, u3) = (&u * &u % &q, &u * &u % &q * &u % &q);
    let what = if on_g2 {
        let i = ctx.below(c.g2.len() as u64) as usize;
        let p = &mut c.g2[i];
        let k = ctx.below(4) as usize;
        match how {
            0 => {
                *p = any_point4::<T>(ctx);
                "g2 of any order"
            }
            1 => {
                p.swap(0, 1);
                p.swap(2, 3);
                "g2 parts swapped"
            }
            2 => {
                p[k] = (&p[k] + 1u32) % &q;
                "g2 coordinate + 1"
            }
            3 => {
                p[k] = &p[k] + &q;
                "g2 coordinate + q"
            }
            4 => {
                p.swap(0, 2);
                p.swap(1, 3);
                "g2 x and y swapped"
            }
            5 => {
                for t in 2..4 {
                    p[t] = (&q - &p[t]) % &q;
                }
                "g2 negated"
            }
            6 => {
                p[k] = gen_below(ctx, &q);
                "g2 coordinate replaced"
            }
            7 => {
                let m = if ctx.bool() { 0 } else { 2 };
                p[m] = BigUint::zero();
                p[m + 1] = BigUint::zero();
                "g2 x or y zero"
            }
            8 => {
                for t in 0..4 {
                    p[t] = &p[t] * if t < 2 { &u2 } else { &u3 } % &q;
                }
                "g2 moved to an isomorphic curve"
            }
            _ => {
                let r = any_point4::<T>(ctx);
                *p = r.clone();
                p[3] = (&q - &r[3]) % &q;
                "g2 conjugate y"
            }
        }
    } else {
        let i = ctx.below(c.g1.len() as u64) as usize;
        let p = &mut c.g1[i];
        let k = ctx.below(2) as usize;
        match how {
            8 => {
                *p = [&p[0] * &u2 % &q, &p[1] * &u3 % &q];
                "g1 moved to an isomorphic curve"
            }
            0 | 9 => {
                *p = any_point2::<T>(ctx);
                "g1 of any order"
            }
            1 | 4 => {
                p.swap(0, 1);
                "g1 x and y swapped"
            }
            2 => {
                p[k] = (&p[k] + 1u32) % &q;
                "g1 coordinate + 1"
            }
            3 => {
                p[k] = &p[k] + &q;
                "g1 coordinate + q"
            }
            5 => {
                p[1] = (&q - &p[1]) % &q;
                "g1 negated"
            }
            6 => {
                p[k] = gen_below(ctx, &q);
                "g1 coordinate replaced"
            }
            _ => {
                p[k] = BigUint::zero();
                "g1 x or y zero"
            }
        }
    };
    ctx.label(what);
    ctx.nontrivial();
    ctx.note(|| format!("{} {}: {}", T::NAME, what, c.json()));
    let canonical = c.canonical::<T>();
    let valid = canonical && c.valid::<T>();
    ctx.label(if valid { "still valid" } else { "invalid" });
    let kind = if key { "key" } else { "proof" };
    let mut forms: Vec<(&str, Result<Dat<T>, String>)> = vec![("JSON", Dat::from_json(key, &c.json().to_string()))];
    let fits = c.g1.iter().flat_map(|p| p.iter()).chain(c.g2.iter().flat_map(|p| p.iter())).all(|x| x.bits() <= T::W * 8);
    if fits {
        forms.push(("binary", Dat::from_borsh(key, &c.borsh::<T>())));
    }
    for (f, d) in forms {
        match d {
            Err(e) => ensure!(!valid, "{}: {} form of a valid {} is refused: {}", T::NAME, f, kind, e),
            Ok(d) => {
                ensure!(canonical, "{}: {} form of a {} with a coordinate that is not below q is accepted", T::NAME, f, kind);
                match d.obj() {
                    Err(e) => ensure!(!valid, "{}: {} form of a valid {} is refused: {}", T::NAME, f, kind, e),
                    Ok(x) => {
                        ensure!(valid, "{}: {} form of a {} with an invalid point ({}) is accepted", T::NAME, f, kind, what);
                        ensure!(x.coords() == c, "{}: {} form of a {} decodes to other coordinates", T::NAME, f, kind);
                    }
                }
            }
        }
    }
    // the same point in the compressed stream (on-curve points only have a compressed form)
    if canonical && c.g1.iter().all(|p| T::g1_on_curve(p)) && c.g2.iter().all(|p| T::g2_on_curve(p)) {
        let mut s = vec![];
        let g1: Vec<_> = c.g1.iter().filter_map(g1_of::<T>).collect();
        let g2: Vec<_> = c.g2.iter().filter_map(g2_of::<T>).collect();
        if g1.len() == c.g1.len() && g2.len() == c.g2.len() {
            s.extend_from_slice(g1[0].into_compressed().as_ref());
            for p in &g2 {
                s.extend_from_slice(p.into_compressed().as_ref());
            }
            for p in &g1[1..] {
                s.extend_from_slice(p.into_compressed().as_ref());
            }
            match guard(|| Obj::<T>::read(key, &s[..])) {
                Err(e) => return Err(format!("{}: reading a {} stream panicked: {}", T::NAME, kind, e)),
                Ok(Err(e)) => ensure!(!valid, "{}: stream of a valid {} is refused: {}", T::NAME, kind, e),
                Ok(Ok(x)) => {
                    ensure!(valid, "{}: stream of a {} with an invalid point ({}) is accepted", T::NAME, kind, what);
                    ensure!(x.coords() == c, "{}: stream of a {} decodes to other coordinates", T::NAME, kind);
                }
            }
            ctx.label("stream");
        }
    }
    Ok(())
}
fn c21_bad_points(ctx: &mut Ctx) -> CaseResult {
    on_engine!(ctx, bad_points)
}

/// damaged bytes and documents: refused, or the very object those bytes encode
fn damaged<T: Eng>(ctx: &mut Ctx) -> CaseResult {
    let o = Obj::<T>::gen(ctx, false);
    let key = o.is_key();
    let kind = if key { "key" } else { "proof" };
    let d = o.data();
    ctx.nontrivial();
    ctx.note(|| format!("{} {}", T::NAME, o.coords().json()));
    // binary form
    let b = d.borsh()?;
    let mut m = b.clone();
    let how = ctx.below(5);
    let at = ctx.below(m.len() as u64) as usize;
    let what = match how {
        0 => {
            m.truncate(at);
            "truncated"
        }
        1 => {
            let n = ctx.range(1, 40);
            let x = ctx.bytes(n);
            m.extend(x);
            "extended"
        }
        2 => {
            m[at] ^= 1 << ctx.below(8);
            "bit flipped"
        }
        3 => {
            m.remove(at);
            "byte removed"
        }
        _ => {
            // the length prefix of the input points
            if key {
                let off = m.len() - 4 - (o.coords().g1.len() - 1) * 2 * T::W;
                let n = (o.coords().g1.len() - 1) as u32;
                let v = *ctx.pick(&[n + 1, n.wrapping_sub(1), 0, u32::max_value(), n + 256, 1 << 31]);
                m[off..off + 4].copy_from_slice(&v.to_le_bytes());
            } else {
                m.truncate(at);
            }
            "length prefix"
        }
    };
    ctx.label(format!("binary {}", what));
    if m != b {
        match guard(|| Dat::<T>::from_borsh(key, &m)) {
            Err(e) => return Err(format!("{}: decoding a {} {} panicked: {}", T::NAME, what, kind, e)),
            Ok(Err(_)) => {}
            Ok(Ok(x)) => {
                ensure!(what == "bit flipped" || what == "byte removed" && m.len() == b.len(), "{}: a {} with its binary form {} is accepted", T::NAME, kind, what);
                ensure!(x.borsh()? == m, "{}: a {} {} decodes to something its bytes do not encode", T::NAME, what, kind);
                if let Ok(y) = x.obj() {
                    ensure!(y.coords().valid::<T>(), "{}: a {} {} yields an invalid point", T::NAME, what, kind);
                    ensure!(y.coords().borsh::<T>() == m, "{}: a {} {} yields other points than its bytes encode", T::NAME, what, kind);
                }
            }
        }
    }
    // stream
    let s = o.stream();
    let (w1, w2) = (T::W, 2 * T::W);
    let head = if key { w1 + 3 * w2 } else { 2 * w1 + w2 };
    let mut m = s.clone();
    let how = ctx.below(4);
    let at = ctx.below(m.len() as u64) as usize;
    let what = match how {
        0 => {
            m.truncate(at);
            "truncated"
        }
        1 => {
            m[at] ^= 1 << ctx.below(8);
            "bit flipped"
        }
        2 => {
            // flags of one of the points
            let n = (s.len() - head) / w1;
            let mut offs = if key { vec![0, w1, w1 + w2, w1 + 2 * w2] } else { vec![0, w1, w1 + w2] };
            offs.extend((0..n).map(|i| head + i * w1));
            let o = *ctx.pick(&offs);
            m[o] ^= *ctx.pick(&[0x80u8, 0x40, 0x20, 0xc0, 0xe0, 0x60]);
            "flag changed"
        }
        _ => {
            let n = ctx.range(1, w1 + 3);
            let x = ctx.bytes(n);
            m.extend(x);
            "extended"
        }
    };
    ctx.label(format!("stream {}", what));
    match guard(|| Obj::<T>::read(key, &m[..])) {
        Err(e) => return Err(format!("{}: reading a {} {} stream panicked: {}", T::NAME, what, kind, e)),
        Ok(Err(e)) => {
            ensure!(what != "extended" || key, "{}: a proof followed by other data in the stream is refused: {}", T::NAME, e);
            // a key cut between two input points is a shorter key
            if what == "truncated" && key && m.len() >= head && (m.len() - head) % w1 == 0 {
                return Err(format!("{}: a key stream with fewer input points is refused: {}", T::NAME, e));
            }
        }
        Ok(Ok(x)) => {
            let y = x.stream();
            if key {
                ensure!(y == m, "{}: a {} key stream yields a key that encodes differently", T::NAME, what);
            } else {
                ensure!(m.len() >= y.len() && m[..y.len()] == y[..], "{}: a {} proof stream yields a proof that encodes differently", T::NAME, what);
            }
            ensure!(x.coords().valid::<T>(), "{}: a {} {} stream yields an invalid point", T::NAME, what, kind);
            ensure!(!x.coords().g1.contains(&z2()) && !x.coords().g2.contains(&z4()), "{}: a {} stream yields the point at infinity", T::NAME, what);
        }
    }
    // JSON
    let jv = o.coords().json();
    let mut bad = jv.clone();
    let obj = bad.as_object_mut().unwrap();
    let names: Vec<String> = obj.keys().cloned().collect();
    let k = ctx.pick(&names).clone();
    let how = ctx.below(6);
    let what = match how {
        0 => {
            obj.remove(&k);
            "field missing"
        }
        1 => {
            obj.insert(k.clone(), Value::Null);
            "field null"
        }
        2 => {
            let v = obj[&k].clone();
            let mut a = v.as_array().cloned().unwrap_or_default();
            if k == "ic" {
                if a.is_empty() {
                    a.push(Value::Null);
                } else {
                    a[0].as_array_mut().unwrap().pop();
                }
            } else {
                a.pop();
            }
            obj.insert(k.clone(), Value::Array(a));
            "coordinate missing"
        }
        3 => {
            let v = obj[&k].clone();
            let mut a = v.as_array().cloned().unwrap_or_default();
            a.push(Value::String("1".into()));
            obj.insert(k.clone(), Value::Array(a));
            "coordinate extra"
        }
        4 => {
            let v = obj[&k].to_string();
            // the first digit becomes a letter
            let t: String = match v.find(|c: char| c.is_ascii_digit()) {
                Some(p) => format!("{}x{}", &v[..p], &v[p + 1..]),
                None => "[\"x\"]".into(),
            };
            obj.insert(k.clone(), serde_json::from_str(&t).unwrap());
            "not a number"
        }
        _ => {
            let v = obj[&k].to_string().replace('"', "");
            match serde_json::from_str::<Value>(&v) {
                Ok(Value::Array(a)) if !a.is_empty() => {
                    obj.insert(k.clone(), Value::Array(a));
                }
                _ => {
                    obj.remove(&k);
                }
            }
            "number instead of string"
        }
    };
    ctx.label(format!("json {}", what));
    let t = bad.to_string();
    match guard(|| Dat::<T>::from_json(key, &t)) {
        Err(e) => return Err(format!("{}: parsing a {} with {} panicked: {}", T::NAME, kind, what, e)),
        Ok(Ok(_)) => return Err(format!("{}: a {} with {} ({}) is accepted: {}", T::NAME, kind, what, k, t)),
        Ok(Err(_)) => {}
    }
    let t = jv.to_string();
    let cut = ctx.below(t.len() as u64) as usize;
    ensure!(guard(|| Dat::<T>::from_json(key, &t[..cut]).is_err()) == Ok(true), "{}: a {} document cut at {} is accepted", T::NAME, kind, cut);
    Ok(())
}
fn c21_damaged(ctx: &mut Ctx) -> CaseResult {
    on_engine!(ctx, damaged)
}

// ------------------------------------------------------------------ C25

fn distinct<K: Ord + Clone>(v: &[K]) -> bool {
    let mut w = v.to_vec();
    w.sort();
    w.dedup();
    w.len() == v.len()
}
fn fresh<T: Eng>(ctx: &mut Ctx) -> CaseResult {
    let plan = Rc::new(Plan::<T>::gen_with(ctx, 4, false));
    ctx.note(|| plan.show());
    install(&plan);
    let x = nonzero::<T::Fr>(ctx);
    let c = Tied::<T> { plan: PlanCircuit { plan: plan.clone(), w: Some(plan.witness.clone()), c: PhantomData }, tri: Some([x, x, x * x]) };
    ctx.nontrivial();
    let m = 3;
    let keys: Vec<Parameters<T::E>> = (0..m).map(|_| generate_keys::<T::E, Tied<T>>()).collect();
    let enc = |p: &G1<T::E>| p.into_compressed().as_ref().to_vec();
    let enc2 = |p: &G2<T::E>| p.into_compressed().as_ref().to_vec();
    let fields: Vec<(&str, Vec<Vec<u8>>)> = vec![
        ("alpha", keys.iter().map(|k| enc(&k.vk.alpha_g1)).collect()),
        ("beta", keys.iter().map(|k| enc2(&k.vk.beta_g2)).collect()),
        ("gamma", keys.iter().map(|k| enc2(&k.vk.gamma_g2)).collect()),
        ("delta", keys.iter().map(|k| enc2(&k.vk.delta_g2)).collect()),
        ("ic[0]", keys.iter().map(|k| enc(&k.vk.ic[0])).collect()),
        ("a[0]", keys.iter().filter_map(|k| k.a.first().map(|p| enc(p))).collect()),
    ];
    for (n, v) in &fields {
        ensure!(distinct(v), "{}: two setups of the same circuit share {}", T::NAME, n);
    }
    // the secrets of one setup are not simply related
    for k in &keys {
        let v = &k.vk;
        let g2s = vec![enc2(&v.beta_g2), enc2(&v.gamma_g2), enc2(&v.delta_g2), enc2(&G2::<T::E>::one())];
        ensure!(distinct(&g2s), "{}: beta, gamma and delta of one setup coincide", T::NAME);
        let g1s = vec![enc(&v.alpha_g1), enc(&v.beta_g1), enc(&v.delta_g1), enc(&G1::<T::E>::one())];
        ensure!(distinct(&g1s), "{}: alpha, beta and delta of one setup coincide", T::NAME);
    }
    let proofs: Vec<Proof<T::E>> = (0..m).map(|_| prove(&c, &keys[0])).collect();
    ensure!(distinct(&proofs.iter().map(|p| enc(&p.0.a)).collect::<Vec<_>>()), "{}: two proofs of the same statement share component a", T::NAME);
    ensure!(distinct(&proofs.iter().map(|p| enc2(&p.0.b)).collect::<Vec<_>>()), "{}: two proofs of the same statement share component b", T::NAME);
    ensure!(distinct(&proofs.iter().map(|p| enc(&p.0.c)).collect::<Vec<_>>()), "{}: two proofs of the same statement share component c", T::NAME);
    let key = truncate_verifying_key(&keys[0].vk);
    let inp: Vec<T::Fr> = c.get_inputs().unwrap().into_iter().map(|x| x.0).collect();
    for p in &proofs {
        ensure!(verify(&key, p, &inp).map_err(|e| format!("{:?}", e))?, "{}: re-randomised proof rejected", T::NAME);
    }
    Ok(())
}
fn c25_fresh(ctx: &mut Ctx) -> CaseResult {
    on_engine!(ctx, fresh)
}

fn c25_osrng(ctx: &mut Ctx) -> CaseResult {
    use fawkes_crypto::core::osrng::OsRng;
    use rand::Rng;
    let mut a = OsRng::new();
    let mut b = OsRng::new();
    // one source or several, mixed calls: 4096 words
    const N: usize = 4096;
    let mode = ctx.below(4);
    let mut w: Vec<u32> = vec![];
    ctx.nontrivial();
    let mut doubles = vec![];
    while w.len() < N {
        let r = if mode == 3 && ctx.bool() { &mut b } else { &mut a };
        match mode {
            0 => w.push(r.next_u32()),
            1 => {
                let x = r.next_u64();
                doubles.push(x);
                w.push(x as u32);
                w.push((x >> 32) as u32);
            }
            _ => {
                let n = 4 * (1 + w.len() % 9);
                let mut buf = vec![0u8; n];
                r.fill_bytes(&mut buf);
                for c in buf.chunks(4) {
                    w.push(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
                }
            }
        }
    }
    ctx.label(["next_u32", "next_u64", "fill_bytes", "two sources"][mode as usize]);
    ctx.note(|| format!("mode {} {} words", mode, w.len()));
    // P(any of these on a fair source) < 2^-60: 12 standard deviations of a fair coin
    let n = w.len() as f64;
    for bit in 0..32 {
        let ones = w.iter().filter(|x| (*x >> bit) & 1 == 1).count() as f64;
        ensure!((ones - n / 2.0).abs() < 6.0 * n.sqrt(), "bit {} of the system randomness is set {} times in {}", bit, ones, n);
        for other in bit + 1..32 {
            let same = w.iter().filter(|x| (*x >> bit) & 1 == (*x >> other) & 1).count() as f64;
            ensure!((same - n / 2.0).abs() < 6.0 * n.sqrt(), "bits {} and {} of the system randomness agree {} times in {}", bit, other, same, n);
        }
    }
    for lag in 1..4 {
        for bit in 0..32 {
            let same = w.windows(lag + 1).filter(|x| (x[0] >> bit) & 1 == (x[lag] >> bit) & 1).count() as f64;
            ensure!((same - n / 2.0).abs() < 6.0 * n.sqrt() + 4.0, "bit {} of successive random words agrees {} times in {}", bit, same, n);
        }
    }
    let mut s = w.clone();
    s.sort();
    s.dedup();
    ensure!(w.len() - s.len() < 12, "{} of {} random words repeat", w.len() - s.len(), w.len());
    ensure!(distinct(&doubles), "a random 64-bit word repeats");
    // two instances made one after the other do not replay each other
    let x: Vec<u64> = (0..4).map(|_| OsRng::new().next_u64()).collect();
    ensure!(distinct(&x), "fresh instances of the system randomness repeat a 64-bit word");
    Ok(())
}

/// random field elements: reduced, spread over the whole field, and a function of the source
fn rand_num<F: Field>(ctx: &mut Ctx, name: &str) -> CaseResult {
    use fawkes_crypto::core::osrng::OsRng;
    use rand::{Rng, SeedableRng, XorShiftRng};
    let p = prime::<F>();
    const N: usize = 512;
    ctx.label(name.to_string());
    ctx.nontrivial();
    let os = ctx.bool();
    let mut seed = [ctx.u() as u32 | 1, ctx.u() as u32, ctx.u() as u32, ctx.u() as u32];
    seed[1] ^= 0x9e3779b9;
    let v: Vec<BigUint> = if os {
        let mut r = OsRng::new();
        (0..N).map(|_| z(r.gen::<Num<F>>()).big()).collect()
    } else {
        let mut r = XorShiftRng::from_seed(seed);
        let a: Vec<BigUint> = (0..N).map(|_| z(r.gen::<Num<F>>()).big()).collect();
        let mut r = XorShiftRng::from_seed(seed);
        let b: Vec<BigUint> = (0..N).map(|_| z(r.gen::<Num<F>>()).big()).collect();
        ensure!(a == b, "{}: the same source yields different random elements", name);
        a
    };
    ctx.note(|| format!("{} os={} first {}", name, os, v[0]));
    ensure!(v.iter().all(|x| *x < p), "{}: a random element is not reduced", name);
    ensure!(distinct(&v), "{}: a random element repeats within {} draws", name, N);
    // 16 equal slices of the field: each expected 32 times, never 0 or above 100
    let mut h = [0usize; 16];
    for x in &v {
        let i = (x * BigUint::from(16u32)) / &p;
        h[i.to_bytes_le()[0] as usize] += 1;
    }
    ensure!(h.iter().all(|n| *n > 0 && *n < 100), "{}: random elements are not spread over the field: {:?}", name, h);
    let bits = p.bits();
    for bit in 0..bits - 8 {
        let ones = v.iter().filter(|x| ((*x >> bit) & BigUint::from(1u32)) == BigUint::from(1u32)).count();
        ensure!(ones > 110 && ones < 402, "{}: bit {} of random elements is set {} times in {}", name, bit, ones, N);
    }
    Ok(())
}
fn c25_rand(ctx: &mut Ctx) -> CaseResult {
    match ctx.below(4) {
        0 => rand_num::<fawkes_crypto::native::bn256::Fr>(ctx, "bn256::Fr"),
        1 => rand_num::<fawkes_crypto::native::bn256::Fs>(ctx, "bn256::Fs"),
        2 => rand_num::<fawkes_crypto::native::bls12_381::Fr>(ctx, "bls12_381::Fr"),
        _ => rand_num::<fawkes_crypto::native::bls12_381::Fs>(ctx, "bls12_381::Fs"),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            subs: vec![
                Sub { name: "end_to_end", rule: "random circuit; setup, prove, verify; mutate inputs, proof, witness, key. Non-trivial: at least two public inputs", f: c19_end_to_end, tape: 400, quick: 450, thorough: 6000, shrink: 60 },
                Sub { name: "equation", rule: "key with known discrete logarithms; verify against the equation in the exponent and against the backend's verifier. Non-trivial: at least one public input", f: c19_equation, tape: 120, quick: 3000, thorough: 40000, shrink: 200 },
            ],
            assumptions: vec!["pairing and curve arithmetic of the pairing library are trusted", "a proof accepted by chance has probability below 2^-200"],
        },
        Prop {
            id: "C20",
            subs: vec![
                Sub { name: "circuits", rule: "random circuit synthesised over the bridge and over a recording system. Non-trivial: over three constraints and at least two public inputs", f: c20_plans, tape: 500, quick: 4800, thorough: 48000, shrink: 400 },
                Sub { name: "calls", rule: "raw allocation/constraint sequences (up to 400, a few 140000 variables), some values missing. Non-trivial: a constraint and at least two variables", f: c20_raw, tape: 900, quick: 18000, thorough: 200000, shrink: 600 },
            ],
            assumptions: vec!["the recording back end implements the backend's trait contract"],
        },
        Prop {
            id: "C21",
            subs: vec![
                Sub { name: "roundtrip", rule: "random proof or key, some points at infinity; data form, JSON, binary and stream against an independent encoder. All non-trivial", f: c21_roundtrip, tape: 120, quick: 2500, thorough: 30000, shrink: 300 },
                Sub { name: "bad_points", rule: "one point altered; acceptance against an independent curve and subgroup test. All non-trivial", f: c21_bad_points, tape: 160, quick: 5000, thorough: 60000, shrink: 300 },
                Sub { name: "damaged", rule: "bytes or documents truncated, extended, flipped. All non-trivial", f: c21_damaged, tape: 160, quick: 2500, thorough: 40000, shrink: 300 },
            ],
            assumptions: vec!["pairing's own point compression is trusted"],
        },
        Prop {
            id: "C25",
            subs: vec![
                Sub { name: "fresh", rule: "three setups and three proofs of one random circuit. All non-trivial", f: c25_fresh, tape: 300, quick: 90, thorough: 1200, shrink: 40 },
                Sub { name: "osrng", rule: "4096 words of system randomness in one of four call styles. All non-trivial", f: c25_osrng, tape: 2000, quick: 64, thorough: 1500, shrink: 20 },
                Sub { name: "rand_num", rule: "512 random elements of one field. All non-trivial", f: c25_rand, tape: 16, quick: 200, thorough: 4000, shrink: 60 },
            ],
            assumptions: vec!["statistical thresholds are at least six standard deviations beyond a fair source over all tests together"],
        },
    ]
}
#[allow(dead_code)]
fn _p<T: Eng>(_: PhantomData<T>) {}
