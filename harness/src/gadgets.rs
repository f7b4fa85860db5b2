//! The gadget registry: every circuit gadget of the library as a function from flat field
//! inputs to flat outputs, with a reference result, input generators meeting the gadget's
//! stated assumptions, and per-input modes (variable, constant, affine, sum of variables).

use crate::native2::{gen_pos, gen_sig_tuple, ref_verify};
use crate::refmath::*;
use crate::tape::{Ctx, SplitMix};
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::{Field, PrimeField};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use num::bigint::BigUint;
use num::{One, Zero};
use std::sync::Arc;
use typenum::{U0, U1, U2, U3, U33, U5, U8};

pub type Pos<F> = Arc<(PoseidonParams<F>, RefPoseidon<F>)>;

#[derive(Clone)]
pub enum G<F: Field> {
    Mul,
    Div,
    Square,
    IsZero,
    IsEq,
    Switch,
    BoolSwitch,
    BoolEq,
    Mux3(Vec<Vec<Z<F>>>),
    AssertZero,
    AssertNonzero,
    AssertConst(Z<F>),
    AssertEq,
    AssertBit,
    BoolAssert,
    BoolTrue,
    BoolFalse,
    IntoBits(usize),
    Strict,
    Comp(Z<F>),
    FromBits,
    EdAdd,
    EdDouble,
    EdCofactor,
    AssertCurve,
    AssertSubgroup,
    Decompress,
    IntoMont,
    MontAdd,
    MontDouble,
    IntoEd,
    PointMul,
    FromScalar,
    Poseidon(Pos<F>),
    PoseidonSalt(Pos<F>, Vec<u8>),
    MerkleProof(Pos<F>, usize),
    MerkleTree(Pos<F>),
    Eddsa,
    EddsaWith(Pos<F>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Var,
    Const,
    /// k*var + c
    Affine,
    /// var1 - var2
    Diff,
    /// var + 0 (leaves an explicit zero constant term)
    ZeroTerm,
    /// k*s + c for an earlier input signal s (k = 1, c = 0 when the values agree: the same signal)
    Shared,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect<F: Field> {
    Out(Vec<Z<F>>),
    /// no satisfying witness; the reason is for messages
    Unsat(&'static str),
}

#[derive(Clone)]
pub struct Inst<C: Curve> {
    pub g: G<C::Fr>,
    pub inputs: Vec<Z<C::Fr>>,
    pub modes: Vec<Mode>,
    pub salt: u64,
    pub expect: Expect<C::Fr>,
    pub class: String,
}

impl<F: Field> G<F> {
    pub fn name(&self) -> &'static str {
        match self {
            G::Mul => "mul",
            G::Div => "div",
            G::Square => "square",
            G::IsZero => "is_zero",
            G::IsEq => "is_eq",
            G::Switch => "switch",
            G::BoolSwitch => "bool switch",
            G::BoolEq => "bool is_eq",
            G::Mux3(_) => "mux3",
            G::AssertZero => "assert_zero",
            G::AssertNonzero => "assert_nonzero",
            G::AssertConst(_) => "assert_const",
            G::AssertEq => "assert_eq",
            G::AssertBit => "assert_bit",
            G::BoolAssert => "bool assert",
            G::BoolTrue => "assert_true",
            G::BoolFalse => "assert_false",
            G::IntoBits(_) => "into_bits_le",
            G::Strict => "into_bits_le_strict",
            G::Comp(_) => "comp_constant",
            G::FromBits => "from_bits_le",
            G::EdAdd => "edwards add",
            G::EdDouble => "edwards double",
            G::EdCofactor => "mul_by_cofactor",
            G::AssertCurve => "assert_in_curve",
            G::AssertSubgroup => "assert_in_subgroup",
            G::Decompress => "subgroup_decompress",
            G::IntoMont => "into_montgomery",
            G::MontAdd => "montgomery add",
            G::MontDouble => "montgomery double",
            G::IntoEd => "into_edwards",
            G::PointMul => "point mul",
            G::FromScalar => "from_scalar",
            G::Poseidon(_) => "poseidon",
            G::PoseidonSalt(..) => "poseidon_with_salt",
            G::MerkleProof(..) => "merkle proof root",
            G::MerkleTree(_) => "merkle tree root",
            G::Eddsa | G::EddsaWith(_) => "eddsaposeidon verify",
        }
    }
    pub fn detail(&self) -> String {
        match self {
            G::IntoBits(n) => format!("n={}", n),
            G::Comp(c) => format!("constant {}", c.dec()),
            G::AssertConst(c) => format!("constant {}", c.dec()),
            G::Mux3(t) => format!("{} columns", t.len()),
            G::Poseidon(p) | G::MerkleProof(p, _) | G::MerkleTree(p) | G::EddsaWith(p) => format!("t={} f={} p={}", p.0.t, p.0.f, p.0.p),
            G::PoseidonSalt(p, s) => format!("t={} f={} p={} salt {:?}", p.0.t, p.0.f, p.0.p, s),
            _ => String::new(),
        }
    }
}

impl<C: Curve> Inst<C> {
    pub fn show(&self) -> String {
        format!(
            "{} {} {} [{}] inputs {:?} modes {:?}",
            C::NAME,
            self.g.name(),
            self.g.detail(),
            self.class,
            self.inputs.iter().map(|x| x.dec()).collect::<Vec<_>>(),
            self.modes
        )
    }
    pub fn all_const(&self) -> bool {
        self.modes.iter().all(|m| *m == Mode::Const)
    }
}

fn input<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<Z<CS::F>>, c: Z<CS::F>, m: Mode, r: &mut SplitMix) -> CNum<'a, CS> {
    let n = |x: Option<Z<CS::F>>| x.map(|x| x.n());
    match m {
        Mode::Var | Mode::Shared => CNum::alloc(cs, n(v).as_ref()),
        Mode::Const => CNum::from_const(cs, &c.n()),
        Mode::Affine => {
            let k: Z<CS::F> = rnd_z(r);
            let k = if k.is_zero() { Z::one() } else { k };
            let d: Z<CS::F> = rnd_z(r);
            let w = v.map(|v| (v - d).div(k));
            // assembled directly so that the wrapping does not depend on the operators under test
            let mut s = CNum::alloc(cs, n(w).as_ref());
            let var = s.lc.front().unwrap().0;
            s.lc.clear();
            s.lc.push_back((fawkes_crypto::circuit::num::Index::Input(0), d.n()));
            s.lc.push_back((var, k.n()));
            s.value = n(v);
            s
        }
        Mode::Diff => {
            let u: Z<CS::F> = rnd_z(r);
            let x = CNum::alloc(cs, n(v.map(|v| v + u)).as_ref());
            let y = CNum::alloc(cs, n(v.map(|_| u)).as_ref());
            let (a, b) = (x.lc.front().unwrap().0, y.lc.front().unwrap().0);
            let mut s = x;
            s.lc.clear();
            let (t1, t2) = ((a, Z::<CS::F>::one().n()), (b, (-Z::<CS::F>::one()).n()));
            if a < b {
                s.lc.push_back(t1);
                s.lc.push_back(t2);
            } else {
                s.lc.push_back(t2);
                s.lc.push_back(t1);
            }
            s.value = n(v);
            s
        }
        Mode::ZeroTerm => {
            let mut s = CNum::alloc(cs, n(v).as_ref());
            s.lc.push_front((fawkes_crypto::circuit::num::Index::Input(0), Z::<CS::F>::zero().n()));
            s
        }
    }
}

/// f*s + d, assembled without the operators under test
fn shared<'a, CS: ConstraintSystem>(s: &CNum<'a, CS>, f: Z<CS::F>, d: Z<CS::F>, v: Option<Z<CS::F>>) -> CNum<'a, CS> {
    let zero = fawkes_crypto::circuit::num::Index::Input(0);
    let mut o = s.clone();
    let mut d = d;
    let mut terms = vec![];
    for t in s.lc.iter() {
        let x: Z<CS::F> = z(t.1) * f;
        if t.0 == zero {
            d = d + x;
        } else {
            terms.push((t.0, x.n()));
        }
    }
    o.lc.clear();
    if !d.is_zero() {
        o.lc.push_back((zero, d.n()));
    }
    for t in terms {
        o.lc.push_back(t);
    }
    o.value = v.map(|v| v.n());
    o
}

/// Allocate the inputs. `vals` None synthesises without values.
pub fn make_inputs<'a, C: Curve, CS: ConstraintSystem<F = C::Fr>>(inst: &Inst<C>, cs: &'a CS, with: bool) -> Vec<CNum<'a, CS>> {
    let mut r = SplitMix(inst.salt);
    let mut out: Vec<CNum<'a, CS>> = vec![];
    for (k, (v, m)) in inst.inputs.iter().zip(&inst.modes).enumerate() {
        let earlier: Vec<usize> = if *m == Mode::Shared { (0..k).filter(|j| inst.modes[*j] != Mode::Const).collect() } else { vec![] };
        out.push(if earlier.is_empty() {
            input(cs, if with { Some(*v) } else { None }, *v, *m, &mut r)
        } else {
            let mut j = earlier[r.below(earlier.len() as u64) as usize];
            let mut f: Z<C::Fr> = match r.below(4) {
                0 => -Z::one(),
                1 => rnd_z(&mut r),
                _ => Z::one(),
            };
            if r.below(2) == 0 {
                // the same signal again, where the values allow it
                if let Some(e) = earlier.iter().find(|e| inst.inputs[**e] == *v) {
                    j = *e;
                    f = Z::one();
                }
            }
            if f.is_zero() {
                f = Z::one();
            }
            shared(&out[j], f, *v - f * inst.inputs[j], if with { Some(*v) } else { None })
        });
    }
    out
}

fn bools<'a, CS: ConstraintSystem>(v: &[CNum<'a, CS>]) -> Vec<CBool<'a, CS>> {
    v.iter().map(|x| CBool(x.clone())).collect()
}
fn nums<'a, CS: ConstraintSystem>(v: Vec<CBool<'a, CS>>) -> Vec<CNum<'a, CS>> {
    v.into_iter().map(|x| x.0).collect()
}
fn ed<'a, CS: ConstraintSystem>(v: &[CNum<'a, CS>]) -> CEdwardsPoint<'a, CS> {
    CEdwardsPoint { x: v[0].clone(), y: v[1].clone() }
}
fn mo<'a, CS: ConstraintSystem>(v: &[CNum<'a, CS>]) -> CMontgomeryPoint<'a, CS> {
    CMontgomeryPoint { x: v[0].clone(), y: v[1].clone() }
}

/// Run the gadget under test.
pub fn apply<'a, C: Curve, CS: ConstraintSystem<F = C::Fr>>(g: &G<C::Fr>, i: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
    let j = C::params();
    let e = |p: CEdwardsPoint<'a, CS>| vec![p.x, p.y];
    let m = |p: CMontgomeryPoint<'a, CS>| vec![p.x, p.y];
    match g {
        G::Mul => vec![&i[0] * &i[1]],
        G::Div => vec![&i[0] / &i[1]],
        G::Square => vec![i[0].square()],
        G::IsZero => vec![i[0].is_zero().0],
        G::IsEq => vec![i[0].is_eq(&i[1]).0],
        G::Switch => vec![i[1].switch(&CBool(i[0].clone()), &i[2])],
        G::BoolSwitch => vec![CBool(i[1].clone()).switch(&CBool(i[0].clone()), &CBool(i[2].clone())).0],
        G::BoolEq => vec![CBool(i[0].clone()).is_eq(&CBool(i[1].clone())).0],
        G::Mux3(t) => {
            let tab: Vec<Vec<Num<C::Fr>>> = t.iter().map(|c| c.iter().map(|x| x.n()).collect()).collect();
            c_mux3(&bools(i), &tab)
        }
        G::AssertZero => {
            i[0].assert_zero();
            vec![]
        }
        G::AssertNonzero => {
            i[0].assert_nonzero();
            vec![]
        }
        G::AssertConst(c) => {
            i[0].assert_const(&c.n());
            vec![]
        }
        G::AssertEq => {
            i[0].assert_eq(&i[1]);
            vec![]
        }
        G::AssertBit => {
            i[0].assert_bit();
            vec![]
        }
        G::BoolAssert => {
            CBool(i[0].clone()).assert();
            vec![]
        }
        G::BoolTrue => {
            CBool(i[0].clone()).assert_true();
            vec![]
        }
        G::BoolFalse => {
            CBool(i[0].clone()).assert_false();
            vec![]
        }
        G::IntoBits(n) => nums(c_into_bits_le(&i[0], *n)),
        G::Strict => nums(c_into_bits_le_strict(&i[0])),
        G::Comp(c) => vec![c_comp_constant(&bools(i), c.n()).0],
        G::FromBits => vec![c_from_bits_le(&bools(i))],
        G::EdAdd => e(ed(&i[0..2]).add(&ed(&i[2..4]), j)),
        G::EdDouble => e(ed(i).double(j)),
        G::EdCofactor => e(ed(i).mul_by_cofactor(j)),
        G::AssertCurve => {
            ed(i).assert_in_curve(j);
            vec![]
        }
        G::AssertSubgroup => {
            ed(i).assert_in_subgroup(j);
            vec![]
        }
        G::Decompress => e(CEdwardsPoint::subgroup_decompress(&i[0], j)),
        G::IntoMont => m(ed(i).into_montgomery()),
        G::MontAdd => m(mo(&i[0..2]).add(&mo(&i[2..4]), j)),
        G::MontDouble => m(mo(i).double(j)),
        G::IntoEd => e(mo(i).into_edwards()),
        G::PointMul => e(ed(&i[0..2]).mul(&bools(&i[2..]), j)),
        G::FromScalar => e(CEdwardsPoint::from_scalar(&i[0], j)),
        G::Poseidon(p) => vec![c_poseidon(i, &p.0)],
        G::PoseidonSalt(p, s) => vec![c_poseidon_with_salt(i, s, &p.0)],
        G::MerkleTree(p) => vec![c_poseidon_merkle_tree_root(i, &p.0)],
        G::MerkleProof(p, d) => {
            macro_rules! go {
                ($l:ty) => {{
                    let proof = CMerkleProof::<CS, $l> {
                        sibling: i[1..1 + d].iter().cloned().collect::<SizedVec<_, $l>>(),
                        path: bools(&i[1 + d..]).into_iter().collect::<SizedVec<_, $l>>(),
                    };
                    vec![c_poseidon_merkle_proof_root(&i[0], &proof, &p.0)]
                }};
            }
            match d {
                0 => go!(U0),
                1 => go!(U1),
                2 => go!(U2),
                3 => go!(U3),
                5 => go!(U5),
                8 => go!(U8),
                _ => go!(U33),
            }
        }
        G::Eddsa => vec![c_eddsaposeidon_verify(&i[0], &i[1], &i[2], &i[3], &C::pos4().0, j).0],
        G::EddsaWith(p) => vec![c_eddsaposeidon_verify(&i[0], &i[1], &i[2], &i[3], &p.0, j).0],
    }
}

/// The specified result.
pub fn reference<C: Curve>(g: &G<C::Fr>, i: &[Z<C::Fr>]) -> Expect<C::Fr> {
    let c = C::consts();
    let b = |x: bool| if x { Z::one() } else { Z::zero() };
    let is1 = |x: &Z<C::Fr>| *x == Z::one();
    let isb = |x: &Z<C::Fr>| x.is_zero() || *x == Z::one();
    let pt = |k: usize| Pt { x: i[k], y: i[k + 1] };
    let e = |p: Pt<C::Fr>| Expect::Out(vec![p.x, p.y]);
    let chk = |ok: bool, why: &'static str| if ok { Expect::Out(vec![]) } else { Expect::Unsat(why) };
    match g {
        G::Mul => Expect::Out(vec![i[0] * i[1]]),
        G::Div => Expect::Out(vec![i[0].div(i[1])]),
        G::Square => Expect::Out(vec![i[0] * i[0]]),
        G::IsZero => Expect::Out(vec![b(i[0].is_zero())]),
        G::IsEq | G::BoolEq => Expect::Out(vec![b(i[0] == i[1])]),
        G::Switch | G::BoolSwitch => Expect::Out(vec![if is1(&i[0]) { i[1] } else { i[2] }]),
        G::Mux3(t) => {
            let k = is1(&i[0]) as usize + 2 * is1(&i[1]) as usize + 4 * is1(&i[2]) as usize;
            Expect::Out(t.iter().map(|col| col[k]).collect())
        }
        G::AssertZero => chk(i[0].is_zero(), "value is not zero"),
        G::AssertNonzero => chk(!i[0].is_zero(), "value is zero"),
        G::AssertConst(k) => chk(i[0] == *k, "value differs from the constant"),
        G::AssertEq => chk(i[0] == i[1], "values differ"),
        G::AssertBit | G::BoolAssert => chk(isb(&i[0]), "value is not boolean"),
        G::BoolTrue => chk(is1(&i[0]), "value is not true"),
        G::BoolFalse => chk(i[0].is_zero(), "value is not false"),
        G::IntoBits(n) => {
            let v = i[0].big();
            if v.bits() <= *n {
                Expect::Out(bits_le(&v, *n).into_iter().map(b).collect())
            } else {
                Expect::Unsat("value does not fit in the bits")
            }
        }
        G::Strict => Expect::Out(bits_le(&i[0].big(), C::Fr::NUM_BITS as usize).into_iter().map(b).collect()),
        G::Comp(ct) => {
            let bits: Vec<bool> = i.iter().map(is1).collect();
            Expect::Out(vec![b(from_bits_le(&bits) > ct.big())])
        }
        G::FromBits => {
            let bits: Vec<bool> = i.iter().map(is1).collect();
            Expect::Out(vec![Z::from_big(&from_bits_le(&bits))])
        }
        G::EdAdd => e(c.add(&pt(0), &pt(2))),
        G::EdDouble => e(c.dbl(&pt(0))),
        G::EdCofactor => e(c.dbl(&c.dbl(&c.dbl(&pt(0))))),
        G::AssertCurve => chk(c.on_curve(&pt(0)), "point is off the curve"),
        G::AssertSubgroup => chk(c.in_subgroup(&pt(0)), "point is outside the subgroup"),
        G::Decompress => match c.decompress(i[0]) {
            Some(p) => e(p),
            None => Expect::Unsat("x belongs to no subgroup point"),
        },
        G::IntoMont => {
            let (u, v) = c.to_mont(&pt(0)).unwrap();
            Expect::Out(vec![u, v])
        }
        G::MontAdd => {
            let s = c.add(&c.from_mont(i[0], i[1]), &c.from_mont(i[2], i[3]));
            let (u, v) = c.to_mont(&s).unwrap();
            Expect::Out(vec![u, v])
        }
        G::MontDouble => {
            let (u, v) = c.to_mont(&c.dbl(&c.from_mont(i[0], i[1]))).unwrap();
            Expect::Out(vec![u, v])
        }
        G::IntoEd => e(c.from_mont(i[0], i[1])),
        G::PointMul => {
            let bits: Vec<bool> = i[2..].iter().map(is1).collect();
            e(c.mul_big(&pt(0), &from_bits_le(&bits)))
        }
        G::FromScalar => e(c.hash_to_curve(i[0])),
        G::Poseidon(p) => Expect::Out(vec![p.1.hash(i)]),
        G::PoseidonSalt(p, s) => Expect::Out(vec![p.1.hash_salted(i, s)]),
        G::MerkleTree(p) => Expect::Out(vec![p.1.tree_root(i)]),
        G::MerkleProof(p, d) => {
            let path: Vec<bool> = i[1 + d..].iter().map(is1).collect();
            Expect::Out(vec![p.1.proof_root(i[0], &i[1..1 + d], &path)])
        }
        G::Eddsa | G::EddsaWith(_) => {
            let s = i[0].big();
            if s.bits() > C::Fs::NUM_BITS as usize {
                return Expect::Unsat("scalar wider than the curve order");
            }
            let pos = match g {
                G::EddsaWith(p) => &p.1,
                _ => &C::pos4().1,
            };
            match ref_verify::<C>(&(s % &c.l), i[1], i[2], i[3], pos) {
                None => Expect::Unsat("coordinate of no subgroup point"),
                Some(v) => Expect::Out(vec![b(v)]),
            }
        }
    }
}

// ------------------------------------------------------------------ generators

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Family {
    Arith,
    Bits,
    Ecc,
    Hash,
    Sig,
}

pub fn gen_modes(ctx: &mut Ctx, n: usize) -> Vec<Mode> {
    match ctx.below(4) {
        0 => vec![Mode::Var; n],
        1 => {
            let mut r = ctx.rng();
            (0..n).map(|_| if r.below(2) == 0 { Mode::Const } else { Mode::Var }).collect()
        }
        2 => {
            let mut r = ctx.rng();
            (0..n)
                .map(|_| *[Mode::Var, Mode::Const, Mode::Affine, Mode::Diff, Mode::ZeroTerm, Mode::Shared].get(r.below(6) as usize).unwrap())
                .collect()
        }
        _ => {
            let m = *ctx.pick(&[Mode::Affine, Mode::Diff, Mode::Const, Mode::ZeroTerm, Mode::Shared]);
            vec![m; n]
        }
    }
}

fn bit<F: Field>(b: bool) -> Z<F> {
    if b {
        Z::one()
    } else {
        Z::zero()
    }
}

fn finish<C: Curve>(ctx: &mut Ctx, g: G<C::Fr>, inputs: Vec<Z<C::Fr>>, class: String) -> Inst<C> {
    let mut modes = gen_modes(ctx, inputs.len());
    if let G::PointMul = g {
        // base all constant or not, independent of the bits
        if ctx.bool() {
            modes[0] = Mode::Const;
            modes[1] = Mode::Const;
        }
    }
    let salt = ctx.u();
    let expect = reference::<C>(&g, &inputs);
    Inst { g, inputs, modes, salt, expect, class }
}

pub fn gen_arith<C: Curve>(ctx: &mut Ctx) -> Inst<C> {
    type F<C> = <C as Curve>::Fr;
    let a = gen_z::<F<C>>(ctx);
    let b2 = match ctx.below(6) {
        0 | 1 => a,
        2 => match ctx.below(6) {
            0 => -a,
            1 => a + Z::one(),
            2 => a - Z::one(),
            3 => a + a,
            4 => a * a,
            _ if !a.is_zero() => Z::one().div(a),
            _ => Z::one(),
        },
        _ => gen_z(ctx),
    };
    let s = bit(ctx.bool());
    let t = bit(ctx.bool());
    let which = ctx.below(17);
    let (g, inp): (G<F<C>>, Vec<Z<F<C>>>) = match which {
        0 => (G::Mul, vec![a, b2]),
        1 => {
            let d = if b2.is_zero() { Z::one() } else { b2 };
            (G::Div, vec![a, d])
        }
        2 => (G::Square, vec![a]),
        3 => (G::IsZero, vec![if ctx.bool() { Z::zero() } else { a }]),
        4 => (G::IsEq, vec![a, b2]),
        5 => (G::Switch, vec![s, a, b2]),
        6 => (G::BoolSwitch, vec![s, t, bit(ctx.bool())]),
        7 => (G::BoolEq, vec![s, t]),
        8 => {
            let n = if ctx.chance(1, 8) { ctx.range(4, 10) } else { ctx.range(0, 3) };
            let mut r = ctx.rng();
            let tab = (0..n).map(|_| (0..8).map(|_| if r.below(3) == 0 { Z::u(r.below(2)) } else { rnd_z(&mut r) }).collect()).collect();
            (G::Mux3(tab), vec![s, t, bit(ctx.bool())])
        }
        9 => (G::AssertZero, vec![if ctx.bool() { Z::zero() } else { a }]),
        10 => (G::AssertNonzero, vec![if ctx.bool() { Z::zero() } else { a }]),
        11 => (G::AssertConst(b2), vec![a]),
        12 => (G::AssertEq, vec![a, b2]),
        13 => (G::AssertBit, vec![if ctx.bool() { s } else { a }]),
        14 => (G::BoolAssert, vec![if ctx.bool() { s } else { a }]),
        15 => (G::BoolTrue, vec![s]),
        _ => (G::BoolFalse, vec![s]),
    };
    finish(ctx, g, inp, String::new())
}

pub fn gen_bits<C: Curve>(ctx: &mut Ctx) -> Inst<C> {
    let p = C::consts().p.clone();
    let nb = C::Fr::NUM_BITS as usize;
    match ctx.below(5) {
        0 | 1 => {
            let n = match ctx.below(5) {
                0 => ctx.range(1, 4),
                1 => nb - ctx.range(0, 3),
                2 => 64 + ctx.range(0, 2) - 1,
                _ => ctx.range(1, nb),
            };
            let v = match ctx.below(5) {
                0 => (BigUint::one() << n) % &p,
                1 => ((BigUint::one() << n) - 1u32) % &p,
                2 => gen_below(ctx, &p),
                _ => rand_big(ctx, n) % &p,
            };
            let cl = if v.bits() <= n { "fits" } else { "too wide" };
            finish(ctx, G::IntoBits(n), vec![Z::from_big(&v)], cl.into())
        }
        2 => {
            let v = match ctx.below(3) {
                // small values have a second representation v + p in NUM_BITS bits
                0 => rand_big(ctx, 200) % &p,
                _ => gen_below(ctx, &p),
            };
            let alias = (&v + &p).bits() <= nb;
            finish(ctx, G::Strict, vec![Z::from_big(&v)], if alias { "has alias v+p".into() } else { "no alias".into() })
        }
        3 => {
            let n = match ctx.below(3) {
                0 => ctx.range(1, 6),
                1 => match ctx.below(8) {
                    0 => nb + ctx.range(1, 6),
                    1 => ctx.range(nb, 500),
                    _ => nb - ctx.range(0, 2),
                },
                _ => ctx.range(1, nb),
            };
            let v = match ctx.below(4) {
                0 => BigUint::zero(),
                1 => (BigUint::one() << n) - 1u32,
                _ => rand_big(ctx, n),
            };
            let ct = match ctx.below(7) {
                0 => v.clone(),
                1 => &v + 1u32,
                2 => {
                    if v.is_zero() {
                        v.clone()
                    } else {
                        &v - 1u32
                    }
                }
                3 => gen_below(ctx, &p),
                4 => &v ^ (BigUint::one() << ctx.below(n as u64 + 2) as usize),
                _ => rand_big(ctx, n),
            } % &p;
            let cl = if ct.bits() > n {
                "constant wider than the vector"
            } else if ct == v {
                "equal"
            } else if v > ct {
                "greater"
            } else {
                "less"
            };
            let inp = bits_le(&v, n).into_iter().map(bit).collect();
            finish(ctx, G::Comp(Z::from_big(&ct)), inp, cl.into())
        }
        _ => {
            let n = if ctx.chance(1, 10) { ctx.range(nb, 600) } else { ctx.range(1, nb + 2) };
            let v = rand_big(ctx, n);
            finish(ctx, G::FromBits, bits_le(&v, n).into_iter().map(bit).collect(), String::new())
        }
    }
}

/// a point that is not in the subgroup, of a chosen kind
pub fn gen_bad_point<C: Curve>(ctx: &mut Ctx) -> (Pt<C::Fr>, &'static str) {
    let c = C::consts();
    let s = gen_subgroup::<C>(ctx);
    match ctx.below(5) {
        0 => (Pt { x: s.x, y: -s.y }, "subgroup point with y negated"),
        1 => {
            let i = 1 + ctx.below(7) as usize;
            (c.add(&s, &c.tors[i]), "subgroup point plus torsion")
        }
        2 => (Pt { x: s.x + Z::u(1 + ctx.below(9)), y: s.y }, "x shifted off the curve"),
        3 => (Pt { x: s.x, y: s.y + Z::u(1 + ctx.below(9)) }, "y shifted off the curve"),
        _ => (Pt { x: gen_z(ctx), y: gen_z(ctx) }, "arbitrary coordinates"),
    }
}

pub fn gen_ecc<C: Curve>(ctx: &mut Ctx) -> Inst<C> {
    let k = ctx.below(14);
    gen_ecc_kind(ctx, k)
}

pub fn gen_ecc_kind<C: Curve>(ctx: &mut Ctx, kind: u64) -> Inst<C> {
    let c = C::consts();
    match kind {
        0 => {
            let (a, ca) = gen_point::<C>(ctx);
            let b = match ctx.below(8) {
                0 | 1 => a,
                2 => c.neg(&a),
                // sums and differences with low-order points share a coordinate up to sign
                3 | 4 => {
                    let t = c.tors[ctx.below(8) as usize];
                    if ctx.bool() {
                        c.add(&a, &t)
                    } else {
                        c.add(&c.neg(&a), &t)
                    }
                }
                _ => gen_point::<C>(ctx).0,
            };
            finish(ctx, G::EdAdd, vec![a.x, a.y, b.x, b.y], format!("{:?}", ca))
        }
        1 => {
            let (a, ca) = gen_point::<C>(ctx);
            finish(ctx, G::EdDouble, vec![a.x, a.y], format!("{:?}", ca))
        }
        2 => {
            let (a, ca) = gen_point::<C>(ctx);
            finish(ctx, G::EdCofactor, vec![a.x, a.y], format!("{:?}", ca))
        }
        3 => {
            if ctx.bool() {
                let (a, ca) = gen_point::<C>(ctx);
                finish(ctx, G::AssertCurve, vec![a.x, a.y], format!("{:?}", ca))
            } else {
                let (a, cl) = gen_bad_point::<C>(ctx);
                finish(ctx, G::AssertCurve, vec![a.x, a.y], cl.into())
            }
        }
        4 => {
            if ctx.bool() {
                let a = gen_subgroup::<C>(ctx);
                finish(ctx, G::AssertSubgroup, vec![a.x, a.y], "subgroup".into())
            } else {
                let (a, cl) = gen_bad_point::<C>(ctx);
                finish(ctx, G::AssertSubgroup, vec![a.x, a.y], cl.into())
            }
        }
        5 => {
            let (x, cl) = match ctx.below(4) {
                0 => (gen_z::<C::Fr>(ctx), "arbitrary x"),
                1 => {
                    let i = 1 + ctx.below(7) as usize;
                    let s = gen_subgroup::<C>(ctx);
                    (c.add(&s, &c.tors[i]).x, "x of a torsion-shifted point")
                }
                _ => (gen_subgroup::<C>(ctx).x, "x of a subgroup point"),
            };
            finish(ctx, G::Decompress, vec![x], cl.into())
        }
        6 => {
            let (mut a, mut ca) = gen_point::<C>(ctx);
            if a.x.is_zero() {
                a = c.g;
                ca = PtClass::SmallMultiple;
            }
            finish(ctx, G::IntoMont, vec![a.x, a.y], format!("{:?}", ca))
        }
        7 => {
            let mut a = gen_point::<C>(ctx).0;
            let mut b = gen_point::<C>(ctx).0;
            if a == c.id() {
                a = c.tors[4];
            }
            if b == c.id() {
                b = c.g;
            }
            if b == a || b == c.neg(&a) {
                b = c.add(&c.dbl(&a), &c.g);
                if b == c.id() || b == a || b == c.neg(&a) {
                    a = c.g;
                    b = c.dbl(&c.g);
                }
            }
            let (m, n) = (c.to_mont(&a).unwrap(), c.to_mont(&b).unwrap());
            let cl = if a == c.tors[4] || b == c.tors[4] { "with (0,0)" } else { "generic" };
            finish(ctx, G::MontAdd, vec![m.0, m.1, n.0, n.1], cl.into())
        }
        8 => {
            let (mut a, mut ca) = gen_point::<C>(ctx);
            if a == c.id() || a == c.tors[4] {
                a = c.g;
                ca = PtClass::SmallMultiple;
            }
            let m = c.to_mont(&a).unwrap();
            finish(ctx, G::MontDouble, vec![m.0, m.1], format!("{:?}", ca))
        }
        9 => {
            let (mut a, mut ca) = gen_point::<C>(ctx);
            if a == c.id() {
                a = c.tors[4];
                ca = PtClass::Torsion;
            }
            let m = c.to_mont(&a).unwrap();
            finish(ctx, G::IntoEd, vec![m.0, m.1], format!("{:?}", ca))
        }
        10 | 11 | 12 => {
            let a = gen_subgroup::<C>(ctx);
            let n = match ctx.below(8) {
                0 => ctx.range(0, 3),
                1 if ctx.chance(1, 4) => ctx.range(200, 300),
                1 | 2 | 3 => ctx.range(1, 20),
                4 => C::Fr::NUM_BITS as usize,
                5 => C::Fs::NUM_BITS as usize,
                _ => ctx.range(1, 90),
            };
            let k = match ctx.below(9) {
                // prefixes of numbers near a multiple of the order, shifted: partial sums meet the base point
                7 | 8 => {
                    let m = &c.l * BigUint::from(1 + ctx.below(16));
                    let (up, d) = (ctx.bool(), ctx.below(9));
                    let m = if up { m + d } else { m - d };
                    let sh = ctx.below(6) as usize;
                    let low = rand_big(ctx, sh);
                    let m = if ctx.bool() { m >> sh } else { (m << sh) + low };
                    // the leading bits, or the trailing ones
                    let over = m.bits().saturating_sub(n);
                    if ctx.bool() { m >> over } else { m }
                }
                0 => BigUint::zero(),
                1 => BigUint::one(),
                2 => (BigUint::one() << n) - 1u32,
                3 => c.l.clone() % (BigUint::one() << n),
                4 => (&c.l + 1u32) % (BigUint::one() << n),
                _ => rand_big(ctx, n),
            } % (BigUint::one() << n);
            let mut inp = vec![a.x, a.y];
            inp.extend(bits_le(&k, n).into_iter().map(bit::<C::Fr>));
            let cl = format!(
                "{} base, {} bits{}",
                if a == c.id() { "identity" } else { "non-identity" },
                match n {
                    0 => "0",
                    1..=20 => "1-20",
                    21..=90 => "21-90",
                    _ => "full",
                },
                if k.is_zero() { ", zero scalar" } else { "" }
            );
            finish(ctx, G::PointMul, inp, cl)
        }
        _ => {
            let mut t = gen_z::<C::Fr>(ctx);
            if t == -Z::one() {
                t = Z::u(5);
            }
            finish(ctx, G::FromScalar, vec![t], String::new())
        }
    }
}

pub fn gen_hash<C: Curve>(ctx: &mut Ctx) -> Inst<C> {
    let pos: Pos<C::Fr> = if ctx.chance(1, 8) {
        Arc::new((PoseidonParams::new(4, 8, 54), RefPoseidon::derive(4, 8, 54)))
    } else {
        Arc::new(gen_pos::<C>(ctx, 1))
    };
    let t = pos.0.t;
    // one column has room for one input and no salt
    match if t == 1 { 0 } else { ctx.below(4) } {
        0 => {
            let n = ctx.range(1, t);
            let inp = (0..n).map(|_| gen_z(ctx)).collect();
            finish(ctx, G::Poseidon(pos), inp, format!("{} inputs of {}", n, t))
        }
        1 => {
            let n = ctx.range(1, t - 1);
            let inp = (0..n).map(|_| gen_z(ctx)).collect();
            let mut r = ctx.rng();
            let sl = ctx.below(40) as usize;
            let seed = (0..sl).map(|_| r.next() as u8).collect();
            finish(ctx, G::PoseidonSalt(pos, seed), inp, format!("{} inputs of {}", n, t))
        }
        2 => {
            let mut d = *ctx.pick(&[2usize, 1, 0, 3, 5]);
            if ctx.chance(1, 12) {
                d = if ctx.chance(1, 3) { 33 } else { 8 };
            }
            let mut inp: Vec<Z<C::Fr>> = (0..d + 1).map(|_| gen_z(ctx)).collect();
            for _ in 0..d {
                inp.push(bit(ctx.bool()));
            }
            finish(ctx, G::MerkleProof(pos, d), inp, format!("depth {}", d))
        }
        _ => {
            let n = match ctx.below(48) {
                0 => ctx.range(41, 140),
                1..=3 => ctx.range(10, 40),
                _ => ctx.range(1, 9),
            };
            let inp = (0..n).map(|_| gen_z(ctx)).collect();
            finish(ctx, G::MerkleTree(pos), inp, format!("{} leaves", n))
        }
    }
}

pub fn gen_sig<C: Curve>(ctx: &mut Ctx) -> Inst<C> {
    let c = C::consts();
    // mostly cheap parameters, sometimes the published ones
    let g: G<C::Fr> = if ctx.chance(1, 4) {
        G::Eddsa
    } else {
        let mut r = ctx.rng();
        let (f, p) = (4, 3);
        let cc: Vec<Z<C::Fr>> = (0..f + p).map(|_| rnd_z(&mut r)).collect();
        let m: Vec<Vec<Z<C::Fr>>> = (0..4).map(|_| (0..4).map(|_| rnd_z(&mut r)).collect()).collect();
        G::EddsaWith(Arc::new((
            PoseidonParams { c: cc.iter().map(|x| x.n()).collect(), m: m.iter().map(|v| v.iter().map(|x| x.n()).collect()).collect(), t: 4, f, p },
            RefPoseidon { c: cc, m, t: 4, f, p },
        )))
    };
    let (s, r, a, m, kind) = {
        let rf = match &g {
            G::EddsaWith(p) => &p.1,
            _ => &C::pos4().1,
        };
        gen_sig_tuple::<C>(ctx, rf)
    };
    // the same signature with the scalar lifted by l where it still fits the bit length
    let (s, kind) = match ctx.below(6) {
        0 if (&s + &c.l).bits() <= C::Fs::NUM_BITS as usize => (&s + &c.l, format!("{} (scalar + l)", kind)),
        1 => ((&s + (BigUint::one() << C::Fs::NUM_BITS as usize)) % &c.p, format!("{} (scalar too wide)", kind)),
        _ => (s, kind.to_string()),
    };
    finish(ctx, g, vec![Z::from_big(&s), r, a, m], kind)
}

pub fn gen_family<C: Curve>(ctx: &mut Ctx, f: Family) -> Inst<C> {
    match f {
        Family::Arith => gen_arith(ctx),
        Family::Bits => gen_bits(ctx),
        Family::Ecc => gen_ecc(ctx),
        Family::Hash => gen_hash(ctx),
        Family::Sig => gen_sig(ctx),
    }
}
