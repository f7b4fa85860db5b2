//! C18: derived structures, tuples and fixed-length vectors of signals against a flat model.

use crate::engine::{guard, Prop, Sub};
use crate::reccs::*;
use crate::refmath::*;
use crate::tape::{CaseResult, Ctx};
use crate::{ensure, on_curve};
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::CMerkleProof;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::MerkleProof;
use fawkes_crypto_derive::Signal;
use std::marker::PhantomData;
use crate::forge::{check_all, Solver, Sys};
use typenum::{Unsigned, U1, U12, U16, U2, U3, U33, U4, U65, U8, U9};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Num,
    Bit,
}

/// The flat model of a composite: how its components are laid out, written independently of
/// the library's expansion.
pub trait Flat<'a, CS: 'a + ConstraintSystem>: Signal<'a, CS> {
    fn kinds() -> Vec<K>;
    fn flat(v: &Self::Value, out: &mut Vec<Z<CS::F>>);
    fn unflat(v: &mut std::slice::Iter<Z<CS::F>>) -> Self::Value;
    fn comps(&self, out: &mut Vec<CNum<'a, CS>>);
    fn build(v: &mut std::slice::Iter<CNum<'a, CS>>) -> Self;
}

impl<'a, CS: 'a + ConstraintSystem> Flat<'a, CS> for CNum<'a, CS> {
    fn kinds() -> Vec<K> {
        vec![K::Num]
    }
    fn flat(v: &Self::Value, out: &mut Vec<Z<CS::F>>) {
        out.push(Z(v.0))
    }
    fn unflat(v: &mut std::slice::Iter<Z<CS::F>>) -> Self::Value {
        v.next().unwrap().n()
    }
    fn comps(&self, out: &mut Vec<CNum<'a, CS>>) {
        out.push(self.clone())
    }
    fn build(v: &mut std::slice::Iter<CNum<'a, CS>>) -> Self {
        v.next().unwrap().clone()
    }
}
impl<'a, CS: 'a + ConstraintSystem> Flat<'a, CS> for CBool<'a, CS> {
    fn kinds() -> Vec<K> {
        vec![K::Bit]
    }
    fn flat(v: &bool, out: &mut Vec<Z<CS::F>>) {
        out.push(Z::u(*v as u64))
    }
    fn unflat(v: &mut std::slice::Iter<Z<CS::F>>) -> bool {
        *v.next().unwrap() == Z::one()
    }
    fn comps(&self, out: &mut Vec<CNum<'a, CS>>) {
        out.push(self.0.clone())
    }
    fn build(v: &mut std::slice::Iter<CNum<'a, CS>>) -> Self {
        CBool(v.next().unwrap().clone())
    }
}
impl<'a, CS: 'a + ConstraintSystem, T: Flat<'a, CS>, L: Unsigned> Flat<'a, CS> for SizedVec<T, L> {
    fn kinds() -> Vec<K> {
        (0..L::USIZE).flat_map(|_| T::kinds()).collect()
    }
    fn flat(v: &Self::Value, out: &mut Vec<Z<CS::F>>) {
        for x in &v.0 {
            T::flat(x, out)
        }
    }
    fn unflat(v: &mut std::slice::Iter<Z<CS::F>>) -> Self::Value {
        let mut o = vec![];
        for _ in 0..L::USIZE {
            o.push(T::unflat(v));
        }
        SizedVec(o, PhantomData)
    }
    fn comps(&self, out: &mut Vec<CNum<'a, CS>>) {
        for x in &self.0 {
            x.comps(out)
        }
    }
    fn build(v: &mut std::slice::Iter<CNum<'a, CS>>) -> Self {
        let mut o = vec![];
        for _ in 0..L::USIZE {
            o.push(T::build(v));
        }
        SizedVec(o, PhantomData)
    }
}

/// named-field composite: components in the listed order
macro_rules! flat_struct {
    ([$($g:tt)*] $t:ty, $val:ident, $con:ident, $($f:ident : $ft:ty),*) => {
        impl<'a, CS: 'a + ConstraintSystem $($g)*> Flat<'a, CS> for $t {
            fn kinds() -> Vec<K> {
                let mut k = vec![];
                $(k.extend(<$ft as Flat<'a, CS>>::kinds());)*
                k
            }
            fn flat(v: &Self::Value, out: &mut Vec<Z<CS::F>>) {
                $(<$ft as Flat<'a, CS>>::flat(&v.$f, out);)*
            }
            fn unflat(v: &mut std::slice::Iter<Z<CS::F>>) -> Self::Value {
                $(let $f = <$ft as Flat<'a, CS>>::unflat(v);)*
                $val { $($f),* }
            }
            fn comps(&self, out: &mut Vec<CNum<'a, CS>>) {
                $(self.$f.comps(out);)*
            }
            fn build(v: &mut std::slice::Iter<CNum<'a, CS>>) -> Self {
                $(let $f = <$ft as Flat<'a, CS>>::build(v);)*
                $con { $($f),* }
            }
        }
    };
}
flat_struct!([] CEdwardsPoint<'a, CS>, EdwardsPoint, CEdwardsPoint, x: CNum<'a, CS>, y: CNum<'a, CS>);
flat_struct!([] CMontgomeryPoint<'a, CS>, MontgomeryPoint, CMontgomeryPoint, x: CNum<'a, CS>, y: CNum<'a, CS>);
flat_struct!([, L: Unsigned] CMerkleProof<'a, CS, L>, MerkleProof, CMerkleProof, sibling: SizedVec<CNum<'a, CS>, L>, path: SizedVec<CBool<'a, CS>, L>);

#[derive(Clone, Debug)]
pub struct Note<F: Field> {
    pub zeta: Num<F>,
    pub flag: bool,
    pub owner: EdwardsPoint<F>,
    pub alpha: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "Note<CS::F>"]
pub struct CNote<'a, CS: ConstraintSystem> {
    pub zeta: CNum<'a, CS>,
    pub flag: CBool<'a, CS>,
    pub owner: CEdwardsPoint<'a, CS>,
    pub alpha: CNum<'a, CS>,
}
flat_struct!([] CNote<'a, CS>, Note, CNote, zeta: CNum<'a, CS>, flag: CBool<'a, CS>, owner: CEdwardsPoint<'a, CS>, alpha: CNum<'a, CS>);

#[derive(Clone)]
pub struct One<F: Field> {
    pub only: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "One<CS::F>"]
pub struct COne<'a, CS: ConstraintSystem> {
    pub only: CNum<'a, CS>,
}
flat_struct!([] COne<'a, CS>, One, COne, only: CNum<'a, CS>);

/// positional composite
macro_rules! flat_pos {
    ([$($g:tt)*] $t:ty, $val:ident, $con:ident, $($f:tt $n:ident : $ft:ty),*) => {
        impl<'a, CS: 'a + ConstraintSystem $($g)*> Flat<'a, CS> for $t {
            fn kinds() -> Vec<K> {
                let mut k = vec![];
                $(k.extend(<$ft as Flat<'a, CS>>::kinds());)*
                k
            }
            fn flat(v: &Self::Value, out: &mut Vec<Z<CS::F>>) {
                $(<$ft as Flat<'a, CS>>::flat(&v.$f, out);)*
            }
            fn unflat(v: &mut std::slice::Iter<Z<CS::F>>) -> Self::Value {
                $(let $n = <$ft as Flat<'a, CS>>::unflat(v);)*
                $val($($n),*)
            }
            fn comps(&self, out: &mut Vec<CNum<'a, CS>>) {
                $(self.$f.comps(out);)*
            }
            fn build(v: &mut std::slice::Iter<CNum<'a, CS>>) -> Self {
                $(let $n = <$ft as Flat<'a, CS>>::build(v);)*
                $con($($n),*)
            }
        }
    };
}
#[derive(Clone)]
pub struct Pos3<F: Field>(pub bool, pub Num<F>, pub SizedVec<Num<F>, U3>);
#[derive(Clone, Signal)]
#[Value = "Pos3<CS::F>"]
pub struct CPos3<'a, CS: ConstraintSystem>(pub CBool<'a, CS>, pub CNum<'a, CS>, pub SizedVec<CNum<'a, CS>, U3>);
flat_pos!([] CPos3<'a, CS>, Pos3, CPos3, 0 a: CBool<'a, CS>, 1 b: CNum<'a, CS>, 2 c: SizedVec<CNum<'a, CS>, U3>);

#[derive(Clone)]
pub struct Pos1<F: Field>(pub EdwardsPoint<F>);
#[derive(Clone, Signal)]
#[Value = "Pos1<CS::F>"]
pub struct CPos1<'a, CS: ConstraintSystem>(pub CEdwardsPoint<'a, CS>);
flat_pos!([] CPos1<'a, CS>, Pos1, CPos1, 0 a: CEdwardsPoint<'a, CS>);

#[derive(Clone)]
pub struct Tx<F: Field, L: Unsigned> {
    pub notes: SizedVec<Note<F>, U2>,
    pub proof: MerkleProof<F, L>,
    pub extra: Pos3<F>,
    pub m: MontgomeryPoint<F>,
}
#[derive(Clone, Signal)]
#[Value = "Tx<CS::F, L>"]
pub struct CTx<'a, CS: ConstraintSystem, L: Unsigned> {
    pub notes: SizedVec<CNote<'a, CS>, U2>,
    pub proof: CMerkleProof<'a, CS, L>,
    pub extra: CPos3<'a, CS>,
    pub m: CMontgomeryPoint<'a, CS>,
}
flat_struct!([, L: Unsigned] CTx<'a, CS, L>, Tx, CTx, notes: SizedVec<CNote<'a, CS>, U2>, proof: CMerkleProof<'a, CS, L>, extra: CPos3<'a, CS>, m: CMontgomeryPoint<'a, CS>);


/// positional with two-digit indices, and many named fields in no particular order
#[derive(Clone)]
pub struct Pos12<F: Field>(pub Num<F>, pub bool, pub Num<F>, pub Num<F>, pub bool, pub Pos1<F>, pub Num<F>, pub bool, pub Num<F>, pub SizedVec<Num<F>, U2>, pub Num<F>, pub Num<F>);
#[derive(Clone, Signal)]
#[Value = "Pos12<CS::F>"]
pub struct CPos12<'a, CS: ConstraintSystem>(pub CNum<'a, CS>, pub CBool<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>, pub CBool<'a, CS>, pub CPos1<'a, CS>, pub CNum<'a, CS>, pub CBool<'a, CS>, pub CNum<'a, CS>, pub SizedVec<CNum<'a, CS>, U2>, pub CNum<'a, CS>, pub CNum<'a, CS>);
flat_pos!([] CPos12<'a, CS>, Pos12, CPos12, 0 v0: CNum<'a, CS>, 1 v1: CBool<'a, CS>, 2 v2: CNum<'a, CS>, 3 v3: CNum<'a, CS>, 4 v4: CBool<'a, CS>, 5 v5: CPos1<'a, CS>, 6 v6: CNum<'a, CS>, 7 v7: CBool<'a, CS>, 8 v8: CNum<'a, CS>, 9 v9: SizedVec<CNum<'a, CS>, U2>, 10 v10: CNum<'a, CS>, 11 v11: CNum<'a, CS>);
#[derive(Clone)]
pub struct Wide<F: Field> {
    pub zz: Num<F>,
    pub b1: bool,
    pub m: Num<F>,
    pub a10: Num<F>,
    pub a2: bool,
    pub owner: Pos1<F>,
    pub flag_c: Num<F>,
    pub k: bool,
    pub a1: Num<F>,
    pub list: SizedVec<Num<F>, U2>,
    pub y_: Num<F>,
    pub aa: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "Wide<CS::F>"]
pub struct CWide<'a, CS: ConstraintSystem> {
    pub zz: CNum<'a, CS>,
    pub b1: CBool<'a, CS>,
    pub m: CNum<'a, CS>,
    pub a10: CNum<'a, CS>,
    pub a2: CBool<'a, CS>,
    pub owner: CPos1<'a, CS>,
    pub flag_c: CNum<'a, CS>,
    pub k: CBool<'a, CS>,
    pub a1: CNum<'a, CS>,
    pub list: SizedVec<CNum<'a, CS>, U2>,
    pub y_: CNum<'a, CS>,
    pub aa: CNum<'a, CS>,
}
flat_struct!([] CWide<'a, CS>, Wide, CWide, zz: CNum<'a, CS>, b1: CBool<'a, CS>, m: CNum<'a, CS>, a10: CNum<'a, CS>, a2: CBool<'a, CS>, owner: CPos1<'a, CS>, flag_c: CNum<'a, CS>, k: CBool<'a, CS>, a1: CNum<'a, CS>, list: SizedVec<CNum<'a, CS>, U2>, y_: CNum<'a, CS>, aa: CNum<'a, CS>);

macro_rules! flat_tuple {
    ($($t:ident $i:tt),*) => {
        impl<'a, CS: 'a + ConstraintSystem, $($t: Flat<'a, CS>),*> Flat<'a, CS> for ($($t,)*) {
            fn kinds() -> Vec<K> {
                let mut k = vec![];
                $(k.extend($t::kinds());)*
                k
            }
            fn flat(v: &Self::Value, out: &mut Vec<Z<CS::F>>) {
                $($t::flat(&v.$i, out);)*
            }
            fn unflat(v: &mut std::slice::Iter<Z<CS::F>>) -> Self::Value {
                ($($t::unflat(v),)*)
            }
            fn comps(&self, out: &mut Vec<CNum<'a, CS>>) {
                $(self.$i.comps(out);)*
            }
            fn build(v: &mut std::slice::Iter<CNum<'a, CS>>) -> Self {
                ($($t::build(v),)*)
            }
        }
    };
}
flat_tuple!(A 0);
flat_tuple!(A 0, B 1);
flat_tuple!(A 0, B 1, C 2);
flat_tuple!(A 0, B 1, C 2, D 3);
flat_tuple!(A 0, B 1, C 2, D 3, E 4);
flat_tuple!(A 0, B 1, C 2, D 3, E 4, G 5);
flat_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6);
flat_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7);
flat_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9, M 10, N 11);
flat_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9, M 10, N 11, O 12, P 13, Q 14, R 15, S 16);

// ------------------------------------------------------------------ the check

fn gen_vals<F: Field>(ctx: &mut Ctx, k: &[K]) -> Vec<Z<F>> {
    let mut r = ctx.rng();
    k.iter()
        .map(|k| match k {
            K::Bit => Z::u(r.below(2)),
            K::Num => match r.below(4) {
                0 => Z::u(r.below(3)),
                1 => -Z::u(r.below(3)),
                _ => rnd_z(&mut r),
            },
        })
        .collect()
}
/// the same values, changed in none, one or a few components
fn gen_variant<F: Field>(ctx: &mut Ctx, k: &[K], v: &[Z<F>]) -> (Vec<Z<F>>, usize) {
    let mut o = v.to_vec();
    let nums: Vec<usize> = (0..k.len()).filter(|i| k[*i] == K::Num).collect();
    if nums.len() > 1 && ctx.chance(1, 4) {
        // differences that cancel in sums, or a permutation
        let i = nums[ctx.below(nums.len() as u64) as usize];
        let j = nums[ctx.below(nums.len() as u64) as usize];
        if i != j {
            if ctx.bool() {
                let d = Z::u(1 + ctx.below(3));
                o[i] = o[i] + d;
                o[j] = o[j] - d;
            } else {
                o.swap(i, j);
            }
            let n = o.iter().zip(v).filter(|(a, b)| a != b).count();
            return (o, n);
        }
    }
    let n = match ctx.below(4) {
        0 => 0,
        1 | 2 => 1,
        _ => ctx.range(1, k.len()),
    };
    let mut changed = vec![];
    for _ in 0..n {
        let i = ctx.below(k.len() as u64) as usize;
        if changed.contains(&i) {
            continue;
        }
        changed.push(i);
        o[i] = if k[i] == K::Bit { Z::one() - o[i] } else { o[i] + Z::u(1 + ctx.below(3)) };
    }
    (o, changed.len())
}

type R<F> = RecCS<F>;

/// components allocated or constant, per a mask
fn mixed<'a, F: Field>(cs: &'a R<F>, v: &[Z<F>], mask: u64, with: bool) -> Vec<CNum<'a, R<F>>> {
    v.iter()
        .enumerate()
        .map(|(i, x)| {
            if (mask >> (i % 64)) & 1 == 1 {
                CNum::from_const(cs, &x.n())
            } else {
                let n = x.n();
                CNum::alloc(cs, if with { Some(&n) } else { None })
            }
        })
        .collect()
}
/// The second operand: its own signals, or some of the first operand's where the values agree.
fn second<'a, F: Field>(ctx: &mut Ctx, cs: &'a R<F>, w: &[Z<F>], mask: u64, a: &[CNum<'a, R<F>>]) -> Vec<CNum<'a, R<F>>> {
    let mut o = mixed(cs, w, mask, true);
    if ctx.chance(1, 4) {
        let mut r = ctx.rng();
        for (i, x) in o.iter_mut().enumerate() {
            if r.below(4) > 0 {
                if a[i].value == x.value {
                    *x = a[i].clone();
                } else if let Some(k) = (0..a.len()).find(|k| a[*k].value == x.value) {
                    *x = a[k].clone();
                }
            }
        }
    }
    o
}
fn values<'a, F: Field>(c: &[CNum<'a, R<F>>]) -> Vec<Option<Z<F>>> {
    c.iter().map(|x| x.value.map(|v| Z(v.0))).collect()
}
fn comps<'a, F: Field, T: Flat<'a, R<F>>>(t: &T) -> Vec<CNum<'a, R<F>>> {
    let mut o = vec![];
    t.comps(&mut o);
    o
}
fn flat<'a, F: Field, T: Flat<'a, R<F>>>(v: &T::Value) -> Vec<Z<F>> {
    let mut o = vec![];
    T::flat(v, &mut o);
    o
}
fn some<F: Field>(v: &[Z<F>]) -> Vec<Option<Z<F>>> {
    v.iter().map(|x| Some(*x)).collect()
}
fn dec<F: Field>(v: &[Z<F>]) -> String {
    format!("{:?}", v.iter().map(|x| x.dec()).collect::<Vec<_>>())
}

/// With the components fixed, no witness gives another equality bit or selection and none
/// satisfies a false equality.
fn forge<'a, F: Field, T: Flat<'a, R<F>>>(ctx: &mut Ctx, cs: &'a R<F>, v: &[Z<F>], w: &[Z<F>], ma: u64, mb: u64, diff: usize) -> CaseResult {
    let a = T::build(&mut mixed(cs, v, ma, true).iter());
    let b = T::build(&mut mixed(cs, w, mb, true).iter());
    let s = ctx.bool();
    let bit = CBool::alloc(cs, Some(&s));
    let n0 = cs.nvars();
    let op = ctx.below(4);
    let (outs, want): (Vec<CNum<'a, R<F>>>, Option<Vec<Z<F>>>) = match guard(|| match op {
        0 => (vec![a.is_eq(&b).0], Some(vec![Z::u((diff == 0) as u64)])),
        1 => (comps(&a.switch(&bit, &b)), Some(if s { v.to_vec() } else { w.to_vec() })),
        2 => {
            a.assert_eq(&b);
            (vec![], if diff == 0 { Some(vec![]) } else { None })
        }
        _ => {
            a.assert_const(&T::unflat(&mut w.iter()));
            (vec![], if diff == 0 { Some(vec![]) } else { None })
        }
    }) {
        Ok(x) => x,
        Err(_) => return Ok(()), // constants; judged by the other arms
    };
    let what = ["is_eq", "switch", "assert_eq", "assert_const"][op as usize];
    let lcs: Vec<Lc<F>> = outs.iter().map(|o| cs.lc_of(o)).collect();
    let r = cs.r.borrow();
    let sys = Sys { nvars: r.kinds.len(), cons: r.cons.clone() };
    let honest = r.vals.clone();
    let fixed: Vec<(usize, Z<F>)> = (1..n0).filter_map(|i| honest[i].map(|x| (i, x))).collect();
    let goal = |asg: &[Z<F>]| match &want {
        None => true,
        Some(w) => lcs.iter().zip(w).any(|(lc, w)| lc.iter().fold(Z::zero(), |s, (v, c)| s + asg[*v] * *c) != *w),
    };
    let mut ov: Vec<usize> = lcs.iter().flat_map(|l| l.iter().map(|t| t.0)).collect();
    ov.sort();
    ov.dedup();
    let mut solver = Solver::new(&sys, &fixed, &honest, ov, ctx.u());
    for dev in [16u64, 4].iter() {
        let out = solver.attempt(&[], *dev, 60, &goal);
        if let Some(f) = out.forged {
            if f[0] == Z::one() && fixed.iter().all(|(i, x)| f[*i] == *x) && check_all(&sys, &f) && goal(&f) {
                return Err(format!("forged witness accepted by {}: outputs {:?}", what, lcs.iter().map(|lc| lc.iter().fold(Z::zero(), |s, (v, c)| s + f[*v] * *c).dec()).collect::<Vec<_>>()));
            }
        }
        if out.exhausted && !out.guessed {
            break;
        }
    }
    Ok(())
}

fn check<'a, F: Field, T: Flat<'a, R<F>>>(ctx: &mut Ctx, cs: &'a R<F>, name: &str) -> CaseResult {
    let kinds = T::kinds();
    let n = kinds.len();
    let v = gen_vals::<F>(ctx, &kinds);
    let (w, diff) = gen_variant::<F>(ctx, &kinds, &v);
    let (ma, mb) = match ctx.below(4) {
        0 => (0, 0),
        1 => (0, u64::max_value()),
        2 => (u64::max_value(), u64::max_value()),
        _ => (ctx.u(), ctx.u()),
    };
    let all_const = |m: u64| (0..n).all(|i| (m >> (i % 64)) & 1 == 1);
    ctx.label(name);
    ctx.label(match diff {
        0 => "equal sides",
        1 => "one component differs",
        _ => "several differ",
    });
    if n > 1 {
        ctx.nontrivial();
    }
    let d = |what: &str| format!("{}: {} (values {}, other {}, constant masks {:x} {:x})", name, what, dec(&v), dec(&w), ma, mb);
    ctx.note(|| d("case"));
    let val = T::unflat(&mut v.iter());
    let wal = T::unflat(&mut w.iter());
    let quiet = |c0: usize, v0: usize| cs.ncons() == c0 && cs.nvars() == v0;
    match ctx.below(9) {
        7 => {
            forge::<F, T>(ctx, cs, &v, &w, ma, mb, diff).map_err(|e| format!("{}: {}", d("forge"), e))?;
        }
        8 => {
            // without values: the same variables and constraints, and no value appears
            let other = &RecCS::<F>::new(Style::Split);
            let mine = &RecCS::<F>::new(Style::Split);
            let s = ctx.bool();
            let op = ctx.below(4);
            let run = |cs: &'a R<F>, with: bool| {
                let a = T::build(&mut mixed(cs, &v, ma, with).iter());
                let b = T::build(&mut mixed(cs, &w, mb, with).iter());
                let bit = CBool::alloc(cs, if with { Some(&s) } else { None });
                guard(|| match op {
                    0 => values(&[a.is_eq(&b).0]),
                    1 => values(&comps(&a.switch(&bit, &b))),
                    2 => {
                        a.assert_eq(&b);
                        vec![]
                    }
                    _ => {
                        a.inputize();
                        vec![]
                    }
                })
            };
            // the systems outlive the signals made on them
            let (other, mine): (&'a R<F>, &'a R<F>) = unsafe { (&*(other as *const _), &*(mine as *const _)) };
            let x = run(other, false);
            let y = run(mine, true);
            ensure!(x.is_ok() == y.is_ok(), "{}", d("synthesis without values and with values differ in failing"));
            if x.is_ok() {
                same_shape(&other.r.borrow(), &mine.r.borrow()).map_err(|e| format!("{}: {}", d("without and with values"), e))?;
            }
        }
        0 => {
            // allocation
            let v0 = cs.nvars();
            let t = guard(|| T::alloc(cs, Some(&val))).map_err(|e| format!("{}: {}", d("alloc"), e))?;
            let c = comps(&t);
            ensure!(values(&c) == some(&v), "{}: components {:?}", d("alloc stores other values"), values(&c).iter().map(|x| x.map(|x| x.dec())).collect::<Vec<_>>());
            for s in &c {
                cs.coherent(s).map_err(|e| format!("{}: {}", d("alloc"), e))?;
            }
            {
                let r = cs.r.borrow();
                ensure!(r.kinds.len() == v0 + n, "{}", d("alloc does not make one variable per component"));
                ensure!((0..n).all(|i| r.kinds[v0 + i] == Kind::Aux && r.vals[v0 + i] == Some(v[i])), "{}", d("alloc makes its variables in another order"));
            }
            let g = t.get_value().map(|x| flat::<F, T>(&x));
            ensure!(g.as_ref() == Some(&v), "{}", d("get_value does not return what was allocated"));
            ensure!(t.as_const().is_none(), "{}", d("allocated composite claims to be constant"));
            // and without values
            let t = guard(|| T::alloc(cs, None)).map_err(|e| format!("{}: {}", d("alloc without value"), e))?;
            ensure!(values(&comps(&t)).iter().all(|x| x.is_none()), "{}", d("alloc without value has values"));
            let g = guard(|| t.get_value().map(|x| flat::<F, T>(&x))).map_err(|e| format!("{}: {}", d("get_value without values"), e))?;
            ensure!(g.is_none(), "{}", d("get_value without values"));
        }
        1 => {
            let (v0, c0) = (cs.nvars(), cs.ncons());
            let t = guard(|| T::from_const(cs, &val)).map_err(|e| format!("{}: {}", d("from_const"), e))?;
            ensure!(quiet(c0, v0), "{}", d("a constant allocates or constrains"));
            ensure!(values(&comps(&t)) == some(&v), "{}", d("from_const stores other values"));
            for s in comps(&t) {
                cs.coherent(&s).map_err(|e| format!("{}: {}", d("from_const"), e))?;
            }
            ensure!(t.as_const().map(|x| flat::<F, T>(&x)).as_ref() == Some(&v), "{}", d("as_const of a constant"));
            ensure!(t.get_value().map(|x| flat::<F, T>(&x)).as_ref() == Some(&v), "{}", d("get_value of a constant"));
        }
        2 => {
            // as_const / get_value / linearize on partly constant composites
            let c = mixed(cs, &v, ma, true);
            let t = T::build(&mut c.iter());
            let k = guard(|| t.as_const().map(|x| flat::<F, T>(&x))).map_err(|e| format!("{}: {}", d("as_const"), e))?;
            ensure!(k == if all_const(ma) { Some(v.clone()) } else { None }, "{}", d("as_const"));
            ensure!(t.get_value().map(|x| flat::<F, T>(&x)).as_ref() == Some(&v), "{}", d("get_value"));
            let l = t.linearize();
            ensure!(l.len() == n, "{}: {} entries", d("linearize"), l.len());
            for (x, y) in l.iter().zip(&c) {
                ensure!(x.value.map(|v| v.0) == y.value.map(|v| v.0) && norm(&cs.lc_of(x)) == norm(&cs.lc_of(y)), "{}", d("linearize is not the components in declaration order"));
            }
            // some values missing
            let c = mixed(cs, &v, ma, false);
            let t = T::build(&mut c.iter());
            let g = guard(|| t.get_value().map(|x| flat::<F, T>(&x))).map_err(|e| format!("{}: {}", d("get_value with missing values"), e))?;
            ensure!(g == if all_const(ma) { Some(v.clone()) } else { None }, "{}", d("get_value with missing values"));
        }
        3 => {
            let a = T::build(&mut mixed(cs, &v, ma, true).iter());
            let b = T::build(&mut second(ctx, cs, &w, mb, &comps(&a)).iter());
            let s = ctx.bool();
            let bit = if ctx.bool() { CBool::from_const(cs, &s) } else { CBool::alloc(cs, Some(&s)) };
            let r = guard(|| if ctx.bool() { a.switch(&bit, &b) } else { bit.if_else(&a, &b) }).map_err(|e| format!("{}: {}", d("switch"), e))?;
            let want = if s { &v } else { &w };
            ensure!(values(&comps(&r)) == some(want), "{}: bit {} gives {:?}", d("switch"), s, values(&comps(&r)).iter().map(|x| x.map(|x| x.dec())).collect::<Vec<_>>());
            for x in comps(&r) {
                cs.coherent(&x).map_err(|e| format!("{}: {}", d("switch"), e))?;
            }
            cs.ok().map_err(|e| format!("{}: {}", d("switch"), e))?;
        }
        4 => {
            let a = T::build(&mut mixed(cs, &v, ma, true).iter());
            let b = T::build(&mut second(ctx, cs, &w, mb, &comps(&a)).iter());
            let r = guard(|| a.is_eq(&b)).map_err(|e| format!("{}: {}", d("is_eq"), e))?;
            ensure!(r.0.value.map(|x| Z(x.0)) == Some(Z::u((diff == 0) as u64)), "{}: {:?}", d("is_eq"), r.0.value.map(|x| Z(x.0).dec()));
            cs.coherent(&r.0).map_err(|e| format!("{}: {}", d("is_eq"), e))?;
            cs.ok().map_err(|e| format!("{}: {}", d("is_eq"), e))?;
        }
        5 => {
            let a = T::build(&mut mixed(cs, &v, ma, true).iter());
            let konst = ctx.bool();
            let b = T::build(&mut second(ctx, cs, &w, mb, &comps(&a)).iter());
            let r = guard(|| if konst { a.assert_const(&wal) } else { a.assert_eq(&b) });
            let what = if konst { "assert_const" } else { "assert_eq" };
            let accepted = r.is_ok() && cs.ok().is_ok();
            ensure!(accepted == (diff == 0), "{}: {} although {} component(s) differ", d(what), if accepted { "accepted" } else { "refused" }, diff);
        }
        _ => {
            let c = mixed(cs, &v, ma, true);
            let a = T::build(&mut c.iter());
            let v0 = cs.nvars();
            let c0 = cs.ncons();
            guard(|| a.inputize()).map_err(|e| format!("{}: {}", d("inputize"), e))?;
            cs.ok().map_err(|e| format!("{}: {}", d("inputize"), e))?;
            let r = cs.r.borrow();
            let ins: Vec<usize> = (v0..r.kinds.len()).filter(|i| r.kinds[*i] == Kind::Input).collect();
            ensure!(ins.len() == n && ins.iter().zip(&v).all(|(i, x)| r.vals[*i] == Some(*x)), "{}", d("public inputs are not the components in linearisation order"));
            // each input is tied to its component: changing it breaks a constraint
            for i in ins {
                let ev = |lc: &Lc<F>| lc.iter().fold(Z::zero(), |s, (k, c)| s + (r.vals[*k].unwrap() + if *k == i { Z::one() } else { Z::zero() }) * *c);
                let broken = r.cons[c0..].iter().any(|k| ev(&k.a) * ev(&k.b) != ev(&k.c));
                ensure!(broken, "{}", d("a public input is not tied to its component"));
            }
        }
    }
    Ok(())
}

fn c18(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c18_f)
}
fn c18_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    type N<'a, C> = CNum<'a, R<<C as Curve>::Fr>>;
    type B<'a, C> = CBool<'a, R<<C as Curve>::Fr>>;
    type S<C> = R<<C as Curve>::Fr>;
    let style = crate::circuits::gen_style(ctx);
    let cs = &RecCS::<C::Fr>::new(style);
    match ctx.below(31) {
        26 => check::<_, CPos12<S<C>>>(ctx, cs, "derived positional struct of 12"),
        27 => check::<_, CWide<S<C>>>(ctx, cs, "derived named struct of 12"),
        28 => check::<_, (N<C>, B<C>, N<C>, CPos3<S<C>>, N<C>, N<C>)>(ctx, cs, "6-tuple"),
        29 => check::<_, (B<C>, N<C>, N<C>, N<C>, N<C>, B<C>, N<C>)>(ctx, cs, "7-tuple"),
        30 => check::<_, (N<C>, N<C>, B<C>, N<C>, N<C>, N<C>, N<C>, N<C>, B<C>, N<C>, N<C>, N<C>)>(ctx, cs, "12-tuple"),
        20 => check::<_, SizedVec<N<C>, U8>>(ctx, cs, "vector of 8 numbers"),
        21 => check::<_, SizedVec<N<C>, U9>>(ctx, cs, "vector of 9 numbers"),
        22 => check::<_, SizedVec<B<C>, U12>>(ctx, cs, "vector of 12 booleans"),
        23 => check::<_, SizedVec<N<C>, U16>>(ctx, cs, "vector of 16 numbers"),
        24 => check::<_, SizedVec<(B<C>, N<C>), U33>>(ctx, cs, "vector of 33 pairs"),
        25 => check::<_, SizedVec<N<C>, U65>>(ctx, cs, "vector of 65 numbers"),
        0 => check::<_, (N<C>,)>(ctx, cs, "1-tuple"),
        1 => check::<_, B<C>>(ctx, cs, "boolean"),
        2 => check::<_, CEdwardsPoint<S<C>>>(ctx, cs, "edwards point"),
        3 => check::<_, CMontgomeryPoint<S<C>>>(ctx, cs, "montgomery point"),
        4 => check::<_, CMerkleProof<S<C>, U3>>(ctx, cs, "merkle proof"),
        5 => check::<_, CNote<S<C>>>(ctx, cs, "derived named struct"),
        6 => check::<_, COne<S<C>>>(ctx, cs, "derived struct of one field"),
        7 => check::<_, CPos3<S<C>>>(ctx, cs, "derived positional struct"),
        8 => check::<_, CPos1<S<C>>>(ctx, cs, "derived newtype"),
        9 => check::<_, CTx<S<C>, U2>>(ctx, cs, "nested struct"),
        10 => check::<_, SizedVec<N<C>, U1>>(ctx, cs, "vector of 1"),
        11 => check::<_, SizedVec<N<C>, U4>>(ctx, cs, "vector of 4 numbers"),
        12 => check::<_, SizedVec<SizedVec<B<C>, U2>, U3>>(ctx, cs, "vector of vectors"),
        13 => check::<_, (N<C>, B<C>)>(ctx, cs, "pair"),
        14 => check::<_, (B<C>, CNote<S<C>>, SizedVec<(N<C>, B<C>), U3>)>(ctx, cs, "nested triple"),
        15 => check::<_, SizedVec<CNote<S<C>>, U2>>(ctx, cs, "vector of structs"),
        16 => check::<_, (N<C>, N<C>, B<C>, N<C>)>(ctx, cs, "4-tuple"),
        17 => check::<_, (CPos1<S<C>>, N<C>, (N<C>, N<C>), B<C>, CEdwardsPoint<S<C>>)>(ctx, cs, "5-tuple"),
        18 => check::<_, (N<C>, B<C>, N<C>, B<C>, N<C>, N<C>, N<C>, B<C>)>(ctx, cs, "8-tuple"),
        _ => check::<_, (N<C>, N<C>, N<C>, B<C>, N<C>, N<C>, N<C>, B<C>, N<C>, N<C>, N<C>, N<C>, N<C>, N<C>, B<C>, N<C>, N<C>)>(ctx, cs, "17-tuple"),
    }
}

/// The container itself: histories of reads and writes against a plain vector.
fn vector_of<F: Field, L: Unsigned>(ctx: &mut Ctx) -> CaseResult {
    let n = L::USIZE;
    let mut rng = ctx.rng();
    let mut model: Vec<Z<F>> = (0..n).map(|_| rnd_z(&mut rng)).collect();
    let off = *ctx.pick(&[-1i64, 0, 0, 0, 1, 2]);
    if off != 0 {
        let m = (n as i64 + off).max(0) as usize;
        let bad = guard(|| (0..m).map(|i| Z::<F>::u(i as u64).n()).collect::<SizedVec<Num<F>, L>>());
        ensure!(m == n || bad.is_err(), "{} elements collected into a vector of {}", m, n);
        ctx.label("collect of another length");
    }
    let mut v: SizedVec<Num<F>, L> = model.iter().map(|x| x.n()).collect();
    let same = |v: &SizedVec<Num<F>, L>, model: &Vec<Z<F>>| v.0.len() == n && v.iter().zip(model).all(|(a, b)| Z(a.0) == *b) && v.iter().count() == n && v.iter().len() == n;
    ensure!(same(&v, &model), "collecting {} elements does not keep them in order", n);
    let steps = ctx.range(1, 12);
    for _ in 0..steps {
        let i = ctx.below(n as u64) as usize;
        let j = i + ctx.below((n - i) as u64 + 1) as usize;
        let x: Z<F> = gen_z(ctx);
        match ctx.below(9) {
            0 | 1 => {
                v[i] = x.n();
                model[i] = x;
            }
            2 => {
                v[i..j].iter_mut().for_each(|e| *e = x.n());
                model[i..j].iter_mut().for_each(|e| *e = x);
            }
            3 => {
                v[i..].reverse();
                model[i..].reverse();
            }
            4 => {
                for (k, e) in v.iter_mut().enumerate() {
                    *e = *e + Z::<F>::u(k as u64).n();
                }
                for (k, e) in model.iter_mut().enumerate() {
                    *e = *e + Z::u(k as u64);
                }
            }
            5 => {
                if let Some(e) = v.iter_mut().nth(i) {
                    *e = x.n();
                }
                model[i] = x;
            }
            6 => {
                let w = v.clone();
                v[0] = x.n();
                ensure!(same(&w, &model), "writing to a vector changed its copy");
                model[0] = x;
            }
            7 => {
                let past = n + ctx.below(3) as usize;
                ensure!(guard(|| v[past]).is_err(), "reading element {} of {}", past, n);
            }
            _ => {
                ensure!(Z(v[i].0) == model[i], "element {} of {} is not the one written", i, n);
                ensure!(v[i..j].iter().zip(&model[i..j]).all(|(a, b)| Z(a.0) == *b) && v[i..j].len() == j - i, "elements {}..{} of {}", i, j, n);
                ensure!(v[..j].len() == j && v[i..].len() == n - i && v[..].len() == n, "lengths of slices of a vector of {}", n);
            }
        }
        ensure!(same(&v, &model), "a write to a vector of {} did not change exactly the addressed elements", n);
    }
    if n > 1 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("vector of {}, {} steps", n, steps));
    Ok(())
}
fn c18_vector(ctx: &mut Ctx) -> CaseResult {
    fn go<C: Curve>(ctx: &mut Ctx) -> CaseResult {
        match ctx.below(8) {
            0 => vector_of::<C::Fr, U1>(ctx),
            1 => vector_of::<C::Fr, U2>(ctx),
            2 => vector_of::<C::Fr, U3>(ctx),
            3 => vector_of::<C::Fr, U8>(ctx),
            4 => vector_of::<C::Fr, U9>(ctx),
            5 => vector_of::<C::Fr, U16>(ctx),
            6 => vector_of::<C::Fr, U33>(ctx),
            _ => vector_of::<C::Fr, U65>(ctx),
        }
    }
    on_curve!(ctx, go)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        assumptions: vec!["own recording constraint system (reccs.rs)", "booleans handed to composites are 0/1"],
        subs: vec![Sub {
            name: "composite",
            rule: "31 composite types (derived named/positional/newtype/nested, tuples of 2..17, vectors of 1..65, library points and proofs), components variable or constant by mask, equal or differing in one or more components; alloc, from_const, as_const/get_value/linearize, switch, is_eq, assert_eq/assert_const, inputize, shape without values, forged-witness search; non-trivial: more than one component",
            f: c18,
            tape: 60,
            quick: 60000,
            thorough: 800000,
            shrink: 2000,
        },
        Sub {
            name: "vector",
            rule: "the fixed-length vector as a container (lengths 1..65): histories of element, slice and iterator reads and writes against a plain vector, collecting too few or too many elements; non-trivial: more than one element",
            f: c18_vector,
            tape: 80,
            quick: 4000,
            thorough: 200000,
            shrink: 2000,
        }],
    }]
}
