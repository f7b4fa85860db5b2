#![allow(dead_code, unused_imports, unused_macros)]
// Shared scaffolding of the demonstrations: a constraint system that records what a circuit emits.
pub use fawkes_crypto::{
    circuit::{bitify::*, bool::CBool, ecc::*, eddsaposeidon::*, mux::*, num::*, poseidon::*},
    core::{cs::*, field::*, seedbox::SeedboxBlake2, signal::Signal, sizedvec::SizedVec},
    native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256, ecc::*, eddsaposeidon::*, num::Num, poseidon::*},
    num,
};
pub use pairing::bn256::{Bn256, Fq, Fr};
pub use rand::{Rng, SeedableRng, StdRng};
pub use std::cell::RefCell;
pub use std::panic::{catch_unwind, AssertUnwindSafe};

pub type N = Num<Fr>;

pub fn rng(seed: usize) -> StdRng {
    SeedableRng::from_seed(&[seed, 1, 2, 3][..])
}

/// Some(result), or None if it panicked
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}

pub type Lc<F> = Vec<(Index, Num<F>)>;

pub struct RecCS<F: Field> {
    pub inp: RefCell<Vec<Option<Num<F>>>>,
    pub aux: RefCell<Vec<Option<Num<F>>>>,
    pub cons: RefCell<Vec<[Lc<F>; 3]>>,
}

impl<F: Field> Clone for RecCS<F> {
    fn clone(&self) -> Self {
        panic!()
    }
}

impl<F: Field> RecCS<F> {
    pub fn new() -> Self {
        Self {
            inp: RefCell::new(vec![Some(Num::one())]),
            aux: RefCell::new(vec![]),
            cons: RefCell::new(vec![]),
        }
    }
    pub fn ncons(&self) -> usize {
        self.cons.borrow().len()
    }
    pub fn naux(&self) -> usize {
        self.aux.borrow().len()
    }
    pub fn values(&self) -> (Vec<Num<F>>, Vec<Num<F>>) {
        (
            self.inp.borrow().iter().map(|e| e.unwrap()).collect(),
            self.aux.borrow().iter().map(|e| e.unwrap()).collect(),
        )
    }
    pub fn honest(&self) -> bool {
        let (i, a) = self.values();
        self.satisfied(&i, &a)
    }
    pub fn satisfied(&self, inp: &[Num<F>], aux: &[Num<F>]) -> bool {
        self.cons
            .borrow()
            .iter()
            .all(|[a, b, c]| eval(a, inp, aux) * eval(b, inp, aux) == eval(c, inp, aux))
    }
}

pub fn eval<F: Field>(lc: &[(Index, Num<F>)], inp: &[Num<F>], aux: &[Num<F>]) -> Num<F> {
    let mut s = Num::zero();
    for (k, v) in lc {
        s += *v * match k {
            Index::Input(i) => inp[*i],
            Index::Aux(i) => aux[*i],
        };
    }
    s
}

pub fn lc_of<'a, F: Field>(s: &CNum<'a, RecCS<F>>) -> Lc<F> {
    s.lc.iter().cloned().collect()
}

impl<F: Field> ConstraintSystem for RecCS<F> {
    type F = F;
    fn alloc(&self, v: Option<Num<F>>) -> Index {
        let mut a = self.aux.borrow_mut();
        a.push(v);
        Index::Aux(a.len() - 1)
    }
    fn alloc_input(&self, v: Option<Num<F>>) -> Index {
        let mut a = self.inp.borrow_mut();
        a.push(v);
        Index::Input(a.len() - 1)
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        self.cons.borrow_mut().push([lc_of(a), lc_of(b), lc_of(c)]);
    }
}

pub fn modulus<F: Field>() -> num::BigUint {
    Into::<num::BigUint>::into(-Num::<F>::one()) + 1u32
}

/// Recomputes, in order, every variable that is not fixed from the constraints that define it.
pub fn resolve<F: Field>(cs: &RecCS<F>, inp: &[Num<F>], w: &mut Vec<Num<F>>, fixed: &mut Vec<bool>) {
    let cons = cs.cons.borrow().clone();
    let none = usize::max_value();
    for _ in 0..3 {
        for [ca, cb, cc] in cons.iter() {
            let unk = |l: &Lc<F>| -> Vec<(usize, Num<F>)> {
                l.iter()
                    .filter_map(|(k, v)| match k {
                        Index::Aux(j) if !fixed[*j] => Some((*j, *v)),
                        _ => None,
                    })
                    .collect()
            };
            let (ua, ub, uc) = (unk(ca), unk(cb), unk(cc));
            let ev = |l: &Lc<F>, skip: usize| {
                l.iter().fold(Num::<F>::zero(), |s, (k, v)| match k {
                    Index::Input(j) => s + *v * inp[*j],
                    Index::Aux(j) if *j == skip => s,
                    Index::Aux(j) => s + *v * w[*j],
                })
            };
            if ua.is_empty() && ub.is_empty() && uc.len() == 1 {
                let (j, k) = uc[0];
                let v = (ev(ca, none) * ev(cb, none) - ev(cc, j)) / k;
                w[j] = v;
                fixed[j] = true;
            } else if ua.len() == 1 && ub.is_empty() && uc.is_empty() && !ev(cb, none).is_zero() {
                let (j, k) = ua[0];
                let v = (ev(cc, none) / ev(cb, none) - ev(ca, j)) / k;
                w[j] = v;
                fixed[j] = true;
            } else if ua.is_empty() && ub.len() == 1 && uc.is_empty() && !ev(ca, none).is_zero() {
                let (j, k) = ub[0];
                let v = (ev(cc, none) / ev(ca, none) - ev(cb, j)) / k;
                w[j] = v;
                fixed[j] = true;
            } else if ua.len() == 1 && ub.len() == 1 && ua[0].0 == ub[0].0 && uc.len() <= 1 {
                // a free variable keeps its value
                fixed[ua[0].0] = true;
                if uc.len() == 1 && uc[0].0 != ua[0].0 {
                    let (j, k) = uc[0];
                    let v = (ev(ca, none) * ev(cb, none) - ev(cc, j)) / k;
                    w[j] = v;
                    fixed[j] = true;
                }
            } else if ua.len() == 1 && ub.is_empty() && uc.len() == 1 && ca.len() == 1 && cc.len() == 1 {
                // a zero test: inverse * value = product
                let v = ev(cb, none);
                let (i, r) = if v.is_zero() { (Num::one(), Num::zero()) } else { (v.inverse(), Num::one()) };
                w[ua[0].0] = i;
                w[uc[0].0] = r;
                fixed[ua[0].0] = true;
                fixed[uc[0].0] = true;
            }
        }
    }
}
