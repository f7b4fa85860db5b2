//! A recording constraint system: keeps every variable, value and constraint, and checks
//! at every `enforce` that cached signal values agree with the linear combinations.

use crate::refmath::Z;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use std::cell::RefCell;
use std::collections::BTreeMap;

const TOP: usize = usize::max_value() / 2;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// inputs and auxiliary variables numbered separately, as the proving backend does
    Split,
    /// one counter, everything an `Input`, as TestCS does
    Shared,
    /// auxiliary indices count down: a legal implementation with the opposite order
    Descending,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    One,
    Input,
    Aux,
}

pub type Lc<F> = Vec<(usize, Z<F>)>;

#[derive(Clone, Debug)]
pub struct Con<F: Field> {
    pub a: Lc<F>,
    pub b: Lc<F>,
    pub c: Lc<F>,
}

pub struct Rec<F: Field> {
    pub kinds: Vec<Kind>,
    pub vals: Vec<Option<Z<F>>>,
    pub cons: Vec<Con<F>>,
    /// value/linear-combination disagreements (always wrong)
    pub incoherent: Vec<String>,
    /// constraints not satisfied by the recorded variable values
    pub unsat: Vec<usize>,
    ins: Vec<usize>,
    auxs: Vec<usize>,
}

pub struct RecCS<F: Field> {
    pub r: RefCell<Rec<F>>,
    style: Style,
}

impl<F: Field> Clone for RecCS<F> {
    fn clone(&self) -> Self {
        panic!("constraint systems are not cloned")
    }
}

impl<F: Field> RecCS<F> {
    pub fn new(style: Style) -> Self {
        RecCS {
            r: RefCell::new(Rec {
                kinds: vec![Kind::One],
                vals: vec![Some(Z::one())],
                cons: vec![],
                incoherent: vec![],
                unsat: vec![],
                ins: vec![0],
                auxs: vec![],
            }),
            style,
        }
    }
    fn add(&self, kind: Kind, v: Option<Num<F>>) -> Index {
        let mut r = self.r.borrow_mut();
        let id = r.kinds.len();
        r.kinds.push(kind);
        r.vals.push(v.map(|x| Z(x.0)));
        match (self.style, kind) {
            (Style::Shared, _) | (_, Kind::Input) => {
                r.ins.push(id);
                Index::Input(r.ins.len() - 1)
            }
            (Style::Split, _) => {
                r.auxs.push(id);
                Index::Aux(r.auxs.len() - 1)
            }
            (Style::Descending, _) => {
                r.auxs.push(id);
                Index::Aux(TOP - r.auxs.len())
            }
        }
    }
    fn id(&self, r: &Rec<F>, k: &Index) -> usize {
        match k {
            Index::Input(i) => r.ins.get(*i),
            Index::Aux(i) if self.style == Style::Descending => r.auxs.get((TOP - 1).wrapping_sub(*i)),
            Index::Aux(i) => r.auxs.get(*i),
        }
        .copied()
        .unwrap_or(usize::max_value())
    }
    pub fn nvars(&self) -> usize {
        self.r.borrow().kinds.len()
    }
    pub fn ncons(&self) -> usize {
        self.r.borrow().cons.len()
    }
    pub fn lc_of<'a>(&self, s: &CNum<'a, Self>) -> Lc<F> {
        let r = self.r.borrow();
        s.lc.iter().map(|(k, v)| (self.id(&r, k), Z(v.0))).collect()
    }
    /// evaluate under the recorded values; None if a value is absent or the index unknown
    pub fn eval(&self, lc: &Lc<F>) -> Option<Z<F>> {
        let r = self.r.borrow();
        let mut acc = Z::zero();
        for (v, c) in lc {
            acc = acc + (*r.vals.get(*v)?)? * *c;
        }
        Some(acc)
    }
    pub fn coherent<'a>(&self, s: &CNum<'a, Self>) -> Result<(), String> {
        self.look(s).2
    }
    fn look<'a>(&self, s: &CNum<'a, Self>) -> (Lc<F>, Option<Z<F>>, Result<(), String>) {
        let lc = self.lc_of(s);
        if lc.iter().any(|(v, _)| *v == usize::max_value()) {
            return (lc, None, Err("linear combination mentions a variable that was never allocated".into()));
        }
        let e = self.eval(&lc);
        let r = match (e, s.value) {
            (Some(e), Some(v)) if e.0 != v.0 => Err(format!("signal value {} but its linear combination evaluates to {}", Z(v.0).dec(), e.dec())),
            (None, Some(v)) => Err(format!("signal has value {} although a variable it depends on has none", Z(v.0).dec())),
            _ => Ok(()),
        };
        (lc, e, r)
    }
    pub fn ok(&self) -> Result<(), String> {
        let r = self.r.borrow();
        if let Some(e) = r.incoherent.first() {
            return Err(e.clone());
        }
        if let Some(i) = r.unsat.first() {
            return Err(format!("constraint {} of {} is not satisfied by the honest witness", i, r.cons.len()));
        }
        Ok(())
    }
}

impl<F: Field> ConstraintSystem for RecCS<F> {
    type F = F;
    fn alloc(&self, v: Option<Num<F>>) -> Index {
        self.add(Kind::Aux, v)
    }
    fn alloc_input(&self, v: Option<Num<F>>) -> Index {
        self.add(Kind::Input, v)
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        let (la, ea, ra) = self.look(a);
        let (lb, eb, rb) = self.look(b);
        let (lc, ec, rc) = self.look(c);
        let bad = vec![ra, rb, rc].into_iter().filter_map(|x| x.err());
        let con = Con { a: la, b: lb, c: lc };
        let ev = (ea, eb, ec);
        let mut r = self.r.borrow_mut();
        r.incoherent.extend(bad);
        let id = r.cons.len();
        if let (Some(x), Some(y), Some(w)) = ev {
            if x * y != w {
                r.unsat.push(id);
            }
        }
        r.cons.push(con);
    }
}

pub fn norm<F: Field>(lc: &Lc<F>) -> BTreeMap<usize, Z<F>> {
    let mut m: BTreeMap<usize, Z<F>> = BTreeMap::new();
    for (v, c) in lc {
        let e = m.entry(*v).or_insert_with(Z::zero);
        *e = *e + *c;
    }
    m.into_iter().filter(|(_, c)| !c.is_zero()).collect()
}

/// Same variables and same constraints, up to the order of terms and zero coefficients.
pub fn same_shape<F: Field>(x: &Rec<F>, y: &Rec<F>) -> Result<(), String> {
    if x.kinds.len() != y.kinds.len() {
        return Err(format!("{} variables against {}", x.kinds.len(), y.kinds.len()));
    }
    if let Some(i) = (0..x.kinds.len()).find(|i| x.kinds[*i] != y.kinds[*i]) {
        return Err(format!("variable {} is {:?} against {:?}", i, x.kinds[i], y.kinds[i]));
    }
    if x.cons.len() != y.cons.len() {
        return Err(format!("{} constraints against {}", x.cons.len(), y.cons.len()));
    }
    for (i, (c, d)) in x.cons.iter().zip(&y.cons).enumerate() {
        if norm(&c.a) != norm(&d.a) || norm(&c.b) != norm(&d.b) || norm(&c.c) != norm(&d.c) {
            return Err(format!("constraint {} differs", i));
        }
    }
    Ok(())
}
