//! Random circuits: gadgets feeding each other over three pools of signals (numbers, booleans,
//! subgroup points), public inputs interleaved with everything else. Every plan is satisfiable
//! for every witness of the right kinds, and has an independent evaluation in plain field
//! arithmetic (`eval`), which also yields the public inputs.

use crate::gadgets::*;
use crate::native2::gen_pos;
use crate::refmath::*;
use crate::tape::{Ctx, SplitMix};
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Num,
    Bit,
    Pt,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    Aux,
    /// allocated directly as a public input
    Pub,
    /// allocated, then made public
    AuxPub,
    Const,
}

pub type R = (P, usize);

#[derive(Clone)]
pub enum Step<C: Curve> {
    Gad(G<C::Fr>, Vec<R>, Vec<P>),
    Lin(R, R, Z<C::Fr>, Z<C::Fr>, Z<C::Fr>),
    Div(R, R),
    BitsRound(Vec<R>),
    EqMul(R, R),
    Public(R),
}

#[derive(Clone)]
pub struct Plan<C: Curve> {
    pub ins: Vec<(P, W)>,
    pub steps: Vec<Step<C>>,
    pub witness: Vec<Z<C::Fr>>,
}

fn flat(p: P) -> usize {
    if p == P::Pt {
        2
    } else {
        1
    }
}

struct Pools<T: Clone> {
    num: Vec<T>,
    bit: Vec<T>,
    pt: Vec<[T; 2]>,
}
impl<T: Clone> Pools<T> {
    fn new() -> Self {
        Pools { num: vec![], bit: vec![], pt: vec![] }
    }
    fn get(&self, r: &R) -> Vec<T> {
        match r.0 {
            // numbers may also be read from booleans and coordinates
            P::Num => {
                let n = self.num.len();
                vec![self.num[r.1 % n].clone()]
            }
            P::Bit => {
                let n = self.bit.len();
                vec![self.bit[r.1 % n].clone()]
            }
            P::Pt => {
                let n = self.pt.len();
                self.pt[r.1 % n].to_vec()
            }
        }
    }
    fn put(&mut self, k: P, v: &[T]) {
        match k {
            P::Num => self.num.push(v[0].clone()),
            P::Bit => {
                self.bit.push(v[0].clone());
                self.num.push(v[0].clone());
            }
            P::Pt => {
                self.pt.push([v[0].clone(), v[1].clone()]);
                self.num.push(v[0].clone());
                self.num.push(v[1].clone());
            }
        }
    }
}

fn nonresidue<C: Curve>() -> Z<C::Fr> {
    (2u64..).map(Z::<C::Fr>::u).find(|x| x.sqrt().is_none()).unwrap()
}

impl<C: Curve> Plan<C> {
    fn gen_value(ctx: &mut Ctx, k: P) -> Vec<Z<C::Fr>> {
        match k {
            P::Num => vec![gen_z(ctx)],
            P::Bit => vec![Z::u(ctx.below(2))],
            P::Pt => {
                let p = gen_subgroup::<C>(ctx);
                vec![p.x, p.y]
            }
        }
    }
    /// up to `n` steps
    pub fn gen(ctx: &mut Ctx, n: usize) -> Self {
        Self::gen_with(ctx, n, true)
    }
    pub fn gen_with(ctx: &mut Ctx, n: usize, heavy: bool) -> Self {
        let mut ins = vec![(P::Num, W::Aux), (P::Bit, W::Aux), (P::Pt, W::Aux)];
        let extra = ctx.range(0, 6);
        for _ in 0..extra {
            ins.push((*ctx.pick(&[P::Num, P::Num, P::Bit, P::Pt]), W::Aux));
        }
        for i in ins.iter_mut() {
            i.1 = *ctx.pick(&[W::Aux, W::Aux, W::Pub, W::AuxPub, W::Const]);
        }
        let mut witness = vec![];
        for i in &ins {
            witness.extend(Self::gen_value(ctx, i.0));
        }
        let cheap_pos: Pos<C::Fr> = Arc::new(gen_pos::<C>(ctx, 2));
        let ns = ctx.range(1, n);
        let mut steps = vec![];
        for _ in 0..ns {
            let mut r = |ctx: &mut Ctx, p: P| -> R { (p, ctx.below(64) as usize) };
            let kind = ctx.below(if heavy { 24 } else { 20 });
            let s = match kind {
                0 => Step::Gad(G::Mul, vec![r(ctx, P::Num), r(ctx, P::Num)], vec![P::Num]),
                1 => Step::Gad(G::Square, vec![r(ctx, P::Num)], vec![P::Num]),
                2 => Step::Gad(G::IsZero, vec![r(ctx, P::Num)], vec![P::Bit]),
                3 => Step::Gad(G::IsEq, vec![r(ctx, P::Num), r(ctx, P::Num)], vec![P::Bit]),
                4 => Step::Gad(G::Switch, vec![r(ctx, P::Bit), r(ctx, P::Num), r(ctx, P::Num)], vec![P::Num]),
                5 => Step::Gad(G::BoolSwitch, vec![r(ctx, P::Bit), r(ctx, P::Bit), r(ctx, P::Bit)], vec![P::Bit]),
                6 => Step::Gad(G::BoolEq, vec![r(ctx, P::Bit), r(ctx, P::Bit)], vec![P::Bit]),
                7 => {
                    let mut g = ctx.rng();
                    let cols = 1 + g.below(2) as usize;
                    let t = (0..cols).map(|_| (0..8).map(|_| rnd_z(&mut g)).collect()).collect();
                    Step::Gad(G::Mux3(t), vec![r(ctx, P::Bit), r(ctx, P::Bit), r(ctx, P::Bit)], vec![P::Num; cols])
                }
                8 => {
                    let k = ctx.range(1, 7);
                    let c = Z::u(ctx.below(1 << k));
                    Step::Gad(G::Comp(c), (0..k).map(|_| r(ctx, P::Bit)).collect(), vec![P::Bit])
                }
                9 => {
                    let k = ctx.range(1, 8);
                    Step::BitsRound((0..k).map(|_| r(ctx, P::Bit)).collect())
                }
                10 => Step::Gad(G::EdAdd, vec![r(ctx, P::Pt), r(ctx, P::Pt)], vec![P::Pt]),
                11 => Step::Gad(G::EdDouble, vec![r(ctx, P::Pt)], vec![P::Pt]),
                12 => {
                    let k = ctx.range(1, cheap_pos.0.t);
                    Step::Gad(G::Poseidon(cheap_pos.clone()), (0..k).map(|_| r(ctx, P::Num)).collect(), vec![P::Num])
                }
                13 => {
                    let k = ctx.range(1, 4);
                    Step::Gad(G::MerkleTree(cheap_pos.clone()), (0..k).map(|_| r(ctx, P::Num)).collect(), vec![P::Num])
                }
                14 | 15 => {
                    let a = gen_z(ctx);
                    let b = gen_z(ctx);
                    let k = gen_z(ctx);
                    Step::Lin(r(ctx, P::Num), r(ctx, P::Num), a, b, k)
                }
                16 => Step::Div(r(ctx, P::Num), r(ctx, P::Num)),
                17 => Step::EqMul(r(ctx, P::Num), r(ctx, P::Num)),
                18 | 19 => Step::Public(r(ctx, P::Num)),
                20 => {
                    let k = ctx.range(1, 6);
                    let mut v = vec![r(ctx, P::Pt)];
                    v.extend((0..k).map(|_| r(ctx, P::Bit)));
                    Step::Gad(G::PointMul, v, vec![P::Pt])
                }
                21 => Step::Gad(G::AssertCurve, vec![r(ctx, P::Pt)], vec![]),
                22 => Step::Gad(G::AssertSubgroup, vec![r(ctx, P::Pt)], vec![]),
                _ => Step::Gad(G::MerkleProof(cheap_pos.clone(), 2), vec![r(ctx, P::Num), r(ctx, P::Num), r(ctx, P::Num), r(ctx, P::Bit), r(ctx, P::Bit)], vec![P::Num]),
            };
            steps.push(s);
        }
        Plan { ins, steps, witness }
    }
    /// other values for everything that is not a constant
    pub fn rewitness(&self, ctx: &mut Ctx) -> Vec<Z<C::Fr>> {
        let mut out = vec![];
        let mut k = 0;
        for (p, w) in &self.ins {
            let n = flat(*p);
            if *w == W::Const {
                out.extend_from_slice(&self.witness[k..k + n]);
            } else {
                out.extend(Self::gen_value(ctx, *p));
            }
            k += n;
        }
        out
    }
    /// synthesise; returns the values of the public inputs as the signals carry them
    pub fn synth<CS: ConstraintSystem<F = C::Fr>>(&self, cs: &CS, w: Option<&[Z<C::Fr>]>) -> Vec<Option<Num<C::Fr>>> {
        self.synth_all(cs, w).0
    }
    /// also squares a weighted sum of everything, so that no variable is left unconstrained
    /// (key generation refuses such circuits)
    pub fn synth_tied<CS: ConstraintSystem<F = C::Fr>>(&self, cs: &CS, w: Option<&[Z<C::Fr>]>) -> Vec<Option<Num<C::Fr>>> {
        let (p, nums) = self.synth_all(cs, w);
        let mut acc: CNum<CS> = CNum::from_const(cs, &Z::zero().n());
        let mut k: Z<C::Fr> = Z::u(0x9e37_79b9_7f4a_7c15);
        for s in &nums {
            acc = acc + s * k.n();
            k = k * Z::u(0xd1b5_4a32_d192_ed03) + Z::one();
        }
        acc.square();
        p
    }
    fn synth_all<'a, CS: ConstraintSystem<F = C::Fr>>(&self, cs: &'a CS, w: Option<&[Z<C::Fr>]>) -> (Vec<Option<Num<C::Fr>>>, Vec<CNum<'a, CS>>) {
        let mut pools = Pools::new();
        let mut publics = vec![];
        let mut at = 0;
        for (p, m) in &self.ins {
            let mut sig = vec![];
            for k in at..at + flat(*p) {
                let v = w.map(|w| w[k].n());
                let s = match m {
                    W::Const => CNum::from_const(cs, &self.witness[k].n()),
                    W::Pub => {
                        let i = cs.alloc_input(v);
                        publics.push(v);
                        CNum::from_var(cs, v, i)
                    }
                    _ => CNum::alloc(cs, v.as_ref()),
                };
                sig.push(s);
            }
            if *m == W::AuxPub {
                for s in &sig {
                    s.inputize();
                    publics.push(s.get_value());
                }
            }
            if *p == P::Bit {
                CBool(sig[0].clone()).assert();
            }
            at += flat(*p);
            pools.put(*p, &sig);
        }
        let nr = nonresidue::<C>();
        for st in &self.steps {
            match st {
                Step::Gad(g, ops, outs) => {
                    let i: Vec<CNum<CS>> = ops.iter().flat_map(|o| pools.get(o)).collect();
                    let o = apply::<C, CS>(g, &i);
                    let mut at = 0;
                    for p in outs {
                        pools.put(*p, &o[at..at + flat(*p)]);
                        at += flat(*p);
                    }
                }
                Step::Lin(a, b, x, y, k) => {
                    let (a, b) = (pools.get(a).remove(0), pools.get(b).remove(0));
                    let s = a * x.n() + b * y.n() + k.n();
                    pools.put(P::Num, &[s]);
                }
                Step::Div(a, b) => {
                    let (a, b) = (pools.get(a).remove(0), pools.get(b).remove(0));
                    let d = b.square() - nr.n();
                    pools.put(P::Num, &[a / d]);
                }
                Step::BitsRound(ops) => {
                    let i: Vec<CNum<CS>> = ops.iter().flat_map(|o| pools.get(o)).collect();
                    let s = apply::<C, CS>(&G::FromBits, &i);
                    let o = apply::<C, CS>(&G::IntoBits(i.len()), &s);
                    pools.put(P::Num, &s);
                    for b in o {
                        pools.put(P::Bit, &[b]);
                    }
                }
                Step::EqMul(a, b) => {
                    let (a, b) = (pools.get(a).remove(0), pools.get(b).remove(0));
                    let x = &a * &b;
                    let y = &b * &a;
                    x.assert_eq(&y);
                }
                Step::Public(a) => {
                    let a = pools.get(a).remove(0);
                    a.inputize();
                    publics.push(a.get_value());
                }
            }
        }
        (publics, pools.num)
    }
    /// the same computation in plain arithmetic: public inputs, then every pooled number
    pub fn eval(&self, w: &[Z<C::Fr>]) -> (Vec<Z<C::Fr>>, Vec<Z<C::Fr>>) {
        let mut pools: Pools<Z<C::Fr>> = Pools::new();
        let mut publics = vec![];
        let mut at = 0;
        for (p, m) in &self.ins {
            let src = if *m == W::Const { &self.witness[..] } else { w };
            let v = src[at..at + flat(*p)].to_vec();
            if *m == W::Pub || *m == W::AuxPub {
                publics.extend_from_slice(&v);
            }
            pools.put(*p, &v);
            at += flat(*p);
        }
        let nr = nonresidue::<C>();
        for st in &self.steps {
            match st {
                Step::Gad(g, ops, outs) => {
                    let i: Vec<Z<C::Fr>> = ops.iter().flat_map(|o| pools.get(o)).collect();
                    let o = match reference::<C>(g, &i) {
                        Expect::Out(o) => o,
                        Expect::Unsat(e) => panic!("plan not satisfiable: {}", e),
                    };
                    let mut at = 0;
                    for p in outs {
                        pools.put(*p, &o[at..at + flat(*p)]);
                        at += flat(*p);
                    }
                }
                Step::Lin(a, b, x, y, k) => {
                    let s = pools.get(a)[0] * *x + pools.get(b)[0] * *y + *k;
                    pools.put(P::Num, &[s]);
                }
                Step::Div(a, b) => {
                    let d = pools.get(b)[0].sq() - nr;
                    let s = pools.get(a)[0].div(d);
                    pools.put(P::Num, &[s]);
                }
                Step::BitsRound(ops) => {
                    let i: Vec<bool> = ops.iter().map(|o| pools.get(o)[0] == Z::one()).collect();
                    let s: BigUint = from_bits_le(&i);
                    pools.put(P::Num, &[Z::from_big(&s)]);
                    for b in i {
                        pools.put(P::Bit, &[Z::u(b as u64)]);
                    }
                }
                Step::EqMul(..) => {}
                Step::Public(a) => publics.push(pools.get(a)[0]),
            }
        }
        (publics, pools.num)
    }
    pub fn npublic(&self) -> usize {
        self.ins.iter().filter(|(_, w)| *w == W::Pub || *w == W::AuxPub).map(|(p, _)| flat(*p)).sum::<usize>() + self.steps.iter().filter(|s| matches!(s, Step::Public(_))).count()
    }
    pub fn show(&self) -> String {
        let st: Vec<String> = self
            .steps
            .iter()
            .map(|s| match s {
                Step::Gad(g, o, _) => format!("{} {}{:?}", g.name(), g.detail(), o),
                Step::Lin(a, b, x, y, k) => format!("lin{:?}*{}+{:?}*{}+{}", a, x.dec(), b, y.dec(), k.dec()),
                Step::Div(a, b) => format!("{:?}/({:?}^2-nr)", a, b),
                Step::BitsRound(o) => format!("bits{:?}", o),
                Step::EqMul(a, b) => format!("eqmul{:?}{:?}", a, b),
                Step::Public(a) => format!("public{:?}", a),
            })
            .collect();
        format!("{} circuit inputs {:?} witness {:?}: {}", C::NAME, self.ins, self.witness.iter().map(|x| x.dec()).collect::<Vec<_>>(), st.join("; "))
    }
}

thread_local! {
    static CURRENT: RefCell<Option<Rc<dyn Any>>> = RefCell::new(None);
}

/// The plan as a library `Circuit`; `Default` takes the plan set by `install` and no witness.
pub struct PlanCircuit<C: Curve> {
    pub plan: Rc<Plan<C>>,
    pub w: Option<Vec<Z<C::Fr>>>,
    pub c: PhantomData<C>,
}
pub fn install<C: Curve>(p: &Rc<Plan<C>>) {
    CURRENT.with(|c| *c.borrow_mut() = Some(p.clone() as Rc<dyn Any>));
}
impl<C: Curve> Default for PlanCircuit<C> {
    fn default() -> Self {
        let p = CURRENT.with(|c| c.borrow().clone()).expect("no plan installed");
        let plan = p.downcast::<Plan<C>>().expect("plan of another curve");
        PlanCircuit { plan, w: None, c: PhantomData }
    }
}
impl<C: Curve> Circuit for PlanCircuit<C> {
    type F = C::Fr;
    fn synthesize<CS: ConstraintSystem<F = Self::F>>(&self, cs: &CS) {
        self.plan.synth_tied(cs, self.w.as_deref());
    }
    fn get_inputs(&self) -> Option<Vec<Num<Self::F>>> {
        self.w.as_ref().map(|w| self.plan.eval(w).0.iter().map(|x| x.n()).collect())
    }
}
#[allow(dead_code)]
fn _unused(_: SplitMix) {}
