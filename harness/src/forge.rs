//! Search for a forged witness of a rank-1 constraint system.
//!
//! Given the constraints, the values of the variables that are fixed (the gadget's inputs)
//! and a goal on the outputs, looks for a complete assignment that satisfies every constraint
//! and meets the goal. Propagation (linear constraints with one unknown, quadratics in one
//! unknown), branching (two roots, A*B=0, bit decompositions incl. wrap-around by p) and seeded
//! guesses for free variables. A reported forgery is an explicit assignment re-checked against
//! all constraints from scratch; not finding one is not a proof.

use crate::reccs::{Con, Lc};
use crate::refmath::*;
use crate::tape::SplitMix;
use fawkes_crypto::core::field::Field;
use num::bigint::BigUint;
use num::{One, Zero};
use std::collections::HashMap;

pub struct Sys<F: Field> {
    pub nvars: usize,
    pub cons: Vec<Con<F>>,
}

pub fn check_all<F: Field>(sys: &Sys<F>, asg: &[Z<F>]) -> bool {
    let ev = |lc: &Lc<F>| lc.iter().fold(Z::zero(), |acc, (v, c)| acc + asg[*v] * *c);
    sys.cons.iter().all(|k| ev(&k.a) * ev(&k.b) == ev(&k.c))
}

struct Part<F: Field> {
    k: Z<F>,
    u: Vec<(usize, Z<F>)>,
}

enum Op<F: Field> {
    Set(Vec<(usize, Z<F>)>),
    /// linear form that must vanish
    Lin(Lc<F>),
}

enum Eval<F: Field> {
    Ok,
    Conflict,
    Assign(usize, Z<F>),
    /// sum = 0 with several unknowns
    Lin(Part<F>),
    Roots(usize, Vec<Z<F>>),
    Prod(Part<F>, Part<F>),
    Other(usize),
}

pub struct Outcome<F: Field> {
    pub forged: Option<Vec<Z<F>>>,
    /// complete satisfying assignments that did not meet the goal
    pub satisfying: u64,
    pub nodes: u64,
    pub exhausted: bool,
    /// some variable was given sampled values only
    pub guessed: bool,
}

pub struct Solver<'s, F: Field> {
    sys: &'s Sys<F>,
    honest: &'s [Option<Z<F>>],
    val: Vec<Option<Z<F>>>,
    trail: Vec<usize>,
    extra: Vec<Lc<F>>,
    occ: Vec<Vec<u32>>,
    /// distinct unassigned variables per constraint
    unk: Vec<u32>,
    boolish: Vec<bool>,
    pow2: HashMap<Vec<u64>, i64>,
    rng: SplitMix,
    dev: u64, // deviation probability in 1/16
    nodes: u64,
    budget: u64,
    satisfying: u64,
    p: BigUint,
    outvars: Vec<usize>,
    guessed: bool,
}

fn key<F: Field>(z: &Z<F>) -> Vec<u64> {
    z.0.into_repr().as_ref().to_vec()
}

impl<'s, F: Field> Solver<'s, F> {
    pub fn new(sys: &'s Sys<F>, fixed: &[(usize, Z<F>)], honest: &'s [Option<Z<F>>], outvars: Vec<usize>, seed: u64) -> Self {
        let mut occ = vec![vec![]; sys.nvars];
        for (i, c) in sys.cons.iter().enumerate() {
            for (v, _) in c.a.iter().chain(&c.b).chain(&c.c) {
                if occ[*v].last() != Some(&(i as u32)) {
                    occ[*v].push(i as u32);
                }
            }
        }
        let mut unk = vec![0u32; sys.cons.len()];
        for o in &occ {
            for i in o {
                unk[*i as usize] += 1;
            }
        }
        let mut pow2 = HashMap::new();
        let p = prime::<F>();
        let nb = p.bits() as i64;
        let half = Z::<F>::u(2).inv().unwrap();
        let (mut up, mut dn) = (Z::<F>::one(), Z::<F>::one());
        for k in 0..nb {
            pow2.entry(key(&up)).or_insert(k);
            if k > 0 {
                pow2.entry(key(&dn)).or_insert(-k);
            }
            up = up + up;
            dn = dn * half;
        }
        let mut s = Solver {
            sys,
            honest,
            val: vec![None; sys.nvars],
            trail: vec![],
            extra: vec![],
            occ,
            unk,
            boolish: vec![false; sys.nvars],
            pow2,
            rng: SplitMix(seed),
            dev: 16,
            nodes: 0,
            budget: 0,
            satisfying: 0,
            p,
            outvars,
            guessed: false,
        };
        s.assign(0, Z::one());
        for (v, x) in fixed {
            if s.val[*v].is_none() {
                s.assign(*v, *x);
            }
        }
        s.trail.clear();
        for i in 0..sys.cons.len() {
            if let Eval::Roots(v, r) = s.eval(i) {
                if r.len() == 2 && ((r[0].is_zero() && r[1] == Z::one()) || (r[1].is_zero() && r[0] == Z::one())) {
                    s.boolish[v] = true;
                }
            }
        }
        s
    }

    fn part(&self, lc: &Lc<F>) -> Part<F> {
        let mut k = Z::zero();
        let mut u: Vec<(usize, Z<F>)> = vec![];
        for (v, c) in lc {
            match self.val[*v] {
                Some(x) => k = k + x * *c,
                None => {
                    if let Some(e) = u.iter_mut().rev().take(4).find(|e| e.0 == *v) {
                        e.1 = e.1 + *c;
                    } else {
                        u.push((*v, *c));
                    }
                }
            }
        }
        if u.len() > 1 {
            u.sort_by_key(|e| e.0);
            let mut w: Vec<(usize, Z<F>)> = Vec::with_capacity(u.len());
            for (v, c) in u {
                match w.last_mut() {
                    Some(l) if l.0 == v => l.1 = l.1 + c,
                    _ => w.push((v, c)),
                }
            }
            u = w;
        }
        u.retain(|e| !e.1.is_zero());
        Part { k, u }
    }
    fn scale_sub(&self, s: Z<F>, x: Part<F>, y: Part<F>) -> Part<F> {
        // s*x - y
        let mut u: Vec<(usize, Z<F>)> = x.u.into_iter().map(|(v, c)| (v, c * s)).collect();
        u.extend(y.u.into_iter().map(|(v, c)| (v, -c)));
        u.sort_by_key(|e| e.0);
        let mut w: Vec<(usize, Z<F>)> = Vec::with_capacity(u.len());
        for (v, c) in u {
            match w.last_mut() {
                Some(l) if l.0 == v => l.1 = l.1 + c,
                _ => w.push((v, c)),
            }
        }
        w.retain(|e| !e.1.is_zero());
        Part { k: s * x.k - y.k, u: w }
    }
    fn eval_lin(&self, p: Part<F>) -> Eval<F> {
        match p.u.len() {
            0 => {
                if p.k.is_zero() {
                    Eval::Ok
                } else {
                    Eval::Conflict
                }
            }
            1 => Eval::Assign(p.u[0].0, -(p.k.div(p.u[0].1))),
            _ => Eval::Lin(p),
        }
    }
    fn eval(&self, i: usize) -> Eval<F> {
        if i >= self.sys.cons.len() {
            let p = self.part(&self.extra[i - self.sys.cons.len()]);
            return self.eval_lin(p);
        }
        let con = &self.sys.cons[i];
        let (a, b, c) = (self.part(&con.a), self.part(&con.b), self.part(&con.c));
        if a.u.is_empty() {
            let l = self.scale_sub(a.k, b, c);
            return self.eval_lin(l);
        }
        if b.u.is_empty() {
            let l = self.scale_sub(b.k, a, c);
            return self.eval_lin(l);
        }
        let x = a.u[0].0;
        if a.u.len() == 1 && b.u.len() == 1 && b.u[0].0 == x && (c.u.is_empty() || (c.u.len() == 1 && c.u[0].0 == x)) {
            let c1 = c.u.get(0).map(|e| e.1).unwrap_or(Z::zero());
            let (a1, b1) = (a.u[0].1, b.u[0].1);
            return match quad_roots(a1 * b1, a1 * b.k + b1 * a.k - c1, a.k * b.k - c.k) {
                None => Eval::Ok,
                Some(r) => match r.len() {
                    0 => Eval::Conflict,
                    1 => Eval::Assign(x, r[0]),
                    _ => Eval::Roots(x, r),
                },
            };
        }
        if c.u.is_empty() && c.k.is_zero() {
            return Eval::Prod(a, b);
        }
        Eval::Other(self.unk[i] as usize)
    }
    fn assign(&mut self, v: usize, x: Z<F>) {
        self.val[v] = Some(x);
        self.trail.push(v);
        for o in &self.occ[v] {
            self.unk[*o as usize] -= 1;
        }
    }
    fn undo(&mut self, t: usize, e: usize) {
        while self.trail.len() > t {
            let v = self.trail.pop().unwrap();
            self.val[v] = None;
            for o in &self.occ[v] {
                self.unk[*o as usize] += 1;
            }
        }
        self.extra.truncate(e);
    }
    /// false on conflict
    fn propagate(&mut self, mut queue: Vec<u32>) -> bool {
        let mut inq = vec![false; self.sys.cons.len() + self.extra.len()];
        for q in &queue {
            inq[*q as usize] = true;
        }
        while let Some(q) = queue.pop() {
            inq[q as usize] = false;
            // wide constraints are left to `branch`, which looks at everything
            if (q as usize) < self.unk.len() && self.unk[q as usize] > 4 {
                continue;
            }
            match self.eval(q as usize) {
                Eval::Conflict => return false,
                Eval::Assign(v, x) => {
                    self.assign(v, x);
                    for o in &self.occ[v] {
                        if !inq[*o as usize] {
                            inq[*o as usize] = true;
                            queue.push(*o);
                        }
                    }
                    for j in 0..self.extra.len() {
                        let o = self.sys.cons.len() + j;
                        if !inq[o] {
                            inq[o] = true;
                            queue.push(o as u32);
                        }
                    }
                }
                _ => {}
            }
        }
        true
    }
    /// All 0/1 solutions of a linear form whose unknowns are boolean with distinct power-of-two weights.
    fn bit_solutions(&self, p: &Part<F>) -> Option<Vec<Vec<(usize, Z<F>)>>> {
        if p.u.len() < 3 || !p.u.iter().all(|e| self.boolish[e.0]) {
            return None;
        }
        let c0 = p.u[0].1.inv()?;
        let mut ex: Vec<(i64, usize)> = vec![];
        for (v, c) in &p.u {
            ex.push((*self.pow2.get(&key(&(*c * c0)))?, *v));
        }
        ex.sort();
        if ex.windows(2).any(|w| w[0].0 == w[1].0) {
            return None;
        }
        let min = ex[0].0;
        // unit weight
        let unit = p.u.iter().find(|e| e.0 == ex[0].1).unwrap().1;
        let t = (-(p.k)).div(unit).big();
        let mut sum = BigUint::zero();
        for (e, _) in &ex {
            sum += BigUint::one() << (*e - min) as usize;
        }
        let mut out = vec![];
        let mut x = t;
        while x <= sum && out.len() < 5 {
            let bits = bits_le(&x, x.bits().max(1));
            let mut sol: Vec<(usize, Z<F>)> = vec![];
            let mut used = 0usize;
            for (e, v) in &ex {
                let b = bits.get((*e - min) as usize).copied().unwrap_or(false);
                if b {
                    used += 1;
                }
                sol.push((*v, if b { Z::one() } else { Z::zero() }));
            }
            if used == bits.iter().filter(|b| **b).count() {
                out.push(sol);
            }
            x += &self.p;
        }
        Some(out)
    }
    /// A wide form of boolean unknowns plus some others: choose all but one of the others at once,
    /// so that the remaining one absorbs the difference.
    fn bulk(&mut self, p: &Part<F>) -> Option<Vec<Op<F>>> {
        if p.u.len() < 6 {
            return None;
        }
        let free: Vec<usize> = p.u.iter().filter(|e| !self.boolish[e.0]).map(|e| e.0).collect();
        if free.is_empty() || free.len() > 3 {
            return None;
        }
        self.guessed = true;
        let pivot = free[self.rng.below(free.len() as u64) as usize];
        let rest: Vec<usize> = p.u.iter().map(|e| e.0).filter(|v| *v != pivot).collect();
        let mut ops = vec![];
        // the others first, the bits then follow from them
        if self.rng.below(2) == 0 {
            let hon = |v: usize| self.honest.get(v).copied().flatten();
            for neg in &[true, false] {
                let set: Vec<(usize, Z<F>)> = free.iter().filter_map(|v| hon(*v).map(|h| (*v, if *neg && *v == pivot { -h } else { h }))).collect();
                if !set.is_empty() {
                    ops.push(Op::Set(set));
                }
            }
        }
        for mode in 0..3 {
            let flip = rest[self.rng.below(rest.len() as u64) as usize];
            let mut set = vec![];
            for v in &rest {
                let h = self.honest.get(*v).copied().flatten().unwrap_or(Z::zero());
                let x = if self.boolish[*v] {
                    if (mode == 0 && *v == flip) || (mode == 1 && self.rng.below(2) == 0) {
                        Z::one() - h
                    } else {
                        h
                    }
                } else if mode == 2 {
                    h
                } else {
                    rnd_z(&mut self.rng)
                };
                set.push((*v, x));
            }
            ops.push(Op::Set(set));
        }
        Some(ops)
    }
    fn guess_values(&mut self, v: usize) -> Vec<Z<F>> {
        self.guessed = true;
        let mut g = vec![];
        let h = self.honest.get(v).copied().flatten();
        if self.boolish[v] {
            g.push(Z::zero());
            g.push(Z::one());
        } else {
            match self.rng.below(5) {
                0 => g.push(Z::zero()),
                1 => g.push(Z::one()),
                2 => {
                    if let Some(h) = h {
                        g.push(-h)
                    }
                }
                3 => {
                    if let Some(h) = h {
                        g.push(h + Z::one())
                    }
                }
                _ => {}
            }
            let r = rnd_z(&mut self.rng);
            g.push(r);
            if let Some(h) = h {
                g.push(h);
            }
        }
        g
    }
    fn deviates(&self, op: &Op<F>) -> bool {
        match op {
            Op::Set(s) => s.iter().any(|(v, x)| self.honest.get(*v).copied().flatten().map(|h| h != *x).unwrap_or(true)),
            Op::Lin(l) => {
                let mut acc = Z::zero();
                for (v, c) in l {
                    let x = match self.val[*v].or_else(|| self.honest.get(*v).copied().flatten()) {
                        Some(x) => x,
                        None => return true,
                    };
                    acc = acc + x * *c;
                }
                !acc.is_zero()
            }
        }
    }
    fn lin_of(p: &Part<F>) -> Lc<F> {
        let mut l = p.u.clone();
        l.push((0, p.k));
        l
    }
    /// The next branching, or None when nothing is left to decide.
    fn branch(&mut self) -> Option<Vec<Op<F>>> {
        let total = self.sys.cons.len() + self.extra.len();
        // score: lower is better
        let mut best: Option<(u32, Vec<Op<F>>)> = None;
        let mut tight: HashMap<usize, usize> = HashMap::new(); // var -> min unknowns of another pending constraint
        let mut roots: Vec<(usize, Vec<Z<F>>)> = vec![];
        let mut guess: Option<(usize, usize)> = None; // (unknowns, var)
        let better = |b: &Option<(u32, Vec<Op<F>>)>, s: u32| b.as_ref().map(|x| s < x.0).unwrap_or(true);
        for i in 0..total {
            if i < self.unk.len() && self.unk[i] == 0 {
                continue; // decided when its last variable was assigned
            }
            match self.eval(i) {
                Eval::Assign(v, x) => return Some(vec![Op::Set(vec![(v, x)])]),
                Eval::Conflict => return Some(vec![]),
                Eval::Lin(p) => {
                    let n = p.u.len();
                    if let Some(sols) = self.bit_solutions(&p) {
                        if better(&best, 0) {
                            best = Some((0, sols.into_iter().map(Op::Set).collect()));
                        }
                    } else if better(&best, 2) {
                        if let Some(ops) = self.bulk(&p) {
                            best = Some((2, ops));
                        }
                    }
                    for (v, _) in &p.u {
                        let e = tight.entry(*v).or_insert(n);
                        *e = (*e).min(n);
                        if !self.boolish[*v] && guess.map(|g| n < g.0).unwrap_or(true) {
                            guess = Some((n, *v));
                        }
                    }
                }
                Eval::Roots(v, r) => roots.push((v, r)),
                Eval::Prod(a, b) => {
                    let n = a.u.len().max(b.u.len());
                    let (la, lb) = (Self::lin_of(&a), Self::lin_of(&b));
                    let bits = a.u.len() > 2 && self.bit_solutions(&a).is_some() && self.bit_solutions(&b).is_some();
                    let small = a.u.len() == 1 && b.u.len() == 1;
                    let s = if bits { 1 } else if small { 3 } else { 6 + n.min(1000) as u32 };
                    let wide = if a.u.len() >= b.u.len() { &a } else { &b };
                    let bulk = if !bits && better(&best, 2) { self.bulk(wide) } else { None };
                    if let Some(ops) = bulk {
                        best = Some((2, ops));
                    } else if better(&best, s) {
                        best = Some((s, vec![Op::Lin(la), Op::Lin(lb)]));
                    }
                    for (v, _) in a.u.iter().chain(&b.u) {
                        let e = tight.entry(*v).or_insert(n);
                        *e = (*e).min(n);
                    }
                }
                Eval::Other(n) => {
                    if i < self.sys.cons.len() {
                        let con = &self.sys.cons[i];
                        let mut seen = vec![];
                        for (v, _) in con.a.iter().chain(&con.b).chain(&con.c) {
                            if self.val[*v].is_none() && !seen.contains(v) {
                                seen.push(*v);
                                if seen.len() > 8 {
                                    break;
                                }
                            }
                        }
                        for v in seen {
                            let e = tight.entry(v).or_insert(n);
                            *e = (*e).min(n);
                            if !self.boolish[v] && guess.map(|g| n < g.0).unwrap_or(true) {
                                guess = Some((n, v));
                            }
                        }
                    }
                }
                _ => {}
            }
            if let Some((0, _)) = best {
                break;
            }
        }
        for (v, r) in &roots {
            let s = if !self.boolish[*v] {
                2
            } else {
                match tight.get(v) {
                    Some(n) if *n <= 2 => 4,
                    Some(n) => 5 + (*n).min(1000) as u32,
                    None => 2000,
                }
            };
            if better(&best, s) {
                best = Some((s, r.iter().map(|x| Op::Set(vec![(*v, *x)])).collect()));
            }
        }
        if let Some((s, ops)) = best {
            if s < 2000 || guess.is_none() {
                // a product with many unknowns is worse than a guess on a nearly determined constraint
                if !(s > 8 && guess.map(|g| g.0 <= 2).unwrap_or(false)) {
                    return Some(ops);
                }
            }
        }
        if let Some((_, v)) = guess {
            let g = self.guess_values(v);
            return Some(g.into_iter().map(|x| Op::Set(vec![(v, x)])).collect());
        }
        // everything left is unconstrained
        let free: Vec<usize> = (0..self.sys.nvars).filter(|v| self.val[*v].is_none()).collect();
        if free.is_empty() {
            return None;
        }
        self.guessed = true;
        let mut set = vec![];
        for v in free {
            let x = if self.outvars.contains(&v) || self.rng.below(2) == 0 {
                rnd_z(&mut self.rng)
            } else {
                self.honest.get(v).copied().flatten().unwrap_or(Z::zero())
            };
            set.push((v, x));
        }
        Some(vec![Op::Set(set)])
    }
    /// Forced assignments in wide constraints, which `propagate` skips. false on conflict
    fn saturate(&mut self) -> bool {
        loop {
            let mut progress = false;
            for i in 0..self.sys.cons.len() + self.extra.len() {
                if i < self.unk.len() && self.unk[i] == 0 {
                    continue;
                }
                match self.eval(i) {
                    Eval::Conflict => return false,
                    Eval::Assign(v, x) => {
                        progress = true;
                        self.assign(v, x);
                        let mut q: Vec<u32> = self.occ[v].clone();
                        q.extend((0..self.extra.len()).map(|j| (self.sys.cons.len() + j) as u32));
                        if !self.propagate(q) {
                            return false;
                        }
                    }
                    _ => {}
                }
            }
            if !progress {
                return true;
            }
        }
    }
    fn dfs(&mut self, goal: &dyn Fn(&[Z<F>]) -> bool) -> Option<Vec<Z<F>>> {
        self.nodes += 1;
        if self.nodes > self.budget {
            return None;
        }
        if !self.saturate() {
            return None;
        }
        let mut ops = match self.branch() {
            None => {
                if self.val.iter().any(|x| x.is_none()) {
                    return None;
                }
                let full: Vec<Z<F>> = self.val.iter().map(|x| x.unwrap()).collect();
                if !check_all(self.sys, &full) {
                    return None;
                }
                self.satisfying += 1;
                return if goal(&full) { Some(full) } else { None };
            }
            Some(o) => o,
        };
        let devf = self.rng.below(16) < self.dev;
        ops.sort_by_key(|o| self.deviates(o) != devf);
        for op in ops {
            let (t, e) = (self.trail.len(), self.extra.len());
            let mut q: Vec<u32> = vec![];
            let mut okk = true;
            match op {
                Op::Set(s) => {
                    for (v, x) in s {
                        match self.val[v] {
                            Some(y) => {
                                if y != x {
                                    okk = false;
                                }
                            }
                            None => {
                                self.assign(v, x);
                                q.extend(self.occ[v].iter());
                            }
                        }
                    }
                }
                Op::Lin(l) => {
                    self.extra.push(l);
                }
            }
            for j in 0..self.extra.len() {
                q.push((self.sys.cons.len() + j) as u32);
            }
            q.sort();
            q.dedup();
            if okk && self.propagate(q) {
                if let Some(r) = self.dfs(goal) {
                    return Some(r);
                }
            }
            self.undo(t, e);
            if self.nodes > self.budget {
                return None;
            }
        }
        None
    }
    /// One attempt from the fixed values plus a partial assignment.
    pub fn attempt(&mut self, hint: &[(usize, Z<F>)], dev: u64, budget: u64, goal: &dyn Fn(&[Z<F>]) -> bool) -> Outcome<F> {
        self.dev = dev;
        self.nodes = 0;
        self.guessed = false;
        self.satisfying = 0;
        self.budget = budget;
        let mut ok = true;
        for (v, x) in hint {
            if let Some(y) = self.val[*v] {
                if y != *x {
                    ok = false;
                }
            } else {
                self.assign(*v, *x);
            }
        }
        let mut forged = None;
        if ok && self.propagate((0..self.sys.cons.len() as u32).rev().collect()) {
            forged = self.dfs(goal);
        }
        self.undo(0, 0);
        Outcome { forged, satisfying: self.satisfying, nodes: self.nodes, exhausted: self.nodes <= budget, guessed: self.guessed }
    }
}
