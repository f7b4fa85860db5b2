//! C09-C17 and C24: circuit signals and gadgets.

use crate::engine::{guard, Prop, Sub};
use crate::forge::{check_all, Solver, Sys};
use crate::gadgets::*;
use crate::reccs::*;
use crate::refmath::*;
use crate::tape::{CaseResult, Ctx, SplitMix};
use crate::{ensure, on_curve};
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::{ConstraintSystem, TestCS};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use std::collections::HashSet;

pub fn gen_style(ctx: &mut Ctx) -> Style {
    *ctx.pick(&[Style::Split, Style::Shared, Style::Descending])
}

// ------------------------------------------------------------------ completeness

/// The honest run: accepted with the specified outputs, or refused.
pub fn check_complete<C: Curve>(inst: &Inst<C>, style: Style) -> CaseResult {
    let cs = RecCS::<C::Fr>::new(style);
    let run = guard(|| {
        let i = make_inputs(inst, &cs, true);
        let o = apply::<C, _>(&inst.g, &i);
        let coh: Result<Vec<()>, String> = o.iter().map(|s| cs.coherent(s)).collect();
        let vals: Vec<Option<Z<C::Fr>>> = o.iter().map(|s| s.value.map(|v| Z(v.0))).collect();
        (coh, vals)
    });
    if let Some(e) = cs.r.borrow().incoherent.first() {
        return Err(format!("{}: {}", inst.show(), e));
    }
    match (&inst.expect, run) {
        (Expect::Out(_), Err(e)) => Err(format!("{}: honest witness refused: {}", inst.show(), e)),
        (Expect::Out(w), Ok((coh, vals))) => {
            coh.map_err(|e| format!("{}: output {}", inst.show(), e))?;
            cs.ok().map_err(|e| format!("{}: {}", inst.show(), e))?;
            ensure!(vals.len() == w.len(), "{}: {} outputs instead of {}", inst.show(), vals.len(), w.len());
            for (k, (g, w)) in vals.iter().zip(w).enumerate() {
                match g {
                    Some(g) => ensure!(g == w, "{}: output {} is {} instead of {}", inst.show(), k, g.dec(), w.dec()),
                    None => return Err(format!("{}: output {} has no value", inst.show(), k)),
                }
            }
            Ok(())
        }
        (Expect::Unsat(_), Err(_)) => Ok(()),
        (Expect::Unsat(why), Ok(_)) => {
            ensure!(cs.ok().is_err(), "{}: accepted although {}", inst.show(), why);
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ shape

pub fn check_shape<C: Curve>(inst: &Inst<C>, other: Option<&Inst<C>>, style: Style) -> CaseResult {
    let syn = |inst: &Inst<C>, with: bool| {
        let cs = RecCS::<C::Fr>::new(style);
        let r = guard(|| {
            let i = make_inputs(inst, &cs, with);
            let o = apply::<C, _>(&inst.g, &i);
            (o.iter().map(|s| norm(&cs.lc_of(s))).collect::<Vec<_>>(), o.iter().map(|s| s.value.is_some()).collect::<Vec<_>>())
        });
        (cs, r)
    };
    let (c0, r0) = syn(inst, false);
    let r0 = match r0 {
        Ok(r) => r,
        Err(e) => {
            // an assertion on constants is decided at synthesis time
            ensure!(inst.expect != Expect::Out(vec![]) && matches!(inst.expect, Expect::Unsat(_)), "{}: synthesis without values failed: {}", inst.show(), e);
            return Ok(());
        }
    };
    let mut runs = vec![inst];
    runs.extend(other);
    for x in runs {
        let (c1, r1) = syn(x, true);
        match r1 {
            Err(e) => ensure!(matches!(x.expect, Expect::Unsat(_)), "{}: synthesis with values failed: {}", x.show(), e),
            Ok(r1) => {
                same_shape(&c0.r.borrow(), &c1.r.borrow()).map_err(|e| format!("{}: synthesis without values and with values differ: {}", x.show(), e))?;
                ensure!(r0.0 == r1.0, "{}: output linear combinations depend on the values", x.show());
            }
        }
    }
    Ok(())
}

/// Other values for the same circuit: keep constants, change variable inputs to another valid case.
fn revalue<C: Curve>(ctx: &mut Ctx, inst: &Inst<C>) -> Option<Inst<C>> {
    // the coefficients of shared inputs follow the values
    if inst.modes.contains(&Mode::Shared) {
        return None;
    }
    let mut o = inst.clone();
    let bits_from = match &inst.g {
        G::Mul | G::Square | G::IsZero | G::IsEq | G::AssertZero | G::AssertEq | G::Poseidon(_) | G::PoseidonSalt(..) | G::MerkleTree(_) | G::AssertConst(_) | G::AssertNonzero => usize::max_value(),
        G::Switch => {
            for k in 0..3 {
                if inst.modes[k] != Mode::Const {
                    o.inputs[k] = if k == 0 { Z::u(ctx.below(2)) } else { gen_z(ctx) };
                }
            }
            o.expect = reference::<C>(&o.g, &o.inputs);
            return Some(o);
        }
        G::Mux3(_) | G::BoolSwitch | G::BoolEq | G::Comp(_) | G::FromBits => 0,
        G::PointMul => 2,
        G::MerkleProof(_, d) => 1 + d,
        _ => return None,
    };
    let mut r = ctx.rng();
    for k in 0..o.inputs.len() {
        if inst.modes[k] == Mode::Const {
            continue;
        }
        if k >= bits_from {
            o.inputs[k] = Z::u(r.below(2));
        } else if !matches!(inst.g, G::PointMul) {
            o.inputs[k] = match r.below(3) {
                0 => Z::zero(),
                1 => o.inputs[0],
                _ => rnd_z(&mut r),
            };
        }
    }
    if let G::PointMul = inst.g {
        if inst.modes[0] != Mode::Const && inst.modes[1] != Mode::Const {
            let p = gen_subgroup::<C>(ctx);
            o.inputs[0] = p.x;
            o.inputs[1] = p.y;
        }
    }
    o.expect = reference::<C>(&o.g, &o.inputs);
    Some(o)
}

// ------------------------------------------------------------------ soundness

/// Points whose formula-level doubling gives p, on or off the curve.
pub fn half_any<C: Curve>(p: &Pt<C::Fr>) -> Vec<Pt<C::Fr>> {
    let d = C::consts().d;
    let mut out = vec![];
    let vs = quad_roots(d * p.x, -Z::u(2), p.x).unwrap_or_default();
    for v in vs {
        let w = p.y * (Z::one() - d * v.sq());
        if let Some(s) = (w + v + v).sqrt() {
            for s in [s, -s].iter() {
                for x in quad_roots(Z::one(), -*s, v).unwrap_or_default() {
                    out.push(Pt { x, y: *s - x });
                }
            }
        }
    }
    out
}
/// Points that give p after `n` formula-level doublings, a few of them.
pub fn part_any<C: Curve>(p: &Pt<C::Fr>, n: usize, r: &mut SplitMix) -> Vec<Pt<C::Fr>> {
    let mut out = vec![*p];
    for _ in 0..n {
        let mut next: Vec<Pt<C::Fr>> = out.iter().flat_map(|q| half_any::<C>(q)).collect();
        while next.len() > 40 {
            let i = r.below(next.len() as u64) as usize;
            next.swap_remove(i);
        }
        out = next;
    }
    // keep a few, in a seeded order
    let mut pick = vec![];
    while !out.is_empty() && pick.len() < 4 {
        let i = r.below(out.len() as u64) as usize;
        pick.push(out.swap_remove(i));
    }
    pick
}

/// Candidate preimages under multiplication by 2^n for a target x (and y, when it is fixed).
fn preimages<C: Curve>(x: Z<C::Fr>, y: Option<Z<C::Fr>>, n: usize, r: &mut SplitMix) -> Vec<Pt<C::Fr>> {
    let c = C::consts();
    let i8 = mod_inv(&num::bigint::BigUint::from(1u32 << n), &c.l).unwrap();
    let mut ys: Vec<Z<C::Fr>> = y.into_iter().collect();
    if let Some(y) = c.y_for_x(x) {
        ys.push(y);
        ys.push(-y);
    }
    let mut out = vec![];
    if let Some(p) = c.decompress(x) {
        // honest one, and its torsion shifts (legitimately accepted)
        let q = c.mul_big(&p, &i8);
        out.push(q);
        out.push(c.add(&q, &c.tors[r.below(8) as usize]));
    }
    if let Some(y) = y {
        if let Some(xx) = c.x_for_y(y) {
            // subgroup point sharing only y
            let p = Pt { x: xx, y };
            if c.in_subgroup(&p) {
                out.push(c.mul_big(&p, &i8));
            }
        }
    }
    // unrelated points, on the curve and not
    out.push(c.add(&c.mulg(&num::bigint::BigUint::from(r.next())), &c.tors[r.below(8) as usize]));
    out.push(Pt { x: rnd_z(r), y: rnd_z(r) });
    ys.push(rnd_z(r));
    for y in ys {
        out.extend(part_any::<C>(&Pt { x, y }, n, r));
    }
    out
}

/// Where a gadget allocates the preimage of a point: found by running it on a known point
/// with the same input modes and matching values.
fn locate<C: Curve>(inst: &Inst<C>, probes: &[(Vec<Z<C::Fr>>, Vec<Pt<C::Fr>>)]) -> Option<Vec<(usize, usize)>> {
    let mut found: Option<Vec<HashSet<(usize, usize)>>> = None;
    for (inp, pre) in probes {
        let mut i2 = inst.clone();
        i2.inputs = inp.clone();
        let cs = RecCS::<C::Fr>::new(Style::Split);
        let n0 = guard(|| {
            let i = make_inputs(&i2, &cs, true);
            let n0 = cs.nvars();
            apply::<C, _>(&i2.g, &i);
            n0
        })
        .ok()?;
        let r = cs.r.borrow();
        let mut this = vec![];
        for p in pre {
            let xs: Vec<usize> = (n0..r.vals.len()).filter(|k| r.vals[*k] == Some(p.x)).collect();
            let ys: Vec<usize> = (n0..r.vals.len()).filter(|k| r.vals[*k] == Some(p.y)).collect();
            this.push(xs.iter().flat_map(|x| ys.iter().map(move |y| (*x, *y))).collect::<HashSet<_>>());
        }
        found = Some(match found {
            None => this,
            Some(f) => f.into_iter().zip(this).map(|(a, b)| a.intersection(&b).cloned().collect()).collect(),
        });
    }
    found?.into_iter().map(|s| s.into_iter().min()).collect()
}

fn loose<F: Field>(g: &G<F>) -> bool {
    match g {
        G::IntoBits(n) => *n >= prime::<F>().bits(),
        _ => false,
    }
}

pub struct SoundStats {
    pub nodes: u64,
    pub satisfying: u64,
    pub attempts: u64,
}

thread_local! {
    /// constraint left out of the system the search works on (only by `--power`)
    static DROP: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None);
}

/// How strong is the witness search? Leave out single constraints of each gadget and count how
/// often the search finds a forgery. Not part of any check.
pub fn power(family: &str, cases: u64, per: usize, seed: u64) {
    let f = match family {
        "arith" => Family::Arith,
        "bits" => Family::Bits,
        "ecc" => Family::Ecc,
        "hash" => Family::Hash,
        _ => Family::Sig,
    };
    let stats: std::sync::Mutex<std::collections::BTreeMap<String, (u64, u64, Vec<String>)>> = Default::default();
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= cases {
                    break;
                }
                let mut r = SplitMix(seed.wrapping_mul(1000003).wrapping_add(i));
                let tape: Vec<u64> = (0..200).map(|_| r.next()).collect();
                let run = |drop: Option<usize>| -> (CaseResult, String, usize) {
                    DROP.with(|d| d.set(drop));
                    let mut ctx = Ctx::new(&tape, true, false);
                    let inst = gen_family::<crate::refmath::Bn>(&mut ctx, f);
                    let n = {
                        let cs = RecCS::<<crate::refmath::Bn as Curve>::Fr>::new(Style::Split);
                        let _ = guard(|| {
                            let i = make_inputs(&inst, &cs, false);
                            apply::<crate::refmath::Bn, _>(&inst.g, &i);
                        });
                        cs.ncons()
                    };
                    let budget = 60;
                    let res = if inst.all_const() { Ok(()) } else { check_sound(&mut ctx, &inst, budget) };
                    DROP.with(|d| d.set(None));
                    (res, format!("{} | {}", inst.g.name(), inst.show().chars().take(160).collect::<String>()), n)
                };
                let (r0, name, n) = run(None);
                if r0.is_err() {
                    println!("!! forged without dropping: {}", name);
                }
                if n == 0 {
                    continue;
                }
                let pick: Vec<usize> = if n <= per { (0..n).collect() } else { (0..per).map(|_| r.below(n as u64) as usize).collect() };
                for k in pick {
                    let caught = run(Some(k)).0.is_err();
                    let mut st = stats.lock().unwrap();
                    let g = name.split(" | ").next().unwrap().to_string();
                    let e = st.entry(g).or_insert((0, 0, vec![]));
                    e.0 += 1;
                    if caught {
                        e.1 += 1;
                    } else if e.2.len() < 400 {
                        e.2.push(format!("constraint {} of {}: {}", k, n, name));
                    }
                }
            });
        }
    });
    for (g, (n, c, m)) in stats.lock().unwrap().iter() {
        println!("{:28} {:5} dropped {:5} detected", g, n, c);
        for x in m {
            println!("        missed {}", x);
        }
    }
}

/// Search for a witness that makes the gadget lie.
pub fn check_sound<C: Curve>(ctx: &mut Ctx, inst: &Inst<C>, budget: u64) -> CaseResult {
    let cs = RecCS::<C::Fr>::new(Style::Split);
    let built = guard(|| {
        let i = make_inputs(inst, &cs, false);
        let n0 = cs.nvars();
        let o = apply::<C, _>(&inst.g, &i);
        let lcs: Vec<Lc<C::Fr>> = o.iter().map(|s| cs.lc_of(s)).collect();
        (n0, lcs)
    });
    let (n0, outs) = match built {
        Ok(x) => x,
        Err(_) => {
            // decided at synthesis time; completeness checks whether rightly
            ctx.label("constant case");
            return Ok(());
        }
    };
    // honest (or attempted) values, for hints and for the input variables
    let hs = RecCS::<C::Fr>::new(Style::Split);
    let _ = guard(|| {
        let i = make_inputs(inst, &hs, true);
        apply::<C, _>(&inst.g, &i);
    });
    let hr = hs.r.borrow();
    let honest: Vec<Option<Z<C::Fr>>> = hr.vals.clone();
    if honest.len() < n0 {
        return Ok(());
    }
    let fixed: Vec<(usize, Z<C::Fr>)> = (1..n0).filter_map(|v| honest[v].map(|x| (v, x))).collect();
    let rec = cs.r.borrow();
    let mut sys = Sys { nvars: rec.kinds.len(), cons: rec.cons.clone() };
    if let Some(k) = DROP.with(|d| d.get()) {
        if k < sys.cons.len() {
            sys.cons.remove(k);
        }
    }
    let sys = sys;
    if sys.cons.iter().any(|k| k.a.iter().chain(&k.b).chain(&k.c).any(|t| t.0 >= sys.nvars)) {
        return Err(format!("{}: a constraint mentions an unknown variable", inst.show()));
    }
    let goal = |asg: &[Z<C::Fr>]| -> bool {
        match &inst.expect {
            Expect::Unsat(_) => true,
            // 2^n exceeds the field: the plain decomposition may also be that of value + p
            Expect::Out(w) if loose(&inst.g) => {
                let got: Vec<Z<C::Fr>> = outs.iter().map(|lc| lc.iter().fold(Z::zero(), |s, (v, c)| s + asg[*v] * *c)).collect();
                let bits: Vec<bool> = got.iter().map(|x| *x == Z::one()).collect();
                w.len() != got.len() || got.iter().any(|x| !x.is_zero() && *x != Z::one()) || Z::from_big(&from_bits_le(&bits)) != inst.inputs[0]
            }
            Expect::Out(w) => outs.iter().zip(w).any(|(lc, w)| lc.iter().fold(Z::zero(), |s, (v, c)| s + asg[*v] * *c) != *w),
        }
    };
    if let Expect::Out(w) = &inst.expect {
        ensure!(w.len() == outs.len(), "{}: {} outputs instead of {}", inst.show(), outs.len(), w.len());
    }
    let seed = ctx.u();
    let mut r = SplitMix(seed ^ 0x5bd1e995);
    // hints
    let mut hints: Vec<Vec<(usize, Z<C::Fr>)>> = vec![vec![]];
    let c = C::consts();
    let known = |k: u64, n: usize| {
        let p = c.mulg(&num::bigint::BigUint::from(k));
        (p, c.mul_big(&p, &mod_inv(&num::bigint::BigUint::from(1u32 << n), &c.l).unwrap()))
    };
    let mut located = true;
    match &inst.g {
        G::AssertSubgroup | G::Decompress if !inst.all_const() || matches!(inst.g, G::AssertSubgroup | G::Decompress) => {
            let one = matches!(inst.g, G::Decompress);
            let probe = |n: usize| {
                let probes: Vec<_> = [5u64, 77]
                    .iter()
                    .map(|k| {
                        let (p, q) = known(*k, n);
                        (if one { vec![p.x] } else { vec![p.x, p.y] }, vec![q])
                    })
                    .collect();
                locate::<C>(inst, &probes).map(|w| (w, n))
            };
            match [3, 2, 1, 4, 0].iter().filter_map(|n| probe(*n)).next() {
                Some((w, n)) => {
                    let (vx, vy) = w[0];
                    for q in preimages::<C>(inst.inputs[0], if one { None } else { Some(inst.inputs[1]) }, n, &mut r) {
                        hints.push(vec![(vx, q.x), (vy, q.y)]);
                    }
                }
                None => located = false,
            }
        }
        G::Eddsa | G::EddsaWith(_) => {
            let probe = |n: usize| {
                let probes: Vec<_> = [(5u64, 9u64), (77, 13)]
                    .iter()
                    .map(|(k, l)| {
                        let ((a, qa), (b, qb)) = (known(*k, n), known(*l, n));
                        (vec![Z::u(3), b.x, a.x, Z::u(11)], vec![qa, qb])
                    })
                    .collect();
                locate::<C>(inst, &probes).map(|w| (w, n))
            };
            match [3, 2, 1, 4, 0].iter().filter_map(|n| probe(*n)).next() {
                Some((w, n)) => {
                    hints.clear();
                    let pa = preimages::<C>(inst.inputs[2], None, n, &mut r);
                    let pr = preimages::<C>(inst.inputs[1], None, n, &mut r);
                    let mk = |a: &Pt<C::Fr>, b: &Pt<C::Fr>| vec![(w[0].0, a.x), (w[0].1, a.y), (w[1].0, b.x), (w[1].1, b.y)];
                    if !pa.is_empty() && !pr.is_empty() {
                        hints.push(mk(&pa[0], &pr[0]));
                        for _ in 0..3 {
                            let a = &pa[r.below(pa.len() as u64) as usize];
                            let b = &pr[r.below(pr.len() as u64) as usize];
                            hints.push(mk(a, b));
                        }
                    }
                }
                None => located = false,
            }
        }
        _ => {}
    }
    if !located {
        ctx.label("preimage variables not located");
    }
    let mut outvars: Vec<usize> = outs.iter().flat_map(|l| l.iter().map(|t| t.0)).collect();
    outvars.sort();
    outvars.dedup();
    let mut solver = Solver::new(&sys, &fixed, &honest, outvars, seed);
    let (mut nodes, mut sat, mut done) = (0, 0, false);
    for (k, h) in hints.iter().enumerate() {
        for dev in [16u64, 8, 1].iter() {
            if k > 0 && *dev == 1 {
                continue;
            }
            let out = solver.attempt(h, *dev, budget, &goal);
            nodes += out.nodes;
            sat += out.satisfying;
            if let Some(w) = out.forged {
                // re-check from scratch before reporting
                let fixed_ok = fixed.iter().all(|(v, x)| w[*v] == *x) && w[0] == Z::one();
                if fixed_ok && check_all(&sys, &w) && goal(&w) {
                    let got: Vec<String> = outs.iter().map(|lc| lc.iter().fold(Z::zero(), |s, (v, c)| s + w[*v] * *c).dec()).collect();
                    let want = match &inst.expect {
                        Expect::Out(w) => format!("{:?}", w.iter().map(|x| x.dec()).collect::<Vec<_>>()),
                        Expect::Unsat(why) => format!("no witness ({})", why),
                    };
                    let diff: Vec<String> = (n0..w.len()).filter(|v| honest.get(*v).copied().flatten() != Some(w[*v])).take(6).map(|v| format!("v{}={}", v, w[v].dec())).collect();
                    return Err(format!("{}: forged witness accepted: outputs {:?}, specified {}; differs from the honest run in {}", inst.show(), got, want, diff.join(" ")));
                }
            }
            if out.exhausted && !out.guessed {
                // the whole space below this hint has been seen
                done = h.is_empty();
                break;
            }
        }
        if done {
            break;
        }
    }
    ctx.label(if done {
        "search space exhausted"
    } else if sat > 0 {
        "alternative witnesses found, all honest outputs"
    } else {
        "searched, no witness"
    });
    let _ = SoundStats { nodes, satisfying: sat, attempts: hints.len() as u64 };
    Ok(())
}

// ------------------------------------------------------------------ property drivers

fn complete_f<C: Curve>(ctx: &mut Ctx, f: Family) -> CaseResult {
    let inst = gen_family::<C>(ctx, f);
    let style = gen_style(ctx);
    note_inst(ctx, &inst);
    check_complete(&inst, style)
}
fn sound_f<C: Curve>(ctx: &mut Ctx, f: Family) -> CaseResult {
    let inst = gen_family::<C>(ctx, f);
    note_inst(ctx, &inst);
    let budget = if ctx.thorough { 400 } else { 60 };
    check_sound(ctx, &inst, budget)
}
fn shape_f<C: Curve>(ctx: &mut Ctx, f: Family) -> CaseResult {
    let inst = gen_family::<C>(ctx, f);
    let style = gen_style(ctx);
    note_inst(ctx, &inst);
    let other = revalue(ctx, &inst);
    check_shape(&inst, other.as_ref(), style)
}
pub fn note_inst<C: Curve>(ctx: &mut Ctx, inst: &Inst<C>) {
    ctx.label(inst.g.name());
    if !inst.class.is_empty() && !matches!(inst.g, G::Poseidon(_) | G::PoseidonSalt(..) | G::MerkleTree(_)) {
        ctx.label(format!("{}: {}", inst.g.name(), inst.class));
    }
    if !inst.all_const() {
        ctx.nontrivial();
    }
    ctx.note(|| inst.show());
}
macro_rules! fam {
    ($n:ident, $w:ident, $f:expr) => {
        fn $n(ctx: &mut Ctx) -> CaseResult {
            on_curve!(ctx, $w, $f)
        }
    };
}
fam!(arith_complete, complete_f, Family::Arith);
fam!(arith_sound, sound_f, Family::Arith);
fam!(arith_shape, shape_f, Family::Arith);
fam!(bits_complete, complete_f, Family::Bits);
fam!(bits_sound, sound_f, Family::Bits);
fam!(bits_shape, shape_f, Family::Bits);
fam!(ecc_complete, complete_f, Family::Ecc);
fam!(ecc_sound, sound_f, Family::Ecc);
fam!(ecc_shape, shape_f, Family::Ecc);
fam!(hash_complete, complete_f, Family::Hash);
fam!(hash_sound, sound_f, Family::Hash);
fam!(hash_shape, shape_f, Family::Hash);
fam!(sig_complete, complete_f, Family::Sig);
fam!(sig_sound, sound_f, Family::Sig);
fam!(sig_shape, shape_f, Family::Sig);

// decompression and subgroup assertion deserve their own soundness budget
fn preimage_sound(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, preimage_sound_f)
}
fn preimage_sound_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let k = 4 + ctx.below(2);
    let inst = gen_ecc_kind::<C>(ctx, k);
    note_inst(ctx, &inst);
    check_sound(ctx, &inst, if ctx.thorough { 200 } else { 40 })
}
fn fromscalar_sound(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, fromscalar_sound_f)
}
fn fromscalar_sound_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let inst = gen_ecc_kind::<C>(ctx, 13);
    note_inst(ctx, &inst);
    check_sound(ctx, &inst, if ctx.thorough { 400 } else { 80 })
}

// ------------------------------------------------------------------ C09 / C10 programs

/// One step of a signal program.
struct Reg<'a, CS: ConstraintSystem> {
    s: CNum<'a, CS>,
    v: Z<CS::F>,
}

fn program<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let style = gen_style(ctx);
    let cs = RecCS::<C::Fr>::new(style);
    let with = !ctx.chance(1, 8);
    let mut regs: Vec<Reg<RecCS<C::Fr>>> = vec![];
    let n0 = ctx.range(2, 5);
    for _ in 0..n0 {
        let v = gen_z::<C::Fr>(ctx);
        let s = match ctx.below(4) {
            0 => CNum::from_const(&cs, &v.n()),
            1 if ctx.bool() => {
                let idx = cs.alloc_input(if with { Some(v.n()) } else { None });
                CNum::from_var(&cs, if with { Some(v.n()) } else { None }, idx)
            }
            _ => {
                let nv = v.n();
                CNum::alloc(&cs, if with { Some(&nv) } else { None })
            }
        };
        regs.push(Reg { s, v });
    }
    let steps = ctx.range(1, 30);
    let mut prog: Vec<String> = vec![];
    if ctx.chance(1, 12) {
        // a combination of many variables, added in an arbitrary order
        let n = ctx.range(20, 160);
        let mut rr = ctx.rng();
        let mut xs: Vec<(CNum<RecCS<C::Fr>>, Z<C::Fr>)> = vec![];
        for _ in 0..n {
            let v = rnd_z::<C::Fr>(&mut rr);
            let nv = v.n();
            xs.push((CNum::alloc(&cs, if with { Some(&nv) } else { None }), v));
        }
        for _ in 0..2 {
            let mut s = CNum::from_const(&cs, &fawkes_crypto::native::num::Num::zero());
            let mut v = Z::zero();
            for _ in 0..n {
                let (x, y) = &xs[rr.below(n as u64) as usize];
                let k = rnd_z::<C::Fr>(&mut rr);
                if rr.below(2) == 0 {
                    s += x * k.n();
                    v = v + *y * k;
                } else {
                    s -= k.n() * x;
                    v = v - *y * k;
                }
            }
            cs.coherent(&s).map_err(|e| format!("{} after a combination of {} variables", e, n))?;
            ensure!(!with || s.get_value().map(|g| g.0 == v.0).unwrap_or(false), "value of a combination of {} variables is wrong", n);
            regs.push(Reg { s, v });
        }
        prog.push(format!("r{},r{}=combinations of {} variables", n0, n0 + 1, n));
        ctx.label("wide");
    }
    let mut nonlinear = 0;
    for _ in 0..steps {
        let i = ctx.below(regs.len() as u64) as usize;
        let j = ctx.below(regs.len() as u64) as usize;
        let k = ctx.below(regs.len() as u64) as usize;
        let op = ctx.below(20);
        let form = ctx.below(6);
        let kz = gen_z::<C::Fr>(ctx);
        let kn = kz.n();
        let (a, b) = (regs[i].s.clone(), regs[j].s.clone());
        let (va, vb) = (regs[i].v, regs[j].v);
        let (ca, cb) = (is_const(&cs, &a), is_const(&cs, &b));
        let (vars0, cons0) = (cs.nvars(), cs.ncons());
        // (result, value, max new vars, max new constraints, exact?)
        macro_rules! forms2 {
            ($op:tt, $opa:tt) => {
                match form {
                    0 => a.clone() $op b.clone(),
                    1 => &a $op b.clone(),
                    2 => a.clone() $op &b,
                    3 => &a $op &b,
                    4 => { let mut t = a.clone(); t $opa b.clone(); t }
                    _ => { let mut t = a.clone(); t $opa &b; t }
                }
            };
        }
        macro_rules! formsk {
            ($op:tt, $opa:tt) => {
                match form {
                    0 => a.clone() $op kn,
                    1 => &a $op kn,
                    2 => a.clone() $op &kn,
                    3 => &a $op &kn,
                    4 => { let mut t = a.clone(); t $opa kn; t }
                    _ => { let mut t = a.clone(); t $opa &kn; t }
                }
            };
        }
        let free = (0usize, 0usize, true);
        let (name, r, v, cost) = match op {
            0 | 1 => ("add", forms2!(+, +=), va + vb, free),
            2 | 3 => ("sub", forms2!(-, -=), va - vb, free),
            4 | 5 => {
                let lin = ca || cb;
                if !lin {
                    nonlinear += 1;
                }
                ("mul", forms2!(*, *=), va * vb, if lin { free } else { (1, 1, true) })
            }
            6 | 7 => {
                if vb.is_zero() {
                    continue;
                }
                let cost = if cb { free } else { (1, 1, !ca) };
                if !cb {
                    nonlinear += 1;
                }
                ("div", forms2!(/, /=), va.div(vb), cost)
            }
            8 => ("addk", formsk!(+, +=), va + kz, free),
            9 => ("subk", formsk!(-, -=), va - kz, free),
            10 => ("mulk", formsk!(*, *=), va * kz, free),
            11 => {
                if kz.is_zero() {
                    continue;
                }
                ("divk", formsk!(/, /=), va.div(kz), free)
            }
            12 => (
                "k+",
                match form {
                    0 => kn + a.clone(),
                    1 => kn + &a,
                    2 => &kn + a.clone(),
                    _ => &kn + &a,
                },
                kz + va,
                free,
            ),
            13 => (
                "k-",
                match form {
                    0 => kn - a.clone(),
                    1 => kn - &a,
                    2 => &kn - a.clone(),
                    _ => &kn - &a,
                },
                kz - va,
                free,
            ),
            14 => (
                "k*",
                match form {
                    0 => kn * a.clone(),
                    1 => kn * &a,
                    2 => &kn * a.clone(),
                    _ => &kn * &a,
                },
                kz * va,
                free,
            ),
            15 => ("neg", if form % 2 == 0 { -a.clone() } else { -&a }, -va, free),
            16 => ("square", a.square(), va * va, if ca { free } else { (1, 1, true) }),
            17 | 18 => {
                // select with a boolean register or a fresh/constant bit
                let bitv = ctx.bool();
                let bz = if bitv { Z::<C::Fr>::one() } else { Z::zero() };
                let cbit = ctx.bool();
                let bs: CBool<RecCS<C::Fr>> = if cbit {
                    let k: CBool<RecCS<C::Fr>> = match (form % 3, bitv) {
                        (0, true) => CBool::c_true(&cs),
                        (0, false) => CBool::c_false(&cs),
                        _ => CBool::from_const(&cs, &bitv),
                    };
                    ensure!(k.as_const() == Some(bitv) && k.get_value() == Some(bitv), "the constant bit {} is not {}", bitv, bitv);
                    k
                } else {
                    let nv = bz.n();
                    CBool(CNum::alloc(&cs, if with { Some(&nv) } else { None }))
                };
                let (v0, c0) = (cs.nvars(), cs.ncons());
                let r = if form % 2 == 0 { a.switch(&bs, &b) } else { bs.if_else(&a, &b) };
                let dv = (cs.nvars() - v0, cs.ncons() - c0);
                let lin = cbit || is_const(&cs, &(&a - &b));
                ensure!(if lin { dv == (0, 0) } else { dv.0 <= 1 && dv.1 <= 1 }, "selection costs {} variables and {} constraints (program {})", dv.0, dv.1, prog.join(";"));
                regs.push(Reg { s: bs.0.clone(), v: bz });
                prog.push(format!("r{}=sel(r{},r{})", regs.len(), i, j));
                (if cbit { "selc" } else { "sel" }, r, if bitv { va } else { vb }, (usize::max_value(), usize::max_value(), false))
            }
            _ => {
                // cancellation: (a + b) - a, built so that variables meet and vanish
                (if form % 2 == 0 { "cancel" } else { "cancel2" }, if form % 2 == 0 { (&a + &b) - &a } else { (&a - &b) + &b }, if form % 2 == 0 { vb } else { va }, free)
            }
        };
        prog.push(format!("r{}={}(r{},r{},{})#{}", regs.len(), name, i, j, kz.dec(), form));
        let (dv, dc) = (cs.nvars() - vars0, cs.ncons() - cons0);
        if cost.0 != usize::max_value() {
            let okc = if cost.2 { dv == cost.0 && dc == cost.1 } else { dv <= cost.0 && dc <= cost.1 };
            ensure!(okc, "{} allocates {} variables and {} constraints (operands constant: {} {}) in program {}", name, dv, dc, ca, cb, prog.join(";"));
        }
        cs.coherent(&r).map_err(|e| format!("{} after {}", e, prog.join(";")))?;
        if with {
            match r.get_value() {
                Some(g) => ensure!(g.0 == v.0, "value {} instead of {} after {}", Z(g.0).dec(), v.dec(), prog.join(";")),
                None => return Err(format!("value lost after {}", prog.join(";"))),
            }
        }
        check_const(&cs, &r, with, &prog)?;
        let dest = if ctx.bool() && regs.len() > 6 { k } else { regs.len() };
        if dest < regs.len() {
            regs[dest] = Reg { s: r, v };
        } else {
            regs.push(Reg { s: r, v });
        }
    }
    cs.ok().map_err(|e| format!("{} after {}", e, prog.join(";")))?;
    if nonlinear > 0 {
        ctx.nontrivial();
    }
    ctx.label(if with { "with values" } else { "without values" });
    ctx.note(|| format!("{} {:?} {}", C::NAME, style, prog.join(";")));
    Ok(())
}
fn is_const<F: Field>(cs: &RecCS<F>, s: &CNum<RecCS<F>>) -> bool {
    norm(&cs.lc_of(s)).keys().all(|k| *k == 0)
}
fn check_const<F: Field>(cs: &RecCS<F>, s: &CNum<RecCS<F>>, with: bool, prog: &[String]) -> CaseResult {
    let n = norm(&cs.lc_of(s));
    let want = if n.keys().all(|k| *k == 0) { Some(n.get(&0).copied().unwrap_or(Z::zero())) } else { None };
    let got = s.as_const().map(|x| Z(x.0));
    ensure!(got == want, "as_const is {:?} instead of {:?} after {}", got.map(|x| x.dec()), want.map(|x| x.dec()), prog.join(";"));
    if let Some(w) = want {
        // without values, a signal that became constant by cancellation may lack its value
        ensure!(s.get_value().map(|x| x.0 == w.0).unwrap_or(!with), "constant {} without its value after {}", w.dec(), prog.join(";"));
    }
    Ok(())
}
fn c09_program(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, program)
}

/// Constraint counts of the documented gadgets.
fn c10_costs(ctx: &mut Ctx) -> CaseResult {
    use fawkes_crypto::circuit::bitify::c_into_bits_le_strict;
    use fawkes_crypto::circuit::ecc::CEdwardsPoint;
    use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
    use fawkes_crypto::circuit::poseidon::*;
    use fawkes_crypto::core::sizedvec::SizedVec;
    use fawkes_crypto::native::poseidon::PoseidonParams;
    use typenum::U32;
    type F = <Bn as Curve>::Fr;
    let cs = RecCS::<F>::new(gen_style(ctx));
    let j = Bn::params();
    let c = Bn::consts();
    let with = ctx.bool();
    let p = c.mulg(&gen_below(ctx, &c.l));
    let num = |ctx: &mut Ctx| {
        let v = gen_z::<F>(ctx).n();
        CNum::alloc(&cs, if with { Some(&v) } else { None })
    };
    let ep = p.e();
    let pt = CEdwardsPoint::alloc(&cs, if with { Some(&ep) } else { None });
    let which = ctx.below(6);
    ctx.nontrivial();
    let (name, limit, got) = match which {
        0 => {
            let n = ctx.range(1, 4);
            let i: Vec<_> = (0..n).map(|_| num(ctx)).collect();
            let n0 = cs.ncons();
            c_poseidon(&i, &Bn::pos4().0);
            ("poseidon(4,8,54)", 255 + 3 * n - 9, cs.ncons() - n0)
        }
        1 => {
            let n0 = cs.ncons();
            if ctx.bool() {
                pt.assert_in_subgroup(j);
                ("on-curve and subgroup check of both coordinates", 20, cs.ncons() - n0)
            } else {
                let x = pt.x.clone();
                CEdwardsPoint::subgroup_decompress(&x, j);
                ("on-curve and subgroup check from x", 19, cs.ncons() - n0)
            }
        }
        2 | 3 => {
            let n = num(ctx);
            let bits = c_into_bits_le_strict(&n);
            let n0 = cs.ncons();
            if which == 2 {
                let q = CEdwardsPoint::from_const(&cs, &(if p == c.id() { c.g } else { p }).e());
                q.mul(&bits, j);
                ("constant-base multiplication by 254 bits", 513, cs.ncons() - n0)
            } else {
                pt.mul(&bits, j);
                ("variable-base multiplication by 254 bits", 2296, cs.ncons() - n0)
            }
        }
        4 => {
            let params = PoseidonParams::<F>::new(3, 8, 53);
            let leaf = num(ctx);
            let mut r = ctx.rng();
            let sib: SizedVec<CNum<_>, U32> = (0..32)
                .map(|_| {
                    let v = rnd_z::<F>(&mut r).n();
                    CNum::alloc(&cs, if with { Some(&v) } else { None })
                })
                .collect();
            let path: SizedVec<CBool<_>, U32> = (0..32)
                .map(|_| {
                    let v = r.below(2) == 1;
                    CBool::alloc(&cs, if with { Some(&v) } else { None })
                })
                .collect();
            let n0 = cs.ncons();
            c_poseidon_merkle_proof_root(&leaf, &CMerkleProof { sibling: sib, path }, &params);
            ("Merkle path of depth 32 with poseidon(3,8,53)", 7328, cs.ncons() - n0)
        }
        _ => {
            let sk = gen_below(ctx, &c.l);
            let m = gen_z::<F>(ctx);
            let g = crate::native2::ref_sign::<Bn>(&sk, m, &Bn::pos4().1);
            let mut mk = |v: Z<F>| CNum::alloc(&cs, if with { Some(v.n()) } else { None }.as_ref());
            let (s, r, a, m) = (mk(Z::from_big(&g.s)), mk(g.r), mk(g.a), mk(m));
            let n0 = cs.ncons();
            c_eddsaposeidon_verify(&s, &r, &a, &m, &Bn::pos4().0, j);
            ("eddsaposeidon verification", 3866, cs.ncons() - n0)
        }
    };
    ctx.label(name);
    ctx.note(|| format!("{}: {} constraints (documented {})", name, got, limit));
    ensure!(got <= limit, "{} needs {} constraints, documented {}", name, got, limit);
    Ok(())
}

// ------------------------------------------------------------------ C24

fn c24_raw(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c24_raw_f)
}
fn c24_raw_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let cs = TestCS::<C::Fr>::new();
    let mut ids: Vec<(fawkes_crypto::circuit::num::Index, Option<Z<C::Fr>>)> = vec![];
    let steps = ctx.range(1, 25);
    let mut expected = 0usize;
    let mut log = vec![];
    if ctx.chance(1, 60) {
        // a long circuit first
        let n = if ctx.chance(1, 50) { 66_000 } else { *ctx.pick(&[100usize, 300, 1100, 3000]) };
        let mut rr = ctx.rng();
        for _ in 0..n {
            let v = rnd_z::<C::Fr>(&mut rr);
            let i = if rr.below(2) == 0 { cs.alloc(Some(v.n())) } else { cs.alloc_input(Some(v.n())) };
            let s = CNum::from_var(&cs, Some(v.n()), i);
            guard(|| cs.enforce(&s, &s, &CNum::from_const(&cs, &(v * v).n()))).map_err(|e| format!("constraint {} of a long satisfied circuit refused: {}", expected, e))?;
            expected += 1;
            ids.push((i, Some(v)));
        }
        let set: std::collections::HashSet<_> = ids.iter().map(|x| x.0).collect();
        ensure!(set.len() == ids.len(), "two of {} variables share an identity", n);
        log.push(format!("{} variables and constraints", n));
        ctx.label("long");
    }
    for _ in 0..steps {
        match ctx.below(4) {
            0 | 1 => {
                let v = if ctx.chance(1, 5) { None } else { Some(gen_z::<C::Fr>(ctx)) };
                let inp = ctx.bool();
                let i = if inp { cs.alloc_input(v.map(|x| x.n())) } else { cs.alloc(v.map(|x| x.n())) };
                log.push(format!("alloc{}({:?})={:?}", if inp { "_input" } else { "" }, v.map(|x| x.dec()), i));
                ensure!(i != fawkes_crypto::circuit::num::Index::Input(0), "a variable got the identity of the constant one: {:?}", log);
                ensure!(!ids.iter().any(|x| x.0 == i), "two variables share an identity: {:?}", log);
                ids.push((i, v));
            }
            _ => {
                // a constraint among three signals that may or may not hold
                let sig = |ctx: &mut Ctx| -> CNum<TestCS<C::Fr>> {
                    if ids.is_empty() || ctx.chance(1, 4) {
                        let v = gen_z::<C::Fr>(ctx);
                        CNum::from_const(&cs, &v.n())
                    } else {
                        let k = ctx.below(ids.len() as u64) as usize;
                        CNum::from_var(&cs, ids[k].1.map(|x| x.n()), ids[k].0)
                    }
                };
                let (a, b) = (sig(ctx), sig(ctx));
                let c = match ctx.below(3) {
                    0 => sig(ctx),
                    k => match (a.value, b.value) {
                        (Some(x), Some(y)) => {
                            let mut w = z(x) * z(y);
                            if k == 1 && ctx.chance(1, 3) {
                                w = w + gen_z(ctx);
                            }
                            CNum::from_const(&cs, &w.n())
                        }
                        _ => sig(ctx),
                    },
                };
                let holds = match (a.value, b.value, c.value) {
                    (Some(x), Some(y), Some(w)) => z(x) * z(y) == z(w),
                    _ => true,
                };
                let full = a.value.is_some() && b.value.is_some() && c.value.is_some();
                log.push(format!("enforce({:?},{:?},{:?})", a.value.map(|x| z(x).dec()), b.value.map(|x| z(x).dec()), c.value.map(|x| z(x).dec())));
                let r = guard(|| cs.enforce(&a, &b, &c));
                ctx.label(if !full { "absent value" } else if holds { "satisfied" } else { "violated" });
                if full {
                    ctx.nontrivial();
                }
                ensure!(r.is_ok() == holds, "constraint {} {} by the testing system: {:?}", if holds { "that holds" } else { "that does not hold" }, if r.is_ok() { "accepted" } else { "refused" }, log);
                if r.is_err() {
                    // the system is not used after a failure
                    ctx.note(|| log.join(" "));
                    return Ok(());
                }
                expected += 1;
            }
        }
        ensure!(cs.num_constraints() == expected, "{} constraints counted after {} were emitted: {:?}", cs.num_constraints(), expected, log);
    }
    let vars = cs.variables.borrow();
    for (i, v) in &ids {
        ensure!(vars.get(i).map(|x| x.0) == v.map(|x| x.0), "variable {:?} recorded as {:?}: {:?}", i, vars.get(i).map(|x| z(*x).dec()), log);
    }
    ctx.note(|| log.join(" "));
    Ok(())
}

fn c24_gadget(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c24_gadget_f)
}
/// Gadgets, rightly and wrongly satisfied, on the testing system against the recording one.
fn c24_gadget_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let f = *ctx.pick(&[Family::Arith, Family::Arith, Family::Bits, Family::Ecc, Family::Hash]);
    let inst = gen_family::<C>(ctx, f);
    note_inst(ctx, &inst);
    let with = !ctx.chance(1, 6);
    let rec = RecCS::<C::Fr>::new(Style::Shared);
    let ra = guard(|| {
        let i = make_inputs(&inst, &rec, with);
        let o = apply::<C, _>(&inst.g, &i);
        for s in &o {
            if with && ctx.bool() {
                // pin the output to its value, right or wrong
                let v = z(s.value.unwrap());
                s.assert_const(&v.n());
            }
        }
    });
    // replay exactly the recorded calls on the testing system
    let _ = ra;
    let t = TestCS::<C::Fr>::new();
    let r = rec.r.borrow();
    let mut ids = vec![fawkes_crypto::circuit::num::Index::Input(0)];
    for k in 1..r.kinds.len() {
        let v = r.vals[k].map(|x| x.n());
        ids.push(if r.kinds[k] == Kind::Input { t.alloc_input(v) } else { t.alloc(v) });
    }
    let mut failed = 0;
    for (n, c) in r.cons.iter().enumerate() {
        let mk = |lc: &Lc<C::Fr>| -> CNum<TestCS<C::Fr>> {
            let mut s = CNum::from_const(&t, &Z::<C::Fr>::zero().n());
            s.lc.clear();
            let mut val = Some(Z::<C::Fr>::zero());
            for (v, k) in lc {
                s.lc.push_back((ids[*v], k.n()));
                val = match (val, r.vals[*v]) {
                    (Some(a), Some(b)) => Some(a + b * *k),
                    _ => None,
                };
            }
            s.value = val.map(|x| x.n());
            s
        };
        let (a, b, cc) = (mk(&c.a), mk(&c.b), mk(&c.c));
        let holds = match (a.value, b.value, cc.value) {
            (Some(x), Some(y), Some(w)) => z(x) * z(y) == z(w),
            _ => true,
        };
        let res = guard(|| t.enforce(&a, &b, &cc));
        ensure!(res.is_ok() == holds, "{}: constraint {} {} but the testing system says otherwise", inst.show(), n, if holds { "holds" } else { "fails" });
        if !holds {
            failed += 1;
        }
    }
    ensure!(failed > 0 || t.num_constraints() == r.cons.len(), "{}: {} constraints counted instead of {}", inst.show(), t.num_constraints(), r.cons.len());
    // and the gadget itself, directly on the testing system
    let t = TestCS::<C::Fr>::new();
    let direct = guard(|| {
        let i = make_inputs(&inst, &t, with);
        apply::<C, _>(&inst.g, &i);
    });
    match (&inst.expect, with) {
        (Expect::Out(_), _) => ensure!(direct.is_ok(), "{}: testing system refuses the honest gadget: {:?}", inst.show(), direct),
        (Expect::Unsat(why), true) => {
            ctx.label("violated");
            ensure!(direct.is_err(), "{}: testing system accepts although {}", inst.show(), why)
        }
        (Expect::Unsat(_), false) => {}
    }
    Ok(())
}

fn c11_program(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c11_program_f)
}
/// A random circuit over gadgets (outputs feed later gadgets), synthesised without values and
/// with two different witnesses.
fn c11_program_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let plan = crate::progs::Plan::<C>::gen(ctx, 10);
    let style = gen_style(ctx);
    let syn = |with: Option<&[Z<C::Fr>]>| {
        let cs = RecCS::<C::Fr>::new(style);
        let r = guard(|| plan.synth(&cs, with));
        (cs, r.map(|_| ()))
    };
    let (c0, r0) = syn(None);
    r0.map_err(|e| format!("{}: synthesis without values failed: {}", plan.show(), e))?;
    ctx.nontrivial();
    ctx.note(|| plan.show());
    for k in 0..2 {
        let w = if k == 0 { plan.witness.clone() } else { plan.rewitness(ctx) };
        let (c1, r1) = syn(Some(&w));
        r1.map_err(|e| format!("{}: synthesis with values failed: {}", plan.show(), e))?;
        same_shape(&c0.r.borrow(), &c1.r.borrow()).map_err(|e| format!("{}: without and with values differ: {}", plan.show(), e))?;
        c1.ok().map_err(|e| format!("{}: {}", plan.show(), e))?;
    }
    Ok(())
}

/// Calls whose shape the gadgets exclude have to be refused, with or without values.
fn shape_refused<C: Curve>(ctx: &mut Ctx, what: &str, call: &dyn Fn(&[CNum<RecCS<C::Fr>>]), n: usize, bits: bool) -> CaseResult {
    let vals: Vec<Z<C::Fr>> = (0..n).map(|_| if bits { Z::u(ctx.below(2)) } else { gen_z(ctx) }).collect();
    let modes = gen_modes(ctx, n);
    ctx.nontrivial();
    ctx.label(what.split(' ').next().unwrap().to_string());
    ctx.note(|| what.to_string());
    for with in [false, true].iter() {
        let cs = RecCS::<C::Fr>::new(Style::Split);
        let inst = Inst::<C> { g: G::Mul, inputs: vals.clone(), modes: modes.clone(), salt: 7, expect: Expect::Unsat(""), class: String::new() };
        let i = make_inputs(&inst, &cs, *with);
        ensure!(guard(|| call(&i)).is_err(), "{} is accepted (values {:?})", what, vals.iter().map(|v| v.dec()).collect::<Vec<_>>());
    }
    Ok(())
}
fn c12_refuse(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c12_refuse_f)
}
fn c12_refuse_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let bad_bits = ctx.bool();
    let n = if bad_bits { *ctx.pick(&[4usize, 2, 1, 0, 5, 6]) } else { 3 };
    let cols = ctx.range(1, 4);
    let at = ctx.below(cols as u64) as usize;
    let len = if bad_bits { 8 } else { *ctx.pick(&[9usize, 7, 16, 4, 0, 10]) };
    let mut r = ctx.rng();
    let tab: Vec<Vec<_>> = (0..cols).map(|c| (0..if c == at { len } else { 8 }).map(|_| rnd_z::<C::Fr>(&mut r).n()).collect()).collect();
    let what = format!("c_mux3 of {} bits, {} columns, one of {} entries", n, cols, len);
    shape_refused::<C>(ctx, &what, &|i| drop(fawkes_crypto::circuit::mux::c_mux3(&i.iter().map(|x| CBool(x.clone())).collect::<Vec<_>>(), &tab)), n, true)
}
fn c16_refuse(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c16_refuse_f)
}
fn c16_refuse_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    use fawkes_crypto::circuit::poseidon::*;
    let (p, _) = crate::native2::gen_pos::<C>(ctx, 2);
    let t = p.t;
    match ctx.below(3) {
        0 => {
            let n = if ctx.chance(1, 4) { 0 } else { t + ctx.range(1, 4) };
            shape_refused::<C>(ctx, &format!("c_poseidon of {} inputs at width {}", n, t), &|i| drop(c_poseidon(i, &p)), n, false)
        }
        1 => {
            let n = if ctx.chance(1, 4) { 0 } else { t + ctx.range(0, 4) };
            shape_refused::<C>(ctx, &format!("c_poseidon_with_salt of {} inputs at width {}", n, t), &|i| drop(c_poseidon_with_salt(i, b"salt", &p)), n, false)
        }
        _ => shape_refused::<C>(ctx, "c_poseidon_merkle_tree_root of no leaves", &|i| drop(c_poseidon_merkle_tree_root(i, &p)), 0, false),
    }
}

pub fn props() -> Vec<Prop> {
    let rec = "own recording constraint system (reccs.rs) and field arithmetic of the pairing library";
    let srch = "the witness search is incomplete: it reports only explicit, re-verified forgeries";
    vec![
        Prop {
            id: "C09",
            assumptions: vec![rec],
            subs: vec![
                Sub { name: "program", rule: "programs of 1..30 signal operations (all operator forms, constants, cancellations, selections) over 2..5 inputs (one in twelve with combinations of up to 160 variables), three variable numberings, with and without values; after every step value, linear combination and constness against the reference; non-trivial: at least one multiplication or division of non-constants", f: c09_program, tape: 420, quick: 125000, thorough: 1250000, shrink: 3000 },
                Sub { name: "ops", rule: "each arithmetic/boolean gadget on biased values in six input modes; non-trivial: not all inputs constant", f: arith_complete, tape: 40, quick: 125000, thorough: 1250000, shrink: 2000 },
            ],
        },
        Prop {
            id: "C10",
            assumptions: vec![rec],
            subs: vec![
                Sub { name: "program", rule: "as C09/program: allocation and constraint deltas of every operation; non-trivial: at least one non-linear operation", f: c09_program, tape: 420, quick: 25000, thorough: 500000, shrink: 3000 },
                Sub { name: "documented", rule: "the gadgets of the README table on the recording system, random inputs, with and without values; non-trivial: always", f: c10_costs, tape: 40, quick: 160, thorough: 2000, shrink: 50 },
            ],
        },
        Prop {
            id: "C11",
            assumptions: vec![rec],
            subs: vec![
                Sub { name: "arith", rule: "arithmetic/boolean gadgets without values and with two witnesses; non-trivial: not all inputs constant", f: arith_shape, tape: 60, quick: 20000, thorough: 300000, shrink: 1500 },
                Sub { name: "bits", rule: "bit gadgets; non-trivial: not all inputs constant", f: bits_shape, tape: 60, quick: 3000, thorough: 60000, shrink: 500 },
                Sub { name: "ecc", rule: "curve gadgets; non-trivial: not all inputs constant", f: ecc_shape, tape: 60, quick: 3000, thorough: 30000, shrink: 300 },
                Sub { name: "hash", rule: "Poseidon/Merkle gadgets; non-trivial: not all inputs constant", f: hash_shape, tape: 80, quick: 3000, thorough: 30000, shrink: 300 },
                Sub { name: "sig", rule: "EdDSA circuit; non-trivial: not all inputs constant", f: sig_shape, tape: 60, quick: 120, thorough: 1500, shrink: 20 },
                Sub { name: "composed", rule: "random circuits of up to 10 gadgets feeding each other, public inputs interleaved; non-trivial: always", f: c11_program, tape: 200, quick: 3000, thorough: 30000, shrink: 500 },
            ],
        },
        Prop {
            id: "C12",
            assumptions: vec![rec, srch],
            subs: vec![
                Sub { name: "complete", rule: "honest witness of each arithmetic/boolean gadget and assertion, true and false statements; non-trivial: not all inputs constant", f: arith_complete, tape: 40, quick: 200000, thorough: 2000000, shrink: 2000 },
                Sub { name: "forge", rule: "witness search against each gadget/assertion with inputs fixed; non-trivial: not all inputs constant", f: arith_sound, tape: 44, quick: 200000, thorough: 2000000, shrink: 1500 },
                Sub { name: "refuse", rule: "table lookups with another number of bits or entries, with and without values; non-trivial: always", f: c12_refuse, tape: 40, quick: 1000, thorough: 10000, shrink: 300 },
            ],
        },
        Prop {
            id: "C13",
            assumptions: vec![rec, srch, "bit vectors handed to comparison are boolean; decomposition widths 1..field bit length"],
            subs: vec![
                Sub { name: "complete", rule: "decompositions of values that fit / just do not fit, strict decompositions, comparisons at the boundary and with constants wider than the vector; non-trivial: not all inputs constant", f: bits_complete, tape: 60, quick: 12000, thorough: 120000, shrink: 500 },
                Sub { name: "forge", rule: "witness search incl. the alias value+p; non-trivial: not all inputs constant", f: bits_sound, tape: 64, quick: 6000, thorough: 60000, shrink: 300 },
            ],
        },
        Prop {
            id: "C14",
            assumptions: vec![rec, "inputs meet the assumption stated at each gadget"],
            subs: vec![Sub { name: "complete", rule: "curve gadgets on points of all classes, scalars of 0..300 bits, constant/variable bases; non-trivial: not all inputs constant", f: ecc_complete, tape: 60, quick: 9000, thorough: 80000, shrink: 300 }],
        },
        Prop {
            id: "C15",
            assumptions: vec![rec, srch, "off-curve preimage candidates are computed for the doubling formulas of the current gadget"],
            subs: vec![
                Sub { name: "forge", rule: "witness search against every curve gadget with inputs fixed; non-trivial: not all inputs constant", f: ecc_sound, tape: 64, quick: 2700, thorough: 18000, shrink: 100 },
                Sub { name: "preimage", rule: "subgroup assertion and decompression on good and bad points; preimages on and off the curve tried; non-trivial: not all inputs constant", f: preimage_sound, tape: 64, quick: 2400, thorough: 15000, shrink: 150 },
                Sub { name: "hash_to_curve", rule: "hash-to-curve with both roots and both branches tried; non-trivial: variable input", f: fromscalar_sound, tape: 64, quick: 450, thorough: 3000, shrink: 50 },
            ],
        },
        Prop {
            id: "C16",
            assumptions: vec![rec, srch, "Merkle path bits are boolean (callers assert them)"],
            subs: vec![
                Sub { name: "complete", rule: "t 1..6 with random constants or (4,8,54), all input counts, depth 0..33, 1..140 leaves, mixed constants; non-trivial: not all inputs constant", f: hash_complete, tape: 80, quick: 4500, thorough: 60000, shrink: 400 },
                Sub { name: "forge", rule: "witness search with inputs fixed; non-trivial: not all inputs constant", f: hash_sound, tape: 84, quick: 1500, thorough: 30000, shrink: 200 },
                Sub { name: "refuse", rule: "input counts outside the range, no leaves; non-trivial: always", f: c16_refuse, tape: 60, quick: 300, thorough: 3000, shrink: 200 },
            ],
        },
        Prop {
            id: "C17",
            assumptions: vec![rec, srch],
            subs: vec![
                Sub { name: "complete", rule: "valid and altered signatures, coordinates outside the subgroup, scalars lifted by l or too wide; non-trivial: not all inputs constant", f: sig_complete, tape: 60, quick: 400, thorough: 6000, shrink: 40 },
                Sub { name: "forge", rule: "witness search on the whole circuit with preimage candidates; non-trivial: not all inputs constant", f: sig_sound, tape: 64, quick: 100, thorough: 2500, shrink: 15 },
            ],
        },
        Prop {
            id: "C24",
            assumptions: vec![rec],
            subs: vec![
                Sub { name: "raw", rule: "sequences of up to 25 (one in sixty: 3000 more, a few 66000) allocations (with/without value) and constraints that hold, fail or lack values; non-trivial: a constraint with all values", f: c24_raw, tape: 200, quick: 20000, thorough: 300000, shrink: 2000 },
                Sub { name: "gadgets", rule: "gadgets with true and false statements, replayed call by call and run directly; non-trivial: not all inputs constant", f: c24_gadget, tape: 120, quick: 3000, thorough: 50000, shrink: 400 },
            ],
        },
    ]
}
