//! C04 group law, C05 decoding and subgroup, C06 seeded derivations, C07 Poseidon, C08 EdDSA.

use crate::engine::{guard, Prop, Sub};
use crate::refmath::*;
use crate::tape::{CaseResult, Ctx};
use crate::{ensure, on_curve};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams, MontgomeryPoint};
use fawkes_crypto::native::eddsaposeidon::{eddsaposeidon_sign, eddsaposeidon_verify};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::*;
use num::bigint::BigUint;
use num::One;
use rand::Rng;
use typenum::{Unsigned, U0, U1, U16, U17, U2, U24, U3, U31, U32, U33, U4, U40, U5, U6, U64, U7, U8, U9};

/// projective representative with a chosen z
pub fn ex<F: Field>(p: &Pt<F>, zz: Z<F>) -> EdwardsPointEx<F> {
    EdwardsPointEx { x: (p.x * zz).n(), y: (p.y * zz).n(), t: (p.x * p.y * zz).n(), z: zz.n() }
}
fn gen_nz<F: Field>(ctx: &mut Ctx) -> Z<F> {
    let v = gen_z::<F>(ctx);
    if v.is_zero() {
        Z::one()
    } else {
        v
    }
}
fn aff<F: Field>(p: &EdwardsPointEx<F>) -> Result<Pt<F>, String> {
    let zi = z(p.z).inv().ok_or("result has z = 0")?;
    let (x, y) = (z(p.x) * zi, z(p.y) * zi);
    if x * y != z(p.t) * zi {
        return Err("result's auxiliary coordinate t is not x*y/z".into());
    }
    Ok(Pt { x, y })
}

// ------------------------------------------------------------------ C04

fn c04_add(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c04_add_f)
}
fn c04_add_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::params();
    let (a, ca) = gen_point::<C>(ctx);
    let (b, cb) = match ctx.below(5) {
        0 => (a, ca),
        1 => (c.neg(&a), ca),
        2 => (c.add(&a, &c.tors[ctx.below(8) as usize]), PtClass::Mixed),
        _ => gen_point::<C>(ctx),
    };
    ctx.label(format!("{:?}+{:?}", ca, cb));
    if a != c.id() || b != c.id() {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{} P={} Q={}", C::NAME, a.show(), b.show()));
    let want = c.add(&a, &b);
    let (za, zb) = (gen_nz::<C::Fr>(ctx), gen_nz::<C::Fr>(ctx));
    let (ea, eb) = (ex(&a, za), ex(&b, zb));
    let r = ea.add(&eb, j);
    ensure!(aff(&r)? == want, "{}: extended sum of {} (z={}) and {} (z={}) is {}", C::NAME, a.show(), za.dec(), b.show(), zb.dec(), aff(&r)?.show());
    ensure!(r.is_in_curve(j), "{}: extended sum fails the curve test", C::NAME);
    let r = a.e().add(&b.e(), j);
    ensure!(Pt::of(&r) == want, "{}: affine sum of {} and {} is {}", C::NAME, a.show(), b.show(), Pt::of(&r).show());
    let w2 = c.dbl(&a);
    let r = ea.double();
    ensure!(aff(&r)? == w2, "{}: extended double of {} (z={}) is {}", C::NAME, a.show(), za.dec(), aff(&r)?.show());
    ensure!(Pt::of(&a.e().double()) == w2, "{}: affine double of {} wrong", C::NAME, a.show());
    let w8 = c.dbl(&c.dbl(&w2));
    ensure!(aff(&ea.mul_by_cofactor())? == w8, "{}: extended cofactor multiple of {} wrong", C::NAME, a.show());
    ensure!(Pt::of(&a.e().mul_by_cofactor()) == w8, "{}: affine cofactor multiple of {} wrong", C::NAME, a.show());
    ensure!(aff(&ea.negate())? == c.neg(&a), "{}: negation of {} wrong", C::NAME, a.show());
    ensure!(Pt::of(&ea.into_affine()) == a, "{}: into_affine of {} (z={}) wrong", C::NAME, a.show(), za.dec());
    let ie = a.e().into_extended();
    ensure!(aff(&ie)? == a, "{}: into_extended of {} wrong", C::NAME, a.show());
    // equality
    ensure!((ea == eb) == (a == b), "{}: extended equality of {} and {} is {}", C::NAME, a.show(), b.show(), ea == eb);
    ensure!(ea == ex(&a, zb) && !(ea != ex(&a, zb)), "{}: two representatives of {} compare unequal", C::NAME, a.show());
    ensure!((a.e() == b.e()) == (a == b), "{}: affine equality wrong", C::NAME);
    // identity tests
    ensure!(ea.is_zero() == (a == c.id()) && a.e().is_zero() == (a == c.id()), "{}: is_zero of {} wrong", C::NAME, a.show());
    ensure!(aff(&EdwardsPointEx::<C::Fr>::zero())? == c.id() && Pt::of(&EdwardsPoint::<C::Fr>::zero()) == c.id(), "zero is not the identity");
    ensure!(ea.is_in_curve(j) && a.e().is_in_curve(j), "{}: curve point {} (z={}) fails the curve test", C::NAME, a.show(), za.dec());
    Ok(())
}

fn c04_mul(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c04_mul_f)
}
fn c04_mul_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::params();
    let (a, ca) = gen_point::<C>(ctx);
    let k = gen_below(ctx, &c.l);
    ctx.label(format!("{:?}", ca));
    if k > BigUint::one() && a != c.id() {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{} k={} P={}", C::NAME, k, a.show()));
    let want = c.mul_big(&a, &k);
    let s: Num<C::Fs> = Z::<C::Fs>::from_big(&k).n();
    let zz = gen_nz::<C::Fr>(ctx);
    let r = ex(&a, zz).mul(s, j);
    ensure!(aff(&r)? == want, "{}: {} * {} (z={}) is {}", C::NAME, k, a.show(), zz.dec(), aff(&r)?.show());
    let r = a.e().mul(s, j);
    ensure!(Pt::of(&r) == want, "{}: affine {} * {} is {}", C::NAME, k, a.show(), Pt::of(&r).show());
    ensure!(r.is_in_curve(j), "{}: {} * {} fails the curve test", C::NAME, k, a.show());
    Ok(())
}

fn c04_curve_test(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c04_curve_test_f)
}
fn c04_curve_test_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::params();
    let (a, _) = gen_point::<C>(ctx);
    // a near miss of some kind
    let b = match ctx.below(6) {
        0 => Pt { x: a.y, y: a.x },
        1 => Pt { x: a.x + gen_nz(ctx), y: a.y },
        2 => Pt { x: a.x, y: a.y + gen_nz(ctx) },
        3 => Pt { x: gen_z(ctx), y: gen_z(ctx) },
        4 => Pt { x: Z::zero(), y: gen_z(ctx) },
        _ => Pt { x: gen_z(ctx), y: Z::zero() },
    };
    let want = c.on_curve(&b);
    ctx.label(if want { "on curve" } else { "off curve" });
    if !want {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{} candidate {}", C::NAME, b.show()));
    ensure!(b.e().is_in_curve(j) == want, "{}: curve test of {} is {}", C::NAME, b.show(), !want);
    let zz = gen_nz(ctx);
    ensure!(ex(&b, zz).is_in_curve(j) == want, "{}: extended curve test of {} is {}", C::NAME, b.show(), !want);
    // inconsistent extended coordinates are not a curve point
    let mut e = ex(&a, zz);
    let k = gen_nz::<C::Fr>(ctx);
    e.t = (z(e.t) + k).n();
    ensure!(!e.is_in_curve(j), "{}: extended point {} with t off by {} passes the curve test", C::NAME, a.show(), k.dec());
    let mut e = ex(&a, zz);
    e.t = (-z(e.t)).n();
    ensure!(e.is_in_curve(j) == z(e.t).is_zero(), "{}: extended point {} with negated t passes the curve test", C::NAME, a.show());
    let w = gen_z::<C::Fr>(ctx);
    let e = EdwardsPointEx { x: Z::<C::Fr>::zero().n(), y: w.n(), t: Z::<C::Fr>::zero().n(), z: Z::<C::Fr>::zero().n() };
    ensure!(!e.is_in_curve(j), "{}: extended point with z = 0 passes the curve test", C::NAME);
    // points at infinity of the extended model: z = 0, y^2 - x^2 = d t^2 does have solutions
    if let Some(y) = (w.sq() + c.d).sqrt() {
        let e = EdwardsPointEx { x: w.n(), y: y.n(), t: Z::<C::Fr>::one().n(), z: Z::<C::Fr>::zero().n() };
        ensure!(!e.is_in_curve(j), "{}: extended point with z = 0 passes the curve test", C::NAME);
    }
    Ok(())
}

fn c04_consts(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c04_consts_f)
}
fn c04_consts_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::new_params();
    let one = Z::<C::Fr>::one();
    let d = z(j.edwards_d());
    ensure!(legendre(&d.big(), &c.p) == 2, "{}: d is not a non-residue", C::NAME);
    ensure!(legendre(&(-one).big(), &c.p) == 1, "{}: -1 is not a residue", C::NAME);
    ensure!(d == c.d, "{}: d = {}", C::NAME, d.dec());
    ensure!(z(j.montgomery_a()) == c.ma, "{}: Montgomery A = {}", C::NAME, z(j.montgomery_a()).dec());
    ensure!(z(j.montgomery_b()) == c.mb, "{}: Montgomery B = {}", C::NAME, z(j.montgomery_b()).dec());
    ensure!(legendre(&z(j.montgomery_u()).big(), &c.p) == 2, "{}: u is not a non-residue", C::NAME);
    ensure!(prime::<C::Fs>() == c.l && prime::<C::Fr>() == c.p, "{}: moduli differ", C::NAME);
    let g = Pt::of(j.edwards_g());
    ensure!(c.on_curve(&g) && g != c.id(), "{}: generator {} is not a non-identity curve point", C::NAME, g.show());
    ensure!(c.mul_big(&g, &c.l) == c.id(), "{}: the generator's order is not l", C::NAME);
    // multiples of the generator cycle with period l
    let k = gen_below(ctx, &c.l);
    let s: Num<C::Fs> = Z::<C::Fs>::from_big(&k).n();
    let a = j.edwards_g().mul(s, &j);
    let b = j.edwards_g().mul(-s, &j);
    ensure!(Pt::of(&a.add(&b, &j)) == c.id(), "{}: k*G + (-k)*G is not the identity for k = {}", C::NAME, k);
    ctx.note(|| format!("{} constants, k={}", C::NAME, k));
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C05

fn c05_subgroup(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c05_subgroup_f)
}
fn c05_subgroup_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::params();
    let (a, cl) = gen_point::<C>(ctx);
    ctx.label(format!("{:?}", cl));
    if a != c.id() {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{} {:?} {}", C::NAME, cl, a.show()));
    let want = c.in_subgroup(&a);
    let zz = gen_nz(ctx);
    let got = ex(&a, zz).is_in_subgroup(j);
    ensure!(got == want, "{}: subgroup test of {} (z={}) is {}", C::NAME, a.show(), zz.dec(), got);
    // decompression
    let x = match ctx.below(4) {
        0 => gen_z::<C::Fr>(ctx),
        1 => -a.x,
        _ => a.x,
    };
    let want = c.decompress(x);
    let got = EdwardsPoint::subgroup_decompress(x.n(), j);
    ctx.label(match (&want, c.y_for_x(x).is_some()) {
        (Some(_), _) => "x of a subgroup point",
        (None, true) => "x of a curve point outside the subgroup",
        _ => "x of no curve point",
    });
    match (want, got) {
        (None, None) => {}
        (Some(w), Some(g)) => ensure!(w == Pt::of(&g), "{}: x={} decompresses to {} instead of {}", C::NAME, x.dec(), Pt::of(&g).show(), w.show()),
        (Some(w), None) => return Err(format!("{}: x={} of subgroup point {} refused", C::NAME, x.dec(), w.show())),
        (None, Some(g)) => return Err(format!("{}: x={} decompresses to {}, no subgroup point", C::NAME, x.dec(), Pt::of(&g).show())),
    }
    Ok(())
}

fn c05_y(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c05_y_f)
}
fn c05_y_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::params();
    let y = match ctx.below(4) {
        0 => gen_point::<C>(ctx).0.y,
        1 => {
            let y = gen_point::<C>(ctx).0.y;
            -y
        }
        _ => gen_z::<C::Fr>(ctx),
    };
    let sign = ctx.bool();
    let want = c.x_for_y(y);
    ctx.label(if want.is_some() { "y of a curve point" } else { "y of no curve point" });
    ctx.nontrivial();
    ctx.note(|| format!("{} y={} sign={}", C::NAME, y.dec(), sign));
    match (want, EdwardsPoint::get_for_y(y.n(), sign, j)) {
        (None, None) => {}
        (None, Some(p)) => return Err(format!("{}: y={} recovered as {}, not a curve point", C::NAME, y.dec(), Pt::of(&p).show())),
        (Some(_), None) => return Err(format!("{}: y={} of a curve point refused", C::NAME, y.dec())),
        (Some(_), Some(p)) => {
            let p = Pt::of(&p);
            ensure!(c.on_curve(&p) && p.y == y, "{}: y={} recovered as {}", C::NAME, y.dec(), p.show());
            // x = 0 has no odd form
            ensure!(p.x.is_zero() || p.x.odd() == sign, "{}: y={} sign={} recovered with the other parity", C::NAME, y.dec(), sign);
        }
    }
    // random points are curve points
    let p = EdwardsPoint::<C::Fr>::rand(&mut ctx.rng(), j);
    ensure!(c.on_curve(&Pt::of(&p)), "{}: random point {} is off the curve", C::NAME, Pt::of(&p).show());
    Ok(())
}

fn c05_hash(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c05_hash_f)
}
fn c05_hash_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::params();
    let mut t = gen_z::<C::Fr>(ctx);
    if t == -Z::one() {
        t = Z::zero();
    }
    ctx.nontrivial();
    let k = (t + Z::one()).sq() * c.mu;
    let x2 = -((Z::one() + k.inv().unwrap()).div(c.ma));
    ctx.label(if c.mont_g(x2).sqrt().is_some() { "first candidate" } else { "second candidate" });
    ctx.note(|| format!("{} t={}", C::NAME, t.dec()));
    let want = c.hash_to_curve(t);
    let got = Pt::of(&guard(|| EdwardsPoint::from_scalar(t.n(), j)).map_err(|e| format!("{}: t={} panicked: {}", C::NAME, t.dec(), e))?);
    ensure!(got == want, "{}: t={} maps to {} instead of {}", C::NAME, t.dec(), got.show(), want.show());
    ensure!(c.in_subgroup(&got), "{}: t={} maps outside the subgroup", C::NAME, t.dec());
    let raw = EdwardsPoint::from_scalar_raw(t.n(), c.ma.n(), c.mb.n(), c.mu.n());
    ensure!(Pt::of(&raw) == want, "{}: raw map of t={} differs", C::NAME, t.dec());
    Ok(())
}

fn c05_mont(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c05_mont_f)
}
fn c05_mont_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::params();
    let (a, ca) = gen_point::<C>(ctx);
    ctx.label(format!("{:?}", ca));
    ctx.nontrivial();
    ctx.note(|| format!("{} {}", C::NAME, a.show()));
    let want = c.to_mont(&a);
    let zz = gen_nz(ctx);
    for m in [a.e().into_montgomery(), ex(&a, zz).into_montgomery()].iter() {
        match (want, m) {
            (None, None) => {}
            (Some((u, v)), Some(m)) => {
                ensure!(u == z(m.x) && v == z(m.y), "{}: Montgomery form of {} is ({}, {})", C::NAME, a.show(), z(m.x).dec(), z(m.y).dec());
                // on B v^2 = u^3 + A u^2 + u
                ensure!(c.mb * v * v == u * u * u + c.ma * u * u + u, "{}: Montgomery form off its curve", C::NAME);
                ensure!(Pt::of(&m.into_affine()) == a, "{}: {} does not survive the Montgomery round trip", C::NAME, a.show());
                ensure!(aff(&m.into_extended())? == a, "{}: {} does not survive the Montgomery round trip (extended)", C::NAME, a.show());
            }
            (w, g) => return Err(format!("{}: Montgomery form of {}: {:?} vs {:?}", C::NAME, a.show(), w.is_some(), g.is_some())),
        }
    }
    // homomorphism: chord/tangent sum of two Montgomery points is the image of the Edwards sum
    let (b, _) = gen_point::<C>(ctx);
    if let (Some((u1, v1)), Some((u2, v2))) = (c.to_mont(&a), c.to_mont(&b)) {
        if u1 != u2 {
            let l = (v2 - v1).div(u2 - u1);
            let u3 = c.mb * l.sq() - c.ma - u1 - u2;
            let v3 = l * (u1 - u3) - v1;
            let e = Pt::of(&MontgomeryPoint { x: u3.n(), y: v3.n() }.into_affine());
            ensure!(e == c.add(&a, &b), "{}: conversion is not a homomorphism at {} + {}", C::NAME, a.show(), b.show());
            let s = a.e().add(&b.e(), j).into_montgomery();
            ensure!(s.map(|m| (z(m.x), z(m.y))) == Some((u3, v3)), "{}: Montgomery form of the sum of {} and {} wrong", C::NAME, a.show(), b.show());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn c06_stream(ctx: &mut Ctx) -> CaseResult {
    let salted = ctx.chance(3, 4);
    let len = match ctx.below(4) {
        0 => ctx.below(4) as usize,
        1 => 60 + ctx.below(10) as usize,
        2 => ctx.below(300) as usize,
        _ => ctx.below(40) as usize,
    };
    let mut e = ctx.rng();
    let salt: Vec<u8> = (0..len).map(|_| e.next() as u8).collect();
    let mk = || if salted { SeedboxBlake2::new_with_salt(&salt) } else { SeedboxBlake2::new() };
    let mut sb = mk();
    let mut sb2 = mk();
    let mut rf = RefSeedbox::new(if salted { Some(&salt) } else { None });
    let deep = ctx.chance(1, 400);
    let mut pos = 0u64;
    if deep {
        // run far ahead so that the block counter needs more than 16 bits
        ctx.label("deep stream");
        let blocks = 65536 + ctx.below(40);
        for i in 0..blocks * 8 {
            let w = sb.next_u32();
            sb2.next_u32();
            if i % 8 == 0 {
                // compare one word per block with a reference positioned directly
                rf.ctr = i / 8;
                rf.words.clear();
                let r = rf.word();
                ensure!(w == r, "word {} of the stream is {} instead of {} (salt {:?})", i, w, r, salt);
            }
        }
        rf.ctr = blocks;
        rf.words.clear();
        pos = blocks * 8;
    }
    let n = ctx.range(1, 40);
    let mut how = vec![];
    for _ in 0..n {
        match ctx.below(5) {
            0 | 1 => {
                let (a, b, c) = (sb.next_u32(), sb2.next_u32(), rf.word());
                how.push("u32".to_string());
                ensure!(a == c && a == b, "word {} is {} / {} instead of {} (salt {:?}, reads {:?})", pos, a, b, c, salt, how);
                pos += 1;
            }
            2 => {
                // the same two words, read as one u64 or as two u32
                let a = sb.next_u64();
                let hi = sb2.next_u32() as u64;
                let b = (hi << 32) | sb2.next_u32() as u64;
                let c = rf.dword();
                how.push("u64".to_string());
                ensure!(a == c && b == c, "u64 at word {} is {} / {} instead of {} (salt {:?}, reads {:?})", pos, a, b, c, salt, how);
                pos += 2;
            }
            3 => {
                let k = ctx.below(40) as usize;
                let mut a = vec![0u8; k];
                let mut b = vec![0u8; k];
                sb.fill_bytes(&mut a);
                sb2.fill_bytes(&mut b);
                let mut c = vec![];
                while c.len() < k {
                    c.extend_from_slice(&rf.dword().to_le_bytes());
                    pos += 2;
                }
                c.truncate(k);
                how.push(format!("fill {}", k));
                ensure!(a == c && b == c, "{} bytes at word {} are {:?} instead of {:?} (salt {:?}, reads {:?})", k, pos, a, c, salt, how);
            }
            _ => {
                how.push("Fr".to_string());
                let a: Num<<Bn as Curve>::Fr> = sb.gen();
                let b: Num<<Bn as Curve>::Fr> = sb2.gen();
                let c = rf.field::<<Bn as Curve>::Fr>();
                ensure!(z(a) == c && z(b) == c, "field element read at word {} is {} instead of {} (salt {:?}, reads {:?})", pos, z(a).dec(), c.dec(), salt, how);
                pos += 1;
            }
        }
    }
    if how.len() > 8 || salted {
        ctx.nontrivial();
    }
    ctx.note(|| format!("salt {} bytes ({}), reads {}", len, salted, how.join(",")));
    Ok(())
}

fn c06_seed(ctx: &mut Ctx) -> CaseResult {
    let len = match ctx.below(4) {
        0 => ctx.below(3) as usize,
        1 => 62 + ctx.below(5) as usize,
        2 => 126 + ctx.below(5) as usize,
        3 if ctx.chance(1, 8) => ctx.below(5000) as usize,
        _ => ctx.below(300) as usize,
    };
    let mut e = ctx.rng();
    let seed: Vec<u8> = if ctx.chance(1, 6) { vec![0; len] } else { (0..len).map(|_| e.next() as u8).collect() };
    ctx.nontrivial();
    ctx.note(|| format!("seed of {} bytes {:?}", len, seed));
    macro_rules! one {
        ($f:ty) => {{
            let a = Num::<$f>::from_seed(&seed);
            let w = ref_from_seed::<$f>(&seed);
            ensure!(z(a) == w, "{}: from_seed({:?}) = {} instead of {}", stringify!($f), seed, z(a).dec(), w.dec());
        }};
    }
    one!(fawkes_crypto::native::bn256::Fr);
    one!(fawkes_crypto::native::bn256::Fs);
    one!(fawkes_crypto::native::bls12_381::Fr);
    one!(fawkes_crypto::native::bls12_381::Fs);
    one!(pairing::bn256::Fq);
    Ok(())
}

fn c06_params(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c06_params_f)
}
fn c06_params_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let (t, f, p) = match ctx.below(5) {
        0 => (4, 8, 54),
        1 => (3, 8, 53),
        2 => (2, 8, 53),
        3 if ctx.chance(1, 4) => (ctx.range(10, 24), ctx.range(0, 40), ctx.range(0, 300)),
        _ => (ctx.range(1, 9), ctx.range(0, 12), ctx.range(0, 70)),
    };
    ctx.nontrivial();
    ctx.label(format!("t={}", t));
    ctx.note(|| format!("{} t={} f={} p={}", C::NAME, t, f, p));
    let a = PoseidonParams::<C::Fr>::new(t, f, p);
    let w = RefPoseidon::<C::Fr>::derive(t, f, p);
    ensure!(a.t == t && a.f == f && a.p == p, "{}: parameters report ({},{},{})", C::NAME, a.t, a.f, a.p);
    ensure!(a.c.len() == w.c.len() && a.c.iter().zip(&w.c).all(|(x, y)| z(*x) == *y), "{}: round constants for ({},{},{}) differ from the specification", C::NAME, t, f, p);
    ensure!(
        a.m.len() == t && a.m.iter().zip(&w.m).all(|(r, s)| r.len() == t && r.iter().zip(s).all(|(x, y)| z(*x) == *y)),
        "{}: mixing matrix for ({},{},{}) differs from the specification", C::NAME, t, f, p
    );
    let j = C::new_params();
    ensure!(Pt::of(j.edwards_g()) == C::consts().g, "{}: generator differs from the specification: {}", C::NAME, Pt::of(j.edwards_g()).show());
    Ok(())
}

// ------------------------------------------------------------------ C07

/// Library and reference parameter sets; either derived, or arbitrary constants.
pub fn gen_pos<C: Curve>(ctx: &mut Ctx, tmin: usize) -> (PoseidonParams<C::Fr>, RefPoseidon<C::Fr>) {
    let mut t = ctx.range(tmin, 6.max(tmin));
    let mut f = ctx.range(0, 9);
    let mut p = ctx.range(0, 12);
    match ctx.below(40) {
        0 => t = ctx.range(7, 17),
        1 => f = ctx.range(10, 40),
        2 => p = ctx.range(13, 140),
        _ => {}
    }
    let mut r = ctx.rng();
    let (c, m): (Vec<Z<C::Fr>>, Vec<Vec<Z<C::Fr>>>) = (
        (0..f + p).map(|_| rnd_z(&mut r)).collect(),
        (0..t).map(|_| (0..t).map(|_| rnd_z(&mut r)).collect()).collect(),
    );
    let lib = PoseidonParams {
        c: c.iter().map(|x| x.n()).collect(),
        m: m.iter().map(|v| v.iter().map(|x| x.n()).collect()).collect(),
        t,
        f,
        p,
    };
    (lib, RefPoseidon { c, m, t, f, p })
}

fn c07_hash(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c07_hash_f)
}
fn c07_hash_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let owned;
    let (lib, rf) = if ctx.chance(1, 3) {
        let x = C::pos4();
        (&x.0, &x.1)
    } else {
        owned = gen_pos::<C>(ctx, 1);
        (&owned.0, &owned.1)
    };
    let n = ctx.range(0, lib.t + 2);
    let inp: Vec<Z<C::Fr>> = (0..n).map(|_| gen_z(ctx)).collect();
    let ni: Vec<Num<C::Fr>> = inp.iter().map(|x| x.n()).collect();
    ctx.note(|| format!("{} t={} f={} p={} inputs {:?}", C::NAME, lib.t, lib.f, lib.p, inp.iter().map(|x| x.dec()).collect::<Vec<_>>()));
    let got = guard(|| poseidon(&ni, lib));
    if n >= 1 && n <= lib.t {
        ctx.nontrivial();
        let w = rf.hash(&inp);
        let g = got.map_err(|e| format!("{} inputs with t={}: {}", n, lib.t, e))?;
        ensure!(z(g) == w, "{}: poseidon({},{},{}) of {} inputs is {} instead of {}", C::NAME, lib.t, lib.f, lib.p, n, z(g).dec(), w.dec());
    } else {
        ctx.label("refused count");
        ensure!(got.is_err(), "{} inputs accepted with t={}", n, lib.t);
    }
    let mut r = ctx.rng();
    let sl = ctx.below(80) as usize;
    let seed: Vec<u8> = (0..sl).map(|_| r.next() as u8).collect();
    let got = guard(|| poseidon_with_salt(&ni, &seed, lib));
    if n >= 1 && n < lib.t {
        let w = rf.hash_salted(&inp, &seed);
        let g = got.map_err(|e| format!("{} salted inputs with t={}: {}", n, lib.t, e))?;
        ensure!(z(g) == w, "{}: salted poseidon({},{},{}) of {} inputs is {} instead of {}", C::NAME, lib.t, lib.f, lib.p, n, z(g).dec(), w.dec());
    } else {
        ensure!(got.is_err(), "{} inputs accepted by the salted hash with t={}", n, lib.t);
    }
    Ok(())
}

fn c07_tree(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c07_tree_f)
}
fn c07_tree_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let (lib, rf) = gen_pos::<C>(ctx, 2);
    let n = match ctx.below(25) {
        0..=5 => 1 << ctx.below(6),
        6..=11 => (1usize << ctx.below(6)) + 1,
        12 => ctx.range(41, 300),
        _ => ctx.range(1, 40),
    };
    let mut r = ctx.rng();
    let leaves: Vec<Z<C::Fr>> = (0..n).map(|_| if r.below(5) == 0 { Z::u(r.below(2)) } else { rnd_z(&mut r) }).collect();
    let nl: Vec<Num<C::Fr>> = leaves.iter().map(|x| x.n()).collect();
    ctx.label(if n.is_power_of_two() { "full tree" } else { "padded tree" });
    ctx.nontrivial();
    ctx.note(|| format!("{} {} leaves, poseidon({},{},{})", C::NAME, n, lib.t, lib.f, lib.p));
    let want = rf.tree_root(&leaves);
    let got = guard(|| poseidon_merkle_tree_root(&nl, &lib)).map_err(|e| format!("{} leaves: {}", n, e))?;
    ensure!(z(got) == want, "{}: root of {} leaves is {} instead of {}", C::NAME, n, z(got).dec(), want.dec());
    ensure!(guard(|| poseidon_merkle_tree_root::<C::Fr>(&[], &lib)).is_err(), "the empty tree has a root");
    // membership path of one leaf
    let mut depth = 0;
    while (1usize << depth) < n {
        depth += 1;
    }
    let i = ctx.below(1 << depth) as usize;
    let leaf = leaves.get(i).copied().unwrap_or(Z::zero());
    let sib: Vec<Z<C::Fr>> = (0..depth).map(|d| rf.node(&leaves, d, (i >> d) ^ 1)).collect();
    let path: Vec<bool> = (0..depth).map(|d| (i >> d) & 1 == 1).collect();
    let root = match depth {
        0 => proof_root::<C, U0>(leaf, &sib, &path, &lib)?,
        1 => proof_root::<C, U1>(leaf, &sib, &path, &lib)?,
        2 => proof_root::<C, U2>(leaf, &sib, &path, &lib)?,
        3 => proof_root::<C, U3>(leaf, &sib, &path, &lib)?,
        4 => proof_root::<C, U4>(leaf, &sib, &path, &lib)?,
        5 => proof_root::<C, U5>(leaf, &sib, &path, &lib)?,
        6 => proof_root::<C, U6>(leaf, &sib, &path, &lib)?,
        7 => proof_root::<C, U7>(leaf, &sib, &path, &lib)?,
        8 => proof_root::<C, U8>(leaf, &sib, &path, &lib)?,
        9 => proof_root::<C, U9>(leaf, &sib, &path, &lib)?,
        _ => return Ok(()),
    };
    ensure!(root == want, "{}: folding leaf {} of {} gives {} instead of the root {}", C::NAME, i, n, root.dec(), want.dec());
    Ok(())
}
fn proof_root<C: Curve, L: Unsigned>(leaf: Z<C::Fr>, sib: &[Z<C::Fr>], path: &[bool], lib: &PoseidonParams<C::Fr>) -> Result<Z<C::Fr>, String> {
    let proof = MerkleProof::<C::Fr, L> {
        sibling: sib.iter().map(|x| x.n()).collect::<SizedVec<_, L>>(),
        path: path.iter().cloned().collect::<SizedVec<_, L>>(),
    };
    guard(|| z(poseidon_merkle_proof_root(leaf.n(), &proof, lib)))
}
fn c07_path(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c07_path_f)
}
fn c07_path_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let (lib, rf) = gen_pos::<C>(ctx, 2);
    let leaf = gen_z::<C::Fr>(ctx);
    let d = *ctx.pick(&[8usize, 8, 8, 3, 8, 16, 17, 8, 24, 31, 32, 33, 40, 64]);
    let sib: Vec<Z<C::Fr>> = (0..d).map(|_| gen_z(ctx)).collect();
    let path: Vec<bool> = (0..d).map(|_| ctx.bool()).collect();
    ctx.nontrivial();
    ctx.note(|| format!("{} leaf {} path {:?}", C::NAME, leaf.dec(), path));
    let g = match d {
        3 => proof_root::<C, U3>(leaf, &sib, &path, &lib)?,
        16 => proof_root::<C, U16>(leaf, &sib, &path, &lib)?,
        17 => proof_root::<C, U17>(leaf, &sib, &path, &lib)?,
        24 => proof_root::<C, U24>(leaf, &sib, &path, &lib)?,
        31 => proof_root::<C, U31>(leaf, &sib, &path, &lib)?,
        32 => proof_root::<C, U32>(leaf, &sib, &path, &lib)?,
        33 => proof_root::<C, U33>(leaf, &sib, &path, &lib)?,
        40 => proof_root::<C, U40>(leaf, &sib, &path, &lib)?,
        64 => proof_root::<C, U64>(leaf, &sib, &path, &lib)?,
        _ => proof_root::<C, U8>(leaf, &sib, &path, &lib)?,
    };
    let w = rf.proof_root(leaf, &sib, &path);
    ensure!(g == w, "{}: path {:?} from {} folds to {} instead of {}", C::NAME, path, leaf.dec(), g.dec(), w.dec());
    Ok(())
}

// ------------------------------------------------------------------ C08

pub struct RefSig<F: Field> {
    pub s: BigUint,
    pub r: Z<F>,
    pub a: Z<F>,
}
pub fn ref_hram<C: Curve>(r: Z<C::Fr>, a: Z<C::Fr>, m: Z<C::Fr>, pos: &RefPoseidon<C::Fr>) -> BigUint {
    pos.hash_salted(&[r, a, m], b"eddsaposeidon").big()
}
pub fn ref_sign<C: Curve>(sk: &BigUint, m: Z<C::Fr>, pos: &RefPoseidon<C::Fr>) -> RefSig<C::Fr> {
    let c = C::consts();
    let be = |x: &BigUint, n: usize| {
        let b = x.to_bytes_be();
        let b = if b == [0] { vec![] } else { b };
        let mut v = vec![0u8; n - b.len()];
        v.extend_from_slice(&b);
        v
    };
    let mut d = be(sk, (c.l.bits() + 7) / 8);
    d.extend(be(&m.big(), (c.p.bits() + 7) / 8));
    let rho = BigUint::from_bytes_be(&blake2s(32, PERSONAL, &d)) % &c.l;
    ref_sign_with::<C>(sk, m, &rho, pos)
}
pub fn ref_sign_with<C: Curve>(sk: &BigUint, m: Z<C::Fr>, rho: &BigUint, pos: &RefPoseidon<C::Fr>) -> RefSig<C::Fr> {
    let c = C::consts();
    let r = c.mulg(rho).x;
    let a = c.mulg(sk).x;
    let h = ref_hram::<C>(r, a, m, pos);
    RefSig { s: (rho + h * sk) % &c.l, r, a }
}
pub fn ref_verify<C: Curve>(s: &BigUint, r: Z<C::Fr>, a: Z<C::Fr>, m: Z<C::Fr>, pos: &RefPoseidon<C::Fr>) -> Option<bool> {
    let c = C::consts();
    let pa = c.decompress(a)?;
    let pr = c.decompress(r)?;
    let h = ref_hram::<C>(r, a, m, pos);
    Some(c.mulg(s) == c.add(&c.mul_big(&pa, &h), &pr))
}

fn c08_sign(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c08_sign_f)
}
fn c08_sign_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let c = C::consts();
    let j = C::params();
    let (lib, rf) = C::pos4();
    let sk = gen_below(ctx, &c.l);
    let m = gen_z::<C::Fr>(ctx);
    ctx.nontrivial();
    ctx.note(|| format!("{} sk={} m={}", C::NAME, sk, m.dec()));
    let nsk: Num<C::Fs> = Z::from_big(&sk).n();
    let (s, r) = eddsaposeidon_sign(nsk, m.n(), lib, j);
    let (s2, r2) = eddsaposeidon_sign(nsk, m.n(), lib, j);
    ensure!(z(s) == z(s2) && z(r) == z(r2), "{}: signing twice gave different signatures", C::NAME);
    let w = ref_sign::<C>(&sk, m, rf);
    ensure!(z(r) == w.r, "{}: nonce point of sk={} m={} is {} instead of {}", C::NAME, sk, m.dec(), z(r).dec(), w.r.dec());
    ensure!(z(s).big() == w.s, "{}: signature scalar of sk={} m={} is {} instead of {}", C::NAME, sk, m.dec(), z(s).dec(), w.s);
    ensure!(eddsaposeidon_verify(s, r, w.a.n(), m.n(), lib, j), "{}: own signature of sk={} m={} refused", C::NAME, sk, m.dec());
    let la = j.edwards_g().mul(nsk, j).x;
    ensure!(z(la) == w.a, "{}: public key of {} differs", C::NAME, sk);
    Ok(())
}

/// A signature tuple, valid or subtly not; used for the native and the circuit verifier.
pub fn gen_sig_tuple<C: Curve>(ctx: &mut Ctx, rf: &RefPoseidon<C::Fr>) -> (BigUint, Z<C::Fr>, Z<C::Fr>, Z<C::Fr>, &'static str) {
    let c = C::consts();
    let sk = gen_below(ctx, &c.l);
    let m = gen_z::<C::Fr>(ctx);
    let rho = gen_below(ctx, &c.l);
    let g = if ctx.bool() { ref_sign::<C>(&sk, m, rf) } else { ref_sign_with::<C>(&sk, m, &rho, rf) };
    let one = BigUint::one();
    match ctx.below(15) {
        0 | 1 | 2 => (g.s, g.r, g.a, m, "valid"),
        3 => {
            let d = Z::u(1 + ctx.below(3));
            (g.s, g.r, g.a, m + d, "other message")
        }
        4 => {
            let d = &one + BigUint::from(ctx.below(3));
            ((g.s + d) % &c.l, g.r, g.a, m, "other scalar")
        }
        5 => ((&c.l - g.s) % &c.l, g.r, g.a, m, "negated scalar"),
        6 => (g.s, -g.r, g.a, m, "negated nonce point"),
        7 => (g.s, g.r, -g.a, m, "negated key"),
        8 => {
            let k = gen_below(ctx, &c.l);
            (g.s, c.mulg(&k).x, g.a, m, "other nonce point")
        }
        9 => {
            let k = gen_below(ctx, &c.l);
            (g.s, g.r, c.mulg(&k).x, m, "other key")
        }
        10 => {
            // x of a curve point outside the subgroup: key with a torsion component
            let pa = c.add(&c.mulg(&sk), &c.tors[1 + 2 * ctx.below(2) as usize]);
            let h = ref_hram::<C>(g.r, pa.x, m, rf);
            ((&rho + h * &sk) % &c.l, c.mulg(&rho).x, pa.x, m, "key outside the subgroup")
        }
        11 => {
            let pr = c.add(&c.mulg(&rho), &c.tors[1 + 2 * ctx.below(2) as usize]);
            let h = ref_hram::<C>(pr.x, g.a, m, rf);
            ((&rho + h * &sk) % &c.l, pr.x, g.a, m, "nonce outside the subgroup")
        }
        12 => {
            // x with no curve point
            let mut x = gen_z::<C::Fr>(ctx);
            while c.y_for_x(x).is_some() {
                x = x + Z::one();
            }
            if ctx.bool() {
                (g.s, x, g.a, m, "nonce off the curve")
            } else {
                (g.s, g.r, x, m, "key off the curve")
            }
        }
        13 => {
            // built the wrong way round: hash of swapped operands
            let h = ref_hram::<C>(g.a, g.r, m, rf);
            ((&rho + h * &sk) % &c.l, c.mulg(&rho).x, g.a, m, "wrong challenge")
        }
        _ => {
            // torsion-shifted by the order-2 point: same curve, x negated, not in the subgroup with that y
            let pr = c.add(&c.mulg(&rho), &c.tors[4]);
            (g.s, pr.x, g.a, m, "nonce shifted by the order-2 point")
        }
    }
}

fn c08_verify(ctx: &mut Ctx) -> CaseResult {
    on_curve!(ctx, c08_verify_f)
}
fn c08_verify_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let j = C::params();
    let (lib, rf) = C::pos4();
    let (s, r, a, m, kind) = gen_sig_tuple::<C>(ctx, rf);
    ctx.label(kind);
    ctx.nontrivial();
    ctx.note(|| format!("{} {}: s={} r={} a={} m={}", C::NAME, kind, s, r.dec(), a.dec(), m.dec()));
    let want = ref_verify::<C>(&s, r, a, m, rf).unwrap_or(false);
    if kind == "valid" {
        ensure!(want, "reference rejects its own signature");
    }
    ctx.label(if want { "accepted" } else { "refused" });
    let got = guard(|| eddsaposeidon_verify(Z::<C::Fs>::from_big(&s).n(), r.n(), a.n(), m.n(), lib, j))
        .map_err(|e| format!("{}: verification panicked ({}): s={} r={} a={} m={}: {}", C::NAME, kind, s, r.dec(), a.dec(), m.dec(), e))?;
    ensure!(got == want, "{}: verification of a tuple ({}) is {}: s={} r={} a={} m={}", C::NAME, kind, got, s, r.dec(), a.dec(), m.dec());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let a = vec!["field arithmetic of the pairing library's Fr (differentially checked in C01)", "reference formulas in refmath.rs"];
    vec![
        Prop {
            id: "C04",
            assumptions: a.clone(),
            subs: vec![
                Sub { name: "add", rule: "pairs of points (identity, torsion, subgroup, mixed; equal, opposite, torsion-shifted) in random projective representations against affine formulas; non-trivial: not both identity", f: c04_add, tape: 60, quick: 25000, thorough: 250000, shrink: 1500 },
                Sub { name: "mul", rule: "biased scalars times points of all classes; non-trivial: k > 1 and P not identity", f: c04_mul, tape: 40, quick: 12500, thorough: 125000, shrink: 800 },
                Sub { name: "curve_test", rule: "near misses of curve points, swapped/shifted coordinates, inconsistent t, z=0; non-trivial: candidate off the curve", f: c04_curve_test, tape: 60, quick: 20000, thorough: 200000, shrink: 1500 },
                Sub { name: "constants", rule: "constants of both curves plus random k with kG-kG; non-trivial: always", f: c04_consts, tape: 16, quick: 300, thorough: 3000, shrink: 100 },
            ],
        },
        Prop {
            id: "C05",
            assumptions: a.clone(),
            subs: vec![
                Sub { name: "subgroup", rule: "points of all classes for the subgroup test; x coordinates of such points, their negations and arbitrary x for decompression; non-trivial: point not identity", f: c05_subgroup, tape: 40, quick: 12000, thorough: 120000, shrink: 800 },
                Sub { name: "from_y", rule: "y of curve points, negated and arbitrary y, both signs; non-trivial: always", f: c05_y, tape: 40, quick: 16000, thorough: 160000, shrink: 1500 },
                Sub { name: "hash_to_curve", rule: "biased t != -1, both Elligator branches; non-trivial: always", f: c05_hash, tape: 20, quick: 12000, thorough: 120000, shrink: 1000 },
                Sub { name: "montgomery", rule: "points of all classes, pairs for the homomorphism; non-trivial: always", f: c05_mont, tape: 50, quick: 12000, thorough: 120000, shrink: 1000 },
            ],
        },
        Prop {
            id: "C06",
            assumptions: vec!["own BLAKE2s implementation (refmath.rs); rand 0.4 default byte order"],
            subs: vec![
                Sub { name: "stream", rule: "salts of 0..300 bytes or none, 1..40 mixed reads (u32, u64, bytes, field elements), two instances read differently; 1 in 400 runs past 2^16 blocks; non-trivial: salted or more than 8 reads", f: c06_stream, tape: 120, quick: 6000, thorough: 60000, shrink: 500 },
                Sub { name: "seed", rule: "seeds of 0..300 (a few up to 5000) bytes incl. block boundaries, five fields; non-trivial: always", f: c06_seed, tape: 8, quick: 8000, thorough: 100000, shrink: 500 },
                Sub { name: "params", rule: "t 1..9 (a few to 24), f 0..12 (40), p 0..70 (300) and the published sets; non-trivial: always", f: c06_params, tape: 8, quick: 800, thorough: 8000, shrink: 100 },
            ],
        },
        Prop {
            id: "C07",
            assumptions: vec!["reference permutation in refmath.rs"],
            subs: vec![
                Sub { name: "hash", rule: "t 1..6 (a few to 17), f 0..9 (40), p 0..12 (140) with random constants, or the published (4,8,54); 0..t+2 inputs, salts of 0..80 bytes; non-trivial: permitted input count", f: c07_hash, tape: 80, quick: 32000, thorough: 320000, shrink: 1500 },
                Sub { name: "tree", rule: "1..64 leaves (a few up to 300) incl. powers of two and +1, path of a random position; non-trivial: always", f: c07_tree, tape: 20, quick: 6000, thorough: 60000, shrink: 300 },
                Sub { name: "path", rule: "paths of depth 3..64 with biased siblings; non-trivial: always", f: c07_path, tape: 220, quick: 10000, thorough: 100000, shrink: 800 },
            ],
        },
        Prop {
            id: "C08",
            assumptions: vec!["Poseidon(4,8,54) reference constants; reference scheme in native2.rs"],
            subs: vec![
                Sub { name: "sign", rule: "biased keys (incl. 0, 1, l-1) and messages; non-trivial: always", f: c08_sign, tape: 30, quick: 4000, thorough: 40000, shrink: 200 },
                Sub { name: "verify", rule: "valid tuples, and tuples altered in message, scalar, nonce, key, or with coordinates outside the subgroup/off the curve; non-trivial: always", f: c08_verify, tape: 50, quick: 6000, thorough: 60000, shrink: 200 },
            ],
        },
    ]
}
