//! C01 field arithmetic, C02 conversions, C03 codecs.

use crate::engine::{guard, Prop, Sub};
use crate::ensure;
use crate::refmath::*;
use crate::tape::{CaseResult, Ctx};
use fawkes_crypto::borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::field::{Field, PrimeField};
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::MerkleProof;
use fawkes_crypto::num as fnum;
use num::bigint::{BigInt, BigUint, Sign};
use num::{One, ToPrimitive, Zero};
use typenum::{Unsigned, U0, U1, U17, U2, U3, U33, U64, U7};

/// A field under test together with its modulus written out.
pub trait FieldCase {
    type F: Field;
    const NAME: &'static str;
    const P: &'static str;
}
macro_rules! fc {
    ($n:ident, $f:ty, $p:expr) => {
        pub struct $n;
        impl FieldCase for $n {
            type F = $f;
            const NAME: &'static str = stringify!($n);
            const P: &'static str = $p;
        }
    };
}
fc!(BnFr, fawkes_crypto::native::bn256::Fr, BN_R);
fc!(BnFs, fawkes_crypto::native::bn256::Fs, BN_L);
fc!(BnFq, pairing::bn256::Fq, BN_Q);
fc!(BlsFr, fawkes_crypto::native::bls12_381::Fr, BLS_R);
fc!(BlsFs, fawkes_crypto::native::bls12_381::Fs, BLS_L);
fc!(BlsFq, pairing::bls12_381::Fq, BLS_Q);

macro_rules! on_field {
    ($ctx:expr, $f:ident) => {
        match $ctx.below(6) {
            0 => {
                $ctx.label("bn256::Fr");
                $f::<BnFr>($ctx)
            }
            1 => {
                $ctx.label("bn256::Fs");
                $f::<BnFs>($ctx)
            }
            2 => {
                $ctx.label("bls12_381::Fr");
                $f::<BlsFr>($ctx)
            }
            3 => {
                $ctx.label("bls12_381::Fs");
                $f::<BlsFs>($ctx)
            }
            4 => {
                $ctx.label("bn256::Fq");
                $f::<BnFq>($ctx)
            }
            _ => {
                $ctx.label("bls12_381::Fq");
                $f::<BlsFq>($ctx)
            }
        }
    };
}

fn lift<F: Field>(x: &BigUint) -> Num<F> {
    Z::<F>::from_big(x).n()
}
fn val<F: Field>(n: Num<F>) -> BigUint {
    z(n).big()
}

// ------------------------------------------------------------------ C01

fn c01_ops(ctx: &mut Ctx) -> CaseResult {
    on_field!(ctx, c01_ops_f)
}
fn c01_ops_f<C: FieldCase>(ctx: &mut Ctx) -> CaseResult {
    let p = big(C::P);
    ensure!(prime::<C::F>() == p, "{}: modulus is {}", C::NAME, prime::<C::F>());
    let a = gen_below(ctx, &p);
    let b = match ctx.below(6) {
        0 => a.clone(),
        1 => (&p - &a) % &p,
        2 => near(ctx, &a, &p),
        _ => gen_below(ctx, &p),
    };
    let (x, y) = (lift::<C::F>(&a), lift::<C::F>(&b));
    ctx.note(|| format!("{} a={} b={}", C::NAME, a, b));
    if a > BigUint::one() && b > BigUint::one() {
        ctx.nontrivial();
    }
    macro_rules! forms {
        ($name:expr, $op:tt, $opa:tt, $want:expr) => {{
            let want: BigUint = $want;
            let mut r1 = x;
            r1 $opa y;
            let mut r2 = x;
            r2 $opa &y;
            let got = [x $op y, &x $op y, x $op &y, &x $op &y, r1, r2];
            for (i, g) in got.iter().enumerate() {
                ensure!(val(*g) == want, "{}: {} form {} of {} and {} gave {} instead of {}", C::NAME, $name, i, a, b, val(*g), want);
                ensure!(*g == lift::<C::F>(&want), "{}: {} form {}: equality does not hold for the exact result", C::NAME, $name, i);
            }
        }};
    }
    forms!("add", +, +=, (&a + &b) % &p);
    forms!("sub", -, -=, (&a + &p - &b) % &p);
    forms!("mul", *, *=, (&a * &b) % &p);
    match mod_inv(&b, &p) {
        Some(i) => {
            forms!("div", /, /=, (&a * &i) % &p);
            ensure!(val(y.inverse()) == i, "{}: inverse of {} wrong", C::NAME, b);
        }
        None => {
            ctx.label("zero divisor");
            ensure!(guard(|| y.inverse()).is_err(), "{}: inverse of 0 returned a value", C::NAME);
            ensure!(guard(|| x / y).is_err(), "{}: {} / 0 returned a value", C::NAME, a);
            ensure!(guard(|| x / &y).is_err(), "{}: {} / &0 returned a value", C::NAME, a);
            ensure!(guard(|| &x / y).is_err(), "{}: &{} / 0 returned a value", C::NAME, a);
            ensure!(guard(|| &x / &y).is_err(), "{}: &{} / &0 returned a value", C::NAME, a);
            ensure!(guard(|| { let mut t = x; t /= y; t }).is_err(), "{}: {} /= 0 returned a value", C::NAME, a);
            ensure!(guard(|| { let mut t = x; t /= &y; t }).is_err(), "{}: {} /= &0 returned a value", C::NAME, a);
        }
    }
    let neg = (&p - &a) % &p;
    ensure!(val(-x) == neg && val(-&x) == neg, "{}: negation of {} wrong", C::NAME, a);
    ensure!(val(x.double()) == (&a << 1) % &p, "{}: double of {} wrong", C::NAME, a);
    ensure!(val(x.square()) == (&a * &a) % &p, "{}: square of {} wrong", C::NAME, a);
    ensure!((x == y) == (a == b) && (x != y) == (a != b), "{}: equality of {} and {} wrong", C::NAME, a, b);
    let odd = (&a % 2u32).is_one();
    ensure!(x.is_odd() == odd && x.is_even() == !odd, "{}: parity of {} wrong", C::NAME, a);
    ensure!(x.is_zero() == a.is_zero(), "{}: is_zero of {} wrong", C::NAME, a);
    ensure!(val(Num::<C::F>::zero()).is_zero() && val(Num::<C::F>::one()).is_one(), "{}: zero/one wrong", C::NAME);
    ensure!(val(Num::<C::F>::minusone()) == &p - 1u32, "{}: minusone wrong", C::NAME);
    Ok(())
}

/// A number that differs from `a` in a single limb or bit, of the canonical or of the Montgomery form.
fn near(ctx: &mut Ctx, a: &BigUint, p: &BigUint) -> BigUint {
    let limbs = (p.bits() + 63) / 64;
    let r = (BigUint::one() << (64 * limbs)) % p;
    let mont = ctx.bool();
    let raw = if mont { (a * &r) % p } else { a.clone() };
    let d = if ctx.bool() {
        BigUint::from(ctx.u() | 1) << (64 * ctx.below(limbs as u64) as usize)
    } else {
        BigUint::one() << ctx.below(64 * limbs as u64) as usize
    };
    let mut v = &raw ^ d;
    if v >= *p {
        // stay below the prime without touching the lower limbs
        let top = 64 * (limbs - 1);
        v = (&v % (BigUint::one() << top)) + ((BigUint::from(ctx.below(1 << 20))) << top);
    }
    ctx.label("one limb apart");
    if mont {
        (v * mod_inv(&r, p).unwrap()) % p
    } else {
        v
    }
}

fn c01_sqrt(ctx: &mut Ctx) -> CaseResult {
    on_field!(ctx, c01_sqrt_f)
}
fn c01_sqrt_f<C: FieldCase>(ctx: &mut Ctx) -> CaseResult {
    let p = big(C::P);
    let mut a = gen_below(ctx, &p);
    if ctx.bool() {
        a = (&a * &a) % &p;
    }
    if ctx.chance(1, 8) {
        // element of 2-power order: the deepest Tonelli-Shanks path
        let mut m = &p - 1u32;
        while (&m % 2u32).is_zero() {
            m = m >> 1;
        }
        a = a.modpow(&m, &p);
        ctx.label("2-power order");
    }
    let l = legendre(&a, &p);
    ctx.label(["zero", "residue", "non-residue"][l as usize]);
    if l != 0 && !a.is_one() {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{} sqrt({}) legendre class {}", C::NAME, a, l));
    let r = guard(|| lift::<C::F>(&a).sqrt()).map_err(|e| format!("{}: sqrt({}) panicked: {}", C::NAME, a, e))?;
    match (l, r) {
        (2, None) => Ok(()),
        (2, Some(r)) => Err(format!("{}: non-residue {} got root {}", C::NAME, a, val(r))),
        (_, None) => Err(format!("{}: residue {} got no root", C::NAME, a)),
        (_, Some(r)) => {
            let v = val(r);
            ensure!((&v * &v) % &p == a, "{}: sqrt({}) = {} does not square back", C::NAME, a, v);
            Ok(())
        }
    }
}

/// Straight-line programs over four registers against big integers.
fn c01_program(ctx: &mut Ctx) -> CaseResult {
    on_field!(ctx, c01_program_f)
}
fn c01_program_f<C: FieldCase>(ctx: &mut Ctx) -> CaseResult {
    let p = big(C::P);
    let mut r: Vec<BigUint> = (0..4).map(|_| gen_below(ctx, &p)).collect();
    let mut n: Vec<Num<C::F>> = r.iter().map(|x| lift(x)).collect();
    let steps = ctx.range(2, 40);
    let mut prog = vec![];
    for _ in 0..steps {
        let (d, i, j) = (ctx.below(4) as usize, ctx.below(4) as usize, ctx.below(4) as usize);
        let op = ctx.below(10);
        prog.push(format!("r{}=op{}(r{},r{})", d, op, i, j));
        let (a, b) = (r[i].clone(), r[j].clone());
        let (x, y) = (n[i], n[j]);
        let (ra, rn) = match op {
            0 => ((&a + &b) % &p, x + y),
            1 => ((&a + &p - &b) % &p, x - y),
            2 => ((&a * &b) % &p, x * y),
            3 => match mod_inv(&b, &p) {
                Some(k) => ((&a * &k) % &p, x / y),
                None => continue,
            },
            4 => ((&p - &a) % &p, -x),
            5 => ((&a << 1) % &p, x.double()),
            6 => ((&a * &a) % &p, x.square()),
            7 => {
                let mut t = n[d];
                t += &x;
                ((&r[d] + &a) % &p, t)
            }
            8 => {
                let mut t = n[d];
                t -= &x;
                ((&r[d] + &p - &a) % &p, t)
            }
            _ => {
                let mut t = n[d];
                t *= &x;
                ((&r[d] * &a) % &p, t)
            }
        };
        ensure!(val(rn) == ra, "{}: after {} register is {} instead of {}", C::NAME, prog.join(";"), val(rn), ra);
        r[d] = ra;
        n[d] = rn;
    }
    ctx.nontrivial();
    ctx.note(|| format!("{} program {}", C::NAME, prog.join(";")));
    Ok(())
}

// ------------------------------------------------------------------ C02

fn c02_ints(ctx: &mut Ctx) -> CaseResult {
    on_field!(ctx, c02_ints_f)
}
fn c02_ints_f<C: FieldCase>(ctx: &mut Ctx) -> CaseResult {
    let p = big(C::P);
    let pi = BigInt::from_biguint(Sign::Plus, p.clone());
    let red = |x: &BigInt| -> BigUint {
        let mut r = x % &pi;
        if r.sign() == Sign::Minus {
            r += &pi;
        }
        r.to_biguint().unwrap()
    };
    let w = ctx.u();
    let raw = match ctx.below(10) {
        0 => 0,
        1 => 1,
        2 => u64::max_value(),
        3 => i64::max_value() as u64,
        4 => i64::min_value() as u64,
        5 => (i64::min_value() as u64).wrapping_add(w % 5),
        6 => u32::max_value() as u64 + w % 3,
        7 => i32::min_value() as u32 as u64,
        8 => 1u64 << (w % 64),
        _ => w,
    };
    let (u6, i6, u3, i3) = (raw, raw as i64, raw as u32, raw as i32);
    ctx.note(|| format!("{} u64={} i64={} u32={} i32={}", C::NAME, u6, i6, u3, i3));
    if raw > 1 {
        ctx.nontrivial();
    }
    if i6 == i64::min_value() {
        ctx.label("i64::MIN");
    }
    if i3 == i32::min_value() {
        ctx.label("i32::MIN");
    }
    let go = |what: &str, f: &dyn Fn() -> Num<C::F>, x: BigInt| -> CaseResult {
        let want = red(&x);
        let got = guard(|| val(f())).map_err(|e| format!("{}: {} {} panicked: {}", C::NAME, what, x, e))?;
        ensure!(got == want, "{}: {} {} gave {} instead of {}", C::NAME, what, x, got, want);
        Ok(())
    };
    go("from u64", &|| Num::from(u6), BigInt::from(u6))?;
    go("from i64", &|| Num::from(i6), BigInt::from(i6))?;
    go("from u32", &|| Num::from(u3), BigInt::from(u3))?;
    go("from i32", &|| Num::from(i3), BigInt::from(i3))?;
    go("num! u64", &|| fnum!(u6), BigInt::from(u6))?;
    go("num! i32", &|| fnum!(i3), BigInt::from(i3))?;
    go("from bool", &|| Num::from(raw & 1 == 1), BigInt::from(raw & 1))?;
    Ok(())
}

fn c02_wide(ctx: &mut Ctx) -> CaseResult {
    on_field!(ctx, c02_wide_f)
}
fn c02_wide_f<C: FieldCase>(ctx: &mut Ctx) -> CaseResult {
    let p = big(C::P);
    // an integer around multiples of p, powers of two, or random of any width
    let x = match ctx.below(6) {
        0 => {
            let k = ctx.below(40);
            let d = ctx.below(5);
            let v = &p * BigUint::from(k) + 2u32;
            if v > BigUint::from(d) {
                v - d
            } else {
                BigUint::zero()
            }
        }
        1 => {
            let b = ctx.below(1200) as usize;
            (BigUint::one() << b) - BigUint::from(ctx.below(2))
        }
        2 => gen_below(ctx, &p),
        3 if ctx.chance(1, 8) => {
            let b = 900 + ctx.below(20000) as usize;
            rand_big(ctx, b)
        }
        _ => {
            let b = 1 + ctx.below(900) as usize;
            rand_big(ctx, b)
        }
    };
    let want = &x % &p;
    if x >= p {
        ctx.label("needs reduction");
    }
    if x > BigUint::one() {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{} integer {}", C::NAME, x));
    let got = val(Num::<C::F>::from(x.clone()));
    ensure!(got == want, "{}: from BigUint {} gave {}", C::NAME, x, got);
    let got = val(Num::<C::F>::from(x.to_string().as_str()));
    ensure!(got == want, "{}: from decimal string {} gave {}", C::NAME, x, got);
    let nx = BigInt::from_biguint(Sign::Minus, x.clone());
    let got = val(Num::<C::F>::from(nx));
    ensure!(got == (&p - &want) % &p, "{}: from BigInt -{} gave {}", C::NAME, x, got);
    let got = val(Num::<C::F>::from(BigInt::from_biguint(Sign::Plus, x.clone())));
    ensure!(got == want, "{}: from BigInt {} gave {}", C::NAME, x, got);
    // big-endian bytes with optional leading zeros; the empty slice is 0
    let mut by = if x.is_zero() && ctx.bool() { vec![] } else { x.to_bytes_be() };
    let pad = ctx.below(6) as usize * ctx.below(9) as usize;
    for _ in 0..pad {
        by.insert(0, 0);
    }
    let got = val(Num::<C::F>::from_binary_be(&by));
    ensure!(got == want, "{}: from_binary_be of {} bytes ({}) gave {}", C::NAME, by.len(), x, got);
    Ok(())
}

fn c02_back(ctx: &mut Ctx) -> CaseResult {
    on_field!(ctx, c02_back_f)
}
fn c02_back_f<C: FieldCase>(ctx: &mut Ctx) -> CaseResult {
    let p = big(C::P);
    let a = if ctx.chance(1, 4) {
        // around the 64-bit limit
        ((BigUint::one() << 64) + 2u32 - BigUint::from(ctx.below(5))) % &p
    } else {
        gen_below(ctx, &p)
    };
    let x = lift::<C::F>(&a);
    if a > BigUint::one() {
        ctx.nontrivial();
    }
    ctx.note(|| format!("{} element {}", C::NAME, a));
    let back: BigUint = x.into();
    ensure!(back == a, "{}: into BigUint of {} gave {}", C::NAME, a, back);
    ensure!(x.to_string() == a.to_string(), "{}: to_string of {} gave {}", C::NAME, a, x.to_string());
    let nb = (p.bits() + 7) / 8;
    let be = x.into_binary_be();
    ensure!(be.len() == nb, "{}: into_binary_be has {} bytes", C::NAME, be.len());
    ensure!(BigUint::from_bytes_be(&be) == a, "{}: into_binary_be of {} wrong", C::NAME, a);
    let le: Vec<bool> = x.iterbit_le().collect();
    let mut bb: Vec<bool> = x.iterbit_be().collect();
    ensure!(le.len() >= C::F::NUM_BITS as usize, "{}: iterbit_le yields {} bits", C::NAME, le.len());
    ensure!(from_bits_le(&le) == a, "{}: iterbit_le of {} wrong", C::NAME, a);
    bb.reverse();
    ensure!(bb.len() >= C::F::NUM_BITS as usize && from_bits_le(&bb) == a, "{}: iterbit_be of {} wrong", C::NAME, a);
    match (a.to_u64(), guard(|| Into::<u64>::into(x))) {
        (Some(w), Ok(v)) => ensure!(w == v, "{}: into u64 of {} gave {}", C::NAME, a, v),
        (Some(_), Err(e)) => return Err(format!("{}: into u64 of {} failed: {}", C::NAME, a, e)),
        (None, Ok(v)) => return Err(format!("{}: into u64 of {} gave {} although it does not fit", C::NAME, a, v)),
        (None, Err(_)) => ctx.label("u64 refused"),
    }
    let fits = a <= BigUint::one();
    match guard(|| x.into_bool()) {
        Ok(b) => ensure!(fits && b == a.is_one(), "{}: into_bool of {} gave {}", C::NAME, a, b),
        Err(_) => ensure!(!fits, "{}: into_bool of {} failed", C::NAME, a),
    }
    // other fields
    macro_rules! other {
        ($t:ident) => {{
            let w = &a % big($t::P);
            let g1 = val(x.into_other::<<$t as FieldCase>::F>());
            let g2 = val(Num::<<$t as FieldCase>::F>::from_other(x));
            ensure!(g1 == w, "{} -> {}: into_other of {} gave {}", C::NAME, $t::NAME, a, g1);
            ensure!(g2 == w, "{} -> {}: from_other of {} gave {}", C::NAME, $t::NAME, a, g2);
        }};
    }
    other!(BnFr);
    other!(BnFs);
    other!(BnFq);
    other!(BlsFr);
    other!(BlsFs);
    other!(BlsFq);
    Ok(())
}

// ------------------------------------------------------------------ C03

fn no_panic<T, F: FnOnce() -> Result<T, String>>(what: &str, f: F) -> Result<Result<T, String>, String> {
    guard(f).map_err(|e| format!("{} panicked instead of returning an error: {}", what, e))
}
fn dec_json<T: serde::de::DeserializeOwned>(s: &str) -> Result<Result<T, String>, String> {
    no_panic(&format!("JSON decoding of {}", crop(s)), || serde_json::from_str::<T>(s).map_err(|e| e.to_string()))
}
fn dec_borsh<T: BorshDeserialize>(b: &[u8]) -> Result<Result<T, String>, String> {
    no_panic("borsh decoding", || T::try_from_slice(b).map_err(|e| e.to_string()))
}
fn crop(s: &str) -> String {
    s.chars().take(300).collect()
}

fn c03_num(ctx: &mut Ctx) -> CaseResult {
    on_field!(ctx, c03_num_f)
}
fn c03_num_f<C: FieldCase>(ctx: &mut Ctx) -> CaseResult {
    let p = big(C::P);
    let a = gen_below(ctx, &p);
    let x = lift::<C::F>(&a);
    if a > BigUint::one() {
        ctx.nontrivial();
    }
    let js = serde_json::to_string(&x).map_err(|e| format!("{}: cannot encode {}: {}", C::NAME, a, e))?;
    ctx.note(|| format!("{} {}", C::NAME, js));
    ensure!(js == format!("\"{}\"", a), "{}: JSON of {} is {}", C::NAME, a, js);
    let y = dec_json::<Num<C::F>>(&js)?.map_err(|e| format!("{}: own JSON {} refused: {}", C::NAME, js, e))?;
    ensure!(val(y) == a, "{}: JSON {} decodes to {}", C::NAME, js, val(y));
    let width = ((p.bits() + 63) / 64) * 8;
    let mut le = a.to_bytes_le();
    le.resize(width, 0);
    let enc = x.try_to_vec().map_err(|e| format!("{}", e))?;
    ensure!(enc == le, "{}: binary form of {} is {:?}", C::NAME, a, enc);
    let y = dec_borsh::<Num<C::F>>(&enc)?.map_err(|e| format!("{}: own binary form of {} refused: {}", C::NAME, a, e))?;
    ensure!(val(y) == a, "{}: binary form of {} decodes to {}", C::NAME, a, val(y));
    // streaming decode consumes exactly its bytes
    let mut two = enc.clone();
    let b = gen_below(ctx, &p);
    two.extend(lift::<C::F>(&b).try_to_vec().unwrap());
    let mut s = &two[..];
    let y1 = Num::<C::F>::deserialize(&mut s).map_err(|e| format!("stream decode: {}", e))?;
    let y2 = Num::<C::F>::deserialize(&mut s).map_err(|e| format!("stream decode: {}", e))?;
    ensure!(val(y1) == a && val(y2) == b && s.is_empty(), "{}: stream of {} and {} decodes to {} and {}", C::NAME, a, b, val(y1), val(y2));
    Ok(())
}

fn c03_num_reject(ctx: &mut Ctx) -> CaseResult {
    on_field!(ctx, c03_num_reject_f)
}
fn c03_num_reject_f<C: FieldCase>(ctx: &mut Ctx) -> CaseResult {
    let p = big(C::P);
    let width = ((p.bits() + 63) / 64) * 8;
    let over = match ctx.below(5) {
        0 => p.clone() + BigUint::from(ctx.below(3)),
        1 => (BigUint::one() << (width * 8)) - 1u32 - BigUint::from(ctx.below(3)),
        2 => &p * BigUint::from(2u32) - BigUint::from(ctx.below(4)),
        3 => &p + gen_below(ctx, &p),
        _ => {
            let b = p.bits() + 1 + ctx.below(300) as usize;
            (BigUint::one() << b) + rand_big(ctx, b)
        }
    };
    ctx.nontrivial();
    ctx.note(|| format!("{} out-of-range {}", C::NAME, over));
    if let Ok(v) = dec_json::<Num<C::F>>(&format!("\"{}\"", over))? {
        return Err(format!("{}: JSON number {} (>= p) accepted as {}", C::NAME, over, val(v)));
    }
    let mut le = over.to_bytes_le();
    if le.len() <= width {
        le.resize(width, 0);
        if let Ok(v) = dec_borsh::<Num<C::F>>(&le)? {
            return Err(format!("{}: binary {} (>= p) accepted as {}", C::NAME, over, val(v)));
        }
        let mut s = &le[..];
        ensure!(
            no_panic("borsh", || Num::<C::F>::deserialize(&mut s).map(|_| ()).map_err(|e| e.to_string()))?.is_err(),
            "{}: binary {} (>= p) accepted by the streaming decoder", C::NAME, over
        );
    }
    // truncation
    let ok = lift::<C::F>(&gen_below(ctx, &p)).try_to_vec().unwrap();
    let cut = ctx.below(width as u64) as usize;
    ensure!(dec_borsh::<Num<C::F>>(&ok[..cut])?.is_err(), "{}: {} of {} bytes accepted", C::NAME, cut, width);
    // malformed text
    let v = gen_below(ctx, &p).to_string();
    let bad = match ctx.below(8) {
        0 => "\"\"".to_string(),
        1 => format!("\"-{}\"", &over % &p + 1u32),
        2 => format!("\"0x{}\"", v),
        3 => format!("\"{}a\"", v),
        4 => format!("\" {}\"", v),
        5 => format!("\"{}.0\"", v),
        6 => "null".to_string(),
        _ => format!("[\"{}\"]", v),
    };
    if let Ok(x) = dec_json::<Num<C::F>>(&bad)? {
        return Err(format!("{}: malformed JSON {} accepted as {}", C::NAME, bad, val(x)));
    }
    Ok(())
}

fn c03_structs(ctx: &mut Ctx) -> CaseResult {
    crate::on_curve!(ctx, c03_structs_f)
}
fn show_nums<F: Field>(v: &[Num<F>]) -> Vec<BigUint> {
    v.iter().map(|x| val(*x)).collect()
}
fn c03_structs_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    ctx.nontrivial();
    let p = C::consts().p.clone();
    let g = |ctx: &mut Ctx| lift::<C::Fr>(&gen_below(ctx, &p));
    // points (the codec does not check membership, so any coordinates)
    let e = EdwardsPoint { x: g(ctx), y: g(ctx) };
    let m = MontgomeryPoint { x: g(ctx), y: g(ctx) };
    let je = serde_json::to_string(&e).map_err(|e| e.to_string())?;
    let jm = serde_json::to_string(&m).map_err(|e| e.to_string())?;
    ctx.note(|| format!("{} {}", C::NAME, je));
    let want = format!("{{\"x\":\"{}\",\"y\":\"{}\"}}", val(e.x), val(e.y));
    ensure!(serde_json::from_str::<serde_json::Value>(&je).unwrap() == serde_json::from_str::<serde_json::Value>(&want).unwrap(), "Edwards point JSON {}", je);
    let e2 = dec_json::<EdwardsPoint<C::Fr>>(&je)?.map_err(|e| format!("own point JSON refused: {}", e))?;
    ensure!(e2.x.0 == e.x.0 && e2.y.0 == e.y.0, "Edwards point JSON {} decodes differently", je);
    let m2 = dec_json::<MontgomeryPoint<C::Fr>>(&jm)?.map_err(|e| format!("own point JSON refused: {}", e))?;
    ensure!(m2.x.0 == m.x.0 && m2.y.0 == m.y.0, "Montgomery point JSON {} decodes differently", jm);
    let over = (&p + BigUint::from(ctx.below(1000))).to_string();
    for bad in [
        format!("{{\"x\":\"{}\",\"y\":\"1\"}}", over),
        format!("{{\"x\":\"1\",\"y\":\"{}\"}}", over),
        "{\"x\":\"1\"}".to_string(),
        "{\"y\":\"1\"}".to_string(),
        "{}".to_string(),
        "[\"1\"]".to_string(),
    ]
    .iter()
    {
        ensure!(dec_json::<EdwardsPoint<C::Fr>>(bad)?.is_err(), "malformed Edwards point {} accepted", bad);
        ensure!(dec_json::<MontgomeryPoint<C::Fr>>(bad)?.is_err(), "malformed Montgomery point {} accepted", bad);
    }
    match ctx.below(20) {
        17 => c03_vec::<C, U17>(ctx, &p),
        18 => c03_vec::<C, U33>(ctx, &p),
        19 => c03_vec::<C, U64>(ctx, &p),
        0 | 10 | 11 => c03_vec::<C, U0>(ctx, &p),
        1 => c03_vec::<C, U1>(ctx, &p),
        2 => c03_vec::<C, U2>(ctx, &p),
        3 => c03_vec::<C, U3>(ctx, &p),
        _ => c03_vec::<C, U7>(ctx, &p),
    }
}
fn c03_vec<C: Curve, L: Unsigned>(ctx: &mut Ctx, p: &BigUint) -> CaseResult {
    ctx.label(format!("length {}", L::USIZE));
    let ns: Vec<Num<C::Fr>> = (0..L::USIZE).map(|_| lift(&gen_below(ctx, p))).collect();
    let bs: Vec<bool> = (0..L::USIZE).map(|_| ctx.bool()).collect();
    let sv: SizedVec<Num<C::Fr>, L> = ns.iter().cloned().collect();
    let bv: SizedVec<bool, L> = bs.iter().cloned().collect();
    let js = serde_json::to_string(&sv).map_err(|e| e.to_string())?;
    let back = dec_json::<SizedVec<Num<C::Fr>, L>>(&js)?.map_err(|e| format!("own vector JSON {} refused: {}", crop(&js), e))?;
    ensure!(show_nums(&back.0) == show_nums(&ns), "vector JSON {} decodes differently", crop(&js));
    let mp = MerkleProof::<C::Fr, L> { sibling: sv, path: bv };
    let jp = serde_json::to_string(&mp).map_err(|e| e.to_string())?;
    let mb = dec_json::<MerkleProof<C::Fr, L>>(&jp)?.map_err(|e| format!("own proof JSON refused: {}", e))?;
    ensure!(show_nums(&mb.sibling.0) == show_nums(&ns) && mb.path.0 == bs, "Merkle proof JSON {} decodes differently", crop(&jp));
    // nested vectors
    let nest: SizedVec<SizedVec<Num<C::Fr>, U2>, L> =
        ns.iter().map(|x| vec![*x, *x].into_iter().collect::<SizedVec<_, U2>>()).collect();
    let jn = serde_json::to_string(&nest).map_err(|e| e.to_string())?;
    let nb = dec_json::<SizedVec<SizedVec<Num<C::Fr>, U2>, L>>(&jn)?.map_err(|e| format!("own nested JSON refused: {}", e))?;
    ensure!(nb.iter().zip(ns.iter()).all(|(v, x)| v.0.len() == 2 && v[0].0 == x.0 && v[1].0 == x.0), "nested vector decodes differently");
    // wrong lengths
    let k = match ctx.below(4) {
        0 => L::USIZE + 1,
        1 => (2 * L::USIZE).saturating_sub(1),
        _ => ctx.below(10) as usize,
    };
    if k != L::USIZE {
        let lst: Vec<String> = (0..k).map(|i| format!("\"{}\"", i)).collect();
        let lb: Vec<String> = (0..k).map(|i| format!("{}", i % 2 == 0)).collect();
        let wrong = format!("[{}]", lst.join(","));
        let wrongb = format!("[{}]", lb.join(","));
        ctx.label("wrong length");
        ensure!(dec_json::<SizedVec<Num<C::Fr>, L>>(&wrong)?.is_err(), "a vector of declared length {} accepted {} elements: {}", L::USIZE, k, wrong);
        ensure!(dec_json::<SizedVec<bool, L>>(&wrongb)?.is_err(), "a vector of declared length {} accepted {} elements: {}", L::USIZE, k, wrongb);
        let gs = serde_json::to_string(&ns.iter().map(|x| x.to_string()).collect::<Vec<_>>()).unwrap();
        let gb = serde_json::to_string(&bs).unwrap();
        for bad in [
            format!("{{\"sibling\":{},\"path\":{}}}", wrong, wrongb),
            format!("{{\"sibling\":{},\"path\":{}}}", gs, wrongb),
            format!("{{\"sibling\":{},\"path\":{}}}", wrong, gb),
        ]
        .iter()
        {
            ensure!(dec_json::<MerkleProof<C::Fr, L>>(bad)?.is_err(), "a Merkle proof of depth {} accepted {}", L::USIZE, bad);
        }
        if L::USIZE > 0 && k != 2 {
            let mut parts: Vec<String> = (0..L::USIZE).map(|_| "[\"1\",\"2\"]".to_string()).collect();
            let at = ctx.below(L::USIZE as u64) as usize;
            parts[at] = wrong.clone();
            let bad = format!("[{}]", parts.join(","));
            ensure!(dec_json::<SizedVec<SizedVec<Num<C::Fr>, U2>, L>>(&bad)?.is_err(), "nested vector accepted {}", bad);
        }
        // collecting the wrong number of elements is refused too
        ensure!(guard(|| (0..k).map(|i| Num::<C::Fr>::from(i as u64)).collect::<SizedVec<_, L>>()).is_err(), "collecting {} elements into length {} succeeded", k, L::USIZE);
    }
    // out-of-range element
    if L::USIZE > 0 {
        let mut parts: Vec<String> = ns.iter().map(|x| format!("\"{}\"", val(*x))).collect();
        let at = ctx.below(L::USIZE as u64) as usize;
        parts[at] = format!("\"{}\"", p + BigUint::from(ctx.below(5)));
        let bad = format!("[{}]", parts.join(","));
        ensure!(dec_json::<SizedVec<Num<C::Fr>, L>>(&bad)?.is_err(), "vector with element >= p accepted: {}", crop(&bad));
    }
    Ok(())
}

/// Byte-level mutation of valid encodings: never a panic, and whatever is accepted
/// re-encodes to something that decodes to the same value.
fn c03_mutate(ctx: &mut Ctx) -> CaseResult {
    crate::on_curve!(ctx, c03_mutate_f)
}
pub fn mutate(ctx: &mut Ctx, b: &mut Vec<u8>, textual: bool) {
    let n = 1 + ctx.below(4);
    for _ in 0..n {
        if b.is_empty() {
            b.push(ctx.u() as u8);
            continue;
        }
        let i = ctx.below(b.len() as u64) as usize;
        match ctx.below(6) {
            0 => {
                b.remove(i);
            }
            1 => {
                let v = b[i];
                b.insert(i, v);
            }
            2 => b.truncate(i),
            3 if textual => b[i] = *ctx.pick(b"0123456789\"[]{},:-+e.\\ntfx "),
            4 => {
                let j = ctx.below(b.len() as u64) as usize;
                b.swap(i, j);
            }
            3 | _ => b[i] ^= 1 << ctx.below(8),
        }
    }
}
fn c03_mutate_f<C: Curve>(ctx: &mut Ctx) -> CaseResult {
    let p = C::consts().p.clone();
    let ns: Vec<Num<C::Fr>> = (0..3).map(|_| lift(&gen_below(ctx, &p))).collect();
    let mp = MerkleProof::<C::Fr, U3> {
        sibling: ns.iter().cloned().collect(),
        path: (0..3).map(|_| ctx.bool()).collect(),
    };
    let mut js = serde_json::to_vec(&mp).unwrap();
    mutate(ctx, &mut js, true);
    let s = String::from_utf8_lossy(&js).to_string();
    ctx.note(|| format!("mutated {}", s));
    ctx.nontrivial();
    match dec_json::<MerkleProof<C::Fr, U3>>(&s)? {
        Err(_) => ctx.label("refused"),
        Ok(v) => {
            ctx.label("accepted");
            ensure!(v.sibling.0.len() == 3 && v.path.0.len() == 3, "accepted a proof of the wrong depth: {}", s);
            let r = serde_json::to_string(&v).map_err(|e| e.to_string())?;
            let w = dec_json::<MerkleProof<C::Fr, U3>>(&r)?.map_err(|e| format!("re-encoding refused: {}", e))?;
            ensure!(show_nums(&w.sibling.0) == show_nums(&v.sibling.0) && w.path.0 == v.path.0, "{} does not survive re-encoding", s);
        }
    }
    let mut bin = ns[0].try_to_vec().unwrap();
    mutate(ctx, &mut bin, false);
    match dec_borsh::<Num<C::Fr>>(&bin)? {
        Err(_) => {}
        Ok(v) => {
            ensure!(v.try_to_vec().unwrap() == bin, "binary form {:?} accepted but is not the canonical form", bin);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            assumptions: vec!["big-integer arithmetic of num-bigint 0.2 and the moduli written in refmath.rs"],
            subs: vec![
                Sub { name: "ops", rule: "field chosen among six, operands biased to 0, ±1, powers of two, (p±1)/2, equal/opposite pairs, pairs one limb or bit apart in canonical or Montgomery form; every operator form against big integers; non-trivial: both operands > 1", f: c01_ops, tape: 40, quick: 36000, thorough: 400000, shrink: 4000 },
                Sub { name: "sqrt", rule: "elements and squares, elements of 2-power order, against the Euler criterion; non-trivial: not 0 or 1", f: c01_sqrt, tape: 24, quick: 12000, thorough: 120000, shrink: 2000 },
                Sub { name: "program", rule: "straight-line programs of 2..40 operations on four registers; non-trivial: always", f: c01_program, tape: 260, quick: 7500, thorough: 80000, shrink: 4000 },
            ],
        },
        Prop {
            id: "C02",
            assumptions: vec!["decimal strings are canonical (no sign, no leading zero)"],
            subs: vec![
                Sub { name: "machine_ints", rule: "64-bit words biased to the extremes of every machine integer type; non-trivial: word > 1", f: c02_ints, tape: 6, quick: 150000, thorough: 1500000, shrink: 2000 },
                Sub { name: "wide", rule: "integers up to 1200 (a few up to 20900) bits around multiples of p and powers of two, as BigUint, ±BigInt, decimal text and padded bytes; non-trivial: > 1", f: c02_wide, tape: 40, quick: 150000, thorough: 1500000, shrink: 2000 },
                Sub { name: "back", rule: "elements biased to boundaries (incl. 2^64±2) into integers, text, bytes, bits, bool and all six fields; non-trivial: > 1", f: c02_back, tape: 30, quick: 90000, thorough: 900000, shrink: 2000 },
            ],
        },
        Prop {
            id: "C03",
            assumptions: vec!["text forms with a sign, underscore or leading zeros are left unspecified"],
            subs: vec![
                Sub { name: "num", rule: "elements of six fields through JSON and borsh, checked against the written-out form; non-trivial: > 1", f: c03_num, tape: 40, quick: 48000, thorough: 480000, shrink: 2000 },
                Sub { name: "num_reject", rule: "values >= p, truncations, malformed text; non-trivial: always", f: c03_num_reject, tape: 40, quick: 48000, thorough: 480000, shrink: 2000 },
                Sub { name: "structs", rule: "points, vectors (lengths 0,1,2,3,7,17,33,64), nested vectors, Merkle proofs; wrong lengths and out-of-range elements; non-trivial: always", f: c03_structs, tape: 160, quick: 48000, thorough: 480000, shrink: 3000 },
                Sub { name: "mutate", rule: "1-4 byte-level mutations of valid encodings; non-trivial: always", f: c03_mutate, tape: 60, quick: 48000, thorough: 480000, shrink: 2000 },
            ],
        },
    ]
}
