//! Reference mathematics, written against the underlying field library (`ff`/`pairing`) and
//! big integers only. Nothing in this file calls code of the crate under test except for the
//! type parameters (`Num` is only wrapped/unwrapped through its public field).

use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams};
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use num::{One, Zero};
use std::ops::{Add, Mul, Neg, Sub};

use crate::tape::{Ctx, SplitMix};

// ---------------------------------------------------------------- big integers

pub fn big(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}

pub fn mod_inv(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    let a = a % p;
    if a.is_zero() {
        None
    } else {
        Some(a.modpow(&(p - BigUint::from(2u32)), p))
    }
}

/// Euler criterion: 0 zero, 1 residue, 2 non-residue
pub fn legendre(a: &BigUint, p: &BigUint) -> u8 {
    let a = a % p;
    if a.is_zero() {
        return 0;
    }
    let e = (p - BigUint::one()) >> 1;
    if a.modpow(&e, p).is_one() {
        1
    } else {
        2
    }
}

pub fn bits_le(x: &BigUint, n: usize) -> Vec<bool> {
    let b = x.to_bytes_le();
    (0..n).map(|i| b.get(i / 8).map(|v| (v >> (i % 8)) & 1 == 1).unwrap_or(false)).collect()
}

pub fn from_bits_le(b: &[bool]) -> BigUint {
    let mut r = BigUint::zero();
    for (i, x) in b.iter().enumerate() {
        if *x {
            r += BigUint::one() << i;
        }
    }
    r
}

// ---------------------------------------------------------------- field wrapper

/// Raw field element with operators that go straight to the field library.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Z<F: Field>(pub F);

impl<F: Field> Add for Z<F> {
    type Output = Z<F>;
    fn add(mut self, o: Z<F>) -> Z<F> {
        self.0.add_assign(&o.0);
        self
    }
}
impl<F: Field> Sub for Z<F> {
    type Output = Z<F>;
    fn sub(mut self, o: Z<F>) -> Z<F> {
        self.0.sub_assign(&o.0);
        self
    }
}
impl<F: Field> Mul for Z<F> {
    type Output = Z<F>;
    fn mul(mut self, o: Z<F>) -> Z<F> {
        self.0.mul_assign(&o.0);
        self
    }
}
impl<F: Field> Neg for Z<F> {
    type Output = Z<F>;
    fn neg(mut self) -> Z<F> {
        self.0.negate();
        self
    }
}
impl<F: Field> Z<F> {
    pub fn zero() -> Self {
        Z(F::zero())
    }
    pub fn one() -> Self {
        Z(F::one())
    }
    pub fn u(n: u64) -> Self {
        let mut r = F::zero().into_repr();
        r.as_mut()[0] = n;
        Z(F::from_repr(r).unwrap())
    }
    pub fn sq(self) -> Self {
        self * self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    pub fn inv(self) -> Option<Self> {
        self.0.inverse().map(Z)
    }
    pub fn div(self, o: Self) -> Self {
        self * o.inv().expect("reference division by zero")
    }
    pub fn big(&self) -> BigUint {
        let r = self.0.into_repr();
        let mut out = vec![];
        for l in r.as_ref() {
            out.extend_from_slice(&l.to_le_bytes());
        }
        BigUint::from_bytes_le(&out)
    }
    /// Reduces mod the field prime (taken from the field library).
    pub fn from_big(x: &BigUint) -> Self {
        let p = prime::<F>();
        let x = x % &p;
        let b = x.to_bytes_le();
        let mut r = F::zero().into_repr();
        for (i, l) in r.as_mut().iter_mut().enumerate() {
            let mut v = 0u64;
            for j in 0..8 {
                v |= (*b.get(i * 8 + j).unwrap_or(&0) as u64) << (8 * j);
            }
            *l = v;
        }
        Z(F::from_repr(r).unwrap())
    }
    pub fn odd(&self) -> bool {
        self.0.into_repr().as_ref()[0] & 1 == 1
    }
    pub fn pow_big(self, e: &BigUint) -> Self {
        let n = e.bits();
        let mut r = Z::one();
        for b in bits_le(e, n).into_iter().rev() {
            r = r.sq();
            if b {
                r = r * self;
            }
        }
        r
    }
    /// Square root by the field library (used for the pairing library's own fields only).
    pub fn sqrt(self) -> Option<Self> {
        if self.is_zero() {
            return Some(self);
        }
        self.0.sqrt().map(Z)
    }
    pub fn even_root(self) -> Option<Self> {
        self.sqrt().map(|r| if r.odd() { -r } else { r })
    }
    pub fn n(self) -> Num<F> {
        Num(self.0)
    }
    pub fn dec(&self) -> String {
        self.big().to_string()
    }
}
pub fn z<F: Field>(n: Num<F>) -> Z<F> {
    Z(n.0)
}

pub fn prime<F: Field>() -> BigUint {
    let c = F::char();
    let mut out = vec![];
    for l in c.as_ref() {
        out.extend_from_slice(&l.to_le_bytes());
    }
    BigUint::from_bytes_le(&out)
}

/// Roots of a2 x^2 + a1 x + a0 (not all zero coefficients: None means "every x")
pub fn quad_roots<F: Field>(a2: Z<F>, a1: Z<F>, a0: Z<F>) -> Option<Vec<Z<F>>> {
    if a2.is_zero() {
        if a1.is_zero() {
            return if a0.is_zero() { None } else { Some(vec![]) };
        }
        return Some(vec![-(a0.div(a1))]);
    }
    if a0.is_zero() {
        let r = if a1.is_zero() {
            Z::zero()
        } else if a1 == -a2 {
            Z::one()
        } else {
            -(a1.div(a2))
        };
        return Some(if r.is_zero() { vec![r] } else { vec![Z::zero(), r] });
    }
    let disc = a1.sq() - Z::u(4) * a2 * a0;
    let i = (Z::u(2) * a2).inv().unwrap();
    Some(match disc.sqrt() {
        None => vec![],
        Some(s) => {
            if s.is_zero() {
                vec![-a1 * i]
            } else {
                vec![(s - a1) * i, (-s - a1) * i]
            }
        }
    })
}

// ---------------------------------------------------------------- BLAKE2s (RFC 7693)

const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake2s(outlen: usize, personal: &[u8; 8], data: &[u8]) -> Vec<u8> {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ outlen as u32;
    h[6] ^= u32::from_le_bytes([personal[0], personal[1], personal[2], personal[3]]);
    h[7] ^= u32::from_le_bytes([personal[4], personal[5], personal[6], personal[7]]);
    let nblocks = if data.is_empty() { 1 } else { (data.len() + 63) / 64 };
    for bi in 0..nblocks {
        let s = bi * 64;
        let e = (s + 64).min(data.len());
        let mut block = [0u8; 64];
        block[..e - s].copy_from_slice(&data[s..e]);
        let last = bi == nblocks - 1;
        let t = if last { data.len() as u64 } else { (s + 64) as u64 };
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
        }
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u32;
        v[13] ^= (t >> 32) as u32;
        if last {
            v[14] = !v[14];
        }
        fn g(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        }
        for r in 0..10 {
            let s = &SIGMA[r];
            g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out = vec![];
    for x in h.iter() {
        out.extend_from_slice(&x.to_le_bytes());
    }
    out.truncate(outlen);
    out
}

pub const PERSONAL: &[u8; 8] = b"__fawkes";
const NOPERS: &[u8; 8] = &[0; 8];

/// The seeded stream: word i of BLAKE2s(person="__fawkes", le64(counter) || BLAKE2s(salt)?).
pub struct RefSeedbox {
    salt: Option<Vec<u8>>,
    pub ctr: u64,
    pub words: Vec<u32>,
}
impl RefSeedbox {
    pub fn new(salt: Option<&[u8]>) -> Self {
        RefSeedbox { salt: salt.map(|s| blake2s(32, NOPERS, s)), ctr: 0, words: vec![] }
    }
    pub fn word(&mut self) -> u32 {
        if self.words.is_empty() {
            let mut d = self.ctr.to_le_bytes().to_vec();
            self.ctr += 1;
            if let Some(s) = &self.salt {
                d.extend_from_slice(s);
            }
            let h = blake2s(32, PERSONAL, &d);
            self.words = h.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        }
        self.words.remove(0)
    }
    pub fn dword(&mut self) -> u64 {
        let hi = self.word() as u64;
        (hi << 32) | self.word() as u64
    }
    /// Rejection-sampled field element: little-endian limbs, masked to the bit length,
    /// read as the Montgomery form (value = raw * 2^-(64*limbs) mod p).
    pub fn field<F: Field>(&mut self) -> Z<F> {
        let p = prime::<F>();
        let bits = p.bits();
        let limbs = (bits + 63) / 64;
        loop {
            let mut raw = BigUint::zero();
            for i in 0..limbs {
                raw += BigUint::from(self.dword()) << (64 * i);
            }
            raw = raw % (BigUint::one() << bits);
            if raw < p {
                let r = BigUint::one() << (64 * limbs);
                return Z::from_big(&(raw * mod_inv(&r, &p).unwrap()));
            }
        }
    }
}

pub fn ref_from_seed<F: Field>(seed: &[u8]) -> Z<F> {
    let n = (prime::<F>().bits() + 7) / 8;
    Z::from_big(&BigUint::from_bytes_be(&blake2s(n, PERSONAL, seed)))
}

// ---------------------------------------------------------------- Poseidon reference

pub struct RefPoseidon<F: Field> {
    pub c: Vec<Z<F>>,
    pub m: Vec<Vec<Z<F>>>,
    pub t: usize,
    pub f: usize,
    pub p: usize,
}

impl<F: Field> RefPoseidon<F> {
    pub fn derive(t: usize, f: usize, p: usize) -> Self {
        let salt = format!("fawkes_poseidon(t={},f={},p={})", t, f, p);
        let mut sb = RefSeedbox::new(Some(salt.as_bytes()));
        let c = (0..f + p).map(|_| sb.field()).collect();
        let m = (0..t).map(|_| (0..t).map(|_| sb.field()).collect()).collect();
        RefPoseidon { c, m, t, f, p }
    }
    pub fn hash(&self, inp: &[Z<F>]) -> Z<F> {
        let mut s: Vec<Z<F>> = inp.to_vec();
        s.resize(self.t, Z::zero());
        let lead = self.f / 2;
        for r in 0..self.f + self.p {
            for x in s.iter_mut() {
                *x = *x + self.c[r];
            }
            let full = r < lead || r >= lead + self.p;
            for j in 0..self.t {
                if full || j == 0 {
                    let a = s[j];
                    s[j] = a * a * a * a * a;
                }
            }
            let old = s.clone();
            for i in 0..self.t {
                let mut acc = Z::zero();
                for j in 0..self.t {
                    acc = acc + self.m[i][j] * old[j];
                }
                s[i] = acc;
            }
        }
        s[0]
    }
    pub fn hash_salted(&self, inp: &[Z<F>], seed: &[u8]) -> Z<F> {
        let mut v = inp.to_vec();
        v.push(ref_from_seed(seed));
        self.hash(&v)
    }
    pub fn proof_root(&self, leaf: Z<F>, sib: &[Z<F>], path: &[bool]) -> Z<F> {
        let mut r = leaf;
        for (s, p) in sib.iter().zip(path) {
            r = if *p { self.hash(&[*s, r]) } else { self.hash(&[r, *s]) };
        }
        r
    }
    /// recursive definition of the zero-padded complete tree
    pub fn tree_root(&self, leaves: &[Z<F>]) -> Z<F> {
        let mut depth = 0;
        while (1usize << depth) < leaves.len() {
            depth += 1;
        }
        self.node(leaves, depth, 0)
    }
    pub fn node(&self, leaves: &[Z<F>], depth: usize, idx: usize) -> Z<F> {
        if depth == 0 {
            return leaves.get(idx).copied().unwrap_or(Z::zero());
        }
        let l = self.node(leaves, depth - 1, 2 * idx);
        let r = self.node(leaves, depth - 1, 2 * idx + 1);
        self.hash(&[l, r])
    }
}

// ---------------------------------------------------------------- curves

pub trait Curve: 'static + Clone + Copy + std::fmt::Debug + Send + Sync {
    type Fr: Field;
    type Fs: Field;
    type J: JubJubParams<Fr = Self::Fr, Fs = Self::Fs> + Sync + Send;
    const NAME: &'static str;
    fn consts() -> &'static CurveConsts<Self::Fr>;
    fn params() -> &'static Self::J;
    fn new_params() -> Self::J;
    /// Library Poseidon parameters and their reference twin, for the standard (4,8,54).
    fn pos4() -> &'static (fawkes_crypto::native::poseidon::PoseidonParams<Self::Fr>, RefPoseidon<Self::Fr>);
}

pub struct CurveConsts<F: Field> {
    pub p: BigUint,
    pub l: BigUint,
    pub d: Z<F>,
    pub ma: Z<F>,
    pub mb: Z<F>,
    pub mu: Z<F>,
    pub g: Pt<F>,
    /// the 8 points of the torsion subgroup: tors[i] = i * T, T of order 8
    pub tors: Vec<Pt<F>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pt<F: Field> {
    pub x: Z<F>,
    pub y: Z<F>,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Bn;
#[derive(Clone, Copy, Debug, Default)]
pub struct Bls;

pub const BN_R: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
pub const BN_Q: &str = "21888242871839275222246405745257275088696311157297823662689037894645226208583";
pub const BN_L: &str = "2736030358979909402780800718157159386076813972158567259200215660948447373041";
pub const BLS_R: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
pub const BLS_Q: &str = "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787";
pub const BLS_L: &str = "6554484396890773809930967563523245729705921265872317281365359162392183254199";

fn mk_consts<F: Field>(p: &str, l: &str, dn: u64, dd: u64, a: u64, mu: u64) -> CurveConsts<F> {
    let d = -(Z::u(dn).div(Z::u(dd)));
    let one = Z::one();
    let mb = -(Z::u(4).div(one + d));
    let mut c = CurveConsts {
        p: big(p),
        l: big(l),
        d,
        ma: Z::u(a),
        mb,
        mu: Z::u(mu),
        g: Pt { x: Z::zero(), y: Z::one() },
        tors: vec![],
    };
    assert!(c.ma == Z::u(2).div(one + d) * (one - d), "reference constants inconsistent");
    c.g = c.hash_to_curve(ref_from_seed(b"edwards_g"));
    // torsion
    let mut y = Z::u(2);
    loop {
        if let Some(x) = c.x_for_y(y) {
            let q = Pt { x, y };
            let t = c.mul_big(&q, &c.l);
            let t4 = c.dbl(&c.dbl(&t));
            if t4 != c.id() {
                let mut acc = c.id();
                for _ in 0..8 {
                    c.tors.push(acc);
                    acc = c.add(&acc, &t);
                }
                assert!(acc == c.id());
                break;
            }
        }
        y = y + Z::one();
    }
    c
}

impl<F: Field> CurveConsts<F> {
    pub fn id(&self) -> Pt<F> {
        Pt { x: Z::zero(), y: Z::one() }
    }
    pub fn on_curve(&self, p: &Pt<F>) -> bool {
        let (x2, y2) = (p.x.sq(), p.y.sq());
        y2 - x2 == Z::one() + self.d * x2 * y2
    }
    /// affine a=-1 twisted Edwards addition law (complete here: d is a non-square, -1 a square)
    pub fn add(&self, a: &Pt<F>, b: &Pt<F>) -> Pt<F> {
        let k = self.d * a.x * b.x * a.y * b.y;
        Pt {
            x: (a.x * b.y + a.y * b.x).div(Z::one() + k),
            y: (a.y * b.y + a.x * b.x).div(Z::one() - k),
        }
    }
    pub fn dbl(&self, a: &Pt<F>) -> Pt<F> {
        self.add(a, a)
    }
    pub fn neg(&self, a: &Pt<F>) -> Pt<F> {
        Pt { x: -a.x, y: a.y }
    }
    /// projective double-and-add, independent formulas ("add-2008-bbjlp")
    pub fn mul_big(&self, a: &Pt<F>, k: &BigUint) -> Pt<F> {
        let mut r = (Z::zero(), Z::one(), Z::one());
        let q = (a.x, a.y, Z::one());
        let padd = |p: &(Z<F>, Z<F>, Z<F>), q: &(Z<F>, Z<F>, Z<F>)| {
            let aa = p.2 * q.2;
            let b = aa.sq();
            let c = p.0 * q.0;
            let dd = p.1 * q.1;
            let e = self.d * c * dd;
            let f = b - e;
            let g = b + e;
            let x3 = aa * f * ((p.0 + p.1) * (q.0 + q.1) - c - dd);
            let y3 = aa * g * (dd + c);
            (x3, y3, f * g)
        };
        for b in bits_le(k, k.bits()).into_iter().rev() {
            r = padd(&r, &r);
            if b {
                r = padd(&r, &q);
            }
        }
        let i = r.2.inv().unwrap();
        Pt { x: r.0 * i, y: r.1 * i }
    }
    pub fn in_subgroup(&self, a: &Pt<F>) -> bool {
        self.on_curve(a) && self.mul_big(a, &self.l) == self.id()
    }
    pub fn x_for_y(&self, y: Z<F>) -> Option<Z<F>> {
        let y2 = y.sq();
        (y2 - Z::one()).div(self.d * y2 + Z::one()).sqrt()
    }
    pub fn y_for_x(&self, x: Z<F>) -> Option<Z<F>> {
        let x2 = x.sq();
        (x2 + Z::one()).div(Z::one() - self.d * x2).sqrt()
    }
    pub fn decompress(&self, x: Z<F>) -> Option<Pt<F>> {
        let y = self.y_for_x(x)?;
        for y in [y, -y].iter() {
            let p = Pt { x, y: *y };
            if self.in_subgroup(&p) {
                return Some(p);
            }
        }
        None
    }
    pub fn mont_g(&self, x: Z<F>) -> Z<F> {
        (x * x * x + self.ma * x * x + x).div(self.mb)
    }
    /// Elligator-style map of the library, cofactor cleared
    pub fn hash_to_curve(&self, t: Z<F>) -> Pt<F> {
        let t = t + Z::one();
        let k = t.sq() * self.mu;
        let x2 = -((Z::one() + k.inv().unwrap()).div(self.ma));
        let (x, y) = match self.mont_g(x2).even_root() {
            Some(y) => (x2, y),
            None => {
                let x3 = x2 * k;
                (x3, self.mont_g(x3).even_root().unwrap())
            }
        };
        let e = self.from_mont(x, y);
        self.dbl(&self.dbl(&self.dbl(&e)))
    }
    pub fn from_mont(&self, x: Z<F>, y: Z<F>) -> Pt<F> {
        if x.is_zero() {
            Pt { x: Z::zero(), y: -Z::one() }
        } else {
            Pt { x: x.div(y), y: (x - Z::one()).div(x + Z::one()) }
        }
    }
    pub fn to_mont(&self, p: &Pt<F>) -> Option<(Z<F>, Z<F>)> {
        if p.x.is_zero() {
            if p.y == Z::one() {
                None
            } else {
                Some((Z::zero(), Z::zero()))
            }
        } else {
            let u = (Z::one() + p.y).div(Z::one() - p.y);
            Some((u, u.div(p.x)))
        }
    }
    /// scalar multiple of a subgroup point
    pub fn mulg(&self, k: &BigUint) -> Pt<F> {
        self.mul_big(&self.g, k)
    }
}

impl<F: Field> Pt<F> {
    pub fn e(&self) -> EdwardsPoint<F> {
        EdwardsPoint { x: Num(self.x.0), y: Num(self.y.0) }
    }
    pub fn of(p: &EdwardsPoint<F>) -> Self {
        Pt { x: Z(p.x.0), y: Z(p.y.0) }
    }
    pub fn show(&self) -> String {
        format!("({}, {})", self.x.dec(), self.y.dec())
    }
}

macro_rules! once {
    ($t:ty, $e:expr) => {{
        use std::sync::OnceLock;
        static C: OnceLock<$t> = OnceLock::new();
        C.get_or_init(|| $e)
    }};
}

use fawkes_crypto::native::{bls12_381, bn256, poseidon::PoseidonParams};

impl Curve for Bn {
    type Fr = bn256::Fr;
    type Fs = bn256::Fs;
    type J = bn256::JubJubBN256;
    const NAME: &'static str = "bn256";
    fn consts() -> &'static CurveConsts<bn256::Fr> {
        once!(CurveConsts<bn256::Fr>, mk_consts(BN_R, BN_L, 168696, 168700, 168698, 337401))
    }
    fn new_params() -> Self::J {
        bn256::JubJubBN256::new()
    }
    fn params() -> &'static Self::J {
        once!(bn256::JubJubBN256, bn256::JubJubBN256::new())
    }
    fn pos4() -> &'static (PoseidonParams<bn256::Fr>, RefPoseidon<bn256::Fr>) {
        once!(
            (PoseidonParams<bn256::Fr>, RefPoseidon<bn256::Fr>),
            (PoseidonParams::new(4, 8, 54), RefPoseidon::derive(4, 8, 54))
        )
    }
}
impl Curve for Bls {
    type Fr = bls12_381::Fr;
    type Fs = bls12_381::Fs;
    type J = bls12_381::JubJubBLS12_381;
    const NAME: &'static str = "bls12_381";
    fn consts() -> &'static CurveConsts<bls12_381::Fr> {
        once!(CurveConsts<bls12_381::Fr>, mk_consts(BLS_R, BLS_L, 10240, 10241, 40962, 81929))
    }
    fn new_params() -> Self::J {
        bls12_381::JubJubBLS12_381::new()
    }
    fn params() -> &'static Self::J {
        once!(bls12_381::JubJubBLS12_381, bls12_381::JubJubBLS12_381::new())
    }
    fn pos4() -> &'static (PoseidonParams<bls12_381::Fr>, RefPoseidon<bls12_381::Fr>) {
        once!(
            (PoseidonParams<bls12_381::Fr>, RefPoseidon<bls12_381::Fr>),
            (PoseidonParams::new(4, 8, 54), RefPoseidon::derive(4, 8, 54))
        )
    }
}

// ---------------------------------------------------------------- generators

pub fn rand_big(ctx: &mut Ctx, bits: usize) -> BigUint {
    let n = (bits + 63) / 64;
    let mut r = BigUint::zero();
    for i in 0..n {
        r += BigUint::from(ctx.u()) << (64 * i);
    }
    r % (BigUint::one() << bits)
}

/// Integer below p, biased to the interesting places; the class is recorded as a label.
/// 64-bit words or bytes that are zero, all ones, extreme or random
fn patterned(ctx: &mut Ctx, nb: usize) -> BigUint {
    let mut r = ctx.rng();
    let mut x = BigUint::zero();
    if ctx.chance(2, 3) {
        for i in 0..(nb + 63) / 64 {
            let w = match ctx.below(6) {
                0 | 1 => 0,
                2 => u64::max_value(),
                3 => 1,
                4 => 1 << 63,
                _ => r.next(),
            };
            x += BigUint::from(w) << (64 * i);
        }
    } else {
        let n = (nb + 7) / 8;
        let (a, b) = (ctx.below(n as u64 + 1) as usize, ctx.below(n as u64 + 1) as usize);
        let fill = if ctx.bool() { 0u64 } else { 255 };
        for i in 0..n {
            let w = if i >= a.min(b) && i < a.max(b) { fill } else { r.below(256) };
            x += BigUint::from(w) << (8 * i);
        }
    }
    x
}
/// inverse of 2^(64 * words) modulo the prime p
fn mont_inv(p: &BigUint) -> BigUint {
    thread_local! {
        static CACHE: std::cell::RefCell<Vec<(BigUint, BigUint)>> = std::cell::RefCell::new(vec![]);
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(e) = c.iter().find(|e| e.0 == *p) {
            return e.1.clone();
        }
        let r = (BigUint::one() << ((p.bits() + 63) / 64 * 64)) % p;
        let i = r.modpow(&(p - BigUint::from(2u32)), p);
        c.push((p.clone(), i.clone()));
        i
    })
}
pub fn gen_below(ctx: &mut Ctx, p: &BigUint) -> BigUint {
    let one = BigUint::one();
    let nb = p.bits();
    match ctx.below(16) {
        0 => BigUint::from(ctx.below(4)),
        1 => BigUint::from(ctx.below(1 << 16)) % p,
        2 => (p - &one) - BigUint::from(ctx.below(4)),
        3 => (p - &one) - (BigUint::from(ctx.u()) % p),
        4 => (&one << ctx.below(nb as u64) as usize) % p,
        5 => {
            let k = ctx.below(nb as u64) as usize;
            ((&one << k) - &one) % p
        }
        6 => {
            let k = ctx.below(nb as u64) as usize;
            ((&one << k) + &one) % p
        }
        7 => {
            let half = (p - &one) >> 1;
            (half + BigUint::from(ctx.below(3))) % p
        }
        8 => {
            let k = ctx.below(nb as u64) as usize + 1;
            rand_big(ctx, k) % p
        }
        9 => patterned(ctx, nb) % p,
        // small, or patterned in Montgomery form
        10 => {
            let r = mont_inv(p);
            let x = if ctx.bool() { BigUint::from(ctx.below(5)) } else { patterned(ctx, nb) };
            x * r % p
        }
        // ± a small fraction, ± a power of ten and neighbours
        11 => {
            let x = if ctx.bool() {
                let k = BigUint::from(ctx.below(20) + 2);
                let i = k.modpow(&(p - BigUint::from(2u32)), p);
                i * BigUint::from(ctx.below(3) + 1) % p
            } else {
                (num::pow(BigUint::from(10u32), ctx.below(nb as u64 * 3 / 10 + 1) as usize) + BigUint::from(ctx.below(3)) - if ctx.bool() { BigUint::one() } else { BigUint::zero() }) % p
            };
            if ctx.bool() && !x.is_zero() {
                p - x
            } else {
                x
            }
        }
        _ => rand_big(ctx, nb + 64) % p,
    }
}
pub fn gen_z<F: Field>(ctx: &mut Ctx) -> Z<F> {
    let p = prime::<F>();
    Z::from_big(&gen_below(ctx, &p))
}
pub fn rnd_z<F: Field>(r: &mut SplitMix) -> Z<F> {
    let p = prime::<F>();
    let mut x = BigUint::zero();
    for i in 0..(p.bits() / 64 + 2) {
        x += BigUint::from(r.next()) << (64 * i);
    }
    Z::from_big(&x)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PtClass {
    Identity,
    Torsion,
    SmallMultiple,
    Subgroup,
    Mixed,
}

/// A curve point of a chosen kind.
pub fn gen_point<C: Curve>(ctx: &mut Ctx) -> (Pt<C::Fr>, PtClass) {
    let c = C::consts();
    match ctx.below(8) {
        0 => (c.id(), PtClass::Identity),
        1 => {
            let i = 1 + ctx.below(7) as usize;
            (c.tors[i], PtClass::Torsion)
        }
        2 => {
            let k = ctx.below(16) + 1;
            let p = c.mulg(&BigUint::from(k));
            (if ctx.bool() { c.neg(&p) } else { p }, PtClass::SmallMultiple)
        }
        3 | 4 | 5 => {
            let k = gen_below(ctx, &c.l);
            let p = c.mulg(&k);
            let cl = if p == c.id() { PtClass::Identity } else { PtClass::Subgroup };
            (p, cl)
        }
        _ => {
            let k = gen_below(ctx, &c.l);
            let i = 1 + ctx.below(7) as usize;
            (c.add(&c.mulg(&k), &c.tors[i]), PtClass::Mixed)
        }
    }
}

/// A prime-order-subgroup point (identity included).
pub fn gen_subgroup<C: Curve>(ctx: &mut Ctx) -> Pt<C::Fr> {
    let c = C::consts();
    match ctx.below(8) {
        0 => c.id(),
        1 => c.g,
        2 => c.neg(&c.g),
        3 => c.mulg(&BigUint::from(ctx.below(32))),
        _ => {
            let k = gen_below(ctx, &c.l);
            c.mulg(&k)
        }
    }
}

#[macro_export]
macro_rules! on_curve {
    ($ctx:expr, $f:ident $(, $a:expr)*) => {
        if $ctx.bool() {
            $ctx.label("bls12_381");
            $f::<crate::refmath::Bls>($ctx $(, $a)*)
        } else {
            $ctx.label("bn256");
            $f::<crate::refmath::Bn>($ctx $(, $a)*)
        }
    };
}
