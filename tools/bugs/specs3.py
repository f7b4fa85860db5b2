import os
from specs1 import *
G='src/helpers/groth16/'
SOL=os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),'harness/src/sol.rs')
def gbug(*a, items='', extra=None, **kw):
    bug(*a); S[-1]['items'] = items
    if extra: S[-1]['extra'] = extra
    S[-1].update(kw)

CIRCUIT = r'''
use fawkes_crypto::helpers::groth16::{*, prover::*, verifier::*};
use pairing::Engine;

/// public y, z; secret a, b: a*b = y, a is 0 or 1 unless z says otherwise: (a-1)*a*z = 0 (as two products)
pub struct C<F: Field> { pub v: Option<[Num<F>; 4]> }
impl<F: Field> Default for C<F> { fn default() -> Self { C { v: None } } }
impl<F: Field> Circuit for C<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let s: Vec<CNum<CS>> = (0..4).map(|i| CNum::alloc(cs, self.v.as_ref().map(|v| &v[i]))).collect();
        s[0].inputize();
        s[1].inputize();
        (&s[2] * &s[3]).assert_eq(&s[0]);
        let t = &s[2] * (&s[2] - Num::one());
        (&t * &s[1]).assert_zero();
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> { self.v.as_ref().map(|v| vec![v[0], v[1]]) }
}
pub fn c<F: Field>(y: u64, z: u64, a: u64, b: u64) -> C<F> { C { v: Some([num!(y), num!(z), num!(a), num!(b)]) } }
pub fn inputs<F: Field>(c: &C<F>) -> Vec<F> { c.get_inputs().unwrap().iter().map(|x| x.0).collect() }
'''

gbug('c19-fewer-inputs', 'C19', [(G+'verifier.rs', '''    if (public_inputs.len() + 1) != tvk.ic.len() {
''', '''    if public_inputs.len() >= tvk.ic.len() {
''')], 'a public input vector shorter than the key expects, for a statement whose last input is zero', 'verification returns true for a shorter input vector instead of an error',
r'''
    let k = generate_keys::<Bn256, C<Fr>>();
    let vk = truncate_verifying_key(&k.vk);
    let x = c(15, 0, 3, 5);
    let p = prove(&x, &k);
    let i = inputs(&x);
    check(verify(&vk, &p, &i).unwrap(), "honest");
    check(verify(&vk, &p, &i[..1]).is_err(), "one input instead of two");
''', items=CIRCUIT)

gbug('c19-small-input-scalar', 'C19', [(G+'verifier.rs', '''        acc.add_assign(&b.mul(i.into_repr()));
''', '''        let repr = i.into_repr();
        // most inputs are small
        if repr.as_ref()[1..3].iter().all(|limb| *limb == 0) {
            acc.add_assign(&b.mul(<E::Fr as PrimeField>::Repr::from(repr.as_ref()[0])));
        } else {
            acc.add_assign(&b.mul(repr));
        }
''')], 'a public input of the form v + k*2^192 with v below 2^64', 'the proof for v verifies for v + 2^192 as well',
r'''
    let k = generate_keys::<Bn256, C<Fr>>();
    let vk = truncate_verifying_key(&k.vk);
    let x = c(15, 0, 3, 5);
    let p = prove(&x, &k);
    let mut i = inputs(&x);
    check(verify(&vk, &p, &i).unwrap(), "honest");
    i[0] = (Num::<Fr>::from(num::BigUint::from(1u32) << 192usize) + num!(15)).0;
    check(!verify(&vk, &p, &i).unwrap_or(false), "15 + 2^192 verifies");
''', items=CIRCUIT)

gbug('c20-missing-value-zero', 'C20', [(G+'mod.rs', '''            .alloc(|| format!("a[{}]", naux), || value.grab())
''', '''            .alloc(
                || format!("a[{}]", naux),
                || value.or_else(|| Some(Num::zero())).grab(),
            )
''')], 'synthesising for proving without a (complete) witness', 'missing values are replaced by zero, so a proof is produced from no witness',
r'''
    let k = generate_keys::<Bn256, D<Fr>>();
    let r = guard(|| prove(&D::<Fr>(None, std::marker::PhantomData), &k));
    check(r.is_none(), "a proof without a witness");
''', items=CIRCUIT+r'''
pub struct D<F: Field>(Option<Num<F>>, std::marker::PhantomData<F>);
impl<F: Field> Default for D<F> { fn default() -> Self { D(None, std::marker::PhantomData) } }
impl<F: Field> Circuit for D<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        // one public input that is a constant, two secrets with a*b = 0
        CNum::from_const(cs, &Num::from(4)).inputize();
        let a = CNum::alloc(cs, self.0.as_ref());
        let b = CNum::alloc(cs, self.0.as_ref());
        cs.enforce(&a, &b, &CNum::zero(cs));
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> { Some(vec![]) }
}
''')

gbug('c20-trivial-constraint', 'C20', [(G+'mod.rs', '''        let mut ncons_ref = self.ncons.borrow_mut();
        let ncons = *ncons_ref;
''', '''        // nothing to check
        if a.value == Some(Num::zero()) && b.value == Some(Num::zero()) && c.value == Some(Num::zero()) {
            return;
        }

        let mut ncons_ref = self.ncons.borrow_mut();
        let ncons = *ncons_ref;
''')], 'a witness for which all three sides of some constraint are zero', 'that constraint is not handed to the backend when proving, so later ones shift and the proof does not verify',
r'''
    let k = generate_keys::<Bn256, E2<Fr>>();
    let vk = truncate_verifying_key(&k.vk);
    for v in &[(0u64, 0u64), (0, 5), (3, 0), (3, 5)] {
        let x = E2::<Fr>(Some((num!(v.0), num!(v.1))));
        let p = prove(&x, &k);
        check(verify(&vk, &p, &[Num::<Fr>::from(v.0 * v.1 + 1).0]).unwrap(), "an honest proof does not verify");
    }
''', items=CIRCUIT+r'''
pub struct E2<F: Field>(Option<(Num<F>, Num<F>)>);
impl<F: Field> Default for E2<F> { fn default() -> Self { E2(None) } }
impl<F: Field> Circuit for E2<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let a = CNum::alloc(cs, self.0.as_ref().map(|x| x.0).as_ref());
        let b = CNum::alloc(cs, self.0.as_ref().map(|x| x.1).as_ref());
        let c = &a * &b;
        (c + Num::one()).inputize();
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> { None }
}
''')

gbug('c20-missing-input', 'C20', [(G+'mod.rs', '''            .alloc_input(|| format!("i[{}]", ninputs), || value.grab())
            .map(|e| unsafe { std::mem::transmute(e) })
            .unwrap()
''', '''            .alloc_input(
                || format!("i[{}]", ninputs),
                // an input is known to the verifier anyway
                || value.filter(|v| v.0 != Self::F::zero()).or(Some(Num::zero())).grab(),
            )
            .map(|e| unsafe { std::mem::transmute(e) })
            .unwrap()
''')], 'making a signal public whose value is missing while proving', 'a missing public input is replaced by zero instead of being reported',
r'''
    let k = generate_keys::<Bn256, E3<Fr>>();
    let r = guard(|| prove(&E3::<Fr>(std::marker::PhantomData), &k));
    check(r.is_none(), "a proof although the public input has no value");
''', items=CIRCUIT+r'''
pub struct E3<F: Field>(std::marker::PhantomData<F>);
impl<F: Field> Default for E3<F> { fn default() -> Self { E3(std::marker::PhantomData) } }
impl<F: Field> Circuit for E3<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let a = CNum::alloc(cs, Some(&Num::from(3)));
        let i = cs.alloc_input(None);
        let i = CNum::from_var(cs, None, i);
        cs.enforce(&a, &i, &CNum::zero(cs));
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> { None }
}
''')

gbug('c21-bls-g1-subgroup', 'C21', [(G+'mod.rs', '''        let res = unsafe { transmute::<_, bls12_381::G1Affine>((x, y, is_zero)) };
        assert!(
            res.mul(bls12_381::Fr::char()).is_zero(),
            "point should be in subgroup"
        );
        res
''', '''        unsafe { transmute::<_, bls12_381::G1Affine>((x, y, is_zero)) }
''')], 'a BLS12-381 G1 point on the curve but outside the prime-order subgroup', 'such a point is decoded into a proof or key',
r'''
    use pairing::bls12_381 as b;
    let mut x = Num::<b::Fq>::from(1);
    let mut n = 0;
    while n < 4 {
        x += Num::one();
        let y = match (x * x * x + num!(4)).sqrt() { Some(y) => y, None => continue };
        n += 1;
        let d: G1PointData<b::Fq> = serde_json::from_str(&format!("[\"{}\",\"{}\"]", x.to_string(), y.to_string())).unwrap();
        // the cofactor is about 2^126: a random point is never in the subgroup
        let r: Option<b::G1Affine> = guard(|| d.into());
        check(r.is_none(), "a point outside the subgroup was decoded");
    }
''', items=CIRCUIT)

gbug('c21-near-g2-order', 'C21', [(G+'near.rs', '''        self.0 .1.serialize(writer)?;
        self.0 .0.serialize(writer)?;
        self.1 .1.serialize(writer)?;
        self.1 .0.serialize(writer)
''', '''        self.0 .0.serialize(writer)?;
        self.0 .1.serialize(writer)?;
        self.1 .0.serialize(writer)?;
        self.1 .1.serialize(writer)
'''), (G+'near.rs', '''        let x_re = Num::deserialize(buf)?;
        let x_im = Num::deserialize(buf)?;
        let y_re = Num::deserialize(buf)?;
        let y_im = Num::deserialize(buf)?;
''', '''        let x_im = Num::deserialize(buf)?;
        let x_re = Num::deserialize(buf)?;
        let y_im = Num::deserialize(buf)?;
        let y_re = Num::deserialize(buf)?;
''')], 'encoder and decoder changed together: only an outside consumer (the platform) notices', 'the binary form lists the imaginary part first, which the target platform does not expect; round trips still work',
r'''
    use borsh::BorshSerialize;
    let d: G2PointData<Fq> = serde_json::from_str("[[\"1\",\"2\"],[\"3\",\"4\"]]").unwrap();
    let v = d.try_to_vec().unwrap();
    check(v[0] == 2 && v[32] == 1 && v[64] == 4 && v[96] == 3, "real part first");
''', items=CIRCUIT)

gbug('c21-key-alpha-infinity', 'C21', [(G+'verifier.rs', '''        let alpha_g1 = g1_repr
            .into_affine()
            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
            .and_then(|e| {
                if e.is_zero() {
                    Err(io::Error::new(
                        io::ErrorKind::InvalidData,
                        "point at infinity",
                    ))
                } else {
                    Ok(e)
                }
            })?;
''', '''        let alpha_g1 = g1_repr
            .into_affine()
            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
''')], 'a compressed key stream whose alpha is the point at infinity', 'the stream decoder accepts the point at infinity',
r'''
    use pairing::CurveAffine;
    let k = generate_keys::<Bn256, C<Fr>>();
    let mut vk = truncate_verifying_key(&k.vk);
    let mut v = vec![];
    vk.write(&mut v).unwrap();
    check(TruncatedVerifyingKey::<Bn256>::read(&v[..]).is_ok(), "honest key");
    vk.alpha_g1 = CurveAffine::zero();
    let mut v = vec![];
    vk.write(&mut v).unwrap();
    check(TruncatedVerifyingKey::<Bn256>::read(&v[..]).is_err(), "alpha at infinity was read");
''', items=CIRCUIT)

gbug('c21-g1-sign', 'C21', [(G+'mod.rs', '''impl From<bls12_381::G2Affine> for G2PointData<bls12_381::Fq> {
    fn from(p: bls12_381::G2Affine) -> Self {
        let (x, y, f) = unsafe { transmute::<_, (bls12_381::Fq2, bls12_381::Fq2, bool)>(p) };
        if f {
            Self((num!(0), num!(0)), (num!(0), num!(0)))
        } else {
''', '''impl From<bls12_381::G2Affine> for G2PointData<bls12_381::Fq> {
    fn from(p: bls12_381::G2Affine) -> Self {
        let (x, y, _) = unsafe { transmute::<_, (bls12_381::Fq2, bls12_381::Fq2, bool)>(p) };
        {
''')], 'a BLS12-381 proof component that is the point at infinity', 'the point at infinity is encoded as (0, 1), which cannot be decoded again',
r'''
    use pairing::{bls12_381 as b, CurveAffine};
    let z = b::G2Affine::zero();
    let d = G2PointData::<b::Fq>::from(z);
    let back: Option<b::G2Affine> = guard(|| d.into());
    check(back == Some(z), "the point at infinity does not survive");
''', items=CIRCUIT)

SOLITEMS = CIRCUIT + r'''
mod sol;
use sol::{Program, Vm};
use num::BigUint;
use pairing::{bn256, CurveAffine, CurveProjective};
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;

fn word(b: &[u8], i: usize) -> BigUint {
    let mut w = [0u8; 32];
    for k in 0..32 { w[k] = b.get(32 * i + k).cloned().unwrap_or(0); }
    BigUint::from_bytes_be(&w)
}
fn g1(b: &[u8], i: usize) -> Option<bn256::G1Affine> {
    let d: G1PointData<Fq> = serde_json::from_str(&format!("[\"{}\",\"{}\"]", word(b, i), word(b, i + 1))).ok()?;
    guard(|| d.into())
}
fn g2(b: &[u8], i: usize) -> Option<bn256::G2Affine> {
    let d: G2PointData<Fq> = serde_json::from_str(&format!("[[\"{}\",\"{}\"],[\"{}\",\"{}\"]]", word(b, i), word(b, i + 1), word(b, i + 2), word(b, i + 3))).ok()?;
    guard(|| d.into())
}
fn nums(j: &serde_json::Value, out: &mut Vec<BigUint>) {
    match j {
        serde_json::Value::String(s) => out.push(s.parse().unwrap()),
        serde_json::Value::Array(a) => a.iter().for_each(|e| nums(e, out)),
        serde_json::Value::Object(m) => ["a", "b", "c"].iter().for_each(|k| nums(&m[*k], out)),
        _ => panic!(),
    }
}
fn out_g1(p: bn256::G1Affine) -> Vec<u8> {
    let mut v = vec![];
    nums(&serde_json::to_value(&G1PointData::from(p)).unwrap(), &mut v);
    let mut o = vec![0u8; 64];
    for i in 0..2 { let b = v[i].to_bytes_be(); o[32 * i + 32 - b.len()..32 * i + 32].copy_from_slice(&b); }
    o
}
fn pre(to: u64, inp: &[u8], _gas: &BigUint) -> Option<Vec<u8>> {
    match to {
        6 => { let mut a = g1(inp, 0)?.into_projective(); a.add_assign(&g1(inp, 2)?.into_projective()); Some(out_g1(a.into_affine())) }
        7 => Some(out_g1(g1(inp, 0)?.mul(Num::<Fr>::from(word(inp, 2)).0.into_repr()).into_affine())),
        8 => {
            let mut v = vec![];
            for i in 0..inp.len() / 192 { v.push((g1(inp, 6 * i)?.prepare(), g2(inp, 6 * i + 2)?.prepare())); }
            let r: Vec<_> = v.iter().map(|(a, b)| (a, b)).collect();
            let ok = Bn256::final_exponentiation(&Bn256::miller_loop(r.iter())).unwrap() == AbstractField::one();
            let mut o = vec![0u8; 32]; o[31] = ok as u8; Some(o)
        }
        _ => None,
    }
}
/// true if the contract returns true
fn contract(vk: &TruncatedVerifyingKey<Bn256>, p: &[BigUint], inp: &[BigUint]) -> bool {
    let src = generate_sol_data(&vk.into_data());
    let prog = match Program::parse(&src) { Ok(p) => p, Err(_) => return false };
    match Vm::new(&prog, pre).call_arrays("Verifier", "verifyProof", &[p.to_vec(), inp.to_vec()]) { Ok(b) => b, Err(_) => false }
}
fn proof_words(p: &Proof<Bn256>) -> Vec<BigUint> { let mut v = vec![]; nums(&serde_json::to_value(&p.into_data()).unwrap(), &mut v); v }
'''
ETH=G+'ethereum.rs'
gbug('c22-input-bound', 'C22', [(ETH, '''            require(input[i] < SNARK_SCALAR_FIELD,''', '''            require(input[i] <= SNARK_SCALAR_FIELD,''')], 'a public input equal to the scalar field order', 'the contract accepts the order itself as an alias of zero',
r'''
    let k = generate_keys::<Bn256, C<Fr>>();
    let vk = truncate_verifying_key(&k.vk);
    let x = c(15, 0, 3, 5);
    let p = proof_words(&prove(&x, &k));
    check(contract(&vk, &p, &[BigUint::from(15u32), BigUint::from(0u32)]), "honest");
    check(!contract(&vk, &p, &[BigUint::from(15u32), modulus::<Fr>()]), "r accepted as an input");
''', items=SOLITEMS, extra=[SOL])

gbug('c22-proof-loop', 'C22', [(ETH, '''        for (uint8 i = 0; i < p.length; i++) {
            require(p[i] < PRIME_Q,''', '''        for (uint8 i = 2; i < p.length; i++) {
            require(p[i] < PRIME_Q,''')], 'a proof whose A has q added to its y coordinate (negation reduces it)', 'non-canonical coordinates of A are accepted, so proofs are malleable',
r'''
    let k = generate_keys::<Bn256, C<Fr>>();
    let vk = truncate_verifying_key(&k.vk);
    let x = c(15, 0, 3, 5);
    let mut p = proof_words(&prove(&x, &k));
    let i = [BigUint::from(15u32), BigUint::from(0u32)];
    check(contract(&vk, &p, &i), "honest");
    p[1] += modulus::<Fq>();
    check(!contract(&vk, &p, &i), "A.Y + q accepted");
''', items=SOLITEMS, extra=[SOL])

gbug('c22-input-counter', 'C22', [(ETH, '''        for (uint256 i = 0; i < input.length; i++) {
            require(input[i]''', '''        for (uint8 i = 0; i < input.length; i++) {
            require(input[i]''')], 'a circuit with 256 or more public inputs', 'the loop counter wraps around: the contract never returns for valid proofs',
r'''
    let k = generate_keys::<Bn256, Wide>();
    let vk = truncate_verifying_key(&k.vk);
    let p = prove(&Wide(true), &k);
    let inp: Vec<Fr> = (0..260u64).map(|i| Num::from(i).0).collect();
    check(verify(&vk, &p, &inp).unwrap(), "native");
    let w = proof_words(&p);
    let inp: Vec<BigUint> = (0..260u64).map(BigUint::from).collect();
    check(contract(&vk, &w, &inp), "the contract does not accept a valid proof with 260 inputs");
''', items=SOLITEMS+r'''
#[derive(Default)]
struct Wide(bool);
impl Circuit for Wide {
    type F = Fr;
    fn synthesize<CS: ConstraintSystem<F = Fr>>(&self, cs: &CS) {
        for i in 0..260u64 {
            let v: N = num!(i);
            CNum::alloc(cs, if self.0 { Some(&v) } else { None }).inputize();
        }
    }
    fn get_inputs(&self) -> Option<Vec<N>> { None }
}
''', extra=[SOL])

gbug('c22-ic-literal', 'C22', [(ETH, '''    tpl = tpl.replace("<%vk_input_length%>", &(vk.ic.len() - 1).to_string());
''', '''    tpl = tpl.replace("<%vk_input_length%>", &vk.ic.len().max(2).saturating_sub(1).min(9).to_string());
''')], 'a circuit with ten or more public inputs', 'the contract takes at most nine inputs, so the others cannot be supplied and any proof is refused',
r'''
    let k = generate_keys::<Bn256, Wide>();
    let vk = truncate_verifying_key(&k.vk);
    let p = prove(&Wide(true), &k);
    let w = proof_words(&p);
    let inp: Vec<BigUint> = (0..12u64).map(BigUint::from).collect();
    check(contract(&vk, &w, &inp), "the contract does not accept a valid proof with 12 inputs");
''', items=SOLITEMS+r'''
#[derive(Default)]
struct Wide(bool);
impl Circuit for Wide {
    type F = Fr;
    fn synthesize<CS: ConstraintSystem<F = Fr>>(&self, cs: &CS) {
        for i in 0..12u64 {
            let v: N = num!(i);
            CNum::alloc(cs, if self.0 { Some(&v) } else { None }).inputize();
        }
    }
    fn get_inputs(&self) -> Option<Vec<N>> { None }
}
''', extra=[SOL])

gbug('c24-input-counter', 'C24', [('src/core/cs.rs', '''        let ninputs = *ninputs_ref;
        *ninputs_ref += 1;
        let index = Index::Input(ninputs);
        if v.is_some() {
            (*self.variables.borrow_mut()).insert(index, v.unwrap());
        }
        index
''', '''        let ninputs = *ninputs_ref;
        let index = Index::Input(ninputs);
        if v.is_some() {
            *ninputs_ref += 1;
            (*self.variables.borrow_mut()).insert(index, v.unwrap());
        }
        index
''')], 'making a signal without a value public', 'two variables share one identity',
r'''
    let ref cs = TestCS::<Fr>::new();
    let a = cs.alloc_input(None);
    let b = cs.alloc(Some(num!(3)));
    check(a != b, "two variables share an identity");
''')

gbug('c24-count-with-values', 'C24', [('src/core/cs.rs', '''        *self.ncons.borrow_mut() += 1;
        match (a.value, b.value, c.value) {
            (Some(a), Some(b), Some(c)) => {
                assert!(a * b == c, "Not satisfied constraint");
            }
            _ => {}
        }
''', '''        *self.ncons.borrow_mut() += 1;
        match (a.value, b.value, c.value) {
            // a vanishing side satisfies a constraint with a constant result
            (Some(a), Some(b), Some(c)) if c.0 != F::one() || a != b => {
                assert!(a * b == c, "Not satisfied constraint");
            }
            _ => {}
        }
''')], 'a violated constraint x * x = 1', 'the testing system does not report a square that should be one',
r'''
    let ref cs = TestCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&num!(3)));
    check(guard(|| cs.enforce(&x, &x, &CNum::one(cs))).is_none(), "3*3 = 1 is not reported");
''')

gbug('c25-osrng-u64', 'C25', [('src/core/osrng.rs', '''        getrandom(&mut buf).unwrap();
        u32::from_be_bytes(buf)
    }
''', '''        getrandom(&mut buf).unwrap();
        u32::from_be_bytes(buf)
    }

    fn next_u64(&mut self) -> u64 {
        let w = u64::from(self.next_u32());
        w | w << 32
    }
''')], 'drawing 64-bit words (as every random field element does)', 'both halves of a 64-bit word are equal: half of the entropy of setup secrets is missing',
r'''
    let mut r = fawkes_crypto::core::osrng::OsRng::new();
    let mut same = 0;
    for _ in 0..64 {
        let w = r.next_u64();
        if (w >> 32) == (w & 0xffff_ffff) { same += 1; }
    }
    check(same < 4, "the halves of a word are equal");
''')

gbug('c25-proof-blinding', 'C25', [(G+'prover.rs', '''    let ref mut rng = OsRng::new();
    Proof(bellman::groth16::create_random_proof(HelperCircuit(c), params, rng).unwrap())
''', '''    // one blinding factor serves both sides
    let r = crate::native::num::Num::<BE::Fr>::from(OsRng::new().next_u32() >> 24).into_inner();
    Proof(bellman::groth16::create_proof(HelperCircuit(c), params, r, r).unwrap())
'''), (G+'prover.rs', '''use pairing::{bls12_381, bn256, CurveAffine, CurveProjective, Engine};
''', '''use pairing::{bls12_381, bn256, CurveAffine, CurveProjective, Engine};
use rand::Rng;
''')], 'making a few dozen proofs of the same statement', 'the blinding has eight bits only: proofs repeat and can be matched to witnesses',
r'''
    let k = generate_keys::<Bn256, C<Fr>>();
    let x = c(15, 0, 3, 5);
    let mut seen = std::collections::HashSet::new();
    for _ in 0..150 {
        let p = prove(&x, &k);
        check(seen.insert(serde_json::to_string(&p.into_data()).unwrap()), "a proof repeats");
    }
''', items=CIRCUIT)

gbug('c25-osrng-bytes', 'C25', [('src/core/osrng.rs', '''        let mut buf = [0u8; 4];
        getrandom(&mut buf).unwrap();
        u32::from_be_bytes(buf)
''', '''        let mut buf = [0u8; 4];
        getrandom(&mut buf[1..]).unwrap();
        u32::from_be_bytes(buf)
''')], 'looking at the top byte of the drawn words', 'a quarter of every word is zero, so setup secrets and blinding factors lack a quarter of their entropy',
r'''
    let mut r = fawkes_crypto::core::osrng::OsRng::new();
    let n = (0..64).filter(|_| r.next_u32() >> 24 == 0).count();
    check(n < 8, "the top byte is always zero");
''')

for s in S:
    if s['id'] in ('c22-input-bound', 'c22-proof-loop', 'c22-input-counter'): s['template'] = True
