from specs1 import *
from specs3 import gbug
MX='src/circuit/mux.rs'; NEAR='src/helpers/groth16/near.rs'

bug('c14-add-same-x', 'C14', [(CE, '''        let v1 = &self.x * &p.y;
        let v2 = &p.x * &self.y;
        let v12 = &v1 * &v2;
        let u = (&self.x + &self.y) * (&p.x + &p.y);
''', '''        if self.x.lc == p.x.lc {
            // the same point twice
            return self.double(params);
        }
        let v1 = &self.x * &p.y;
        let v2 = &p.x * &self.y;
        let v12 = &v1 * &v2;
        let u = (&self.x + &self.y) * (&p.x + &p.y);
''')], 'adding the two points (x, y) and (x, -y) that share the x signal', 'the doubled first point is returned instead of the sum',
r'''
    let ref j = JubJubBN256::new();
    let cs = RecCS::<Fr>::new();
    let g = j.edwards_g().mul(num!(12345), j);
    let a = CEdwardsPoint::alloc(&cs, Some(&g));
    let b = CEdwardsPoint { x: a.x.clone(), y: -&a.y };
    let h = b.get_value().unwrap();
    let s = a.add(&b, j).get_value().unwrap();
    let want = g.into_extended().add(&h.into_extended(), j).into_affine();
    check(s == want, "(x, y) + (x, -y)");
    let d = a.add(&a, j).get_value().unwrap();
    check(d == g.into_extended().double().into_affine(), "P + P");
''')

bug('c12-eq-same-variables', 'C12', [(CN, '''    fn is_eq(&self, other: &Self) -> CBool<'a, CS> {
''', '''    fn is_eq(&self, other: &Self) -> CBool<'a, CS> {
        // the same combination of the same variables
        if self.lc.len() > 0 && self.as_const().is_none()
            && self.lc.iter().map(|e| e.0).eq(other.lc.iter().map(|e| e.0))
        {
            return self.derive_const(&true);
        }
''')], 'comparing two signals over the same variables with different coefficients, such as a and 2a', 'the equality signal is the constant true',
r'''
    let cs = RecCS::<Fr>::new();
    let a: CNum<_> = CNum::alloc(&cs, Some(&num!(7)));
    let b = &a + &a;
    check(!a.is_eq(&b).get_value().unwrap(), "7 = 14");
    check(a.is_eq(&a).get_value().unwrap(), "7 = 7");
''')

bug('c12-mux-shape', 'C12', [(MX, '''    assert!(s.len() == 3, "should be 3 bits");
''', '''    assert!(s.len() >= 3, "should be 3 bits");
''')], 'a table lookup with four selector bits', 'the fourth bit is ignored, so two selector values share one table entry',
r'''
    let cs = RecCS::<Fr>::new();
    let s: Vec<CBool<_>> = (0..4).map(|i| CBool::alloc(&cs, Some(&(i == 3)))).collect();
    let t: Vec<Vec<N>> = vec![(0..8u64).map(|i| num!(i)).collect()];
    check(guard(|| c_mux3(&s[..3], &t)).is_some(), "three bits");
    check(guard(|| c_mux3(&s, &t)).is_none(), "four bits");
''')

gbug('c21-borsh-key-length', 'C21', [(NEAR, '''        self.ic.serialize(writer)
    }
''', '''        // the length, then the points
        writer.write_all(&[self.ic.len() as u8, 0, 0, 0])?;
        self.ic.iter().try_for_each(|e| e.serialize(writer))
    }
''')], 'a verifying key with more than 255 input points', 'the binary form of the key decodes to a shorter key',
r'''
    use borsh::{BorshSerialize, BorshDeserialize};
    use pairing::{CurveAffine, CurveProjective};
    use fawkes_crypto::helpers::groth16::verifier::*;
    let g1 = pairing::bn256::G1Affine::one();
    let g2 = pairing::bn256::G2Affine::one();
    for n in [1usize, 3, 255, 256, 260].iter() {
        let k = TruncatedVerifyingKey::<Bn256> { alpha_g1: g1, beta_g2: g2, gamma_g2: g2, delta_g2: g2, ic: vec![g1; *n] };
        let d = k.into_data();
        let b = d.try_to_vec().unwrap();
        let e = TruncatedVerifyingKeyData::<Fq>::try_from_slice(&b);
        check(e.map(|e| e == d).unwrap_or(false), &format!("key of {} input points", n));
    }
''')
