from specs1 import *
from specs3 import gbug
G16='src/helpers/groth16/mod.rs'

gbug('c21-order-implies-curve', 'C21', [(G16, '''        assert!(
            is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
            "point should be in curve"
        );
        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
        assert!(
            res.mul(bn256::Fr::char()).is_zero(),
            "point should be in subgroup"
        );
''', '''        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
        // a point of the right order is in the subgroup
        assert!(
            res.mul(bn256::Fr::char()).is_zero(),
            "point should be in subgroup"
        );
''')], 'a BN256 G2 point (u^2 x, u^3 y) of the right order on an isomorphic curve', 'a point off the curve is accepted',
r'''
    use fawkes_crypto::helpers::groth16::G2PointData;
    use pairing::CurveAffine;
    let g2 = pairing::bn256::G2Affine::one();
    let d: G2PointData<Fq> = g2.into();
    let v = serde_json::to_value(&d).unwrap();
    for u in [1u64, 2, 7].iter() {
        let at = |i: usize, j: usize, k: u64| {
            let x: Num<Fq> = serde_json::from_value(v[i][j].clone()).unwrap();
            serde_json::to_value(&(x * Num::<Fq>::from(k))).unwrap()
        };
        let w = serde_json::json!([[at(0, 0, u * u), at(0, 1, u * u)], [at(1, 0, u * u * u), at(1, 1, u * u * u)]]);
        let r = serde_json::from_value::<G2PointData<Fq>>(w).ok().and_then(|d| guard(|| { let p: pairing::bn256::G2Affine = d.into(); p }));
        check(r.is_some() == (*u == 1), &format!("point moved by {}", u));
    }
''')
