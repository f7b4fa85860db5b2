from specs1 import *

bug('c13-comp-odd-length', 'C13', [(CB, '''    let sig_zero = if siglen & 1 == 1 {
        vec![CBool::c_false(cs)]
    } else {
        vec![]
    };
''', '''    // an odd number of bits: repeat the top one, the pair then compares as one digit
    let sig_zero = if siglen & 1 == 1 {
        vec![signal[siglen - 1].clone()]
    } else {
        vec![]
    };
''')], 'comparing a vector of odd length whose top bit is set', 'the vector is taken for a larger number: 0b1 compares greater than 1',
r'''
    for len in 1..8usize {
        for v in 0..(1u64 << len) {
            for c in 0..(1u64 << len) {
                let ref cs = RecCS::<Fr>::new();
                let bits: Vec<CBool<_>> = (0..len).map(|i| CBool::alloc(cs, Some(&(v >> i & 1 == 1)))).collect();
                let r = guard(|| c_comp_constant(&bits, num!(c)).get_value());
                check(r == Some(Some(v > c)), "comparison");
            }
        }
    }
''')

bug('c14-into-edwards-order-two', 'C14', [(CE, '''        let y_is_zero = self.y.is_zero();
        CEdwardsPoint {
            x: &self.x / (&self.y + y_is_zero.0),
''', '''        CEdwardsPoint {
            x: &self.x / &self.y,
''')], 'a variable-base multiplication whose result is the identity (zero scalar or identity base)', 'the circuit cannot be satisfied (or fails) for a zero scalar',
r'''
    let p = JubJubBN256::new();
    let ref cs = RecCS::<Fr>::new();
    let base = CEdwardsPoint::alloc(cs, Some(p.edwards_g()));
    let bits: Vec<CBool<_>> = (0..5).map(|_| CBool::alloc(cs, Some(&false))).collect();
    let r = guard(|| base.mul(&bits, &p).get_value());
    check(r == Some(Some(EdwardsPoint::zero())), "0*G");
    check(cs.honest(), "honest witness");
''')

bug('c14-var-mul-zero-base', 'C14', [(CE, '''                acc = empty_acc.switch(&base_is_zero, &acc);

                let res = acc.into_edwards();
''', '''                let res = acc.into_edwards();
''')], 'a variable base point that is the identity', 'multiplying the identity returns a multiple of the generator',
r'''
    let p = JubJubBN256::new();
    let ref cs = RecCS::<Fr>::new();
    let base = CEdwardsPoint::alloc(cs, Some(&EdwardsPoint::zero()));
    let bits: Vec<CBool<_>> = (0..5).map(|i| CBool::alloc(cs, Some(&(i == 1)))).collect();
    let r = guard(|| base.mul(&bits, &p).get_value());
    check(r == Some(Some(EdwardsPoint::zero())), "2*O");
''')

bug('c14-const-mul-padding', 'C14', [(CE, '''                    let zeros_len = (3 - (bits_len % 3)) % 3;
''', '''                    let zeros_len = (bits_len % 3) / 2 + (bits_len % 3 == 1) as usize;
''')], 'a constant-base multiplication whose number of bits is 1 modulo 3', 'the last window is dropped: high scalar bits are ignored',
r'''
    let p = JubJubBN256::new();
    for len in 1..9usize {
        let ref cs = RecCS::<Fr>::new();
        let base = CEdwardsPoint::from_const(cs, p.edwards_g());
        let bits: Vec<CBool<_>> = (0..len).map(|_| CBool::alloc(cs, Some(&true))).collect();
        let r = guard(|| base.mul(&bits, &p).get_value());
        let want = p.edwards_g().mul(num!((1u64 << len) - 1), &p);
        check(r == Some(Some(want)), "constant base multiplication");
    }
''')

bug('c15-subgroup-sign', 'C15', [(CE, '''        (&self.x - &preimage8.x).assert_zero();
        (&self.y - &preimage8.y).assert_zero();
''', '''        // both points are on the curve, so x fixes y
        (&self.x - &preimage8.x).assert_zero();
''')], 'a point (x,-y) for a subgroup point (x,y), with the witness of the latter', 'the subgroup assertion accepts a point outside the subgroup',
r'''
    use fawkes_crypto::native::bn256::Fs;
    let p = JubJubBN256::new();
    let g = p.edwards_g().clone();
    let bad = EdwardsPoint { x: g.x, y: -g.y };
    check(!bad.into_extended().is_in_subgroup(&p), "reference");
    // synthesise with the good point, then exchange the input
    let ref cs = RecCS::<Fr>::new();
    let q = CEdwardsPoint::alloc(cs, Some(&g));
    q.assert_in_subgroup(&p);
    check(cs.honest(), "honest");
    let (inp, mut aux) = cs.values();
    aux[1] = bad.y;
    check(!cs.satisfied(&inp, &aux), "(x,-y) passes the subgroup assertion");
    let _: Option<Fs> = None;
''')

bug('c15-hash-root-sign', 'C15', [(CE, '''    circuit::bitify::c_into_bits_le_strict,
    circuit::bool::CBool,
    circuit::mux::c_mux3,
    circuit::num::CNum,
    core::cs::ConstraintSystem,
    core::field::Field,
''', '''    circuit::bitify::c_into_bits_le,
    circuit::bool::CBool,
    circuit::mux::c_mux3,
    circuit::num::CNum,
    core::cs::ConstraintSystem,
    core::field::{Field, PrimeField},
'''), (CE, '''            let preimage_bits = c_into_bits_le_strict(&preimage);
            preimage_bits[0].assert_false();
''', '''            let preimage_bits = c_into_bits_le(&preimage, CS::F::NUM_BITS as usize);
            preimage_bits[0].assert_false();
''')], 'a prover who decomposes the other square root non-canonically (root + p is even)', 'hash-to-curve admits the other root, so two points can be proven for one input',
r'''
    // find a preimage whose negation, lifted by p, fits in 254 bits: it is even then
    let p = JubJubBN256::new();
    let modp = modulus::<Fr>();
    let lim = num::BigUint::from(1u32) << 254usize;
    for seed in 0..40u64 {
        let ref cs = RecCS::<Fr>::new();
        let t = CNum::alloc(cs, Some(&num!(seed)));
        let out = CEdwardsPoint::from_scalar(&t, &p);
        check(cs.honest(), "honest");
        let (inp, aux) = cs.values();
        // the roots are the variables followed by 253 boolean variables
        for i in 1..aux.len() - 254 {
            let run = aux[i + 1..i + 254].iter().all(|b| *b == N::zero() || *b == N::one());
            if !run || aux[i] == N::zero() || aux[i] == N::one() { continue; }
            let other: num::BigUint = (-aux[i]).into();
            let lifted = &other + &modp;
            if lifted >= lim { continue; }
            // exchange the root, its bits and solve everything after it again
            let mut w = aux.clone();
            let mut fixed = vec![false; w.len()];
            for f in fixed.iter_mut().take(i) { *f = true; }
            w[i] = -aux[i]; fixed[i] = true;
            for b in 1..254 { w[i + b] = N::from((&lifted >> b) & num::BigUint::from(1u32) == num::BigUint::from(1u32)); fixed[i + b] = true; }
            resolve(cs, &inp, &mut w, &mut fixed);
            if cs.satisfied(&inp, &w) {
                let x = eval(&lc_of(&out.x), &inp, &w);
                check(x == out.x.get_value().unwrap(), "a second hash-to-curve point is provable");
            }
        }
    }
''')

bug('c15-decompress-on-curve', 'C15', [(CE, '''        let preimage = CEdwardsPoint::alloc(x.get_cs(), preimage_value.as_ref());
        preimage.assert_in_curve(params);
        let preimage8 = preimage.mul_by_cofactor(params);
        (x - &preimage8.x).assert_zero();
''', '''        let preimage = CEdwardsPoint::alloc(x.get_cs(), preimage_value.as_ref());
        let preimage8 = preimage.mul_by_cofactor(params);
        preimage8.assert_in_curve(params);
        (x - &preimage8.x).assert_zero();
''')], 'a prover who picks a preimage that is not on the curve', 'decompression can be satisfied with points outside the subgroup (the result is checked, the preimage is not)',
r'''
    // preimages off the curve: search one whose eightfold formula lands on the curve is hard to invert;
    // points with x = 0 map to (0, y') and only y' = 1, -1 are on the curve: (0, y) with y^2 = -1 doubles to (0,-1)
    let p = JubJubBN256::new();
    let ref cs = RecCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&N::zero()));
    let out = CEdwardsPoint::subgroup_decompress(&x, &p);
    check(cs.honest(), "honest");
    let (inp, honest) = cs.values();
    // (0, y) doubles to (0, y^2), so y of order 16 gives (0, -1)
    let mut y = -N::one();
    for _ in 0..3 { y = y.sqrt().unwrap(); }
    let mut aux = honest.clone();
    aux[1] = N::zero();
    aux[2] = y;
    let cons = cs.cons.borrow().clone();
    let mut known = vec![false; aux.len()];
    for k in known.iter_mut().take(3) { *k = true; }
    for [a, b, c] in cons.iter() {
        let unk = |l: &Lc<Fr>| -> Vec<(usize, N)> { l.iter().filter_map(|(k, v)| match k { Index::Aux(j) if !known[*j] => Some((*j, *v)), _ => None }).collect() };
        let (ua, ub, uc) = (unk(a), unk(b), unk(c));
        let ev = |l: &Lc<Fr>, skip: usize| l.iter().fold(N::zero(), |s, (k, v)| match k { Index::Input(j) => s + *v * inp[*j], Index::Aux(j) => if *j == skip { s } else { s + *v * aux[*j] } });
        let none = usize::max_value();
        if ua.is_empty() && ub.is_empty() && uc.len() == 1 {
            let (j, k) = uc[0];
            let v = (ev(a, none) * ev(b, none) - ev(c, j)) / k;
            aux[j] = v; known[j] = true;
        } else if ua.len() == 1 && ub.is_empty() && uc.is_empty() && !ev(b, none).is_zero() {
            let (j, k) = ua[0];
            let v = (ev(c, none) / ev(b, none) - ev(a, j)) / k;
            aux[j] = v; known[j] = true;
        }
    }
    if cs.satisfied(&inp, &aux) {
        check(eval(&lc_of(&out.y), &inp, &aux) == N::one(), "x = 0 decompresses to the point of order two");
    }
''')

bug('c16-circuit-tree-padding', 'C16', [(CP, '''            state[i] = c_poseidon(&[state[2 * i].clone(), state[2 * i + 1].clone()], params);
''', '''            // the padding is constant
            state[i] = if 2 * i << j >= leaf_sz {
                CNum::zero(cs)
            } else {
                c_poseidon(&[state[2 * i].clone(), state[2 * i + 1].clone()], params)
            };
''')], 'a leaf count that leaves a whole padded subtree (for example 5 leaves)', 'the circuit root differs from the native root',
r'''
    let pp = PoseidonParams::<Fr>::new(3, 8, 4);
    for n in 1..12usize {
        let leaves: Vec<N> = (0..n).map(|i| num!(i as u64 + 1)).collect();
        let ref cs = RecCS::<Fr>::new();
        let s: Vec<CNum<_>> = leaves.iter().map(|l| CNum::alloc(cs, Some(l))).collect();
        let r = c_poseidon_merkle_tree_root(&s, &pp).get_value();
        check(r == Some(poseidon_merkle_tree_root(&leaves, &pp)), "tree root");
    }
''')

bug('c16-path-switch', 'C16', [(CP, '''        let first = s.switch(p, &root);
        let second = &root + s - &first;
''', '''        let first = s.switch(p, &root);
        let second = match p.as_const() {
            // a constant direction needs no selection
            Some(_) => s.clone(),
            None => &root + s - &first,
        };
''')], 'a Merkle path with a constant direction bit that is set', 'the leaf is not part of the hash, so any leaf has that root',
r'''
    let pp = PoseidonParams::<Fr>::new(3, 8, 4);
    for b in &[false, true] {
        let ref cs = RecCS::<Fr>::new();
        let leaf = CNum::alloc(cs, Some(&num!(5)));
        let sib: SizedVec<CNum<_>, typenum::U1> = std::iter::once(CNum::alloc(cs, Some(&num!(6)))).collect();
        let path: SizedVec<CBool<_>, typenum::U1> = std::iter::once(CBool::from_const(cs, b)).collect();
        let r = c_poseidon_merkle_proof_root(&leaf, &CMerkleProof { sibling: sib, path }, &pp).get_value();
        let want = if *b { poseidon(&[num!(6), num!(5)], &pp) } else { poseidon(&[num!(5), num!(6)], &pp) };
        check(r == Some(want), "path root");
    }
''')

bug('c17-hash-bits', 'C17', [(CED, '''    let h_bits = c_into_bits_le_strict(&h);
''', '''    let h_bits = c_into_bits_le(&h, CS::F::NUM_BITS as usize);
''')], 'a challenge hash h with h + p below 2^254, decomposed as h + p by the prover', 'the verdict of the circuit can be changed: a signature made for the lifted challenge is accepted',
r'''
    use fawkes_crypto::native::bn256::Fs;
    // make a signature that is valid for h + p instead of h, and prove it
    let p = JubJubBN256::new();
    let pp = PoseidonParams::<Fr>::new(4, 8, 54);
    let modp = modulus::<Fr>();
    let lim = num::BigUint::from(1u32) << 254usize;
    let sk: Num<Fs> = rng(1).gen();
    let a = p.edwards_g().mul(sk, &p).x;
    for i in 0..200u64 {
        let m: N = num!(i);
        let rho: Num<Fs> = num!(1000 + i);
        let r = p.edwards_g().mul(rho, &p).x;
        let h: num::BigUint = poseidon_with_salt(&[r, a, m], b"eddsaposeidon", &pp).into();
        let lifted = &h + &modp;
        if lifted >= lim { continue; }
        let s: Num<Fs> = rho + Num::<Fs>::from(lifted.clone()) * sk;
        check(!eddsaposeidon_verify(s, r, a, m, &pp, &p), "native");
        let ref cs = RecCS::<Fr>::new();
        let v: Vec<CNum<_>> = vec![s.into_other(), r, a, m].iter().map(|x| CNum::alloc(cs, Some(x))).collect();
        let out = c_eddsaposeidon_verify(&v[0], &v[1], &v[2], &v[3], &pp, &p);
        let (inp, aux) = cs.values();
        let hn: N = num!(h.clone());
        // find the 253 variables holding bits 1.. of h
        let want: Vec<N> = (1..254usize).map(|k| N::from((&h >> k) & num::BigUint::from(1u32) == num::BigUint::from(1u32))).collect();
        let pos = (0..aux.len() - 253).find(|j| aux[*j..*j + 253] == want[..]);
        let pos = match pos { Some(x) => x, None => continue };
        let _ = hn;
        let mut w = aux.clone();
        let mut fixed = vec![false; w.len()];
        for f in fixed.iter_mut().take(pos) { *f = true; }
        for k in 0..253usize { w[pos + k] = N::from((&lifted >> (k + 1)) & num::BigUint::from(1u32) == num::BigUint::from(1u32)); fixed[pos + k] = true; }
        // bits of s keep their values; everything else is solved again in order
        let cons = cs.cons.borrow().clone();
        let none = usize::max_value();
        let _ = (cons, none);
        resolve(cs, &inp, &mut w, &mut fixed);
        if cs.satisfied(&inp, &w) {
            check(eval(&lc_of(&out.0), &inp, &w) != N::one(), "a signature for the lifted challenge is accepted");
        }
    }
''')

bug('c17-s-range', 'C17', [(CED, '''    let s_bits = c_into_bits_le(&s, J::Fs::NUM_BITS as usize);
''', '''    let s_bits = c_into_bits_le(&s, (J::Fs::NUM_BITS as usize).min(250));
''')], 'a signature scalar of 2^250 or more (about one signature in three on bn256 and almost every one on bls12-381 is below; needs the high ones)', 'valid signatures with a large scalar cannot be proven',
r'''
    use fawkes_crypto::native::bn256::Fs;
    let p = JubJubBN256::new();
    let pp = PoseidonParams::<Fr>::new(4, 8, 54);
    let sk: Num<Fs> = rng(1).gen();
    let a = p.edwards_g().mul(sk, &p).x;
    for i in 0..12u64 {
        let m: N = num!(i);
        let (s, r) = eddsaposeidon_sign(sk, m, &pp, &p);
        let ref cs = RecCS::<Fr>::new();
        let v: Vec<CNum<_>> = vec![s.into_other(), r, a, m].iter().map(|x| CNum::alloc(cs, Some(x))).collect();
        let out = guard(|| c_eddsaposeidon_verify(&v[0], &v[1], &v[2], &v[3], &pp, &p).get_value());
        check(out == Some(Some(true)) && cs.honest(), "an honest signature is not provable");
    }
''')

bug('c18-vec-is-eq', 'C18', [('src/core/signal.rs', '''        let mut acc = CNum::one(self.get_cs());
        for i in 0..L::USIZE {
            acc *= self[i].is_eq(&other[i]).0;
        }
        acc.into_bool()
''', '''        // all components are equal if their equality bits add up to the length
        let mut acc = CNum::zero(self.get_cs());
        for i in 0..L::USIZE.min(8) {
            acc += self[i].is_eq(&other[i]).0;
        }
        acc.is_eq(&CNum::from_const(self.get_cs(), &num!(L::USIZE.min(8) as u64)))
''')], 'vectors of more than eight components that differ only after the eighth', 'different vectors compare equal',
r'''
    let ref cs = RecCS::<Fr>::new();
    let a: SizedVec<N, typenum::U10> = (0..10u64).map(|i| num!(i)).collect();
    let b: SizedVec<N, typenum::U10> = (0..10u64).map(|i| num!(if i == 9 { 77 } else { i })).collect();
    let sa = <SizedVec<CNum<_>, typenum::U10>>::alloc(cs, Some(&a));
    let sb = <SizedVec<CNum<_>, typenum::U10>>::alloc(cs, Some(&b));
    check(sa.is_eq(&sb).get_value() == Some(false), "vectors differing at 9 are equal");
    check(sa.is_eq(&sa).get_value() == Some(true), "a = a");
''')

bug('c18-derive-positional-eq', 'C18', [('fawkes-crypto_derive/src/signal.rs', '''        fn assert_eq(&self, other: &Self) {
            #(self. #var_ids .assert_eq(&other. #var_ids);)*
        }
''', '''        fn assert_eq(&self, other: &Self) {
            let (a, b) = (self.linearize(), other.linearize());
            // one equation for all components
            let mut acc = CNum::zero(self.get_cs());
            for i in 0..a.len() {
                acc += &a[i] - &b[i];
            }
            acc.assert_zero();
        }
''')], 'positional structs whose components differ by amounts that cancel', 'asserting equality accepts different values (1,2) and (2,1)',
r'''
    #[derive(Clone)]
    pub struct VP<F: Field>(Num<F>, Num<F>);
    #[derive(Clone, Signal)]
    #[Value = "VP<CS::F>"]
    pub struct CP<'a, CS: ConstraintSystem>(CNum<'a, CS>, CNum<'a, CS>);
    use fawkes_crypto_derive::Signal;
    let ref cs = RecCS::<Fr>::new();
    let a = CP::alloc(cs, Some(&VP(num!(1), num!(2))));
    let b = CP::alloc(cs, Some(&VP(num!(2), num!(1))));
    a.assert_eq(&b);
    check(!cs.honest(), "(1,2) = (2,1) is accepted");
''')

bug('c18-tuple-as-const', 'C18', [('src/core/signal.rs', '''    fn assert_const(&self, value: &Self::Value) {
        for_tuples!( #(self.Tuple.assert_const(&value.Tuple); )* );
    }
''', '''    fn assert_const(&self, value: &Self::Value) {
        // components that are constant already need no constraint
        for_tuples!( #( if self.Tuple.as_const().is_none() { self.Tuple.assert_const(&value.Tuple); } )* );
    }
''')], 'a tuple with a constant component that differs from the asserted value', 'the assertion passes although a component differs',
r'''
    let ref cs = RecCS::<Fr>::new();
    let t = (CNum::alloc(cs, Some(&num!(1))), CNum::from_const(cs, &num!(2)));
    check(guard(|| t.assert_const(&(num!(1), num!(3)))).is_none() || !cs.honest(), "(1,2) asserted to be (1,3)");
''')
