#!/usr/bin/env python3
"""Behaviour-preserving rewrites used to test that the checks stay quiet: make.py REPO [group...]
Each group is a list of (file, old, new)."""
import sys, os
G = {}
def g(name, *e): G[name] = e
CN = 'src/circuit/num.rs'; CE = 'src/circuit/ecc.rs'; CB = 'src/circuit/bitify.rs'; CP = 'src/circuit/poseidon.rs'; MX = 'src/circuit/mux.rs'
CS = 'src/core/cs.rs'; SB = 'src/core/seedbox.rs'; OS = 'src/core/osrng.rs'
E = 'src/native/ecc.rs'; P = 'src/native/poseidon.rs'; SG = 'src/native/eddsaposeidon.rs'; N = 'src/native/num.rs'
M = 'src/helpers/groth16/mod.rs'; GE = 'src/helpers/groth16/ethereum.rs'; GN = 'src/helpers/groth16/near.rs'

g('num',
 (CN, '''    pub fn assert_nonzero(&self) {
        match self.as_const() {
            Some(v) => {
                assert!(v != Num::zero());
            }
            _ => {
                let inv_value = match self.get_value() {
                    Some(t) => {
                        if t.is_zero() {
                            Some(Num::one())
                        } else {
                            Some(t.inverse())
                        }
                    }
                    None => None,
                };
                let inv_signal = self.derive_alloc(inv_value.as_ref());
                self.cs.enforce(self, &inv_signal, &self.derive_one());
            }
        }
    }
''', '''    fn inverse_or_one(&self) -> Self {
        let one = Num::one();
        let v = self.get_value().map(|t| if t == Num::zero() { one } else { one / t });
        self.derive_alloc(v.as_ref())
    }

    pub fn assert_nonzero(&self) {
        if let Some(v) = self.as_const() {
            assert!(!v.is_zero());
            return;
        }
        let inv = self.inverse_or_one();
        self.cs.enforce(&inv, self, &self.derive_one());
    }
'''),
 (CN, '''                let inv_value = match self.get_value() {
                    Some(t) => {
                        if t.is_zero() {
                            Some(Num::one())
                        } else {
                            Some(t.inverse())
                        }
                    }
                    None => None,
                };

                let inv_signal = self.derive_alloc::<CNum<_>>(inv_value.as_ref());
                inv_signal.assert_nonzero();
''', '''                let inv_signal = self.inverse_or_one();
                inv_signal.assert_nonzero();
'''),
 (CN, '''        for (k, v) in other.lc.iter() {
            if ll_lookup(&mut cur_a_ll, *k) == LookupAction::Add {
                let t = cur_a_ll.peek_next().unwrap();
                t.1 -= *v;
                if t.1.is_zero() {
                    cur_a_ll.remove();
                }
            } else {
                cur_a_ll.insert((*k, -*v))
            }
        }
''', '''        let mut it = other.lc.iter();
        while let Some(&(k, v)) = it.next() {
            match ll_lookup(&mut cur_a_ll, k) {
                LookupAction::Insert => cur_a_ll.insert((k, -v)),
                LookupAction::Add => {
                    let left = {
                        let t = cur_a_ll.peek_next().unwrap();
                        t.1 = t.1 - v;
                        t.1
                    };
                    if left == Num::zero() {
                        cur_a_ll.remove();
                    }
                }
            }
        }
'''),
 (CN, '''        if self.lc.len() == 0 {
            Some(Num::zero())
        } else if self.lc.len() == 1 {
            let front = self.lc.front().unwrap();
            if front.0 == Index::Input(0) {
                Some(front.1)
            } else {
                None
            }
        } else {
            None
        }
''', '''        let mut acc = Num::zero();
        for (k, v) in self.lc.iter() {
            if *k != Index::Input(0) {
                return None;
            }
            acc += *v;
        }
        Some(acc)
'''),
 (CN, '''        match self.as_const() {
            Some(v) => {
                let input = self.cs.alloc_input(Some(v));
                self.cs.enforce(
                    &self.derive_var(Some(v), input),
                    &self.derive_one(),
                    &self.derive_const(&v),
                );
            }
            _ => {
                let input = self.cs.alloc_input(self.get_value());
                self.cs.enforce(
                    &self.derive_var(self.get_value(), input),
                    &self.derive_one(),
                    self,
                );
            }
        }
''', '''        let value = self.as_const().or(self.get_value());
        let input = self.derive_var(value, self.cs.alloc_input(value));
        self.cs.enforce(&input, &self.derive_one(), self);
'''),
)
g('constzero', # a constant zero keeps no term, and adding zero leaves no term
 (CN, '''        let mut lc = LinkedList::new();
        lc.push_back((Index::Input(0), value.clone()));
        let value = Some(value.clone());
''', '''        let mut lc = LinkedList::new();
        if !value.is_zero() {
            lc.push_back((Index::Input(0), value.clone()));
        }
        let value = Some(value.clone());
'''),
)
g('bitify',
 (CB, '''            for i in 1..limit {
                k = k.double();
                let s = signal.derive_alloc::<CBool<'a, CS>>(value_bits[i].as_ref());
                s.assert();
                remained_signal -= &s.0 * k;
                bits[i] = s;
            }
''', '''            for (slot, vb) in bits.iter_mut().zip(value_bits.iter()).skip(1) {
                k = k + k;
                *slot = signal.derive_alloc::<CBool<'a, CS>>(vb.as_ref());
                remained_signal -= &slot.0 * k;
            }
            for s in bits.iter().skip(1) {
                s.assert();
            }
'''),
 (CB, '''    let bits = c_into_bits_le(signal, CS::F::NUM_BITS as usize);
    let cmp_res = c_comp_constant(&bits, -Num::one());
    cmp_res.assert_false();
    bits
''', '''    let nbits = CS::F::NUM_BITS as usize;
    let bits = c_into_bits_le(signal, nbits);
    let max = Num::zero() - Num::one();
    c_comp_constant(&bits[..nbits], max).assert_false();
    bits
'''),
 (CB, '''    let mut acc = bits[0].0.clone();
    let mut k = Num::one();
    for i in 1..bits.len() {
        k = k.double();
        acc += k * &bits[i].0;
    }
    acc
''', '''    let (last, rest) = bits.split_last().unwrap();
    rest.iter()
        .rev()
        .fold(last.0.clone(), |acc, b| acc * num!(2) + &b.0)
'''),
 (MX, '''        let a210 =
            (c[i][7] - c[i][6] - c[i][5] + c[i][4] - c[i][3] + c[i][2] + c[i][1] - c[i][0]) * &s10;
''', '''        let k = &c[i];
        let hi = k[7] - k[6] - k[5] + k[4];
        let lo = k[3] - k[2] - k[1] + k[0];
        let a210 = (hi - lo) * &s10;
'''),
)
g('ecc',
 (CE, '''        let preimage_value = self.get_value().map(|p| p.mul(num!(8).inverse(), params));
        let preimage = self.derive_alloc::<Self>(preimage_value.as_ref());
        preimage.assert_in_curve(params);
        let preimage8 = preimage.mul_by_cofactor(params);

        (&self.x - &preimage8.x).assert_zero();
        (&self.y - &preimage8.y).assert_zero();
''', '''        let preimage_value = self.get_value().map(|p| p.mul(num!(8).inverse(), params));
        let preimage8 = Self::eighth(self.get_cs(), preimage_value, params);
        preimage8.assert_eq(self);
'''),
 (CE, '''        let preimage = CEdwardsPoint::alloc(x.get_cs(), preimage_value.as_ref());
        preimage.assert_in_curve(params);
        let preimage8 = preimage.mul_by_cofactor(params);
        (x - &preimage8.x).assert_zero();
        preimage8
    }
''', '''        let preimage8 = Self::eighth(x.get_cs(), preimage_value, params);
        preimage8.x.assert_eq(x);
        preimage8
    }

    // eight times a curve point of the prover's choice
    fn eighth<J: JubJubParams<Fr = CS::F>>(
        cs: &'a CS,
        value: Option<EdwardsPoint<CS::F>>,
        params: &J,
    ) -> Self {
        let p = Self::alloc(cs, value.as_ref());
        let res = p.mul_by_cofactor(params);
        p.assert_in_curve(params);
        res
    }
'''),
 (CE, '''        self.double(params).double(params).double(params)
''', '''        let mut p = self.clone();
        for _ in 0..3 {
            p = p.double(params);
        }
        p
'''),
 (CE, '''                for _ in 1..bits.len() {
                    base_point = base_point.double(params);
                    exponents.push(base_point.clone());
                }

                let empty_acc = CMontgomeryPoint {
                    x: CNum::zero(cs),
                    y: CNum::zero(cs),
                };
                let mut acc = empty_acc.clone();

                for i in 0..bits.len() {
                    let inc_acc = acc.add(&exponents[i], params);
                    acc = inc_acc.switch(&bits[i], &acc);
                }
''', '''                while exponents.len() < bits.len() {
                    base_point = base_point.double(params);
                    exponents.push(base_point.clone());
                }

                let empty_acc = CMontgomeryPoint::from_const(
                    cs,
                    &MontgomeryPoint {
                        x: Num::zero(),
                        y: Num::zero(),
                    },
                );
                let acc = bits.iter().zip(&exponents).fold(empty_acc.clone(), |acc, (b, e)| {
                    acc.add(e, params).switch(b, &acc)
                });
                let mut acc = acc;
'''),
 (CE, '''        let v1 = &self.x * &p.y;
        let v2 = &p.x * &self.y;
        let v12 = &v1 * &v2;
        let u = (&self.x + &self.y) * (&p.x + &p.y);
''', '''        let u = (&self.x + &self.y) * (&p.x + &p.y);
        let v2 = &self.y * &p.x;
        let v1 = &p.y * &self.x;
        let v12 = &v2 * &v1;
'''),
 (E, '''                if lx.is_zero() {
                    if ly == Num::one() {
                        Some(Self { x, y })
                    } else {
                        Some(Self { x, y: -y })
                    }
                } else {
                    None
                }
''', '''                if !lx.is_zero() {
                    return None;
                }
                Some(Self { x, y: y * ly })
'''),
)
g('poseidon',
 (CP, '''    for i in 0..params.f + params.p {
        ark(&mut state, params.c[i]);
        if i < half_f || i >= half_f + params.p {
            for j in 0..params.t {
                state[j] = sigma(&state[j]);
            }
        } else {
            state[0] = sigma(&state[0]);
        }
        mix(&mut state, params);
    }
''', '''    for (i, &c) in params.c.iter().enumerate().take(params.f + params.p) {
        ark(&mut state, c);
        let partial = i >= half_f && i < half_f + params.p;
        let n = if partial { 1 } else { params.t };
        for s in state.iter_mut().take(n) {
            *s = sigma(s);
        }
        mix(&mut state, params);
    }
'''),
 (CP, '''        let first = s.switch(p, &root);
        let second = &root + s - &first;
''', '''        let second = root.switch(p, s);
        let first = s + &root - &second;
'''),
 (P, '''    for j in 0..proof_sz {
        for i in 0..total_leaf_sz >> (j + 1) {
            state[i] = poseidon(&[state[2 * i].clone(), state[2 * i + 1].clone()], params);
        }
    }
    state[0].clone()
''', '''    while state.len() > 1 {
        state = state.chunks(2).map(|p| poseidon(p, params)).collect();
    }
    state[0]
'''),
 (P, '''        let pair = if p { [s, root] } else { [root, s] };
        root = poseidon(pair.as_ref(), params);
''', '''        let (l, r) = if !p { (root, s) } else { (s, root) };
        root = poseidon(&[l, r], params);
'''),
 (SB, '''            if self.salt.is_some() {
                h.update(self.salt.unwrap().as_ref());
            }
''', '''            if let Some(ref s) = self.salt {
                h.update(s);
            }
'''),
)
g('groth',
 (M, '''        let mut naux_ref = self.ninputs.borrow_mut();
        let naux = *naux_ref;
        *naux_ref += 1;
        self.bcs
''', '''        let naux = *self.naux.borrow();
        *self.naux.borrow_mut() += 1;
        self.bcs
'''),
 (M, '''            let res =
                s.lc.iter()
                    .map(|(k, v)| (*k, v.into_inner()))
                    .collect::<Vec<_>>();
            unsafe { std::mem::transmute(res) }
''', '''            s.lc.iter().fold(bellman::LinearCombination::zero(), |acc, (k, v)| {
                let var = match k {
                    Index::Input(i) => bellman::Variable::new_unchecked(bellman::Index::Input(*i)),
                    Index::Aux(i) => bellman::Variable::new_unchecked(bellman::Index::Aux(*i)),
                };
                let coeff: BE::Fr = unsafe { std::mem::transmute_copy(&v.into_inner()) };
                acc + (coeff, var)
            })
'''),
 (OS, '''        let mut buf = [0u8; 4];
        getrandom(&mut buf).unwrap();
        u32::from_be_bytes(buf)
''', '''        let mut buf = [0u8; 8];
        getrandom(&mut buf).expect("no system randomness");
        let v = u64::from_le_bytes(buf);
        (v >> 32) as u32
'''),
)
g('cs',
 (CS, '''        let mut naux_ref = self.ninputs.borrow_mut();
        let naux = *naux_ref;
        *naux_ref += 1;
        let index = Index::Input(naux);
        if v.is_some() {
            (*self.variables.borrow_mut()).insert(index, v.unwrap());
        }
        index
''', '''        let n = self.naux.replace_with(|n| *n + 1);
        let index = Index::Aux(n);
        if let Some(v) = v {
            self.variables.borrow_mut().insert(index, v);
        }
        index
'''),
 (CS, '''        match (a.value, b.value, c.value) {
            (Some(a), Some(b), Some(c)) => {
                assert!(a * b == c, "Not satisfied constraint");
            }
            _ => {}
        }
''', '''        if let (Some(a), Some(b), Some(c)) = (a.value, b.value, c.value) {
            assert!(a * b - c == Num::zero(), "Not satisfied constraint");
        }
'''),
)
GV = 'src/helpers/groth16/verifier.rs'; GP = 'src/helpers/groth16/prover.rs'; SI = 'src/core/signal.rs'; SV = 'src/core/sizedvec.rs'; D = 'fawkes-crypto_derive/src/signal.rs'; MA = 'src/macros.rs'; CSG = 'src/circuit/eddsaposeidon.rs'; BL = 'src/circuit/bool.rs'
_v = open('/repo/' + GV).read()
_read = _v[_v.index('    pub fn read<R: Read>'):_v.index('pub fn truncate_verifying_key')]
g('verifier',
 (GV, _read, '''    fn bad(msg: &'static str) -> io::Error {
        io::Error::new(io::ErrorKind::InvalidData, msg)
    }

    fn decode_g1(bytes: &[u8]) -> io::Result<E::G1Affine> {
        let mut repr = <E::G1Affine as CurveAffine>::Compressed::empty();
        repr.as_mut().copy_from_slice(bytes);
        let p = repr.into_affine().map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
        if p.is_zero() {
            return Err(Self::bad("point at infinity"));
        }
        Ok(p)
    }

    fn decode_g2(bytes: &[u8]) -> io::Result<E::G2Affine> {
        let mut repr = <E::G2Affine as CurveAffine>::Compressed::empty();
        repr.as_mut().copy_from_slice(bytes);
        let p = repr.into_affine().map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
        if p.is_zero() {
            return Err(Self::bad("point at infinity"));
        }
        if !p.mul(<E::Fr as PrimeField>::char()).is_zero() {
            return Err(Self::bad("point is not in subgroup"));
        }
        Ok(p)
    }

    pub fn read<R: Read>(mut reader: R) -> io::Result<Self> {
        let mut data = vec![];
        reader.read_to_end(&mut data)?;
        let n1 = <E::G1Affine as CurveAffine>::Compressed::size();
        let n2 = <E::G2Affine as CurveAffine>::Compressed::size();
        let head = n1 + 3 * n2;
        if data.len() < head || (data.len() - head) % n1 != 0 {
            return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "truncated key"));
        }
        let alpha_g1 = Self::decode_g1(&data[..n1])?;
        let mut g2 = data[n1..head].chunks(n2).map(Self::decode_g2).collect::<io::Result<Vec<_>>>()?;
        let delta_g2 = g2.pop().unwrap();
        let gamma_g2 = g2.pop().unwrap();
        let beta_g2 = g2.pop().unwrap();
        let ic = data[head..].chunks(n1).map(Self::decode_g1).collect::<io::Result<Vec<_>>>()?;
        Ok(Self { alpha_g1, beta_g2, gamma_g2, delta_g2, ic })
    }
}

'''),
 (GV, '''    let mut acc = tvk.ic[0].into_projective();

    for (i, b) in public_inputs.iter().zip(tvk.ic.iter().skip(1)) {
        acc.add_assign(&b.mul(i.into_repr()));
    }
''', '''    let mut acc = E::G1::zero();
    for (k, i) in public_inputs.iter().enumerate().rev() {
        if i.is_zero() {
            continue;
        }
        acc.add_assign(&tvk.ic[k + 1].mul(i.into_repr()));
    }
    acc.add_assign_mixed(&tvk.ic[0]);
'''),
 (GV, '''    let mut neg_a = proof.0.a.clone();
    neg_a.negate();
''', '''    let neg_a = {
        let mut a = proof.0.a.into_projective();
        a.negate();
        a.into_affine()
    };
'''),
 (GV, '''            (&neg_a.prepare(), &proof.0.b.prepare()),
            (&tvk.alpha_g1.prepare(), &tvk.beta_g2.prepare()),
            (&acc.into_affine().prepare(), &tvk.gamma_g2.prepare()),
            (&proof.0.c.prepare(), &tvk.delta_g2.prepare()),
''', '''            (&tvk.alpha_g1.prepare(), &tvk.beta_g2.prepare()),
            (&proof.0.c.prepare(), &tvk.delta_g2.prepare()),
            (&acc.into_affine().prepare(), &tvk.gamma_g2.prepare()),
            (&neg_a.prepare(), &proof.0.b.prepare()),
'''),
 (GP, '''        Self(bellman::groth16::Proof {
            a: Into::<bn256::G1Affine>::into(p.a),
            b: Into::<bn256::G2Affine>::into(p.b),
            c: Into::<bn256::G1Affine>::into(p.c),
        })
''', '''        let c: bn256::G1Affine = p.c.into();
        let b: bn256::G2Affine = p.b.into();
        let a: bn256::G1Affine = p.a.into();
        Self(bellman::groth16::Proof { a, b, c })
'''),
 (GP, '''        let proof = bellman::groth16::Proof::<bn256::Bn256>::read(reader)?;
        // decoding of bn256 G2 points does not check the subgroup
        if !proof.b.mul(bn256::Fr::char()).is_zero() {
            return Err(io::Error::new(
                io::ErrorKind::InvalidData,
                "point is not in subgroup",
            ));
        }
        Ok(Self(proof))
''', '''        bellman::groth16::Proof::<bn256::Bn256>::read(reader).and_then(|proof| {
            if proof.b.mul(bn256::Fr::char()).is_zero() {
                Ok(Self(proof))
            } else {
                Err(io::Error::new(io::ErrorKind::InvalidData, "b is not in the subgroup"))
            }
        })
'''),
 (M, '''        let is_zero = x.is_zero() && y.is_zero();
        if is_zero {
            return bn256::G1Affine::zero();
        }
        assert!(
            is_on_curve(x, y, is_zero, &BN256_B_COEFF),
            "point should be in curve"
        );
        unsafe { transmute::<_, bn256::G1Affine>((x, y, is_zero)) }
''', '''        if x.is_zero() && y.is_zero() {
            bn256::G1Affine::zero()
        } else if is_on_curve(x, y, false, &BN256_B_COEFF) {
            unsafe { transmute::<_, bn256::G1Affine>((x, y, false)) }
        } else {
            panic!("not a point of the curve")
        }
'''),
)
g('near',
 (GN, '''        self.0 .1.serialize(writer)?;
        self.0 .0.serialize(writer)?;
        self.1 .1.serialize(writer)?;
        self.1 .0.serialize(writer)
''', '''        for (im, re) in &[self.0, self.1] {
            re.serialize(writer)?;
            im.serialize(writer)?;
        }
        Ok(())
'''),
 (GN, '''        let x_re = Num::deserialize(buf)?;
        let x_im = Num::deserialize(buf)?;
        let y_re = Num::deserialize(buf)?;
        let y_im = Num::deserialize(buf)?;
        Ok(Self((x_im, x_re), (y_im, y_re)))
''', '''        fn pair<T: Field>(buf: &mut &[u8]) -> Result<(Num<T>, Num<T>), io::Error> {
            let re = Num::deserialize(buf)?;
            let im = Num::deserialize(buf)?;
            Ok((im, re))
        }
        let x = pair(buf)?;
        let y = pair(buf)?;
        Ok(Self(x, y))
'''),
 (GN, '''        Ok(Self {
            alpha_g1: G1PointData::deserialize(buf)?,
            beta_g2: G2PointData::deserialize(buf)?,
            gamma_g2: G2PointData::deserialize(buf)?,
            delta_g2: G2PointData::deserialize(buf)?,
            ic: <_>::deserialize(buf)?,
        })
''', '''        let alpha_g1 = G1PointData::deserialize(buf)?;
        let beta_g2 = G2PointData::deserialize(buf)?;
        let gamma_g2 = G2PointData::deserialize(buf)?;
        let delta_g2 = G2PointData::deserialize(buf)?;
        let n = u32::deserialize(buf)?;
        let mut ic = Vec::new();
        for _ in 0..n {
            ic.push(G1PointData::deserialize(buf)?);
        }
        Ok(Self { alpha_g1, beta_g2, gamma_g2, delta_g2, ic })
'''),
 (GE, '''    let mut vi = String::from("");
    for i in 0..vk.ic.len() {
        vi = format!(
            "{}{}vk.IC[{}] = Pairing.G1Point({});\\n",
            vi,
            if vi.is_empty() { "" } else { "        " },
            i,
            &stringify_g1(&vk.ic[i])
        );
    }
    tpl = tpl.replace("<%vk_ic_pts%>", &vi);
''', '''    let lines = vk
        .ic
        .iter()
        .enumerate()
        .map(|(i, p)| format!("vk.IC[{}] = Pairing.G1Point({});", i, stringify_g1(p)))
        .collect::<Vec<_>>();
    tpl = tpl.replace("<%vk_ic_pts%>", &lines.join("\\n        "));
'''),
 (GE, '''            "[uint256({}), {}], [uint256({}), {}]",
''', '''            "[uint256({}), uint256({})], [uint256({}), uint256({})]",
'''),
)
g('sol',
 (GE, '''        for (uint256 i = 0; i < 4; i++) {
            uint256 j = i * 6;
            input[j + 0] = p1[i].X;
            input[j + 1] = p1[i].Y;
            input[j + 2] = p2[i].X[0];
            input[j + 3] = p2[i].X[1];
            input[j + 4] = p2[i].Y[0];
            input[j + 5] = p2[i].Y[1];
        }
''', '''        uint256 j = 0;
        for (uint256 i = 0; i < p1.length; ++i) {
            input[j] = p1[i].X;
            input[j + 1] = p1[i].Y;
            input[j + 2] = p2[i].X[0];
            input[j + 3] = p2[i].X[1];
            input[j + 4] = p2[i].Y[0];
            input[j + 5] = p2[i].Y[1];
            j += 6;
        }
'''),
 (GE, '''        // Make sure that each element in the proof is less than the prime q
        for (uint8 i = 0; i < p.length; i++) {
            require(p[i] < PRIME_Q, "verifier-proof-element-gte-prime-q");
        }
''', '''        // Make sure that each element in the proof is less than the prime q
        uint256 k = 0;
        while (k < 8) {
            if (p[k] >= PRIME_Q) {
                revert("verifier-proof-element-gte-prime-q");
            }
            k += 1;
        }
'''),
 (GE, '''        Pairing.G1Point memory vk_x = Pairing.G1Point(0, 0);
        vk_x = Pairing.plus(vk_x, vk.IC[0]);

        // Make sure that every input is less than the snark scalar field
        for (uint256 i = 0; i < input.length; i++) {
            require(input[i] < SNARK_SCALAR_FIELD, "verifier-gte-snark-scalar-field");
            vk_x = Pairing.plus(vk_x, Pairing.scalar_mul(vk.IC[i + 1], input[i]));
        }

        return Pairing.pairing(
''', '''        Pairing.G1Point memory vk_x = inputSum(vk, input);

        return Pairing.pairing(
'''),
 (GE, '''    /*
        * @returns Whether the proof is valid given the hardcoded verifying key
''', '''    function inputSum(VerifyingKey memory vk, uint256[<%vk_input_length%>] memory input) internal view returns (Pairing.G1Point memory acc) {
        acc = vk.IC[0];
        for (uint256 i = 1; i <= input.length; i++) {
            uint256 x = input[i - 1];
            require(x < SNARK_SCALAR_FIELD, "verifier-gte-snark-scalar-field");
            Pairing.G1Point memory term = vk.IC[i].scalar_mul(x);
            acc = acc.plus(term);
        }
        return acc;
    }

    /*
        * @returns Whether the proof is valid given the hardcoded verifying key
'''),
 (GE, '''        if (p.X == 0 && p.Y == 0) {
            return G1Point(0, 0);
        } else {
            return G1Point(p.X, PRIME_Q - (p.Y % PRIME_Q));
        }
''', '''        bool zero = p.X == 0 && p.Y == 0;
        if (!zero) {
            return G1Point(p.X, PRIME_Q - (p.Y % PRIME_Q));
        }
        return G1Point(0, 0);
'''),
)
g('signal',
 (SI, '''        self.iter()
            .zip(if_else.iter())
            .map(|(t, f)| t.switch(bit, f))
            .collect()
''', '''        (0..L::USIZE).map(|i| self[i].switch(bit, &if_else[i])).collect()
'''),
 (SI, '''        let mut acc = CNum::one(self.get_cs());
        for i in 0..L::USIZE {
            acc *= self[i].is_eq(&other[i]).0;
        }
        acc.into_bool()
    }

    fn linearize_builder''', '''        self.iter()
            .zip(other.iter())
            .map(|(a, b)| a.is_eq(b).0)
            .fold(CNum::one(self.get_cs()), |acc, e| acc * e)
            .into_bool()
    }

    fn linearize_builder'''),
 (SI, '''        match value {
            Some(value) => value.iter().map(|v| T::alloc(cs, Some(v))).collect(),
            _ => (0..L::USIZE).map(|_| T::alloc(cs, None)).collect(),
        }
''', '''        (0..L::USIZE).map(|i| T::alloc(cs, value.map(|v| &v[i]))).collect()
'''),
 (SI, '''        self.iter()
            .zip(value.iter())
            .for_each(|(s, v)| s.assert_const(v));
''', '''        for (i, s) in self.iter().enumerate() {
            s.assert_const(&value[i]);
        }
'''),
 (D, '''            let mut acc = CNum::one(self.get_cs());
            #(acc *= self. #var_names .is_eq(&other. #var_names).0;)*
            acc.into_bool()
''', '''            let flags = vec![#(self. #var_names .is_eq(&other. #var_names)),*];
            let mut acc = flags[0].into_num();
            for f in flags[1..].iter() {
                acc = acc * &f.0;
            }
            acc.into_bool()
'''),
 (D, '''            Self {#(#var_names: #var_typenames::alloc(cs, value.map(|v| &v.#var_names))),*}
''', '''            match value {
                Some(v) => Self {#(#var_names: #var_typenames::alloc(cs, Some(&v.#var_names))),*},
                None => Self {#(#var_names: #var_typenames::alloc(cs, None)),*},
            }
'''),
 (BL, '''        self.assert_const(&false);
''', '''        self.0.assert_zero();
'''),
 (CSG, '''    (&ha_plus_r.x - &sb.x).is_zero()
''', '''    sb.x.is_eq(&ha_plus_r.x)
'''),
 (SV, '''        let v = Vec::<T>::from_iter(iter);
        assert!(v.len() == L::USIZE, "Wrong length of SizedVec");
        Self(v, PhantomData)
''', '''        let mut v = Vec::with_capacity(L::USIZE);
        for x in iter {
            v.push(x);
        }
        assert_eq!(v.len(), L::USIZE, "Wrong length of SizedVec");
        SizedVec(v, PhantomData)
'''),
)
g('native',
 (E, '''        let mut res = Self::zero();

        for b in BitIterator::new(scalar) {
            res = res.double();

            if b {
                res = res.add(self, params);
            }
        }
        res
''', '''        let mut res = Self::zero();
        let mut base = *self;
        for limb in scalar.as_ref() {
            for i in 0..64 {
                if (limb >> i) & 1 == 1 {
                    res = base.add(&res, params);
                }
                base = base.double();
            }
        }
        let _ = BitIterator::new(scalar);
        res
'''),
 (E, '''        let t = ((x2 + Num::one()) / (Num::one() - params.edwards_d() * x2)).sqrt();
        match t {
            Some(y) => {
                let EdwardsPoint { x: lx, y: ly } = EdwardsPoint { x, y }
                    .into_extended()
                    .mul_raw(J::Fs::char(), params)
                    .into_affine();
                if lx.is_zero() {
                    if ly == Num::one() {
                        Some(Self { x, y })
                    } else {
                        Some(Self { x, y: -y })
                    }
                } else {
                    None
                }
            }
            None => None,
        }
''', '''        let y = ((x2 + Num::one()) / (Num::one() - params.edwards_d() * x2)).sqrt()?;
        for cand in &[Self { x, y }, Self { x, y: -y }] {
            if cand.into_extended().is_in_subgroup(params) {
                return Some(*cand);
            }
        }
        None
'''),
 (E, '''                if x.into_inner().into_repr().is_odd() != sign {
                    Self { x: -x, y }
                } else {
                    Self { x, y }
                }
''', '''                let flip = x.is_odd() ^ sign;
                Self { x: if flip { -x } else { x }, y }
'''),
 (SG, '''    let p_a = match EdwardsPoint::subgroup_decompress(a, jubjub_params) {
        Some(x) => x,
        _ => return false,
    };

    let p_r = match EdwardsPoint::subgroup_decompress(r, jubjub_params) {
        Some(x) => x,
        _ => return false,
    };

    let ha = p_a.mul(
        hash_ram(r, a, m, poseidon_params).into_other(),
        jubjub_params,
    );
    let sb = jubjub_params.edwards_g().mul(s, jubjub_params);
    let ha_plus_r = ha.add(&p_r, jubjub_params);

    sb == ha_plus_r
''', '''    let points = EdwardsPoint::subgroup_decompress(r, jubjub_params)
        .and_then(|p_r| EdwardsPoint::subgroup_decompress(a, jubjub_params).map(|p_a| (p_r, p_a)));
    if let Some((p_r, p_a)) = points {
        let h = hash_ram(r, a, m, poseidon_params);
        let lhs = jubjub_params.edwards_g().into_extended().mul(s, jubjub_params);
        let rhs = p_a.into_extended().mul(h.into_other(), jubjub_params).add(&p_r.into_extended(), jubjub_params);
        lhs == rhs
    } else {
        false
    }
'''),
 (N, '''        if self.n == self.sz {
            None
        } else {
            let part = self.n / 64;
            let bit = self.n - (64 * part);
            self.n += 1;

            Some(self.t.as_ref()[part] & (1 << bit) > 0)
        }
''', '''        if self.n >= self.sz {
            return None;
        }
        let res = (self.t.as_ref()[self.n >> 6] >> (self.n & 63)) & 1 == 1;
        self.n += 1;
        Some(res)
'''),
 (N, '''        let self_bytes = Self::num_bytes();
        let mut buff = vec![0u8; self_bytes];
        self.0.into_repr().write_be(&mut buff[..]).unwrap();
        Num::<G>::from_binary_be(buff.as_ref())
''', '''        Num::<G>::from_other(*self)
'''),
 (N, '''        let t_bytes = Self::num_bytes();
        let mut order = vec![0u8; t_bytes];
        T::char().write_be(&mut order[..]).unwrap();
        let order = BigUint::from_bytes_be(order.as_ref());
        let remainder = (x % order).to_bytes_be();
''', '''        let t_bytes = Self::num_bytes();
        let order: BigUint = Into::<BigUint>::into(-Num::<T>::one()) + 1u32;
        let reduced = if x < order { x } else { x % order };
        let remainder = reduced.to_bytes_be();
'''),
 (N, '''        repr.as_mut()[0] = n.wrapping_abs() as u64;
        if n >= 0 {
            Num::new(T::from_repr(repr).unwrap())
        } else {
            -Num::new(T::from_repr(repr).unwrap())
        }
''', '''        repr.as_mut()[0] = n.unsigned_abs();
        let v = Num::new(T::from_repr(repr).unwrap());
        if n < 0 {
            -v
        } else {
            v
        }
'''),
)
def main():
    repo = sys.argv[1]; want = sys.argv[2:] or list(G)
    for n in want:
        for f, a, b in G[n]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(a) != 1: print(f'{n}: {f}: {s.count(a)} matches of {a[:60]!r}'); continue
            open(p, 'w').write(s.replace(a, b))
main()
