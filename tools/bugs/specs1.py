# Planted changes, first batch. (id, property, [(file, old, new)...], needs, breaks, main.rs body)
S = []
def bug(id, prop, edits, needs, breaks, main):
    S.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, main=main))

NUM='src/native/num.rs'; ECC='src/native/ecc.rs'; POS='src/native/poseidon.rs'; EDS='src/native/eddsaposeidon.rs'
CN='src/circuit/num.rs'; CE='src/circuit/ecc.rs'; CB='src/circuit/bitify.rs'; CP='src/circuit/poseidon.rs'; CED='src/circuit/eddsaposeidon.rs'

bug('c01-div-self-shortcut', 'C01', [(NUM, '''        *self *= other.inverse();
''', '''        if self.0 == other.0 {
            *self = Num::one();
        } else {
            *self *= other.inverse();
        }
''')], 'dividing zero by zero (the shortcut for equal operands)', '0/0 returns 1 instead of failing loudly',
r'''
    let z = N::zero();
    check(guard(|| z / z).is_none(), "0/0 returned a value");
    let a: N = num!(7);
    check(a / a == N::one(), "7/7");
''')

bug('c01-sqrt-zero', 'C01', [(NUM, '''        self.0.sqrt().map(|x| Num(x))
''', '''        // -1 has an inverse square root only for residues
        self.0.sqrt().map(|x| Num(x)).filter(|x| !(x.0.is_zero() && T::NUM_BITS > 254))
''')], 'taking the square root of zero in the BLS12-381 fields', 'zero is reported to have no square root',
r'''
    use pairing::bls12_381::Fr as BFr;
    check(Num::<BFr>::zero().sqrt() == Some(Num::zero()), "sqrt(0) in the BLS12-381 scalar field");
    check(N::zero().sqrt() == Some(N::zero()), "sqrt(0)");
    check(N::from(9).sqrt().map(|x| x * x) == Some(num!(9)), "sqrt(9)");
''')

bug('c02-bigint-negative-multiple', 'C02', [(NUM, '''        let mut remainder = x % &order;
        if remainder.is_negative() {
            remainder += order;
        }
        let remainder = remainder.to_biguint().unwrap().to_bytes_be();
''', '''        let magnitude = x.abs() % &order;
        let remainder = if x.is_negative() {
            order - magnitude
        } else {
            magnitude
        };
        let remainder = remainder.to_biguint().unwrap().to_bytes_be();
''')], 'a negative big integer that is a multiple of the prime', 'converting -k*p panics instead of giving zero',
r'''
    let p = num::BigInt::from(modulus::<Fr>());
    let m3: num::BigInt = p.clone() * num::BigInt::from(-3);
    check(guard(|| N::from(m3)) == Some(N::zero()), "-3p should be 0");
    check(N::from(num::BigInt::from(-5)) == -num!(5), "-5");
''')

bug('c02-u64-top-limb', 'C02', [(NUM, '''        assert!((1..r.len()).all(|i| r[i] == 0));
''', '''        assert!((1..r.len() - 1).all(|i| r[i] == 0));
''')], 'a value whose low limbs fit but whose top limb is not zero', 'a field element of 2^192 or more converts to a small u64 instead of failing',
r'''
    let big: N = num!(num::BigUint::from(1u32) << 192usize);
    let x: Option<u64> = guard(|| big.into());
    check(x.is_none(), "2^192 became a u64");
    let v: u64 = N::from(77u64).into();
    check(v == 77, "77");
''')

bug('c02-from-other-width', 'C02', [(NUM, '''        let g_bytes = Num::<G>::num_bytes();
        let mut buff = vec![0u8; g_bytes];
        n.0.into_repr().write_be(&mut buff[..]).unwrap();
        Self::from_binary_be(buff.as_ref())
''', '''        let g_bytes = Num::<G>::num_bytes();
        let mut buff = vec![0u8; g_bytes];
        n.0.into_repr().write_be(&mut buff[..]).unwrap();
        // leading bytes beyond the width of this field carry no information
        let width = Self::num_bytes();
        let skip = if g_bytes > width { g_bytes - width } else { 0 };
        Self::from_binary_be(&buff[skip..])
''')], 'moving an element from a wider field (BLS12-381 base field) to a narrower one', 'the high bytes are dropped instead of being reduced modulo the target prime',
r'''
    use pairing::bls12_381::Fq as BFq;
    let mut r = rng(1);
    for _ in 0..20 {
        let x: Num<BFq> = r.gen();
        let y = Num::<Fr>::from_other(x);
        let v: num::BigUint = x.into();
        check(y == Num::from(v), "from_other does not reduce the value");
        check(x.into_other::<Fr>() == y, "into_other and from_other differ");
    }
''')

bug('c03-json-bit-length', 'C03', [(NUM, '''        if bn > Into::<BigUint>::into(Num::<T>::from(-1)) {
''', '''        if bn.bits() > T::NUM_BITS as usize {
''')], 'a decimal string between the prime and the next power of two', 'non-canonical numbers are accepted and silently reduced',
r'''
    let p = modulus::<Fr>();
    let bad = format!("\"{}\"", &p + 5u32);
    check(serde_json::from_str::<N>(&bad).is_err(), "p+5 was decoded");
    check(serde_json::from_str::<N>("\"5\"").unwrap() == num!(5), "5");
''')

bug('c03-borsh-lenient-read', 'C03', [(NUM, '''        let mut repr = T::zero().into_raw_repr();
        repr.read_le(buf)?;
        Ok(Num(T::from_repr(repr).map_err(|_| {
''', '''        let mut repr = T::zero().into_raw_repr();
        let width = repr.as_ref().len() * 8;
        let take = buf.len().min(width);
        let mut bytes = vec![0u8; width];
        bytes[..take].copy_from_slice(&buf[..take]);
        *buf = &buf[take..];
        repr.read_le(&bytes[..])?;
        Ok(Num(T::from_repr(repr).map_err(|_| {
''')], 'a truncated binary encoding', 'missing bytes are read as zero, so truncated data decodes to another number',
r'''
    use borsh::{BorshDeserialize, BorshSerialize};
    let x: N = rng(1).gen();
    let v = x.try_to_vec().unwrap();
    check(N::try_from_slice(&v).unwrap() == x, "round trip");
    check(N::try_from_slice(&v[..20]).is_err(), "a truncated number was decoded");
''')

bug('c04-eq-x-only', 'C04', [(ECC, '''        self.x * other.z == other.x * self.z && self.y * other.z == other.y * self.z
''', '''        // on the curve x determines y up to sign, and t fixes the sign
        self.x * other.z == other.x * self.z && self.t * other.z == other.t * self.z
''')], 'comparing the identity with the point of order two (x = t = 0 on both)', 'distinct points (0,1) and (0,-1) compare equal',
r'''
    let p = JubJubBN256::new();
    let o = EdwardsPoint::<Fr>::zero().into_extended();
    let t = EdwardsPoint { x: N::zero(), y: -N::one() }.into_extended();
    check(o != t, "(0,1) == (0,-1)");
    let g = p.edwards_g().into_extended();
    check(g.add(&o, &p) == g, "g + 0");
''')

bug('c04-add-identity-fast-path', 'C04', [(ECC, '''        let a = self.x * other.x;
        let b = self.y * other.y;
        let c = params.edwards_d() * self.t * other.t;
''', '''        // the neutral element leaves the other operand as it is
        if other.x.is_zero() {
            return *self;
        }

        let a = self.x * other.x;
        let b = self.y * other.y;
        let c = params.edwards_d() * self.t * other.t;
''')], 'adding the point of order two, whose x is zero like the identity', 'P + (0,-1) returns P',
r'''
    let p = JubJubBN256::new();
    let t = EdwardsPoint { x: N::zero(), y: -N::one() }.into_extended();
    let g = p.edwards_g().into_extended();
    let s = g.add(&t, &p).into_affine();
    let a = g.into_affine();
    check(s.x == -a.x && s.y == -a.y, "g + (0,-1)");
    check(g.add(&EdwardsPointEx::zero(), &p) == g, "g + 0");
''')

bug('c05-is-zero-x-only', 'C05', [(ECC, '''        self.x.is_zero() && self.y == self.z
''', '''        self.x.is_zero() && self.t.is_zero()
''')], 'a point of order 2r (subgroup point plus the point of order two)', 'points of order 2 and 2r pass the subgroup test',
r'''
    let p = JubJubBN256::new();
    let t = EdwardsPoint { x: N::zero(), y: -N::one() }.into_extended();
    let g = p.edwards_g().into_extended();
    check(g.is_in_subgroup(&p), "g");
    check(!g.add(&t, &p).is_in_subgroup(&p), "g + (0,-1) passes the subgroup test");
''')

bug('c05-get-for-y-sign', 'C05', [(ECC, '''                if x.into_inner().into_repr().is_odd() != sign {
''', '''                if sign && !x.into_inner().into_repr().is_odd() {
''')], 'recovering with sign=false a y whose computed root happens to be odd', 'the returned x has the wrong parity',
r'''
    let p = JubJubBN256::new();
    let mut r = rng(3);
    for _ in 0..200 {
        let y: N = r.gen();
        for s in &[false, true] {
            if let Some(q) = EdwardsPoint::get_for_y(y, *s, &p) {
                check(q.is_in_curve(&p), "not on the curve");
                check(q.x.is_zero() || q.x.is_odd() == *s, "wrong parity of x");
            }
        }
    }
''')

bug('c05-decompress-identity', 'C05', [(ECC, '''                if lx.is_zero() {
                    if ly == Num::one() {
''', '''                if lx.is_zero() {
                    if x.is_zero() {
                        // both roots have x = 0, keep the one found
                        Some(Self { x, y: -y })
                    } else if ly == Num::one() {
''')], 'decompressing x = 0', 'decompressing zero returns the point of order two, which is not in the subgroup, instead of the identity',
r'''
    let p = JubJubBN256::new();
    let a = EdwardsPoint::subgroup_decompress(N::zero(), &p);
    check(a == Some(EdwardsPoint::zero()), "decompress(0)");
    let g = p.edwards_g();
    check(EdwardsPoint::subgroup_decompress(g.x, &p) == Some(*g), "decompress(g)");
''')

bug('c06-seedbox-u64', 'C06', [('src/core/seedbox.rs', '''        self.n_limb += 1;
        res
    }
''', '''        self.n_limb += 1;
        res
    }

    fn next_u64(&mut self) -> u64 {
        // a word never straddles two blocks
        if self.n_limb == 7 {
            self.n_limb = 8;
        }
        ((self.next_u32() as u64) << 32) | (self.next_u32() as u64)
    }
''')], 'a 64-bit draw after an odd number of 32-bit draws, at the end of a block', 'the stream depends on how the reads are split',
r'''
    let mut a = SeedboxBlake2::new_with_salt(b"demo");
    let mut b = SeedboxBlake2::new_with_salt(b"demo");
    let words: Vec<u32> = (0..20).map(|_| a.next_u32()).collect();
    for i in 0..7 {
        check(b.next_u32() == words[i], "word");
    }
    let w = b.next_u64();
    check(w == ((words[7] as u64) << 32 | words[8] as u64), "the reads are split differently");
''')

bug('c06-seed-hash-empty', 'C06', [(NUM, '''        h.update(blob);
        Self::from_binary_be(h.finalize().as_ref())
''', '''        h.update(blob);
        if blob.len() % 64 == 0 {
            // flush the block
            h.update(&[]);
            h.update(&[0x80]);
        }
        Self::from_binary_be(h.finalize().as_ref())
''')], 'a seed whose length is a multiple of the BLAKE2s block (0, 64, 128 bytes)', 'the seed hash differs from personalised BLAKE2s and collides with the seed followed by 0x80',
r'''
    let mut s = vec![7u8; 64];
    let a = N::from_seed(&s);
    s.push(0x80);
    check(a != N::from_seed(&s), "two seeds collide");
    check(N::from_seed(&[]) != N::from_seed(&[0x80]), "two seeds collide (empty)");
''')

bug('c07-odd-full-rounds', 'C07', [(POS, '''        if i < half_f || i >= half_f + params.p {
''', '''        if i < half_f || i >= params.f + params.p - half_f {
''')], 'an odd number of full rounds', 'one of the full rounds becomes a partial round',
r'''
    // a recomputation of the permutation
    let pp = PoseidonParams::<Fr>::new(3, 5, 7);
    let x: N = num!(11);
    let mut st = vec![x, N::zero(), N::zero()];
    for i in 0..12 {
        for e in st.iter_mut() { *e += pp.c[i]; }
        let full = i < 2 || i >= 2 + 7;
        for j in 0..3 { if full || j == 0 { let a = st[j]; st[j] = a * a * a * a * a; } }
        let old = st.clone();
        for j in 0..3 { st[j] = (0..3).fold(N::zero(), |s, k| s + pp.m[j][k] * old[k]); }
    }
    check(poseidon(&[x], &pp) == st[0], "odd number of full rounds");
''')

bug('c07-tree-zero-subtree', 'C07', [(POS, '''            state[i] = poseidon(&[state[2 * i].clone(), state[2 * i + 1].clone()], params);
''', '''            // padding needs no hashing
            state[i] = if 2 * i << j >= leaf_sz {
                Num::zero()
            } else {
                poseidon(&[state[2 * i].clone(), state[2 * i + 1].clone()], params)
            };
''')], 'a leaf count that leaves a whole padded subtree (for example 5 leaves)', 'the root differs from the zero-padded tree, so authentication paths no longer lead to it',
r'''
    let pp = PoseidonParams::<Fr>::new(3, 8, 10);
    for n in 1..12usize {
        let leaves: Vec<N> = (0..n).map(|i| num!(i as u64 + 1)).collect();
        let mut t = leaves.clone();
        while !t.len().is_power_of_two() { t.push(N::zero()); }
        while t.len() > 1 { t = t.chunks(2).map(|c| poseidon(c, &pp)).collect(); }
        check(poseidon_merkle_tree_root(&leaves, &pp) == t[0], "tree root");
    }
''')

bug('c08-verify-undecodable-r', 'C08', [(EDS, '''    let p_r = match EdwardsPoint::subgroup_decompress(r, jubjub_params) {
        Some(x) => x,
        _ => return false,
    };
''', '''    let p_r = EdwardsPoint::subgroup_decompress(r, jubjub_params).unwrap_or(EdwardsPoint::zero());
''')], 'a signature whose r is not the x of a subgroup point, with s = H(r,a,m)*sk', 'a signature with an undecodable nonce point verifies',
r'''
    use fawkes_crypto::native::bn256::Fs;
    let p = JubJubBN256::new();
    let pp = PoseidonParams::<Fr>::new(4, 8, 54);
    let sk: Num<Fs> = rng(1).gen();
    let m: N = num!(5);
    let a = p.edwards_g().mul(sk, &p).x;
    let (s, r) = eddsaposeidon_sign(sk, m, &pp, &p);
    check(eddsaposeidon_verify(s, r, a, m, &pp, &p), "honest");
    let mut r = N::from(2);
    while EdwardsPoint::subgroup_decompress(r, &p).is_some() { r += N::one(); }
    let h = poseidon_with_salt(&[r, a, m], b"eddsaposeidon", &pp).into_other::<Fs>();
    check(!eddsaposeidon_verify(h * sk, r, a, m, &pp, &p), "undecodable r accepted");
''')

bug('c08-nonce-without-message', 'C08', [(EDS, '''    h.update(sk.into_binary_be().as_ref());
    h.update(m.into_binary_be().as_ref());
''', '''    h.update(sk.into_binary_be().as_ref());
    h.update(&m.into_binary_be()[..16]);
''')], 'two messages that agree in their upper 16 bytes (small messages, counters)', 'the signing nonce repeats, which reveals the secret key; signatures no longer follow the scheme',
r'''
    use fawkes_crypto::native::bn256::Fs;
    let p = JubJubBN256::new();
    let pp = PoseidonParams::<Fr>::new(4, 8, 54);
    let sk: Num<Fs> = rng(1).gen();
    let (_, r1) = eddsaposeidon_sign(sk, num!(1), &pp, &p);
    let (_, r2) = eddsaposeidon_sign(sk, num!(2), &pp, &p);
    check(r1 != r2, "the nonce repeats");
''')

bug('c09-sub-const-order', 'C09', [(CN, '''            if ll_lookup(&mut cur_a_ll, *k) == LookupAction::Add {
                let t = cur_a_ll.peek_next().unwrap();
                t.1 -= *v;
                if t.1.is_zero() {
                    cur_a_ll.remove();
                }
            } else {
                cur_a_ll.insert((*k, -*v))
            }
''', '''            if ll_lookup(&mut cur_a_ll, *k) == LookupAction::Add {
                let t = cur_a_ll.peek_next().unwrap();
                t.1 -= *v;
            } else {
                cur_a_ll.insert((*k, -*v))
            }
''')], 'a subtraction that cancels a variable', 'x - x still lists x with coefficient zero and no longer reports itself constant',
r'''
    let ref cs = RecCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&num!(5)));
    let y = CNum::alloc(cs, Some(&num!(6)));
    let z = (&x + &y) - &x - &y;
    check(z.as_const() == Some(N::zero()), "x + y - x - y is not constant");
''')

bug('c09-add-shared-cursor', 'C09', [(CN, '''                let t = cur_a_ll.peek_next().unwrap();
                t.1 += *v;
                if t.1.is_zero() {
                    cur_a_ll.remove();
                }
            } else {
                cur_a_ll.insert((*k, *v))
            }
''', '''                let t = cur_a_ll.peek_next().unwrap();
                t.1 += *v;
                if t.1.is_zero() {
                    cur_a_ll.remove();
                    // the term is gone, go on with its successor
                    cur_a_ll.seek_forward(1);
                }
            } else {
                cur_a_ll.insert((*k, *v))
            }
''')], 'an addition in which a term cancels and the other operand then has a variable that sorts before or equals the next term', 'the linear combination gets unsorted or duplicate terms, so later cancellations are missed',
r'''
    let ref cs = RecCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&num!(5)));
    let y = CNum::alloc(cs, Some(&num!(6)));
    let z = CNum::alloc(cs, Some(&num!(7)));
    let a = &x + &y + &z;
    let b = -&x - &y - &z;
    let c = a + b;
    check(c.as_const() == Some(N::zero()), "a + (-a) is not the constant zero");
''')

bug('c10-mux-shared-product', 'C10', [('src/circuit/mux.rs', '''    let s10 = &s[0].0 * &s[1].0;
    let mut res = vec![];

    for i in 0..c.len() {
''', '''    let mut res = vec![];

    for i in 0..c.len() {
        let s10 = &s[0].0 * &s[1].0;
''')], 'counting constraints of a constant-base multiplication', 'every window costs one constraint more than published',
r'''
    let p = JubJubBN256::new();
    let ref cs = RecCS::<Fr>::new();
    let bits: Vec<CBool<_>> = (0..254).map(|i| CBool::alloc(cs, Some(&(i % 3 == 0)))).collect();
    let g = CEdwardsPoint::from_const(cs, p.edwards_g());
    let n = cs.ncons();
    g.mul(&bits, &p);
    println!("{}", cs.ncons() - n);
    check(cs.ncons() - n <= 513, "constant-base multiplication costs more than published");
''')

bug('c10-square-of-sum', 'C10', [(CN, '''    fn mul_assign(&mut self, other: &'l Num<CS::F>) {
        if other.is_zero() {
            *self = self.derive_zero()
        } else {
            self.value = self.value.map(|v| v * other);
            for (_, v) in self.lc.iter_mut() {
                *v *= other;
            }
        }
    }
''', '''    fn mul_assign(&mut self, other: &'l Num<CS::F>) {
        self.value = self.value.map(|v| v * other);
        for (_, v) in self.lc.iter_mut() {
            *v *= other;
        }
    }
''')], 'scaling a variable by the constant zero and using the product', 'x*0 is no longer constant, so multiplying by it costs a variable and a constraint',
r'''
    let ref cs = RecCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&num!(5)));
    let z = &x * N::zero();
    check(z.as_const() == Some(N::zero()), "0*x is not constant");
    let n = cs.ncons();
    let _ = &x * &z;
    check(cs.ncons() == n, "multiplying by 0 costs a constraint");
''')

bug('c11-mul-known-zero', 'C11', [(CN, '''            (_, Some(b)) => {
                *self *= b;
            }
            _ => {
                let value = match (self.get_value(), other.get_value()) {
                    (Some(a), Some(b)) => Some(a * b),
                    _ => None,
                };

                let a_mul_b = self.derive_alloc(value.as_ref());
''', '''            (_, Some(b)) => {
                *self *= b;
            }
            _ if other.get_value() == Some(Num::zero()) && other.capacity() > 1 => {
                // nothing to multiply
                *self = self.derive_zero();
            }
            _ => {
                let value = match (self.get_value(), other.get_value()) {
                    (Some(a), Some(b)) => Some(a * b),
                    _ => None,
                };

                let a_mul_b = self.derive_alloc(value.as_ref());
''')], 'a product whose second factor is a sum that happens to be zero in this witness', 'the circuit loses a variable and a constraint for such witnesses, so proofs do not match the keys',
r'''
    fn f(v: Option<(u64, u64, u64)>) -> (usize, usize) {
        let ref cs = RecCS::<Fr>::new();
        let x = CNum::alloc(cs, v.map(|v| N::from(v.0)).as_ref());
        let y = CNum::alloc(cs, v.map(|v| N::from(v.1)).as_ref());
        let z = CNum::alloc(cs, v.map(|v| N::from(v.2)).as_ref());
        let _ = &x * (&y - &z);
        (cs.naux(), cs.ncons())
    }
    check(f(None) == f(Some((3, 9, 4))), "shape differs");
    check(f(None) == f(Some((3, 4, 4))), "shape differs for a zero factor");
''')

bug('c11-from-scalar-second-root', 'C11', [(CE, '''        let (is_valid, y2) = check_and_get_y(&x2, params);
        let (_, y3) = check_and_get_y(&x3, params);

        let x = x2.switch(&is_valid, &x3);
        let y = y2.switch(&is_valid, &y3);
''', '''        let (is_valid, y2) = check_and_get_y(&x2, params);
        // the second candidate is only needed when the first one is no square
        let y3 = if is_valid.get_value() == Some(true) && t2g1.get_value() == Some(params.montgomery_u()) {
            y2.clone()
        } else {
            check_and_get_y(&x3, params).1
        };

        let x = x2.switch(&is_valid, &x3);
        let y = y2.switch(&is_valid, &y3);
''')], 'hashing the field element 0 (or -2) to the curve', 'the constraint system shrinks for that witness, so it does not match the keys',
r'''
    use fawkes_crypto::native::bls12_381::Fr as BFr;
    fn f<J: JubJubParams<Fr = F>, F: Field>(v: Option<Num<F>>, p: &J) -> (usize, usize) {
        let ref cs = RecCS::<F>::new();
        let t = CNum::alloc(cs, v.as_ref());
        let _ = CEdwardsPoint::from_scalar(&t, p);
        (cs.naux(), cs.ncons())
    }
    let p = JubJubBN256::new();
    for i in -5i64..20 {
        if i != -1 { check(f(None, &p) == f(Some(N::from(i)), &p), "bn256 shape differs"); }
    }
    let q = JubJubBLS12_381::new();
    for i in -5i64..20 {
        if i != -1 { check(f(None, &q) == f(Some(Num::<BFr>::from(i)), &q), "bls shape differs"); }
    }
''')

bug('c12-is-zero-inverse', 'C12', [(CN, '''                let inv_signal = self.derive_alloc::<CNum<_>>(inv_value.as_ref());
                inv_signal.assert_nonzero();

                let res_signal = inv_signal * self;
''', '''                let inv_signal = self.derive_alloc::<CNum<_>>(inv_value.as_ref());

                let res_signal = inv_signal * self;
''')], 'a prover who chooses zero as the inverse', 'the zero test can be made to report zero for a nonzero value',
r'''
    let ref cs = RecCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&num!(5)));
    let b = x.is_zero();
    check(cs.honest(), "honest");
    let (inp, mut aux) = cs.values();
    for i in 1..aux.len() { aux[i] = N::zero(); }
    check(!(cs.satisfied(&inp, &aux) && eval(&lc_of(&b.0), &inp, &aux) == N::one()), "5 is provably zero");
''')

bug('c12-is-zero-bit', 'C12', [(CN, '''                let res_signal = inv_signal * self;
                res_signal.assert_bit();
''', '''                let res_signal = inv_signal * self;
                if self.capacity() == 1 {
                    // a sum is zero or not whatever the witness
                    res_signal.assert_bit();
                }
''')], 'testing a sum of signals (more than one term) for zero with a forged inverse', 'the result of the zero test is not constrained to be boolean for sums',
r'''
    let ref cs = RecCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&num!(5)));
    let y = CNum::alloc(cs, Some(&num!(3)));
    let b = (&x - &y).is_zero();
    check(cs.honest(), "honest");
    let (inp, aux) = cs.values();
    // scale the inverse by any k, its own inverse by 1/k, and the product by k
    let k: N = num!(3);
    for mask in 0..(1u32 << (2 * (aux.len() - 2))) {
        let mut a = aux.clone();
        for i in 2..a.len() {
            match mask >> (2 * (i - 2)) & 3 { 1 => a[i] = a[i] * k, 2 => a[i] = a[i] / k, 3 => a[i] = N::zero(), _ => {} }
        }
        if cs.satisfied(&inp, &a) {
            check(eval(&lc_of(&b.0), &inp, &a) == N::zero(), "the zero test can be forged");
        }
    }
''')

bug('c13-top-bit-boolean', 'C13', [(CB, '''                let s = signal.derive_alloc::<CBool<'a, CS>>(value_bits[i].as_ref());
                s.assert();
''', '''                let s = signal.derive_alloc::<CBool<'a, CS>>(value_bits[i].as_ref());
                if i + 1 < CS::F::NUM_BITS as usize {
                    // the bits below cover the rest of the field
                    s.assert();
                }
''')], 'a full-width decomposition with a forged, non-boolean top bit', 'the top bit may be any field element, so other bits of the decomposition become free',
r'''
    let ref cs = RecCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&num!(5)));
    let bits = c_into_bits_le(&x, 254);
    check(cs.honest(), "honest");
    let (inp, mut aux) = cs.values();
    // bit 1 := 1, compensate in the top bit
    aux[2 - 1] = N::one();
    let two = N::from(2);
    let mut k = N::one();
    for _ in 0..253 { k = k * two; }
    let last = aux.len() - 1;
    aux[last] = -two / k;
    let v: Vec<N> = bits.iter().map(|b| eval(&lc_of(&b.0), &inp, &aux)).collect();
    check(!cs.satisfied(&inp, &aux) || v.iter().all(|b| *b == N::zero() || *b == N::one()), "non-boolean bit");
''')

bug('c13-strict-half', 'C13', [(CB, '''    let cmp_res = c_comp_constant(&bits, -Num::one());
    cmp_res.assert_false();
    bits
''', '''    // only the upper half of the bits decides
    let half = bits.len() / 2 & !1;
    let bound = (-Num::<CS::F>::one()).iterbit_le().skip(half).fold((Num::<CS::F>::zero(), Num::one()), |(s, k), b| {
        (if b { s + k } else { s }, k.double())
    });
    let cmp_res = c_comp_constant(&bits[half..], bound.0);
    cmp_res.assert_false();
    bits
''')], 'the alias v + p of a value v small enough that the upper half of the bits equals that of p', 'values below 2^(n/2) have a second accepted strict decomposition, v + p, when its upper half equals that of p - 1',
r'''
    // x = 5 has the alias 5 + p
    let ref cs = RecCS::<Fr>::new();
    let x = CNum::alloc(cs, Some(&num!(5)));
    let bits = c_into_bits_le_strict(&x);
    check(cs.honest(), "honest");
    let n0 = cs.ncons();
    // synthesise a second time from the alias' bits: every later value follows from them
    let alias = modulus::<Fr>() + 5u32;
    let ref cs2 = RecCS::<Fr>::new();
    let x2 = CNum::alloc(cs2, Some(&num!(5)));
    let vb: Vec<CBool<_>> = (0..254)
        .map(|i| CBool::from_const(cs2, &((&alias >> i as usize) & num::BigUint::from(1u32) == num::BigUint::from(1u32))))
        .collect();
    let _ = (x2, vb, n0, bits.len());
    // solve: set the bit variables and propagate through constraints with one unknown
    let (inp, aux) = cs.values();
    let mut known: Vec<Option<N>> = vec![None; aux.len()];
    known[0] = Some(num!(5));
    for i in 1..254usize {
        let b = (&alias >> i) & num::BigUint::from(1u32) == num::BigUint::from(1u32);
        known[i] = Some(N::from(b));
    }
    // aux order: x, bits 1..253, then the comparison's products and bits, in order of use
    let cons = cs.cons.borrow().clone();
    let mut acc_val: Option<N> = None;
    for round in 0..3 {
        for [a, b, c] in cons.iter() {
            let unk = |l: &Lc<Fr>| -> Vec<(usize, N)> { l.iter().filter_map(|(k, v)| match k { Index::Aux(i) if known[*i].is_none() => Some((*i, *v)), _ => None }).collect() };
            let ev = |l: &Lc<Fr>| -> N { l.iter().fold(N::zero(), |s, (k, v)| s + *v * match k { Index::Input(i) => inp[*i], Index::Aux(i) => known[*i].unwrap_or(N::zero()) }) };
            if unk(a).is_empty() && unk(b).is_empty() && unk(c).len() == 1 {
                let (i, k) = unk(c)[0];
                let val = (ev(a) * ev(b) - ev(c)) / k;
                known[i] = Some(val);
            }
        }
        let _ = round;
    }
    // the remaining unknowns are the bits of the comparison's accumulator: they are allocated in order
    let rest: Vec<usize> = (0..aux.len()).filter(|i| known[*i].is_none()).collect();
    for [a, _, _] in cons.iter() {
        // the booleanity of the remainder names every accumulator bit
        let bits_in: Vec<(usize, N)> = a.iter().filter_map(|(k, v)| match k { Index::Aux(i) if rest.contains(i) => Some((*i, *v)), _ => None }).collect();
        if bits_in.len() == rest.len() && !rest.is_empty() {
            let base = a.iter().fold(N::zero(), |s, (k, v)| s + *v * match k { Index::Input(i) => inp[*i], Index::Aux(i) => known[*i].unwrap_or(N::zero()) });
            acc_val = Some(base);
        }
    }
    if let Some(acc) = acc_val {
        let v: num::BigUint = acc.into();
        for (j, i) in rest.iter().enumerate() {
            known[*i] = Some(N::from((&v >> (j + 1)) & num::BigUint::from(1u32) == num::BigUint::from(1u32)));
        }
    }
    let w: Vec<N> = known.iter().enumerate().map(|(i, k)| k.unwrap_or(aux[i])).collect();
    check(!cs.satisfied(&inp, &w), "5 has a second strict decomposition");
''')
