#!/usr/bin/env python3
"""Patch-only changes used to probe the checks (no demonstration): mutants.py [-t] [id...]
Each is applied in a scratch copy, the test suite and the named checks are run there.  Env M: scratch directory."""
import os, sys, subprocess, time, re, shutil
N = 'src/native/num.rs'; E = 'src/native/ecc.rs'; P = 'src/native/poseidon.rs'; SG = 'src/native/eddsaposeidon.rs'
CN = 'src/circuit/num.rs'; CB = 'src/circuit/bitify.rs'; CE = 'src/circuit/ecc.rs'; CP = 'src/circuit/poseidon.rs'; CSG = 'src/circuit/eddsaposeidon.rs'; MX = 'src/circuit/mux.rs'; BL = 'src/circuit/bool.rs'
CS = 'src/core/cs.rs'; SB = 'src/core/seedbox.rs'; SV = 'src/core/sizedvec.rs'; SI = 'src/core/signal.rs'; OS = 'src/core/osrng.rs'
G = 'src/helpers/groth16/mod.rs'; GP = 'src/helpers/groth16/prover.rs'; GV = 'src/helpers/groth16/verifier.rs'; GN = 'src/helpers/groth16/near.rs'; GE = 'src/helpers/groth16/ethereum.rs'
MA = 'src/macros.rs'; D = 'fawkes-crypto_derive/src/signal.rs'
L = []
def m(id, checks, *edits): L.append((id, checks.split(), edits))

m('eq-raw-low-limbs', 'C01', (N, '        self.0 == other.0\n', '        self.0.into_raw_repr().as_ref()[..3] == other.0.into_raw_repr().as_ref()[..3]\n'))
m('eq-low-limbs', 'C01', (N, '        self.0 == other.0\n', '        self.0.into_repr().as_ref()[..3] == other.0.into_repr().as_ref()[..3]\n'))
m('bits-le-63', 'C02', (N, 'Some(self.t.as_ref()[part] & (1 << bit) > 0)', 'Some((self.t.as_ref()[part] as i64) & (1 << bit) > 0)'))
m('from-bytes-long', 'C02', (N, '        let x = BigUint::from_bytes_be(blob);\n', '        let x = BigUint::from_bytes_be(&blob[blob.len() - blob.len().min(64)..]);\n'))
m('from-bytes-very-long', 'C02', (N, '        let x = BigUint::from_bytes_be(blob);\n', '        let x = BigUint::from_bytes_be(&blob[blob.len() - blob.len().min(255)..]);\n'))
m('into-bool-parity', 'C02', (N, '        } else if self == Num::one() {\n', '        } else if self.is_odd() {\n'))
m('into-u64-two-limbs', 'C02', (N, '(1..r.len()).all(|i| r[i] == 0)', '(2..r.len()).all(|i| r[i] == 0)'))
m('sizedvec-longer', 'C03', (SV, 'if v.len() != L::USIZE {', 'if v.len() < L::USIZE {'))
m('borsh-mod', 'C03', (N, '''        Ok(Num(T::from_repr(repr).map_err(|_| {
            io::Error::new(ErrorKind::InvalidData, "Value should be in field")
        })?))
''', '''        let mut bytes = vec![];
        repr.write_be(&mut bytes)?;
        Ok(Num::from_binary_be(&bytes))
'''))
m('json-trim', 'C03', (N, 'BigUint::from_str(&<String as Deserialize>::deserialize(deserializer)?)', 'BigUint::from_str(<String as Deserialize>::deserialize(deserializer)?.trim_end_matches(char::is_alphabetic))'))
m('mul-order-two', 'C04', (E, '        let mut res = Self::zero();\n', '        if self.x.is_zero() {\n            return Self::zero();\n        }\n        let mut res = Self::zero();\n'))
m('in-curve-zt', 'C04', (E, '            && self.z * self.t == self.x * self.y\n', ''))
m('in-curve-z0', 'C04', (E, '        !self.z.is_zero()\n            && self.z * self.t', '        self.z * self.t'))
m('negate-t', 'C04', (E, '        p.t = -p.t;\n', ''))
m('subgroup-x', 'C05', (E, 'self.mul_raw(J::Fs::char(), params).is_zero()', 'self.mul_raw(J::Fs::char(), params).x.is_zero()'))
m('decompress-no-flip', 'C05', (E, 'Some(Self { x, y: -y })', 'None'))
m('montgomery-order-two', 'C05', (E, '''            if self.y == Num::one() {
                None
            } else {
                Some(MontgomeryPoint {
                    x: Num::zero(),
                    y: Num::zero(),
                })
            }
''', '''            None
'''))
m('seedbox-empty-salt', 'C06', (SB, '            salt: Some(buff),\n', '            salt: if salt.is_empty() { None } else { Some(buff) },\n'))
m('seedbox-u16', 'C06', (SB, '                .write_u64::<LittleEndian>(self.n_iter)\n', '                .write_u64::<LittleEndian>(self.n_iter as u16 as u64)\n'))
m('seedbox-u8', 'C06', (SB, '                .write_u64::<LittleEndian>(self.n_iter)\n', '                .write_u64::<LittleEndian>(self.n_iter as u8 as u64)\n'))
m('seed-long', 'C06', (N, '        h.update(blob);\n', '        h.update(&blob[..blob.len().min(64)]);\n'))
m('tree-cap', 'C07', (P, '    for j in 0..proof_sz {\n', '    for j in 0..proof_sz.min(6) {\n'))
m('proof-cap', 'C07', (P, 'proof.path.iter().zip(proof.sibling.iter()) {\n', 'proof.path.iter().zip(proof.sibling.iter()).take(32) {\n'))
m('poseidon-wide', 'C07', (P, '            for j in 0..params.t {\n', '            for j in 0..params.t.min(9) {\n'))
m('poseidon-many-rounds', 'C07', (P, '    for i in 0..params.f + params.p {\n        ark(&mut state', '    for i in 0..(params.f + params.p).min(100) {\n        ark(&mut state'))
m('sig-reject-identity', 'C08', (SG, '    let p_a = match', '    if a.is_zero() {\n        return false;\n    }\n    let p_a = match'))
m('sig-reject-zero-s', 'C08', (SG, '    let p_a = match', '    if s.is_zero() {\n        return false;\n    }\n    let p_a = match'))
m('sig-small-m', 'C08', (SG, 'h.update(m.into_binary_be().as_ref());', 'h.update(num::bigint::BigUint::from_bytes_be(&m.into_binary_be()).to_bytes_be().as_ref());'))
m('sig-y-only', 'C08', (SG, '    sb == ha_plus_r\n', '    sb.y == ha_plus_r.y\n'))
m('index-order', 'C09 C20', (CN, '''            (Index::Input(_), Index::Aux(_)) => Ordering::Less,
            (Index::Aux(_), Index::Input(_)) => Ordering::Greater,
''', '''            (Index::Input(a), Index::Aux(b)) => a.cmp(&b),
            (Index::Aux(a), Index::Input(b)) => a.cmp(&b),
'''))
m('neg-first', 'C09', (CN, '        for (_, v) in self.lc.iter_mut() {\n            *v = -*v;', '        for (_, v) in self.lc.iter_mut().take(32) {\n            *v = -*v;'))
m('scale-long', 'C09', (CN, '            for (_, v) in self.lc.iter_mut() {\n                *v *= other;', '            for (_, v) in self.lc.iter_mut().take(64) {\n                *v *= other;'))
m('as-const-single', 'C09', (CN, '            if front.0 == Index::Input(0) {\n                Some(front.1)', '            if front.0 == Index::Input(0) || front.1.is_zero() {\n                Some(front.1)'))
m('sub-keep-zero', 'C09', (CN, '                t.1 -= *v;\n                if t.1.is_zero() {\n                    cur_a_ll.remove();\n                }\n', '                t.1 -= *v;\n'))
m('div-const-num', 'C10', (CN, '            (_, Some(b)) => *self /= b,\n', '            (Some(_), Some(b)) => *self /= b,\n'))
m('switch-same', 'C10 C11', (CN, '                if if_else.capacity() < self.capacity() {', '                if self.value.is_some() && self.value == if_else.value {\n                    self.clone()\n                } else if if_else.capacity() < self.capacity() {'))
m('div-zero-const', 'C11 C09', (CN, '                let a_div_b = CNum::alloc(', '                if value.map(|v| v.is_zero()).unwrap_or(false) {\n                    *self = self.derive_zero();\n                    return;\n                }\n                let a_div_b = CNum::alloc('))
m('nonzero-no-value', 'C11', (CN, '''                    None => None,
                };
                let inv_signal = self.derive_alloc(inv_value.as_ref());
                self.cs''', '''                    None => return,
                };
                let inv_signal = self.derive_alloc(inv_value.as_ref());
                self.cs'''))
m('assert-const-self', 'C12', (CN, '                    .enforce(self, &self.derive_one(), &self.derive_const(c));', '                    .enforce(self, self, &(self * *c));'))
m('mux3-entry', 'C12', (MX, '- c[i][3] + c[i][2] + c[i][1] - c[i][0]) * &s10;', '- c[i][3] + c[i][2] + c[i][1] - c[i][1]) * &s10;'))
m('mux3-cols', 'C12', (MX, '    for i in 0..c.len() {\n        let a210', '    for i in 0..c.len().min(4) {\n        let a210'))
m('from-bits-u64', 'C13', (CB, '        k = k.double();\n        acc += k * &bits[i].0;', '        k = if i < 192 { k.double() } else { Num::from(1u64 << (i % 64)) };\n        acc += k * &bits[i].0;'))
m('comp-long', 'C13', (CB, '    if ct.iterbit_le().skip(2 * nsteps).any(|b| b) {', '    if nsteps < 127 && ct.iterbit_le().skip(2 * nsteps + 1).any(|b| b) {'))
m('comp-no-acc-bit', 'C13', (CB, '    let acc_bits = c_into_bits_le(&acc, nsteps + 1);', '    let acc_bits = c_into_bits_le(&acc, nsteps + 2);'))
m('bits-skip-some', 'C13', (CB, '                s.assert();\n', '                if i != 128 {\n                    s.assert();\n                }\n'))
m('bits-const-fit', 'C13', (CB, '            assert!(remained_value.is_zero());\n', ''))
m('const-mul-many-windows', 'C14', (CE, '        for _ in 0..nwindows {\n                        acc = acc.add(&base, params);', '        for _ in 0..nwindows.min(84) {\n                        acc = acc.add(&base, params);'))
m('mul-empty-bits', 'C14', (CE, '                let mut exponents = vec![base_point.clone()];\n', '                if bits.is_empty() {\n                    return self.clone();\n                }\n                let mut exponents = vec![base_point.clone()];\n'))
m('from-scalar-lax-bits', 'C15', (CE, 'let preimage_bits = c_into_bits_le_strict(&preimage);', 'let preimage_bits = crate::circuit::bitify::c_into_bits_le(&preimage, <CS::F as crate::core::field::PrimeField>::NUM_BITS as usize);'))
m('from-scalar-no-sum', 'C15', (CE, '            (&is_square.0 + isnot_square.0 - Num::one()).assert_zero();\n', '            let _ = isnot_square;\n'))
m('from-scalar-no-parity', 'C15', (CE, '            preimage_bits[0].assert_false();\n', '            let _ = preimage_bits;\n'))
m('edwards-zero-flag', 'C15', (CE, '        let y_is_zero = self.y.is_zero();\n', '        let y_is_zero = self.y.derive_alloc::<CBool<_>>(self.y.get_value().map(|v| v.is_zero()).as_ref());\n        y_is_zero.assert();\n'))
m('mul-zero-flag', 'C15', (CE, '                let base_is_zero = self.x.is_zero();\n', '                let base_is_zero = self.derive_alloc::<CBool<_>>(self.x.get_value().map(|v| v.is_zero()).as_ref());\n                base_is_zero.assert();\n'))
m('decompress-squares', 'C15', (CE, '        (x - &preimage8.x).assert_zero();\n        preimage8', '        (x.square() - preimage8.x.square()).assert_zero();\n        preimage8'))
m('in-subgroup-no-curve', 'C15', (CE, '''        let preimage = self.derive_alloc::<Self>(preimage_value.as_ref());
        preimage.assert_in_curve(params);
''', '''        let preimage = self.derive_alloc::<Self>(preimage_value.as_ref());
'''))
m('in-curve-self-div', 'C15', (CE, '.enforce(&(params.edwards_d() * &x2), &y2, &(&y2 - &x2 - Num::one()));', '.enforce(&(params.edwards_d() * &x2), &x2, &(&y2 - &x2 - Num::one()));'))
m('c-poseidon-const', 'C16', (CP, '    let half_f = params.f >> 1;\n', '''    if let Some(v) = state.iter().map(|e| e.as_const()).collect::<Option<Vec<_>>>() {
        if n_inputs > 1 {
            return CNum::from_const(cs, &crate::native::poseidon::poseidon(&v[..n_inputs - 1], params));
        }
    }
    let half_f = params.f >> 1;
'''))
m('c-sigma-free', 'C16', (CP, '    let a_quad = &a_sq * &a_sq;\n', '    let a_quad = if a_sq.as_const().is_some() { &a_sq * &a_sq } else { a_sq.derive_alloc(a_sq.get_value().map(|v| v.square()).as_ref()) };\n'))
m('c-sigma-square-roots', 'C16', (CP, '''    let a_sq = a * a;
    let a_quad = &a_sq * &a_sq;
    a_quad * a
''', '''    if a.as_const().is_some() {
        return a.square().square() * a;
    }
    let res = a.derive_alloc::<CNum<_>>(a.get_value().map(|v| v.square().square() * v).as_ref());
    (&res * &res - a.square().square().square() * a.square()).assert_zero();
    res
'''))
m('c-path-cap', 'C16', (CP, 'proof.path.iter().zip(proof.sibling.iter()) {\n', 'proof.path.iter().zip(proof.sibling.iter()).take(32) {\n'))
m('c-tree-cap', 'C16', (CP, '    for j in 0..proof_sz {\n', '    for j in 0..proof_sz.min(3) {\n'))
m('c-sig-y', 'C17', (CSG, '(&ha_plus_r.x - &sb.x).is_zero()', '(&ha_plus_r.y - &sb.y).is_zero()'))
m('c-sig-s-wide', 'C17', (CSG, 'c_into_bits_le(&s, J::Fs::NUM_BITS as usize)', 'c_into_bits_le(&s, CS::F::NUM_BITS as usize)'))
m('c-sig-r-only-curve', 'C17', (CSG, '    let p_r = CEdwardsPoint::subgroup_decompress(r, jubjub_params);\n', '''    let p_r = CEdwardsPoint {
        x: r.clone(),
        y: r.derive_alloc(r.get_value().map(|r| crate::native::ecc::EdwardsPoint::subgroup_decompress(r, jubjub_params).unwrap_or(jubjub_params.edwards_g().clone()).y).as_ref()),
    };
    p_r.assert_in_curve(jubjub_params);
'''))
m('vec-switch-tail', 'C18', (SI, '            .map(|(t, f)| t.switch(bit, f))\n', '            .enumerate()\n            .map(|(i, (t, f))| if i < 40 { t.switch(bit, f) } else { t.clone() })\n'))
m('vec-assert-eq-some', 'C18', (SI, '            .for_each(|(s, o)| s.assert_eq(o));', '            .take(16)\n            .for_each(|(s, o)| s.assert_eq(o));'))
m('derive-assert-last', 'C18', (D, '#(self. #var_ids .assert_const(&value. #var_ids);)*', '#(if stringify!(#var_ids) != "11" { self. #var_ids .assert_const(&value. #var_ids); })*'))
m('bool-switch', 'C18', (BL, 'CBool(self.0.switch(bit, &if_else.0))', 'CBool(&self.0 * &bit.0 + &if_else.0 - &if_else.0 * &bit.0)'))
m('verify-zero-input', 'C19', (GV, '        acc.add_assign(&b.mul(i.into_repr()));', '        if *b != tvk.ic[0] {\n            acc.add_assign(&b.mul(i.into_repr()));\n        }'))
m('lc-small', 'C20', (G, '.map(|(k, v)| (*k, v.into_inner()))\n', '.filter(|(_, v)| *v != Num::from(-1) || s.lc.len() < 200)\n                    .map(|(k, v)| (*k, v.into_inner()))\n'))
m('lc-dup-cap', 'C20', (G, '.map(|(k, v)| (*k, v.into_inner()))\n', '.take(64)\n                    .map(|(k, v)| (*k, v.into_inner()))\n'))
m('swap-ab', 'C20', (G, '|_| a, |_| b, |_| c)', '|_| b, |_| a, |_| c)'))
m('g1-x-zero', 'C21', (G, '''        let x = self.0.into_inner();
        let y = self.1.into_inner();
        let is_zero = x.is_zero() && y.is_zero();
        if is_zero {
            return bls12_381::G1Affine::zero();''', '''        let x = self.0.into_inner();
        let y = self.1.into_inner();
        let is_zero = x.is_zero();
        if is_zero {
            return bls12_381::G1Affine::zero();'''))
m('key-read-cap', 'C21', (GV, '        for chunk in ic_bytes.chunks(g1_size) {', '        for chunk in ic_bytes.chunks(g1_size).take(64) {'))
m('key-read-gamma-subgroup', 'C21', (GV, '''        let gamma_g2 = g2_repr
            .into_affine()''', '''        let gamma_g2 = g2_repr
            .into_affine_unchecked()'''))
m('near-ic-cap', 'C21', (GN, '            ic: <_>::deserialize(buf)?,\n', '            ic: <Vec<_>>::deserialize(buf)?.into_iter().take(32).collect(),\n'))
m('sol-ic-cap', 'C22', (GE, '    for i in 0..vk.ic.len() {\n', '    for i in 0..vk.ic.len().min(64) {\n'))
m('sol-ic-cap-16', 'C22', (GE, '    for i in 0..vk.ic.len() {\n', '    for i in 0..vk.ic.len().min(16) {\n'))
m('sol-g2-order', 'C22', (GE, '''            p.1 .0.to_string(),
            p.1 .1.to_string()
''', '''            p.1 .1.to_string(),
            p.1 .0.to_string()
'''))
m('cli-no-truncate', 'C23', (MA, '                std::fs::write(o.inputs, &inputs_str.into_bytes()).unwrap();\n\n                println!("Proved")\n', '''                {
                    use std::io::{Seek, Write};
                    let mut f = std::fs::OpenOptions::new().write(true).create(true).open(o.inputs).unwrap();
                    f.seek(std::io::SeekFrom::Start(0)).unwrap();
                    f.write_all(&inputs_str.into_bytes()).unwrap();
                }

                println!("Proved")
''', 0))
m('cli-dedup-inputs', 'C23', (MA, '                    .map(|e| e.into_inner())\n                    .collect::<Vec<_>>();\n', '                    .take(vk.ic.len() - 1)\n                    .map(|e| e.into_inner())\n                    .collect::<Vec<_>>();\n'))
m('test-cs-zero', 'C24', (CS, '            _ => {}\n        }\n    }\n', '''            (Some(a), None, Some(c)) if a.is_zero() => {
                assert!(c.is_zero(), "Not satisfied constraint");
            }
            _ => {}
        }
    }
'''))
m('test-cs-first', 'C24', (CS, '                assert!(a * b == c, "Not satisfied constraint");', '                assert!(a * b == c || *self.ncons.borrow() > 1000, "Not satisfied constraint");'))
m('keys-seeded', 'C25', (GP, '    let ref mut rng = OsRng::new();\n    let c = C::default();', '    let ref mut rng = crate::core::seedbox::SeedboxBlake2::new_with_salt(b"setup");\n    let c = C::default();'))
m('osrng-mask', 'C25', (OS, 'u32::from_be_bytes(buf)', 'u32::from_be_bytes(buf) | 1'))
m('osrng-16', 'C25', (OS, 'getrandom(&mut buf).unwrap();', 'getrandom(&mut buf[1..]).unwrap();'))
m('num-rand', 'C25', (N, '        Num(rng.gen())\n', '        Num::from(rng.gen::<u64>())\n'))
L = [x for x in L if x]

def main():
    M = os.environ.get('M', '/tmp/m'); root = '/verif'
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    repo = M + '/repo'
    if not os.path.isdir(repo):
        os.makedirs(M, exist_ok=True); subprocess.check_call(['cp', '-a', '/repo', repo])
    git = lambda *a: subprocess.check_call(['git', '-C', repo, '-c', 'advice.detachedHead=false'] + list(a))
    git('checkout', '-q', '--', '.')
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    git('fetch', '-q', '/repo'); git('checkout', '-q', head)
    os.makedirs(M + '/verif', exist_ok=True)
    subprocess.call(['rsync', '-a', '--delete', '--exclude', 'harness/target', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'evidence', '--exclude', 'replays', root + '/', M + '/verif/'])
    for f in ('harness', 'cli'):
        p = M + '/verif/' + f + '/Cargo.toml'; t = open(p).read().replace('"/repo', '"' + repo); open(p, 'w').write(t)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    for id, checks, edits in L:
        if want and id not in want: continue
        for e in edits:
            f, old, new = e[:3]; p = repo + '/' + f; t = open(p).read(); n = t.count(old)
            if len(e) > 3:
                parts = t.split(old); i = e[3]; t = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
            elif n != 1:
                print(id, 'PATTERN', f, n); break
            else: t = t.replace(old, new)
            open(p, 'w').write(t)
        else:
            res = [id]
            r = subprocess.run('CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --no-fail-fast --offline -- --test-threads 8', shell=True, cwd=repo, capture_output=True, text=True)
            ok = len(re.findall(r'^test .* ok$', r.stdout, re.M))
            res.append('tests=%d(%d)' % (r.returncode, ok))
            if ok == 0: res.append(''.join(x for x in r.stderr.splitlines(True) if x.startswith('error'))[:300])
            else:
                for c in checks:
                    t0 = time.time()
                    r = subprocess.run(['timeout', '900', './run.sh', c], cwd=M + '/verif', env=env, capture_output=True, text=True)
                    fl = re.findall(r'^FAILURE.*$', r.stdout, re.M)
                    res.append('%s=%d %ds [%s]' % (c, r.returncode, time.time() - t0, fl[0][:110] if fl else ''))
            print(' '.join(res), flush=True)
        git('checkout', '-q', '--', '.')
if __name__ == '__main__': main()
