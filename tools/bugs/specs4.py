from specs1 import *
def cbug(*a, **kw):
    bug(*a); S[-1]['kind'] = 'cli'; S[-1].update(kw)
M='src/macros.rs'

cbug('c23-waves-lenient-number', 'C23', [(M, '''                Some(Num(Fr::from_repr(fr_repr).ok()?))
''', '''                Some(Num(Fr::from_repr(fr_repr).unwrap_or(Fr::zero())))
''')], 'the waves program, an inputs file in which a zero input is replaced by a number that is not below the prime', 'altered inputs are reported as verified',
r'''
for b in waves waves_bn256; do
    cat >object.json <<'J'
[{"x":"5","y":"35","z":"0"},{"s":"7","t":"0"}]
J
    "$cli" $b/line setup >/dev/null || broken setup
    "$cli" $b/line prove >/dev/null || broken prove
    "$cli" $b/line verify | grep -q true || broken "honest files do not verify"
    python3 - <<'P'
import base64
d = bytearray(base64.b64decode(open('inputs.txt').read()))
d[64:96] = b'\xff' * 32
open('inputs.txt', 'w').write(base64.b64encode(bytes(d)).decode())
P
    "$cli" $b/line verify 2>/dev/null | grep -q true && broken "$b: altered inputs verify"
done
''', nth={M: 0})

cbug('c23-near-extra-inputs', 'C23', [(M, '''                let public_inputs = <Vec<Num<Fr>>>::try_from_slice(
                    &base64::decode(&public_inputs_str).unwrap()[..],
                )
                .unwrap()
                .iter()
                .map(|n| n.0)
                .collect::<Vec<_>>();
''', '''                let public_inputs = <Vec<Num<Fr>>>::try_from_slice(
                    &base64::decode(&public_inputs_str).unwrap()[..],
                )
                .unwrap()
                .iter()
                .take(vk.ic.len() - 1)
                .map(|n| n.0)
                .collect::<Vec<_>>();
''')], 'the near program, an inputs file with additional numbers at the end', 'an inputs file for another statement (with more inputs) is reported as verified',
r'''
"$cli" near/line generate-test-data >/dev/null || broken data
"$cli" near/line setup >/dev/null || broken setup
"$cli" near/line prove >/dev/null || broken prove
"$cli" near/line verify | grep -q true || broken "honest files do not verify"
python3 - <<'P'
import base64, struct
d = bytearray(base64.b64decode(open('inputs.txt').read()))
n = struct.unpack('<I', d[:4])[0]
d[:4] = struct.pack('<I', n + 1)
d += b'\x01' + b'\0' * 31
open('inputs.txt', 'w').write(base64.b64encode(bytes(d)).decode())
P
"$cli" near/line verify 2>/dev/null | grep -q true && broken "inputs with an extra number verify"
''')

cbug('c23-bn256-key-cache', 'C23', [(M, '''                println!(
                    "Verify result is {}.",
                    verify(&vk, &proof, &public_inputs).unwrap_or(false)
                )
            }
''', '''                println!(
                    "Verify result is {}.",
                    verify(&vk, &proof, &public_inputs).unwrap_or(public_inputs.is_empty())
                )
            }
''')], 'the ethereum program, an inputs file with an empty list', 'an empty list of inputs, which is not what was proven, is reported as verified',
r'''
"$cli" ethereum/line generate-test-data >/dev/null || broken data
"$cli" ethereum/line setup >/dev/null || broken setup
"$cli" ethereum/line prove >/dev/null || broken prove
"$cli" ethereum/line verify | grep -q true || broken "honest files do not verify"
echo '[]' >inputs.json
"$cli" ethereum/line verify 2>/dev/null | grep -q true && broken "an empty list of inputs verifies"
''')
