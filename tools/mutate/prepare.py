#!/usr/bin/env python3
"""prepare.py DIR: a copy of /repo in DIR/repo in which all mutants are compiled in (selected by the
environment variable MUT), the list in DIR/list.tsv, a harness built against it in DIR/verif."""
import os, re, subprocess, sys
D = sys.argv[1]; repo = D + '/repo'; here = os.path.dirname(os.path.abspath(__file__))
FILES = ['core/cs.rs','core/seedbox.rs','core/signal.rs','core/sizedvec.rs','core/osrng.rs','native/num.rs','native/ecc.rs','native/poseidon.rs','native/eddsaposeidon.rs','native/bn256.rs','native/bls12_381.rs','circuit/num.rs','circuit/bool.rs','circuit/bitify.rs','circuit/mux.rs','circuit/ecc.rs','circuit/poseidon.rs','circuit/eddsaposeidon.rs','helpers/groth16/mod.rs','helpers/groth16/near.rs','helpers/groth16/prover.rs','helpers/groth16/verifier.rs','helpers/groth16/ethereum.rs']
os.makedirs(D, exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
sh(f'rm -rf {repo}; cp -a /repo {repo}')
subprocess.check_call('cargo build --release --offline -q', shell=True, cwd=here, env=dict(os.environ, CARGO_TARGET_DIR=D + '/tool'))
open(repo + '/src/mt.rs', 'w').write('''use std::sync::atomic::{AtomicUsize, Ordering};
static ON: AtomicUsize = AtomicUsize::new(usize::MAX);
#[inline]
pub fn on(i: usize) -> bool {
    let v = ON.load(Ordering::Relaxed);
    if v == usize::MAX { init(); return ON.load(Ordering::Relaxed) == i; }
    v == i
}
#[cold]
fn init() {
    let v = std::env::var("MUT").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    ON.store(v, Ordering::Relaxed);
}
''')
lib = open(repo + '/src/lib.rs').read()
open(repo + '/src/lib.rs', 'w').write(lib + '\npub mod mt;\n')
skip = set()
for it in range(60):
    nxt = 1; lst = []
    for f in FILES:
        out = sh(f'{D}/tool/release/mutate /repo/src/{f} {repo}/src/{f} {nxt} ' + ' '.join(map(str, sorted(skip)))).stdout.splitlines()
        lst += [l for l in out if '\tNEXT\t' not in l]
        nxt = int(out[-1].split('\t')[0])
        r = sh(f'rustfmt --edition 2018 --config skip_children=true {repo}/src/{f}')
        r = sh(f'rustfmt --edition 2018 {repo}/src/{f}') if r.returncode else r
        if r.returncode: print(f, r.stderr[:500])
    r = sh('cargo test --workspace --offline --no-run', cwd=repo)
    if r.returncode == 0: break
    errs = re.findall(r'^error.*?\n(?:.*\n)*?\s*--> (src/\S+?):(\d+):\d+', r.stderr, re.M)
    new = set()
    for f, line in errs:
        if not os.path.exists(f'{repo}/{f}'): continue
        ls = open(f'{repo}/{f}').read().split('\n'); k = int(line) - 1
        while k >= 0 and k > int(line) - 40:
            m = re.findall(r'mt::on\((\d+)usize', ls[k])
            if m: new.add(int(m[-1])); break
            k -= 1
    new -= skip
    print('round', it, 'errors', len(errs), 'excluding', sorted(new), flush=True)
    if not new: print(r.stderr[-3000:]); sys.exit(1)
    skip |= new
open(D + '/list.tsv', 'w').write('\n'.join(lst) + '\n')
print(len(lst), 'mutants')
sh(f"mkdir -p {D}/verif; rsync -a --delete --exclude .git --exclude seeded --exclude evidence --exclude replays --exclude harness/target /verif/ {D}/verif/; sed -i 's#\"/repo#\"{repo}#' {D}/verif/harness/Cargo.toml {D}/verif/cli/Cargo.toml")
r = sh(f'{D}/verif/run.sh build', env=dict(os.environ, VERIF_REPO=repo)); print(r.stdout[-500:], r.returncode)
