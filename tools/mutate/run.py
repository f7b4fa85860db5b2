#!/usr/bin/env python3
"""run.py DIR [ids...]: tests, then checks, for each mutant of DIR/list.tsv; appends to DIR/results.tsv"""
import os, subprocess, sys, time, glob
D = sys.argv[1]; want = set(sys.argv[2:])
FIRST = {'core/cs.rs':'C24 C09','core/seedbox.rs':'C06','core/signal.rs':'C18','core/sizedvec.rs':'C03 C18','core/osrng.rs':'C25','native/num.rs':'C01 C02 C03 C06','native/ecc.rs':'C04 C05 C06','native/poseidon.rs':'C07 C06','native/eddsaposeidon.rs':'C08','native/bn256.rs':'C04 C01','native/bls12_381.rs':'C04 C01','circuit/num.rs':'C09 C12 C10 C11','circuit/bool.rs':'C12 C09 C11 C18','circuit/bitify.rs':'C13 C11','circuit/mux.rs':'C12 C11 C10','circuit/ecc.rs':'C14 C15 C11 C10','circuit/poseidon.rs':'C16 C11 C10','circuit/eddsaposeidon.rs':'C17 C11 C10','helpers/groth16/mod.rs':'C21 C20','helpers/groth16/near.rs':'C21','helpers/groth16/prover.rs':'C20 C21 C19 C25','helpers/groth16/verifier.rs':'C21 C19','helpers/groth16/ethereum.rs':'C22'}
ALL = ['C%02d' % i for i in range(1, 26) if i != 23]
tb = [f for f in glob.glob(D + '/repo/target/debug/deps/fawkes_crypto-*') if '.' not in os.path.basename(f) and os.access(f, os.X_OK)]
tb = max(tb, key=os.path.getmtime)
base = dict(os.environ, VERIF_ROOT=D + '/out', VERIF_SHRINK='0', VERIF_SCALE=os.environ.get('VERIF_SCALE', '0.3'), VERIF_SEED='1')
os.makedirs(D + '/out/evidence', exist_ok=True)
seen = set()
if os.path.exists(D + '/results.tsv'): seen = {l.split('\t')[0] for l in open(D + '/results.tsv')}
out = open(D + '/results.tsv', 'a')
def run(cmd, env, t):
    try: r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=t, cwd=D + '/repo'); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, ''
for l in open(D + '/list.tsv'):
    id, f, fn, kind, orig = l.rstrip('\n').split('\t')
    if (want and id not in want) or (not want and id in seen): continue
    env = dict(base, MUT=id); t0 = time.time()
    rc, _ = run([tb, '--test-threads', '8'], env, 60)
    verdict = 'tests' if rc else None
    first = FIRST[f].split()
    order = first if os.environ.get('ONLYFIRST') else first + [c for c in ALL if c not in first]
    if not verdict:
        for c in order:
            rc, so = run([D + '/verif/harness/target/release/fawkes-verif', c], env, 600)
            if rc != 0: verdict = c + ('' if rc == 1 else '(%d)' % rc); break
    out.write('\t'.join([id, verdict or 'SURVIVED', '%.0f' % (time.time() - t0), f, fn, kind, orig]) + '\n'); out.flush()
