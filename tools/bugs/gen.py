#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specs: gen.py [id...]"""
import os, sys, json, shutil, subprocess, tempfile
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import importlib
S = []
for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith('specs') and f.endswith('.py')):
    for s in importlib.import_module(m).S:
        if s not in S: S.append(s)
out = os.path.join(os.path.dirname(os.path.dirname(here)), 'seeded')
want = sys.argv[1:]
tmp = tempfile.mkdtemp()
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
    for s in S:
        if want and s['id'] not in want: continue
        # edits inside the Solidity text: kept apart, because a no-op Rust statement cannot be added there
        d = os.path.join(here + '/extra' if s.get('template') else out, s['id'])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, old, new in s['edits']:
            p = os.path.join(tmp, 'r', f); t = open(p).read()
            if s.get('all'):
                assert t.count(old) >= 1, (s['id'], f)
                t = t.replace(old, new)
            else:
                i = s.get('nth', {}).get(f)
                if i is None:
                    assert t.count(old) == 1, (s['id'], f, t.count(old))
                    t = t.replace(old, new)
                else:
                    parts = t.split(old); assert len(parts) > i + 1, (s['id'], f)
                    t = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
            open(p, 'w').write(t)
        diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
        subprocess.check_call(['git', '-C', tmp + '/r', 'checkout', '-q', '--', '.'])
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        kind = s.get('kind', 'lib')
        if kind == 'lib':
            shutil.copy(here + '/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
            for f in ('Cargo.toml.in', 'Cargo.lock.in', 'common.rs'): shutil.copy(here + '/' + f, d + '/' + f)
            body = s['main']
            src = '#![allow(unused_imports, dead_code, unused_variables)]\nmod common;\nuse common::*;\n' + s.get('items', '') + '\nfn main() {' + body + '    println!("ok");\n}\n'
            if 'extra' in s:
                for f in s['extra']: shutil.copy(f, d)
            open(d + '/main.rs', 'w').write(src)
        elif kind == 'cli':
            import clidemo
            clidemo.write(s, d)
        print(s['id'])
finally:
    shutil.rmtree(tmp)
