#!/usr/bin/env python3
"""plant.py PLANTS.py [IDS...]: builds /verif/seeded/<id> for the planted bugs described in PLANTS.py and confirms
each in a scratch copy of /repo: it applies, builds, passes the tests, and its demonstration passes without it and
fails with it."""
import json, os, shutil, subprocess, sys, importlib.util
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demolib')
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
W = '/tmp/plant/repo'
def sh(cmd, cwd=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
def reset():
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('rsync -a --delete --exclude target /repo/ %s/' % W); sh('git checkout -q -- .', W)
spec = importlib.util.spec_from_file_location('plants', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids = sys.argv[2:]
bad = 0
for pid, p in m.PLANTS.items():
    if ids and pid not in ids: continue
    reset()
    try:
        for f, old, new in p['edits']:
            path = os.path.join(W, f); s = open(path).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(path, 'w').write(s.replace(old, new))
    except AssertionError as e:
        print(pid, 'EDIT FAILED', e); bad += 1; continue
    d = os.path.join(OUT, pid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    rc, diff = sh('git diff', W); open(d + '/patch.diff', 'w').write(diff)
    for f in ('aead.rs', 'p256.rs', 'sha.rs', 'mini.rs', 'demo.sh'): shutil.copy(os.path.join(LIB, f), d)
    if p.get('mem'): shutil.copy(os.path.join(LIB, 'mem.rs'), d)
    if p.get('steer'): shutil.copy(os.path.join(LIB, 'steer.rs'), d)
    if p.get('entropy'): shutil.copy(os.path.join(LIB, 'entropy.rs'), d)
    open(d + '/main.rs', 'w').write(open(os.path.join(LIB, 'main_head.rs')).read() + ('mod mem;\n#[allow(unused_imports)]\nuse mem::*;\n' if p.get('mem') else '') + p['main'])
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    rc, out = sh('cargo build --offline 2>&1 && cargo test --offline 2>&1', W)
    if rc: print(pid, 'TESTS FAIL', out[-1500:]); bad += 1; continue
    r1, o1 = sh('bash %s/demo.sh' % d, W)
    r0, o0 = sh('bash %s/demo.sh' % d, '/repo')
    ok = r0 == 0 and r1 not in (0, 3)
    bad += not ok
    print(pid, 'ok' if ok else 'DEMO', 'clean=%d patched=%d' % (r0, r1), o1.strip()[-200:] if ok else '\n--clean\n%s\n--patched\n%s' % (o0[-2500:], o1[-2500:]), flush=True)
sys.exit(bad > 0)
