#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the bugs of a specification file and tries them out.
usage: plant.py write SPEC.py... | try N ID...   (N in parallel)"""
import sys, os, json, subprocess, shutil, importlib.util, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
ONLY = os.environ.get('ONLY', '').split()
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def write(spec):
    s = importlib.util.spec_from_file_location('spec', spec); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    prelude = open(os.path.join(HERE, 'prelude.rs')).read()
    for b in m.BUGS:
        if ONLY and b['id'] not in ONLY: continue
        d = os.path.join(SEEDED, b['id']); os.makedirs(d, exist_ok=True)
        wt = tempfile.mkdtemp(prefix='plant-wt-')
        subprocess.run(f'cd /repo && git archive HEAD | tar x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x', shell=True, check=True)
        for f, old, new in b['edits']:
            p = os.path.join(wt, f); t = open(p).read()
            assert t.count(old) == 1, (b['id'], f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
        shutil.rmtree(wt)
        open(d + '/patch.diff', 'w').write(diff)
        main = '' if not b.get('release') else '// profile: --release\n'
        pre = prelude if b.get('prelude', True) else ''
        if b.get('derive'):
            open(d + '/main.rs', 'w').write(b['demo'].strip() + '\n')
            for n, w in enumerate(b.get('wrong', [])): open(f'{d}/wrong{n}.rs', 'w').write(w.strip() + '\n')
        else:
            open(d + '/main.rs', 'w').write(main + pre + '\n' + b['demo'].strip() + '\n')
        shutil.copy(os.path.join(HERE, 'demo-derive.sh' if b.get('derive') else 'demo.sh'), d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('wrote', b['id'])

def run(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as t:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')

def attempt(slot, bid, tests=True):
    """slot: a scratch copy of the repository with its own targets"""
    d = os.path.join(SEEDED, bid)
    root = f'/tmp/plant/{slot}'; repo = root + '/repo'
    run('git checkout -q -- .', repo)
    env = {'DEMO_TARGET_DIR': root + '/demo-target'}
    r0 = run(f'bash {d}/demo.sh', repo, env)
    if r0.returncode != 0: return bid, 'BAD: demo fails unpatched: ' + (r0.stdout + r0.stderr)[-5000:]
    a = run(f'git apply {d}/patch.diff', repo)
    if a.returncode: return bid, 'BAD: patch does not apply ' + a.stderr
    try:
        r1 = run(f'bash {d}/demo.sh', repo, env)
        if r1.returncode == 0: return bid, 'BAD: demo passes patched'
        if 'could not compile' in r1.stderr and 'wrong*.rs' not in open(d + '/demo.sh').read(): return bid, 'BAD: does not compile ' + r1.stderr[-1500:]
        why = (r1.stdout + r1.stderr).strip().splitlines()[-4:]
        if tests:
            env2 = {'CARGO_NET_OFFLINE': 'true', 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_INCREMENTAL': '1', 'CARGO_PROFILE_DEV_OPT_LEVEL': '3', 'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only', 'CARGO_TARGET_DIR': root + '/target'}
            env3 = dict(env2)
            for c in ('cargo check --workspace --offline --quiet', 'cargo check --workspace --offline --no-default-features --quiet'):
                t = run(c, repo, env3)
                if t.returncode: return bid, 'BAD: check: ' + t.stderr[-1000:]
            t = run('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', repo, env2)
            if t.returncode: return bid, 'BAD: tests: ' + '\n'.join(l for l in (t.stdout+t.stderr).splitlines() if 'FAILED' in l or 'error' in l or 'panicked' in l)[:1500]
        return bid, 'ok: ' + ' | '.join(why)[:400]
    finally:
        run('git checkout -q -- .', repo)

def main():
    if sys.argv[1] == 'write':
        for s in sys.argv[2:]: write(s)
        return
    n = int(sys.argv[2]); ids = sys.argv[3:]
    tests = os.environ.get('TESTS', '1') == '1'
    import queue
    q = queue.Queue()
    for s in range(n):
        root = f'/tmp/plant/{s}'
        if not os.path.isdir(root + '/repo'):
            os.makedirs(root, exist_ok=True)
            subprocess.run(f'cp -a /repo {root}/repo && rm -rf {root}/repo/target', shell=True, check=True)
        subprocess.run(f'cd {root}/repo && git checkout -q -- . && git fetch -q /repo && git checkout -q FETCH_HEAD', shell=True)
        q.put(s)
    def job(b):
        s = q.get()
        try: return attempt(s, b, tests)
        finally: q.put(s)
    with ThreadPoolExecutor(n) as ex:
        for b, r in ex.map(job, ids): print(b, r, flush=True)
main()
