#!/usr/bin/env python3
"""Development tool: plants small textual mutations of /repo's sources one by one into scratch copies, and
runs the checks of the modules concerned against each.  Mutants which compile and which no check reports are
listed for study by hand.

usage: mutate.py SCRATCH WORKERS OUT.jsonl [FILE-SUBSTRING]
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
FILES = {
    'commit_verify/src/mpc/block.rs': ['block', 'enc', 'text', 'tree'],
    'commit_verify/src/mpc/tree.rs': ['tree', 'block', 'enc'],
    'commit_verify/src/mpc/atoms.rs': ['tree', 'block', 'text'],
    'commit_verify/src/digest.rs': ['commit', 'merkle'],
    'commit_verify/src/id.rs': ['commit', 'merkle', 'text'],
    'commit_verify/src/merkle.rs': ['merkle', 'commit', 'enc'],
    'commit_verify/src/embed.rs': ['schemes'],
    'commit_verify/src/convolve.rs': ['schemes'],
    'commit_verify/src/commit.rs': ['schemes'],
    'commit_verify/src/conceal.rs': ['commit'],
    'commit_verify/src/lib.rs': ['commit', 'text', 'enc'],
    'commit_verify/src/vesper.rs': ['commit'],
    'commit_verify/src/stl.rs': ['enc'],
    'commit_verify/derive/src/derive.rs': ['commit'],
    'commit_verify/derive/src/params.rs': ['commit'],
    'src/api.rs': ['api'],
    'single_use_seals/src/lib.rs': ['seals', 'text'],
}
OPS = [
    (r'<=', '<'), (r'>=', '>'), (r'(?<![<=\-&])<(?![<=A-Za-z])', '<='), (r'(?<=[\w)] )>(?= )', '>='), (r'(?<=[\w)] )<(?= )', '<='),
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|(?! \w+\))', '&&'),
    (r' \+ 1\b', ' + 0'), (r' \+ 1\b', ' + 2'), (r' - 1\b', ' - 0'), (r' \+ (?!1\b)', ' - '), (r' - (?!1\b)(?!>)', ' + '),
    (r' / 2\b', ' / 1'), (r' % ', ' / '), (r' \* ', ' + '), (r' >> ', ' << '), (r' << ', ' >> '),
    (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\bif !', 'if '), (r'\bif (?!let)', 'if !'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.rev\(\)', ''), (r'\.skip\(', '.take('),
    (r'\bu32::MAX\b', 'u16::MAX as u32'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().take(200)'), (r'\.values\(\)', '.values().skip(1)'),
    (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_empty\(\)', '.is_empty() == false'),
    (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'saturating_sub', 'wrapping_sub'),
    (r'\bOk\(\(\)\) => ', 'Err(_) => '), (r' as u32\b', ' as u16 as u32'), (r' as u8\b', ' as u8 & 0x7f'), (r'u32::from\(', 'u16::from('),
    (r'to_le_bytes', 'to_be_bytes'), (r'from_le_bytes', 'from_be_bytes'), (r'\bmap_err\(\|_\|', 'map_err(|_|'),
    (r'\bnode1\b', 'node2'), (r'\bnode2\b', 'node1'), (r'\bhash1\b', 'hash2'), (r'\bhash2\b', 'hash1'), (r'\bdepth1\b', 'depth2'), (r'\bdepth2\b', 'depth1'),
    (r'::ZERO\b', '::ONE'), (r'\bu5::ONE\b', 'u5::ZERO'), (r'0xFF\b', '0xFE'), (r'0x00\b', '0x01'), (r'\bNone => ', 'None if false => '),
    (r'\bcontinue;', ''), (r'\bbreak;', ''), (r'\bbreak\b', 'continue'), (r'\?;', '.ok();'), (r'\binto_iter\(\)', 'into_iter().skip(1)'),
    (r'\bErr\(([A-Za-z]+)::([A-Za-z]+)\)', None),
]

def mutants():
    for f in FILES:
        lines = open('/repo/' + f).read().split('\n')
        for n, l in enumerate(lines):
            t = l.strip()
            if t.startswith('#[cfg(test)]') or t.startswith('mod test'):
                if t.startswith('#[cfg(test)]') and not (n + 1 < len(lines) and lines[n + 1].strip().startswith(('mod', 'pub(crate) mod', 'pub mod'))):
                    continue
                break
            if t.startswith(('//', '#[', 'use ', 'pub use', '#!', 'debug_assert', 'return Err("', '.ok_or("', '.expect("')) or not t:
                continue
            seen = set()
            for pat, rep in OPS:
                if rep is None:
                    continue
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + rep + l[m.end():]
                    if new != l and new not in seen:
                        seen.add(new)
                        yield f, n, l, new
            # removed statement
            if t.endswith(';') and not t.startswith(('let ', 'return', 'const', 'pub const', 'type ', 'static', '}', ')', 'fn ', '.', 'use', 'pub type')) and t.count('(') == t.count(')'):
                yield f, n, l, re.match(r'\s*', l).group() + '/* removed */'
            # integer constants
            for m in re.finditer(r'(?<![\w.#\"x])(\d{1,6})(?![\w.\"])', l):
                v = int(m.group(1))
                new = l[:m.start()] + str(v + 1) + l[m.end():]
                if new not in seen:
                    seen.add(new)
                    yield f, n, l, new

def worker(i, scratch, jobs, out, lock):
    base = f'{scratch}/w{i}'
    if not os.path.exists(base):
        os.makedirs(base)
        subprocess.run(['cp', '-a', '/repo', f'{base}/repo'], check=True)
        shutil.rmtree(f'{base}/repo/target', ignore_errors=True)
        os.makedirs(f'{base}/verif')
        subprocess.run(['cp', '-a', f'{HERE}/known_findings.json', f'{base}/verif/'], check=True)
        subprocess.run(f"mkdir {base}/verif/harness && cd {HERE}/harness && cp -a Cargo.toml Cargo.lock src modules {base}/verif/harness/", shell=True, check=True)
        subprocess.run(f"grep -rl /repo {base}/verif/harness | xargs sed -i 's#\"/repo#\"{base}/repo#g'", shell=True, check=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CSV_VERIF=f'{base}/verif',
               VERIF_SEED='1', VERIF_TIER='quick', CSV_SCALE='0.35', TMPDIR=f'{base}')
    mods = [l.split() for l in open(f'{HERE}/harness/modules')]
    cpus = f'{2 * i},{2 * i + 1}'
    def run(cmd, timeout, cwd):
        try:
            p = subprocess.Popen(['taskset', '-c', cpus, 'nice', '-n', '19'] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait()
            return 'timeout', ''
    while True:
        try: k, (f, n, old, new) = jobs.get_nowait()
        except queue.Empty: return
        path = f'{base}/repo/{f}'
        orig = open('/repo/' + f).read()
        lines = orig.split('\n'); lines[n] = new
        open(path, 'w').write('\n'.join(lines))
        t0 = time.time()
        rec = dict(k=k, file=f, line=n + 1, old=old.strip(), new=new.strip())
        features = FILES[f]
        rc, o = run(['cargo', 'build', '-q', '-j2', '--offline', '--no-default-features', '--features', ','.join(features)], 600, f'{base}/verif/harness')
        if rc != 0:
            rec['result'] = 'no-compile' if rc != 'timeout' else 'build-timeout'
        else:
            rec['result'] = 'SURVIVED'; odd = []
            for m in features:
                for p in [p for p, mm in mods if mm == m]:
                    rc, o = run([f'{base}/verif/harness/target/debug/csvcheck', p], 400, base)
                    if rc == 1 and f'VIOLATION property={p} ' in o:
                        rec['result'] = 'caught'; rec['by'] = p; break
                    if rc != 0: odd.append((p, rc, o[-200:]))
                if rec['result'] == 'caught': break
            if odd: rec['odd'] = odd
        open(path, 'w').write(orig)
        rec['s'] = round(time.time() - t0)
        with lock:
            out.write(json.dumps(rec) + '\n'); out.flush()

def main():
    scratch, workers, outp = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    sub = sys.argv[4] if len(sys.argv) > 4 else ''
    done = set()
    if os.path.exists(outp):
        done = {(r['file'], r['line'], r['new']) for r in map(json.loads, open(outp))}
    ms = [m for m in mutants() if sub in m[0]]
    # A mutant of each line first
    random.Random(5).shuffle(ms)
    todo = [(k, m) for k, m in enumerate(ms) if (m[0], m[1] + 1, m[3].strip()) not in done]
    print(len(ms), 'mutants,', len(todo), 'to do')
    if scratch == '-': return
    jobs = queue.Queue()
    for t in todo: jobs.put(t)
    lock = threading.Lock()
    with open(outp, 'a') as out:
        ts = [threading.Thread(target=worker, args=(i, scratch, jobs, out, lock)) for i in range(workers)]
        [t.start() for t in ts]; [t.join() for t in ts]

main()
